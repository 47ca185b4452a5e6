#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property (or all checks: --all) on a scratch copy of /repo with the
bug applied; prints and stores the table of DESIGN.md. usage: seed_table.py SCRATCH [--all] [id...]"""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != '--all']
scratch, ids = args[0], args[1:]
every = '--all' in sys.argv
sd = os.path.join(V, 'seeded')
ids = ids or sorted(os.listdir(sd))
props = ['C%02d' % i for i in range(1, 25)]
store = os.path.join(scratch, 'table.json')
os.makedirs(scratch, exist_ok=True)
T = json.load(open(store)) if os.path.exists(store) else {}
vd = os.path.join(scratch, 'vd'); os.makedirs(vd, exist_ok=True)
for x in ('harness', 'subject', 'known-findings.txt', 'properties.jsonl', 'tools'):
    d = os.path.join(vd, x)
    if os.path.isdir(d): shutil.rmtree(d)
    s = os.path.join(V, x)
    shutil.copytree(s, d) if os.path.isdir(s) else shutil.copy(s, d)
exe = os.path.join(scratch, 'vh'); shutil.copy(os.path.join(V, '.build/debug/vh'), exe)
for i in ids:
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    r = os.path.join(scratch, 'r_' + i)
    if os.path.exists(r): shutil.rmtree(r)
    os.makedirs(r)
    subprocess.run('cd /repo && git archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s/; cd %s && patch -s -p1 < %s/%s/patch.diff' % (r, r, r, sd, i), shell=True, check=True)
    for p in (props if every else [m['property']]):
        env = dict(os.environ, VERIF_SEED='1', VERIF_REPO=r, VERIF_DIR=vd, VH_WORK=os.path.join(scratch, 'wk'))
        q = subprocess.run([exe, p, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msg = next((l for l in q.stdout.splitlines() if re.match(p + r': \[', l)), '')
        T.setdefault(i, {'property': m['property']})[p] = [q.returncode, msg[:200]]
        print(i, p, q.returncode, msg[:150], flush=True)
        json.dump(T, open(store, 'w'), indent=1)
    shutil.rmtree(r)
