//! C19: independence of instances, across threads, and absence of data races.
use crate::campaign::*;
use crate::gen::*;
use crate::miri::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::p_group::outcome;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::subject::*;

fn stats(acc: &mut Acc, out: &str, pre: &str) {
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("STAT ") {
            if let Some((n, what)) = r.split_once(' ') {
                let n: u64 = n.parse().unwrap_or(0);
                if what == "deepest nesting" {
                    let e = acc.extra.entry(format!("{}{}", pre, what)).or_insert(0);
                    *e = (*e).max(n);
                } else {
                    acc.note(&format!("{}{}", pre, what), n);
                }
            }
        }
    }
}
fn mismatch(acc: &mut Acc, out: &str, bad: &[u32], cases: &[(Case, Vec<Run>)], units: &[Unit], list: &[(u32, Run)], logs: &[Vec<u32>], how: &str) {
    let Some(l) = out.lines().find(|l| l.starts_with("MISMATCH ")) else { return };
    let f: Vec<&str> = l.split(' ').collect();
    let i: usize = f[1].parse().unwrap();
    let (id, r) = &list[i];
    let c = &cases[*id as usize].0;
    let got: Vec<u32> = if bad.len() > 2 { bad[2..].to_vec() } else { vec![] };
    let (x, y) = (events(&logs[i]), events(&got));
    let k = (0..x.len().min(y.len())).find(|k| x[*k].code != y[*k].code || x[*k].b != y[*k].b).unwrap_or(x.len().min(y.len()));
    let sh = |v: &Vec<Ev>| v.get(k).map_or("nothing".to_string(), |e| format!("{} {:?}", e.code, e.b));
    acc.fail(Fail {
        cat: "independence".into(),
        msg: format!(
            "{}: among other instances (scheduler `{}`) the parser does not behave as alone: observation {} is {}, alone it is {}",
            how, f[2], k, sh(&y), sh(&x)
        ),
        src: units[*id as usize].text.clone(),
        run: Some(r.clone()),
        input: r.text(&c.spec),
        log: got,
        size: c.spec.rules.len() * 1000 + r.ops.len(),
    });
}
struct Batch {
    cases: Vec<(Case, Vec<Run>)>,
    units: Vec<Unit>,
    list: Vec<(u32, Run)>,
    logs: Vec<Vec<u32>>,
}
/// Build, run every plan alone and check it against the reference, then run them mixed.
fn batch(ctl: &Ctl, cases: Vec<(Case, Vec<Run>)>, seed: u64, rounds: usize, acc: &mut Acc) -> Res<Option<Batch>> {
    let units: Vec<Unit> = cases.iter().enumerate().map(|(i, c)| unit_of(i, &c.0)).collect();
    let (bins, errs) = ctl.sub.build_bins_seq(&units, &Opts { per: units.len(), ..Opts::default() })?;
    acc.not_built += errs.len() as u64;
    for e in &errs {
        if e.msg.contains("Send") || e.msg.contains("cannot be shared") || e.msg.contains("between threads") {
            acc.fail(Fail {
                cat: "send".into(),
                msg: format!("the parser cannot be moved to another thread although its tokens and results can: {}", e.msg),
                src: units[e.id as usize].text.clone(),
                run: None,
                input: String::new(),
                log: vec![],
                size: 0,
            });
        }
    }
    let Some(b) = bins.into_iter().next() else { return Ok(None) };
    let mut list: Vec<(u32, Run)> = vec![];
    for id in &b.ids {
        for r in &cases[*id as usize].1 {
            list.push((*id, r.clone()));
        }
    }
    let res = ctl.sub.run_bin(&b.path, &list, 60)?;
    if res.stuck.is_some() {
        // other properties judge single runs
        *acc.other.entry("crash or hang of a parser on its own".into()).or_insert(0) += 1;
        return Ok(None);
    }
    let logs: Vec<Vec<u32>> = res.logs.into_iter().map(|l| l.unwrap()).collect();
    for id in &b.ids {
        let c = &cases[*id as usize].0;
        acc.grammars += 1;
        *acc.tags.entry(c.tag.to_string()).or_insert(0) += 1;
        acc.states += c.l.states() as u64;
        let mon = Mon::new(&c.spec, &c.g, &c.l);
        let gh = hash(&units[*id as usize].text);
        for (i, (g, r)) in list.iter().enumerate() {
            if g != id {
                continue;
            }
            let mut st = Stats::default();
            if let Err(b) = mon.check(r, &without_stk(&logs[i]), &mut st) {
                *acc.other.entry(b.cat.to_string()).or_insert(0) += 1;
            }
            acc.runs += 1;
            if st.actions > 0 && st.shifts > 0 && acc.nontrivial.insert(hash(&(gh, r))) && acc.samples.len() < 2 && r.ops.len() > 4 {
                acc.samples.push(format!("{} || {}", c.spec.macro_body().split("%stack_size").last().unwrap_or("").replace('\n', " ").chars().take(500).collect::<String>(), r.text(&c.spec)));
            }
            acc.traces.insert(hash(&(gh, &logs[i])));
            acc.stats.add(&st);
        }
    }
    let (i, l) = plan_files(ctl, &format!("mix{}", ctl.sub.compiled.fetch_add(1, std::sync::atomic::Ordering::SeqCst)), &list, &logs)?;
    let a = vec![b.path.display().to_string(), i.clone(), l.clone(), "-".into(), seed.to_string(), rounds.to_string(), "24".into()];
    let out = run_limited(&a, 60, 12, Some(&ctl.sub.work))?;
    let bad = read_words(&format!("{}.bad", l));
    stats(acc, &out.stdout, "");
    mismatch(acc, &out.stdout, &bad, &cases, &units, &list, &logs, "native threads");
    if !out.ok || !out.stdout.contains("DONE") {
        if out.stderr.contains("failed to spawn") || out.stderr.contains("Resource temporarily") {
            return Err(format!("resources: {}", tail(&out.stderr, 400)));
        }
        acc.fail(Fail {
            cat: if out.cpu_killed() { "hang" } else { "crash" }.into(),
            msg: format!("many instances at once: the program does not end normally although every plan does alone: signal {:?} code {:?} {}", out.signal, out.code, tail(&out.stderr, 600)),
            src: units.iter().map(|u| u.text.clone()).collect::<Vec<_>>().join("\n"),
            run: None,
            input: String::new(),
            log: vec![],
            size: 1 << 30,
        });
    }
    for f in [i, l.clone(), format!("{}.bad", l)] {
        let _ = std::fs::remove_file(f);
    }
    let _ = std::fs::remove_file(&b.path);
    let keep: Vec<u32> = b.ids.clone();
    let _ = keep;
    Ok(Some(Batch { cases, units, list, logs }))
}
fn read_words(p: &str) -> Vec<u32> {
    let b = std::fs::read(p).unwrap_or_default();
    b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
/// The mixed driver under Miri, one process per schedule.
pub fn under_miri(ctl: &Ctl, cfg: &Cfg, mix: &Mix, grammars: usize, per: usize, seeds: usize, stream: u64) -> Res<Acc> {
    let mut acc = Acc::default();
    let m = match prepare(ctl) {
        Ok(m) => m,
        Err(e) => {
            acc.note(&format!("Miri is not available: {}", e.chars().take(200).collect::<String>()), 1);
            return Ok(acc);
        }
    };
    let mut rng = ctl.rng(stream);
    // small, conflict-free and buildable
    let mut cases = vec![];
    let mut tries = 0;
    while cases.len() < grammars && tries < 4000 {
        tries += 1;
        let c = spec(&mut rng, cfg);
        if !c.clean() || c.l.states() > 60 || c.spec.rules.len() < 3 {
            continue;
        }
        let mut rs = runs(&mut rng, &c, mix);
        rs.retain(|r| r.ops.len() <= 24);
        rng.shuffle(&mut rs);
        rs.truncate(per);
        if rs.is_empty() {
            continue;
        }
        cases.push((c, rs));
    }
    let mut tmp = Acc::default();
    let Some(b) = batch(ctl, cases, 1, 1, &mut tmp)? else {
        acc.note("Miri: the specifications do not build", 1);
        return Ok(acc);
    };
    acc.add(tmp);
    let ids: Vec<u32> = b.list.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let us: Vec<Unit> = b.units.iter().filter(|u| ids.contains(&u.id)).cloned().collect();
    m.project(&us, "", &mixed_main(&ids))?;
    let (i, l) = plan_files(ctl, "miri", &b.list, &b.logs)?;
    let one = |k: usize| -> Res<Acc> {
        let mut acc = Acc::default();
        // every schedule has its own copy of the reference logs (and of the report)
        let lk = format!("{}{}", l, k);
        std::fs::copy(&l, &lk).map_err(|e| e.to_string())?;
        let a = vec![i.clone(), lk.clone(), "-".into(), (ctl.seed * 1000 + k as u64).to_string(), "1".into(), "8".into()];
        let fl = format!("-Zmiri-seed={} -Zmiri-preemption-rate={}", ctl.seed * 100 + k as u64, ["0.01", "0.05", "0.2"][k % 3]);
        match m.run(&a, &fl, 400)? {
            Seen::Clean(o) => {
                acc.note("Miri executions without undefined behaviour, race or leak", 1);
                stats(&mut acc, &o, "Miri: ");
                mismatch(&mut acc, &o, &read_words(&format!("{}.bad", lk)), &b.cases, &b.units, &b.list, &b.logs, "under Miri");
            }
            Seen::Ub(e) => acc.fail(Fail {
                cat: "race or undefined behaviour".into(),
                msg: e,
                src: us.iter().map(|u| u.text.clone()).collect::<Vec<_>>().join("\n"),
                run: None,
                input: format!("mixed driver under Miri, {}", fl),
                log: vec![],
                size: 0,
            }),
            Seen::Unknown(e) => acc.note(&format!("Miri executions not decided: {}", e.replace('\n', " ").chars().take(300).collect::<String>()), 1),
        }
        Ok(acc)
    };
    // the first builds, the others reuse it
    acc.add(one(0)?);
    let ks: Vec<usize> = (1..seeds).collect();
    for r in par_map(ctl.sub.threads, &ks, |k| one(*k)) {
        acc.add(r?);
    }
    Ok(acc)
}
pub fn c19(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 5, ..Cfg::mixed() };
    let mix = Mix { tolerate: 60, fail: 15, cut: 12, access: 15, ..Mix::plain(14) };
    let miri = std::thread::scope(|s| -> Res<Acc> {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            let mix = Mix { derived: 3, edited: 3, walks: 2, cells: 2, len: 10, tolerate: 60, fail: 15, cut: 12, access: 15, droplog: true, ..Mix::plain(0) };
            under_miri(ctl, &cfg, &mix, ctl.q(5, 24), ctl.q(5, 8), ctl.q(6, 64), 0x19)
        });
        let f = |k: u64| -> Res<Acc> {
            let mut rng = ctl.rng(k.wrapping_add(1_000_003));
            let mut acc = Acc::default();
            let n = rng.range(2, 14);
            let mut cases = gen_cases(&mut rng, n, &cfg, &mix);
            for (c, _) in cases.iter_mut() {
                if rng.pct(15) {
                    c.spec.stack = Some((rng.range(3, 9), None));
                }
            }
            batch(ctl, cases, k, 6, &mut acc)?;
            Ok(acc)
        };
        let mut acc = chunked(ctl, 56, 0.8, &f)?;
        acc.add(h.unwrap().join().map_err(|_| "the Miri driver panicked".to_string())??);
        Ok(acc)
    })?;
    Ok(outcome(miri, "Batches of random specifications in one program; every plan is run alone first (judged by the reference machine) and then among 2 to 24 other instances under four schedulers: random interleaving on one thread, a pool of threads that moves instances between threads and in memory in mid-parse, threads started together, and steps made inside the actions and handlers of other instances. The logs have to be identical. The same driver runs under Miri with several schedules (data races, undefined behaviour, leaks)."))
}
#[allow(dead_code)]
fn unused(_: Rng) {}
