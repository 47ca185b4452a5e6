//! Runs batches of generated grammars: generate, compile against the crate
//! under test, drive, monitor, account.
use crate::gen::*;
use crate::monitor::*;
use crate::rng::Rng;
use crate::spec::Spec;
use crate::subject::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctl {
    pub sub: Subject,
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub stop: AtomicBool,
}
impl Ctl {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn secs(&self) -> u64 {
        self.start.elapsed().as_secs()
    }
    pub fn budget(&self) -> Duration {
        let s = std::env::var("VH_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(600);
        Duration::from_secs(s)
    }
    /// quick value or thorough value
    pub fn q<T>(&self, a: T, b: T) -> T {
        if self.thorough() {
            b
        } else {
            a
        }
    }
    pub fn rng(&self, k: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x1_0000_01B3).wrapping_add(k).wrapping_add(hash(&self.prop)))
    }
}
pub fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    // fixed keys: the same value in every process
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub cat: String,
    pub msg: String,
    /// Compilable unit, or what was compiled.
    pub src: String,
    pub run: Option<Run>,
    pub input: String,
    pub log: Vec<u32>,
    pub size: usize,
}
#[derive(Default)]
pub struct Acc {
    pub stats: Stats,
    pub grammars: u64,
    pub runs: u64,
    pub nontrivial: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub states: u64,
    pub cells: u64,
    pub cells_hit: u64,
    pub rules: u64,
    pub rules_hit: u64,
    pub not_built: u64,
    pub tags: BTreeMap<String, u64>,
    pub extra: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub other: BTreeMap<String, u64>,
}
impl Acc {
    pub fn note(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn add(&mut self, o: Acc) {
        self.stats.add(&o.stats);
        self.grammars += o.grammars;
        self.runs += o.runs;
        self.nontrivial.extend(o.nontrivial);
        self.traces.extend(o.traces);
        self.states += o.states;
        self.cells += o.cells;
        self.cells_hit += o.cells_hit;
        self.rules += o.rules;
        self.rules_hit += o.rules_hit;
        self.not_built += o.not_built;
        for (k, v) in o.tags {
            *self.tags.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.extra {
            let e = self.extra.entry(k.clone()).or_insert(0);
            *e = if k.contains("max_") || k.contains("deepest") { (*e).max(v) } else { *e + v };
        }
        for (k, v) in o.other {
            *self.other.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.fails.extend(o.fails);
    }
    pub fn fail(&mut self, f: Fail) {
        self.fails.push(f);
    }
}
pub type GenF<'a> = dyn Fn(&mut Rng, usize) -> Vec<(Case, Vec<Run>)> + Sync + 'a;
pub type ExtraF<'a> = dyn Fn(&Case, &Run, &[u32], &mut Acc) -> Result<(), Bad> + Sync + 'a;

pub struct Work<'a> {
    pub gen: &'a GenF<'a>,
    /// Categories of disagreement that break the property; empty: all.
    pub cats: &'a [&'static str],
    pub extra: Option<&'a ExtraF<'a>>,
    /// A specification that does not build breaks the property.
    pub build_counts: bool,
    /// Skip the engine monitor and rely on `extra` alone.
    pub monitor: bool,
    pub opts: Opts,
    pub chunks: usize,
    /// In thorough mode: share of the time budget.
    pub share: f64,
    pub stream: u64,
}
impl<'a> Work<'a> {
    pub fn new(gen: &'a GenF<'a>, chunks: usize, stream: u64) -> Self {
        Work {
            gen,
            cats: &[],
            extra: None,
            build_counts: true,
            monitor: true,
            opts: Opts::default(),
            chunks,
            share: 1.0,
            stream,
        }
    }
}
fn relevant(cats: &[&'static str], c: &str) -> bool {
    cats.is_empty() || cats.contains(&c)
}
/// Run chunks until done (quick) or until the share of the budget is used (thorough).
pub fn campaign(ctl: &Ctl, w: &Work) -> Res<Acc> {
    chunked(ctl, w.chunks, w.share, &|k| chunk(ctl, w, k))
}
/// Run `f` on chunk numbers until done (quick) or out of budget (thorough).
pub fn chunked(ctl: &Ctl, chunks: usize, share: f64, f: &(dyn Fn(u64) -> Res<Acc> + Sync)) -> Res<Acc> {
    let t0 = Instant::now();
    let limit = ctl.budget().mul_f64(share);
    let acc = Mutex::new(Acc::default());
    let err: Mutex<Option<String>> = Mutex::new(None);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(2.0);
    let chunks = if ctl.thorough() { 1_000_000 } else { ((chunks as f64 * scale).ceil() as usize).max(1) };
    let idx: std::sync::atomic::AtomicUsize = Default::default();
    let stop = &ctl.stop;
    std::thread::scope(|s| {
        for _ in 0..ctl.sub.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let k = idx.fetch_add(1, Ordering::SeqCst);
                    if k >= chunks || stop.load(Ordering::SeqCst) || ctl.thorough() && t0.elapsed() > limit {
                        break;
                    }
                    match f(k as u64) {
                        Ok(a) => {
                            let mut g = acc.lock().unwrap();
                            g.add(a);
                            if g.fails.len() > 12 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Err(e) => {
                            *err.lock().unwrap() = Some(e);
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap();
        }
    });
    if let Some(e) = err.into_inner().unwrap() {
        return Err(e);
    }
    Ok(acc.into_inner().unwrap())
}
fn chunk(ctl: &Ctl, w: &Work, k: u64) -> Res<Acc> {
    let mut rng = ctl.rng(w.stream.wrapping_mul(1_000_003).wrapping_add(k));
    let mut acc = Acc::default();
    let cases = (w.gen)(&mut rng, w.opts.per);
    drive(ctl, w, &cases, &mut acc)?;
    Ok(acc)
}
pub fn unit_of(id: usize, c: &Case) -> Unit {
    Unit { id: id as u32, text: c.spec.module_text(id, &c.spec.macro_body()) }
}
pub fn drive(ctl: &Ctl, w: &Work, cases: &[(Case, Vec<Run>)], acc: &mut Acc) -> Res<()> {
    let units: Vec<Unit> = cases.iter().enumerate().map(|(i, c)| unit_of(i, &c.0)).collect();
    let (bins, errs) = ctl.sub.build_bins_seq(&units, &w.opts)?;
    for e in errs {
        let c = &cases[e.id as usize].0;
        if w.build_counts && c.clean() {
            acc.fail(Fail {
                cat: "build".into(),
                msg: format!("a conflict-free, well-formed specification does not build: {:?} {}", e.kind, e.msg),
                src: units[e.id as usize].text.clone(),
                run: None,
                input: String::new(),
                log: vec![],
                size: c.spec.rules.len() * 1000,
            });
        } else {
            acc.not_built += 1;
            acc.note(&format!("not built: {}", e.msg.lines().next().unwrap_or("").chars().take(60).collect::<String>()), 1);
        }
    }
    for b in &bins {
        let mut list: Vec<(u32, Run)> = vec![];
        for id in &b.ids {
            for r in &cases[*id as usize].1 {
                list.push((*id, r.clone()));
            }
        }
        let res = ctl.sub.run_bin(&b.path, &list, 60)?;
        let _ = std::fs::remove_file(&b.path);
        if let Some((i, hang, why)) = &res.stuck {
            let (id, r) = &list[*i];
            let c = &cases[*id as usize].0;
            let cat = if *hang { "hang" } else { "crash" };
            if relevant(w.cats, cat) {
                acc.fail(Fail {
                    cat: cat.into(),
                    msg: format!("driving the parser {}", why),
                    src: units[*id as usize].text.clone(),
                    run: Some(r.clone()),
                    input: r.text(&c.spec),
                    log: vec![],
                    size: c.spec.rules.len() * 1000 + r.ops.len(),
                });
            } else {
                *acc.other.entry(cat.into()).or_insert(0) += 1;
            }
        }
        for id in &b.ids {
            let c = &cases[*id as usize].0;
            acc.grammars += 1;
            *acc.tags.entry(c.tag.to_string()).or_insert(0) += 1;
            acc.states += c.l.states() as u64;
            let mon = Mon::new(&c.spec, &c.g, &c.l);
            let mut st = Stats::default();
            let gh = hash(&units[*id as usize].text);
            for (i, (gid, r)) in list.iter().enumerate() {
                if gid != id {
                    continue;
                }
                let Some(log) = &res.logs[i] else { continue };
                acc.runs += 1;
                let before = (st.actions, st.shifts);
                let mut verdict = if w.monitor { mon.check(r, &without_stk(log), &mut st) } else { Ok(()) };
                if let Err(b) = &verdict {
                    if !relevant(w.cats, b.cat) {
                        *acc.other.entry(b.cat.to_string()).or_insert(0) += 1;
                        verdict = Ok(());
                    }
                }
                if verdict.is_ok() {
                    if let Some(x) = w.extra {
                        verdict = x(c, r, log, acc);
                    }
                }
                if !w.monitor {
                    quick_stats(log, &mut st);
                }
                if st.actions > before.0 && st.shifts > before.1 && acc.nontrivial.insert(hash(&(gh, r))) && acc.samples.len() < 2 && r.ops.len() > 4 {
                    acc.samples.push(format!("{} || {} || {} events", c.spec.macro_body().split("%stack_size").last().unwrap_or("").replace('\n', " ").chars().take(700).collect::<String>(), r.text(&c.spec), events(log).len()));
                }
                acc.traces.insert(hash(&(gh, log)));
                if let Err(b) = verdict {
                    acc.fail(Fail {
                        cat: b.cat.into(),
                        msg: b.msg,
                        src: units[*id as usize].text.clone(),
                        run: Some(r.clone()),
                        input: r.text(&c.spec),
                        log: log.clone(),
                        size: c.spec.rules.len() * 1000 + r.ops.len(),
                    });
                    if acc.fails.len() > 200 {
                        break;
                    }
                }
            }
            acc.cells += (c.l.states() * c.g.nt) as u64;
            acc.cells_hit += st.cells.len() as u64;
            acc.rules += c.spec.rules.len() as u64;
            let seen: BTreeSet<u32> = list
                .iter()
                .enumerate()
                .filter(|(_, l)| l.0 == *id)
                .filter_map(|(i, _)| res.logs[i].as_ref())
                .flat_map(|l| events(l).into_iter().filter(|e| e.code == k::RED).map(|e| e.b[0]).collect::<Vec<_>>())
                .collect();
            acc.rules_hit += seen.len() as u64;
            acc.stats.add(&st);
        }
    }
    Ok(())
}
pub fn quick_stats(log: &[u32], st: &mut Stats) {
    for e in events(log) {
        st.events += 1;
        match e.code {
            k::CALL => st.calls += 1,
            k::RED => st.actions += 1,
            k::SYN => st.handler_runs += 1,
            k::RETOK => st.shifts += 1,
            k::RESULT => st.results += 1,
            k::RETERR => st.errors += 1,
            _ => {}
        }
    }
}
pub fn show_log(log: &[u32]) -> String {
    let mut s = String::new();
    for e in events(log) {
        let n = match e.code {
            k::CALL => "call",
            k::TOK => "  token built",
            k::RED => "  action",
            k::SYN => "  syntax_error",
            k::PFAIL => "  parse_fail",
            k::OVF => "  stack_overflow",
            k::RETOK => "  -> Ok",
            k::RETERR => "  -> Err",
            k::RESULT => "  -> result",
            k::PANIC => "  PANIC",
            k::DROPV => "  drop",
            k::EXTRA => "  extra",
            k::DEFERR => "  default error",
            k::END => "end, alive",
            k::CAP => "  EVENT CAP",
            k::STK => "  stack",
            k::ALLOC => "  ALLOCATIONS",
            _ => "?",
        };
        s += &format!("{} {:?}\n", n, e.b);
        if s.len() > 60_000 {
            s += "...\n";
            break;
        }
    }
    s
}

/// Several compilations that are judged together.
pub struct GUnit {
    /// `@ID@` stands for the number of the unit.
    pub text: String,
    pub runs: Vec<Run>,
}
pub type JudgeF = dyn Fn(&[Vec<Option<Vec<u32>>>], &mut Acc) -> Result<(), (usize, usize, Bad)> + Send + Sync;
pub struct Group {
    pub units: Vec<GUnit>,
    pub tag: &'static str,
    /// May a unit fail to build? (index, message) -> breaks the property
    pub build_fails: bool,
    pub names: Spec,
    pub judge: Box<JudgeF>,
}
pub fn text_of(s: &Spec, body: &str) -> String {
    s.module_text(987654321, body).replace("g987654321", "g@ID@")
}
pub struct GWork<'a> {
    pub gen: &'a (dyn Fn(&mut Rng) -> Group + Sync),
    pub per: usize,
    pub chunks: usize,
    pub opts: Opts,
    pub share: f64,
    pub stream: u64,
}
pub fn group_campaign(ctl: &Ctl, w: &GWork) -> Res<Acc> {
    let f = |k: u64| -> Res<Acc> {
        let mut rng = ctl.rng(w.stream.wrapping_mul(1_000_003).wrapping_add(k).wrapping_add(77));
        let mut acc = Acc::default();
        let gs: Vec<Group> = (0..w.per).map(|_| (w.gen)(&mut rng)).collect();
        drive_groups(ctl, &w.opts, &gs, &mut acc)?;
        Ok(acc)
    };
    chunked(ctl, w.chunks, w.share, &f)
}
pub fn drive_groups(ctl: &Ctl, opts: &Opts, gs: &[Group], acc: &mut Acc) -> Res<()> {
    let mut units = vec![];
    let mut at: Vec<(usize, usize)> = vec![];
    for (gi, g) in gs.iter().enumerate() {
        for (ui, u) in g.units.iter().enumerate() {
            let id = units.len();
            units.push(Unit { id: id as u32, text: u.text.replace("@ID@", &id.to_string()).replace("@PREV@", &id.wrapping_sub(1).to_string()) });
            at.push((gi, ui));
        }
    }
    let (bins, errs) = ctl.sub.build_bins_seq(&units, opts)?;
    let mut logs: Vec<Vec<Vec<Option<Vec<u32>>>>> = gs.iter().map(|g| g.units.iter().map(|u| vec![None; u.runs.len()]).collect()).collect();
    let mut lost: BTreeSet<usize> = BTreeSet::new();
    for e in errs {
        let (gi, ui) = at[e.id as usize];
        lost.insert(gi);
        if gs[gi].build_fails {
            acc.fail(Fail {
                cat: "build".into(),
                msg: format!("member {} of the group does not build: {:?} {}", ui, e.kind, e.msg),
                src: units[e.id as usize].text.clone(),
                run: None,
                input: String::new(),
                log: vec![],
                size: gs[gi].names.rules.len() * 1000,
            });
        } else {
            acc.not_built += 1;
        }
    }
    for b in &bins {
        let mut list: Vec<(u32, Run)> = vec![];
        let mut pos = vec![];
        for id in &b.ids {
            let (gi, ui) = at[*id as usize];
            for (ri, r) in gs[gi].units[ui].runs.iter().enumerate() {
                list.push((*id, r.clone()));
                pos.push((gi, ui, ri));
            }
        }
        let res = ctl.sub.run_bin(&b.path, &list, 60)?;
        let _ = std::fs::remove_file(&b.path);
        if let Some((i, hang, why)) = &res.stuck {
            let (gi, _, _) = pos[*i];
            acc.fail(Fail {
                cat: if *hang { "hang" } else { "crash" }.into(),
                msg: format!("driving the parser {}", why),
                src: units[list[*i].0 as usize].text.clone(),
                run: Some(list[*i].1.clone()),
                input: list[*i].1.text(&gs[gi].names),
                log: vec![],
                size: 0,
            });
        }
        for (i, l) in res.logs.into_iter().enumerate() {
            let (gi, ui, ri) = pos[i];
            if l.is_none() {
                lost.insert(gi);
            }
            logs[gi][ui][ri] = l;
        }
    }
    for (gi, g) in gs.iter().enumerate() {
        if lost.contains(&gi) {
            continue;
        }
        *acc.tags.entry(g.tag.to_string()).or_insert(0) += 1;
        acc.note("groups_judged", 1);
        acc.grammars += g.units.len() as u64;
        for (ui, u) in g.units.iter().enumerate() {
            let gh = hash(&u.text);
            for (ri, r) in u.runs.iter().enumerate() {
                acc.runs += 1;
                let l = logs[gi][ui][ri].as_ref().unwrap();
                let mut st = Stats::default();
                quick_stats(l, &mut st);
                if st.actions > 0 && st.shifts > 0 && acc.nontrivial.insert(hash(&(gh, r))) && acc.samples.len() < 2 && r.ops.len() > 4 {
                    acc.samples.push(format!(
                        "{} || {} || {} events",
                        g.names.macro_body().split("%stack_size").last().unwrap_or("").replace('\n', " ").chars().take(700).collect::<String>(),
                        r.text(&g.names),
                        st.events
                    ));
                }
                acc.stats.add(&st);
                acc.traces.insert(hash(&(gh, l)));
            }
        }
        if let Err((ui, ri, b)) = (g.judge)(&logs[gi], acc) {
            let mut src = String::new();
            for (k, u) in g.units.iter().enumerate() {
                if k == ui || k == 0 {
                    src = format!("{}\n{}", u.text.replace("@ID@", &k.to_string()), src);
                }
            }
            let r = g.units[ui].runs.get(ri).cloned();
            let mut log = logs[gi][ui].get(ri).cloned().flatten().unwrap_or_default();
            log.truncate(20_000);
            acc.fail(Fail {
                cat: b.cat.into(),
                msg: format!("member {} of the group: {}", ui, b.msg),
                src,
                input: r.as_ref().map_or(String::new(), |r| r.text(&g.names)),
                run: r,
                log,
                size: g.names.rules.len() * 1000,
            });
        }
    }
    Ok(())
}

/// The log without the events of an instrumented stack or allocator.
pub fn without_stk(log: &[u32]) -> std::borrow::Cow<'_, [u32]> {
    let mut p = 0;
    let mut any = false;
    while p < log.len() {
        any |= matches!(log[p + 1], k::STK | k::ALLOC);
        p += 1 + log[p] as usize;
    }
    if !any {
        return log.into();
    }
    let mut v = vec![];
    p = 0;
    while p < log.len() {
        let n = 1 + log[p] as usize;
        if !matches!(log[p + 1], k::STK | k::ALLOC) {
            v.extend_from_slice(&log[p..p + n]);
        }
        p += n;
    }
    v.into()
}
