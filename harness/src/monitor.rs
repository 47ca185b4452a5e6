//! The online checker of the engine: it follows the recorded events of one
//! run with the set of reference machine configurations that can explain
//! them. Reductions nobody observes (rules without code, optional symbols) and
//! reductions an implementation may do by default on a token that is an error
//! anyway are the only choices.
use crate::gram::*;
use crate::spec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub mod k {
    pub const CALL: u32 = 1;
    pub const TOK: u32 = 2;
    pub const RED: u32 = 3;
    pub const SYN: u32 = 4;
    pub const PFAIL: u32 = 5;
    pub const OVF: u32 = 6;
    pub const RETOK: u32 = 7;
    pub const RETERR: u32 = 8;
    pub const RESULT: u32 = 9;
    pub const PANIC: u32 = 10;
    pub const DROPV: u32 = 11;
    pub const EXTRA: u32 = 12;
    pub const DEFERR: u32 = 13;
    pub const END: u32 = 14;
    pub const CAP: u32 = 15;
    pub const STK: u32 = 16;
    pub const FORK: u32 = 18;
    pub const ALLOC: u32 = 17;
}
pub const OP_EOI: u32 = 0xFFFF_0000;
pub const OP_DROP: u32 = 0xFFFF_0001;
pub const OP_BUMP: u32 = 0xFFFF_0002;
pub const OP_READ: u32 = 0xFFFF_0003;
pub const OP_INTO: u32 = 0xFFFF_0004;
pub const F_DROPLOG: u32 = 1;
pub const F_ALLOC: u32 = 4;
pub const F_AGAIN: u32 = 2;
/// Clone the parser at random points.
pub const F_FORK: u32 = 8;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Run {
    pub flags: u32,
    pub syn: Vec<u32>,
    pub fail: Vec<u32>,
    pub ops: Vec<u32>,
}
impl Run {
    pub fn tokens(t: &[usize]) -> Run {
        Run { ops: t.iter().map(|x| *x as u32 - 1).collect(), ..Run::default() }.eoi()
    }
    pub fn eoi(mut self) -> Run {
        self.ops.push(OP_EOI);
        self
    }
    pub fn text(&self, s: &Spec) -> String {
        let o: Vec<String> = self
            .ops
            .iter()
            .map(|o| match *o {
                OP_EOI => "<eoi>".into(),
                OP_DROP => "<drop>".into(),
                OP_BUMP => "<extra_mut>".into(),
                OP_READ => "<extra>".into(),
                OP_INTO => "<into_extra>".into(),
                t => s.terms.get(t as usize).map_or("?".into(), |x| x.name.clone()),
            })
            .collect();
        format!(
            "{} [handler decisions {:?}, failing actions {:?}]",
            o.join(" "),
            self.syn,
            self.fail
        )
    }
}
#[derive(Clone, Debug)]
pub struct Ev<'a> {
    pub code: u32,
    pub b: &'a [u32],
}
pub fn events(log: &[u32]) -> Vec<Ev<'_>> {
    let mut v = vec![];
    let mut p = 0;
    while p < log.len() {
        let n = log[p] as usize;
        v.push(Ev { code: log[p + 1], b: &log[p + 2..p + 1 + n] });
        p += 1 + n;
    }
    v
}
#[derive(Clone, Debug)]
pub struct Bad {
    pub cat: &'static str,
    pub msg: String,
}
fn bad<T>(cat: &'static str, msg: String) -> Result<T, Bad> {
    Err(Bad { cat, msg })
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub events: u64,
    pub calls: u64,
    pub shifts: u64,
    pub actions: u64,
    pub handler_runs: u64,
    pub parse_fails: u64,
    pub overflows: u64,
    pub action_failures: u64,
    pub dropped_tokens: u64,
    pub work: u64,
    pub unclear: u64,
    pub forks: u64,
    pub fork_steps: u64,
    pub recoveries: u64,
    pub discarded: u64,
    pub results: u64,
    pub errors: u64,
    pub fallbacks: u64,
    pub wildcards: u64,
    pub optionals: u64,
    pub prec_cells: u64,
    pub nonassoc: u64,
    pub refused_calls: u64,
    pub extra_reads: u64,
    pub drops: u64,
    pub expected_tokens: u64,
    pub max_depth: usize,
    pub ambiguous: u64,
    /// (state, terminal) cells driven.
    pub cells: BTreeSet<(usize, usize)>,
    pub rules: BTreeSet<usize>,
    pub f2: u64,
}
impl Stats {
    pub fn counts(&self) -> BTreeMap<&'static str, u64> {
        let mut m = BTreeMap::new();
        let mut p = |k, v: u64| {
            m.insert(k, v);
        };
        p("events", self.events);
        p("calls", self.calls);
        p("tokens_shifted", self.shifts);
        p("actions_run", self.actions);
        p("syntax_error_handler_runs", self.handler_runs);
        p("parse_fail_handler_runs", self.parse_fails);
        p("stack_overflow_handler_runs", self.overflows);
        p("failed_actions", self.action_failures);
        p("tokens_dropped_silently", self.dropped_tokens);
        p("runs_with_too_many_explanations_to_follow", self.unclear);
        p("clones_made", self.forks);
        p("steps_of_clones_compared", self.fork_steps);
        p("error_symbols_shifted", self.recoveries);
        p("entries_discarded_in_recovery", self.discarded);
        p("successful_parses", self.results);
        p("failed_calls", self.errors);
        p("tokens_taken_as_fallback", self.fallbacks);
        p("tokens_taken_as_wildcard", self.wildcards);
        p("optional_symbols_seen", self.optionals);
        p("precedence_decided_steps", self.prec_cells);
        p("nonassociative_errors", self.nonassoc);
        p("calls_refused_after_failure", self.refused_calls);
        p("extra_argument_reads", self.extra_reads);
        p("value_drops_seen", self.drops);
        p("expected_tokens_listed", self.expected_tokens);
        p("steps_with_several_explanations", self.ambiguous);
        p("max_stack_depth", self.max_depth as u64);
        p("handler_reruns_within_three_tokens", self.f2);
        m
    }
    pub fn add(&mut self, o: &Stats) {
        self.events += o.events;
        self.calls += o.calls;
        self.shifts += o.shifts;
        self.actions += o.actions;
        self.handler_runs += o.handler_runs;
        self.parse_fails += o.parse_fails;
        self.overflows += o.overflows;
        self.action_failures += o.action_failures;
        self.dropped_tokens += o.dropped_tokens;
        self.unclear += o.unclear;
        self.forks += o.forks;
        self.fork_steps += o.fork_steps;
        self.recoveries += o.recoveries;
        self.discarded += o.discarded;
        self.results += o.results;
        self.errors += o.errors;
        self.fallbacks += o.fallbacks;
        self.wildcards += o.wildcards;
        self.optionals += o.optionals;
        self.prec_cells += o.prec_cells;
        self.nonassoc += o.nonassoc;
        self.refused_calls += o.refused_calls;
        self.extra_reads += o.extra_reads;
        self.drops += o.drops;
        self.expected_tokens += o.expected_tokens;
        self.ambiguous += o.ambiguous;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.f2 += o.f2;
    }
}
#[derive(Clone, PartialEq, Debug)]
enum Sy {
    Init,
    T,
    N(usize),
}
type Val = Rc<Vec<u32>>;
#[derive(Clone, PartialEq, Debug)]
struct Ent {
    st: usize,
    sy: Sy,
    val: Val,
}
#[derive(Clone, PartialEq, Debug)]
enum Ph {
    Run,
    /// The call must return Ok.
    Ok,
    /// The call must return this error.
    Err(u32),
    /// A stack overflow must be reported now; the token, if one was being accepted.
    Ovf(bool),
    /// The syntax error handler must run now (no error symbol).
    Syn(Vec<usize>),
    /// The handler must run now and its value is shifted as the error symbol.
    SynErr(Vec<usize>, usize),
    PFail,
    Accept(Val),
}
#[derive(Clone, PartialEq, Debug)]
struct Sh {
    st: Vec<Ent>,
    ec: u8,
    ph: Ph,
}
pub struct Mon<'a> {
    pub spec: &'a Spec,
    pub g: &'a Gram,
    pub l: &'a Lalr,
    unit: Val,
    none: Val,
    limit: usize,
}
enum Src {
    Tok(usize, Val),
    Eoi,
}
impl<'a> Mon<'a> {
    pub fn new(spec: &'a Spec, g: &'a Gram, l: &'a Lalr) -> Mon<'a> {
        let limit = match &spec.stack {
            None => 100,
            Some((n, _)) => *n,
        };
        Mon { spec, g, l, unit: Rc::new(vec![0]), none: Rc::new(vec![1]), limit }
    }
    fn observed(&self, r: usize) -> bool {
        match self.g.rules[r].orig {
            Orig::Rule(i) => self.spec.rules[i].act != Act::Empty,
            _ => false,
        }
    }
    fn full(&self, s: &Sh) -> bool {
        self.limit != 0 && s.st.len() >= self.limit
    }
    fn rule_name(&self, r: usize) -> String {
        match self.g.rules[r].orig {
            Orig::Rule(i) => format!("#{} `{}`", i, self.spec.rule_head(&self.spec.rules[i])),
            _ => format!("optional rule {}", r),
        }
    }
    fn tname(&self, t: usize) -> String {
        if t == 0 {
            "<eoi>".into()
        } else {
            self.spec.terms[t - 1].name.clone()
        }
    }
    /// Pop the right-hand side and push (or accept) with the given value.
    fn reduce(&self, s: &mut Sh, r: usize, val: Option<Val>, stats: &mut Stats) -> Result<(), Bad> {
        let gr = &self.g.rules[r];
        let n = gr.rhs.len();
        if s.st.len() <= n {
            return bad("reduce", "reference stack too short".into());
        }
        let ch: Vec<Ent> = s.st.split_off(s.st.len() - n);
        let val = match val {
            Some(v) => v,
            None => match &gr.orig {
                Orig::OptNone => self.none.clone(),
                Orig::OptSome => {
                    stats.optionals += 1;
                    let plain = match &gr.rhs[0] {
                        S::T(t) => self.spec.same_ty(&[*t - 1]),
                        S::M(k) => self.spec.same_ty(&self.g.sets[*k].iter().map(|t| t - 1).collect::<Vec<_>>()),
                        S::N(_) => true,
                    };
                    let mut w = vec![2];
                    let v = self.conv(&ch[0].val, &gr.rhs[0]);
                    w.extend(v.iter());
                    if plain {
                        Rc::new(w)
                    } else {
                        self.unit.clone()
                    }
                }
                Orig::Rule(i) => {
                    let sr = &self.spec.rules[*i];
                    if self.spec.nty(sr.lhs) == Ty::Unit {
                        self.unit.clone()
                    } else {
                        let j = (0..n).find(|j| self.spec.item_ty(&sr.rhs[*j]).is_some()).expect("auto rule");
                        ch[j].val.clone()
                    }
                }
            },
        };
        if gr.lhs == self.g.start {
            s.ph = Ph::Accept(val);
            return Ok(());
        }
        let top = s.st.last().unwrap().st;
        let to = self.l.goto[top][gr.lhs].expect("goto");
        if self.full(s) {
            s.ph = Ph::Ovf(false);
            return Ok(());
        }
        s.st.push(Ent { st: to, sy: Sy::N(gr.lhs), val });
        stats.max_depth = stats.max_depth.max(s.st.len());
        Ok(())
    }
    /// Value of a symbol as its alias sees it: untyped symbols give `()` whatever was supplied.
    fn conv(&self, v: &Val, s: &S) -> Val {
        let ty = match s {
            S::T(t) => self.spec.term_ty_text(*t - 1),
            S::M(k) => self.spec.term_ty_text(self.g.sets[*k][0] - 1),
            S::N(_) => return v.clone(),
        };
        if ty.is_none() {
            self.unit.clone()
        } else {
            v.clone()
        }
    }
    /// Follow everything that happens without an observation.
    fn closure(&self, c: Sh, src: &Src, out: &mut Vec<Sh>, stats: &mut Stats, cells: bool) -> Result<(), Bad> {
        let mut todo = vec![c];
        while let Some(mut s) = todo.pop() {
            // rules without code leave no trace; what they may have done can be too much to follow
            stats.work += (1 + s.st.len() / 8 + out.len() / 4) as u64;
            if stats.work > 3_000_000 {
                return bad("unclear", String::new());
            }
            if s.ph != Ph::Run {
                if !out.contains(&s) {
                    out.push(s);
                }
                continue;
            }
            let top = s.st.last().unwrap().st;
            let (t, val) = match src {
                Src::Tok(t, v) => (*t, Some(v)),
                Src::Eoi => (0, None),
            };
            if cells {
                stats.cells.insert((top, t));
            }
            let cell = self.l.look(self.g, top, t);
            match cell {
                Cell::Shift(to) => {
                    if self.full(&s) {
                        s.ph = Ph::Ovf(true);
                    } else {
                        let own = self.l.act[top][t];
                        if own == Cell::None {
                            let as_fb = {
                                let mut u = t;
                                let mut hit = false;
                                while let Some(f) = self.g.fb[u] {
                                    u = f;
                                    if self.l.act[top][u] != Cell::None {
                                        hit = true;
                                        break;
                                    }
                                }
                                hit
                            };
                            if as_fb {
                                stats.fallbacks += 1
                            } else {
                                stats.wildcards += 1
                            }
                        }
                        s.st.push(Ent { st: to, sy: Sy::T, val: val.unwrap().clone() });
                        stats.max_depth = stats.max_depth.max(s.st.len());
                        s.ec = s.ec.saturating_sub(1);
                        s.ph = Ph::Ok;
                    }
                    out.push(s);
                }
                Cell::Reduce(r) => {
                    if self.observed(r) {
                        out.push(s);
                    } else {
                        self.reduce(&mut s, r, None, stats)?;
                        todo.push(s);
                    }
                }
                Cell::Error | Cell::None => {
                    for &r in &self.l.dflt[top] {
                        if !self.observed(r) {
                            let mut q = s.clone();
                            self.reduce(&mut q, r, None, stats)?;
                            todo.push(q);
                        }
                    }
                    // stay in Run: an observed default reduction may follow
                    if self.l.dflt[top].iter().any(|r| self.observed(*r)) && !out.contains(&s) {
                        out.push(s.clone());
                    }
                    // or the error is detected here
                    if cell == Cell::Error {
                        stats.nonassoc += 1;
                    }
                    let exp = self.l.expected(self.g, top);
                    if t == 0 {
                        s.ph = Ph::PFail;
                    } else if self.g.uses_err {
                        loop {
                            match s.st.last() {
                                None => {
                                    s.ph = Ph::PFail;
                                    break;
                                }
                                Some(e) => {
                                    if e.sy == Sy::N(self.g.err) {
                                        s.ec = 3;
                                        s.ph = Ph::Ok;
                                        stats.dropped_tokens += 1;
                                        break;
                                    }
                                    if let Some(to) = self.l.goto[e.st][self.g.err] {
                                        if s.ec > 0 {
                                            stats.f2 += 1;
                                        }
                                        s.ph = Ph::SynErr(exp, to);
                                        break;
                                    }
                                }
                            }
                            s.st.pop();
                            stats.discarded += 1;
                        }
                    } else if s.ec == 0 {
                        s.ph = Ph::Syn(exp);
                    } else {
                        s.ec = 3;
                        s.ph = Ph::Ok;
                        stats.dropped_tokens += 1;
                    }
                    // the machine's own view of precedence
                    if !out.contains(&s) {
                        out.push(s);
                    }
                }
            }
        }
        Ok(())
    }
    fn want(&self, s: &Sh, src: &Src) -> String {
        match &s.ph {
            Ph::Run => {
                let top = s.st.last().unwrap().st;
                let t = match src {
                    Src::Tok(t, _) => *t,
                    Src::Eoi => 0,
                };
                match self.l.look(self.g, top, t) {
                    Cell::Reduce(r) => format!("action of rule {}", self.rule_name(r)),
                    _ => "a default reduction".into(),
                }
            }
            Ph::Ok => "the call to return Ok".into(),
            Ph::Err(e) => format!("the call to return error value {}", e),
            Ph::Ovf(t) => format!("the stack overflow handler (with token: {})", t),
            Ph::Syn(_) | Ph::SynErr(..) => "the syntax error handler".into(),
            Ph::PFail => "the parse failure handler".into(),
            Ph::Accept(_) => "a successful result".into(),
        }
    }
    /// Check one run.
    pub fn check(&self, run: &Run, log: &[u32], stats: &mut Stats) -> Result<(), Bad> {
        stats.work = 0;
        match self.follow(run, log, stats) {
            Err(b) if b.cat == "unclear" => {
                if std::env::var_os("VH_UNCLEAR").is_some() {
                    eprintln!("UNCLEAR {:?}\n{}", run, self.spec.macro_body());
                }
                stats.unclear += 1;
                Ok(())
            }
            r => r,
        }
    }
    fn follow(&self, run: &Run, log: &[u32], stats: &mut Stats) -> Result<(), Bad> {
        let evs = events(log);
        stats.events += evs.len() as u64;
        let x0 = if self.spec.extra { (0u32, 16u32) } else { (0, 0) };
        let mut x = x0;
        let bump = |x: &mut (u32, u32), kk: u32| {
            if self.spec.extra {
                x.0 += 1;
                x.1 = x.1.wrapping_mul(0x9E37_79B1).wrapping_add(kk).rotate_left(7);
            }
        };
        let mut cands = vec![Sh { st: vec![Ent { st: 0, sy: Sy::Init, val: self.unit.clone() }], ec: 0, ph: Ph::Run }];
        let mut failed = false;
        let mut finished = false;
        let mut live: BTreeSet<u32> = BTreeSet::new();
        let droplog = run.flags & F_DROPLOG != 0;
        let mut i = 0;
        let mut opi = 0;
        while i < evs.len() {
            let e = &evs[i];
            i += 1;
            if e.code == k::END {
                if e.b[0] != 0 {
                    return bad("leak", format!("{} values are still alive after everything was dropped", e.b[0] as i32));
                }
                if droplog && !live.is_empty() {
                    return bad("leak", format!("values {:?} were never dropped", live));
                }
                return Ok(());
            }
            if e.code == k::FORK {
                if e.b[0] != 0 {
                    let what = ["", "a clone does not own a copy of every value", "cloning has effects", "the parser cannot be cloned", "cloning, comparing or formatting the parser panics, or shows that the clone is different", "a clone behaves unlike the parser it was made of"];
                    return bad("fork", what.get(e.b[0] as usize).unwrap_or(&"cloning").to_string());
                }
                stats.forks += e.b[1] as u64;
                stats.fork_steps += e.b[2] as u64;
                continue;
            }
            if e.code == k::DROPV {
                if !live.remove(&e.b[0]) {
                    return bad("drop", format!("value {} dropped twice", e.b[0]));
                }
                stats.drops += 1;
                continue;
            }
            if e.code == k::PANIC && opi == 0 {
                return bad("panic", "creating the parser panicked".into());
            }
            if e.code != k::CALL {
                return bad("final", format!("event {} {:?} outside any call", e.code, e.b));
            }
            let op = e.b[0];
            opi += 1;
            stats.calls += 1;
            let at = format!("call {} ({})", opi, self.op_text(op));
            // events of this call
            let st0 = i;
            while i < evs.len() && evs[i].code != k::CALL && evs[i].code != k::END {
                i += 1;
            }
            let ce = &evs[st0..i];
            for e in ce {
                if e.code == k::CAP {
                    return bad("cap", format!("{}: the number of events ran away", at));
                }
            }
            match op {
                OP_DROP => {
                    for e in ce {
                        match e.code {
                            k::DROPV => {
                                if !live.remove(&e.b[0]) {
                                    return bad("drop", format!("{}: value {} dropped twice", at, e.b[0]));
                                }
                                stats.drops += 1;
                            }
                            k::PANIC => return bad("panic", format!("{}: panic", at)),
                            _ => return bad("final", format!("{}: event {} while the parser is dropped", at, e.code)),
                        }
                    }
                    continue;
                }
                OP_BUMP | OP_READ | OP_INTO => {
                    if op == OP_BUMP {
                        bump(&mut x, 2000);
                    }
                    for e in ce {
                        match e.code {
                            k::DROPV => {
                                if !live.remove(&e.b[0]) {
                                    return bad("drop", format!("{}: value {} dropped twice", at, e.b[0]));
                                }
                                stats.drops += 1;
                            }
                            k::EXTRA => {
                                stats.extra_reads += 1;
                                if !e.b.is_empty() && (e.b[0], e.b[1]) != x {
                                    return bad(
                                        "extra",
                                        format!("{}: extra argument is ({}, {:#x}), should be ({}, {:#x})", at, e.b[0], e.b[1], x.0, x.1),
                                    );
                                }
                            }
                            k::PANIC => return bad("panic", format!("{}: panic", at)),
                            _ => return bad("final", format!("{}: event {} in an accessor", at, e.code)),
                        }
                    }
                    if op == OP_INTO && self.spec.extra && droplog && !live.is_empty() {
                        return bad("drop", format!("{}: into_extra left {:?} alive", at, live));
                    }
                    continue;
                }
                _ => {}
            }
            if finished {
                return bad("final", format!("{}: call after the end", at));
            }
            let src = if op == OP_EOI {
                Src::Eoi
            } else {
                Src::Tok(op as usize + 1, Rc::new(vec![]))
            };
            let mut src = src;
            if failed {
                for e in ce {
                    match e.code {
                        k::TOK => {
                            if droplog {
                                for id in ids(&e.b[1..]) {
                                    live.insert(id);
                                }
                            }
                        }
                        k::DROPV => {
                            if !live.remove(&e.b[0]) {
                                return bad("drop", format!("{}: value {} dropped twice", at, e.b[0]));
                            }
                        }
                        k::PANIC | k::RETERR => stats.refused_calls += 1,
                        k::RETOK | k::RESULT => {
                            return bad("final", format!("{}: a failed parser returned success", at));
                        }
                        k::RED | k::SYN | k::PFAIL | k::OVF | k::DEFERR => {
                            return bad("final", format!("{}: an action or handler ran after the failure", at));
                        }
                        _ => {}
                    }
                }
                continue;
            }
            let mut started = matches!(src, Src::Eoi);
            for s in cands.iter_mut() {
                s.ph = Ph::Run;
            }
            if started {
                cands = self.close_all(cands, &src, stats, true)?;
            }
            let mut done = false;
            for e in ce {
                if done && e.code != k::DROPV {
                    return bad("final", format!("{}: event {} after the call returned", at, e.code));
                }
                match e.code {
                    k::DROPV => {
                        if !live.remove(&e.b[0]) {
                            return bad("drop", format!("{}: value {} dropped twice", at, e.b[0]));
                        }
                        stats.drops += 1;
                        continue;
                    }
                    k::TOK => {
                        if droplog {
                            for id in ids(&e.b[1..]) {
                                live.insert(id);
                            }
                        }
                        src = Src::Tok(e.b[0] as usize + 1, Rc::new(e.b[1..].to_vec()));
                        started = true;
                        cands = self.close_all(cands, &src, stats, true)?;
                        continue;
                    }
                    k::PANIC if e.b.first() == Some(&0xACCE) => {
                        return bad("token", format!("{}: into_extra, extra or extra_mut of a token do not give its common data", at))
                    }
                    k::PANIC => return bad("panic", format!("{}: panic inside the parser", at)),
                    _ => {}
                }
                if !started {
                    return bad("final", format!("{}: event before the token", at));
                }
                if cands.len() > 1 {
                    stats.ambiguous += 1;
                }
                // extra argument in events
                let chk = |x: (u32, u32), a: u32, b: u32, what: &str| -> Result<(), Bad> {
                    if x != (a, b) {
                        return bad(
                            "extra",
                            format!("{}: {} saw extra argument ({}, {:#x}), should be ({}, {:#x})", at, what, a, b, x.0, x.1),
                        );
                    }
                    Ok(())
                };
                match e.code {
                    k::RED => {
                        bump(&mut x, e.b[0]);
                        chk(x, e.b[4], e.b[5], "action")?;
                        stats.actions += 1;
                        stats.rules.insert(e.b[0] as usize);
                        if e.b[1] != 0 {
                            stats.action_failures += 1;
                        } else if droplog {
                            let r = &self.spec.rules[e.b[0] as usize];
                            if r.act == Act::Log && self.spec.nty(r.lhs) != Ty::Unit {
                                live.insert(e.b[3]);
                            }
                        }
                    }
                    k::SYN => {
                        bump(&mut x, 1000);
                        chk(x, e.b[3], e.b[4], "syntax error handler")?;
                        stats.handler_runs += 1;
                        if droplog && e.b[0] == 0 && self.spec.ety() != Ty::Unit {
                            live.insert(e.b[2]);
                        }
                    }
                    k::PFAIL => {
                        bump(&mut x, 1001);
                        chk(x, e.b[1], e.b[2], "parse failure handler")?;
                        stats.parse_fails += 1;
                    }
                    k::OVF => {
                        bump(&mut x, 1002);
                        chk(x, e.b[1], e.b[2], "stack overflow handler")?;
                        stats.overflows += 1;
                    }
                    _ => {}
                }
                let mut next = vec![];
                let mut why: Option<Bad> = None;
                for s in std::mem::take(&mut cands) {
                    match self.match_ev(s, e, &src, x, stats) {
                        Ok(v) => {
                            for q in v {
                                if !next.contains(&q) {
                                    next.push(q);
                                }
                            }
                        }
                        Err(b) => {
                            if why.is_none() || why.as_ref().unwrap().cat == "default" {
                                why = Some(b);
                            }
                        }
                    }
                }
                cands = next;
                if cands.is_empty() {
                    let b = why.unwrap();
                    return bad(if b.cat == "default" { "verdict" } else { b.cat }, format!("{}: {}", at, b.msg));
                }
                match e.code {
                    k::RETOK => {
                        if let Src::Tok(..) = src {
                            stats.shifts += 1;
                        }
                        done = true;
                        if droplog {
                            // between calls the parser holds exactly the values on its stack
                            let ok = cands.iter().any(|s| {
                                let h: BTreeSet<u32> = s.st.iter().flat_map(|e| ids(&e.val)).collect();
                                h == live
                            });
                            if !ok {
                                let h: BTreeSet<u32> = cands[0].st.iter().flat_map(|e| ids(&e.val)).collect();
                                return bad("drop", format!("{}: alive {:?}, but the current parse holds {:?}", at, live, h));
                            }
                        }
                    }
                    k::RETERR => {
                        failed = true;
                        stats.errors += 1;
                        done = true;
                        if op == OP_EOI {
                            finished = true;
                        }
                    }
                    k::RESULT => {
                        stats.results += 1;
                        finished = true;
                        done = true;
                    }
                    _ => {}
                }
            }
            if !done {
                return bad("panic", format!("{}: the call did not return", at));
            }
        }
        bad("panic", "the run has no end".into())
    }
    fn op_text(&self, op: u32) -> String {
        match op {
            OP_EOI => "end of input".into(),
            OP_DROP => "drop".into(),
            OP_BUMP => "extra_mut".into(),
            OP_READ => "extra".into(),
            OP_INTO => "into_extra".into(),
            t => format!("token {}", self.tname(t as usize + 1)),
        }
    }
    fn close_all(&self, cands: Vec<Sh>, src: &Src, stats: &mut Stats, cells: bool) -> Result<Vec<Sh>, Bad> {
        let mut out = vec![];
        for s in cands {
            self.closure(s, src, &mut out, stats, cells)?;
        }
        Ok(out)
    }
    fn match_ev(&self, mut s: Sh, e: &Ev, src: &Src, x: (u32, u32), stats: &mut Stats) -> Result<Vec<Sh>, Bad> {
        let b = e.b;
        let wrong = |cat: &'static str, got: String, s: &Sh| -> Result<Vec<Sh>, Bad> {
            let cat = if s.ph == Ph::Run {
                let top = s.st.last().unwrap().st;
                let t = match src {
                    Src::Tok(t, _) => *t,
                    Src::Eoi => 0,
                };
                match self.l.look(self.g, top, t) {
                    Cell::Reduce(_) => cat,
                    _ => "default",
                }
            } else {
                cat
            };
            bad(cat, format!("{} while expecting {}", got, self.want(s, src)))
        };
        match e.code {
            k::RED => {
                let ri = b[0] as usize;
                let got = format!("action of rule #{} `{}` ran", ri, self.spec.rule_head(&self.spec.rules[ri]));
                if s.ph != Ph::Run {
                    return wrong("reduce", got, &s);
                }
                let top = s.st.last().unwrap().st;
                let t = match src {
                    Src::Tok(t, _) => *t,
                    Src::Eoi => 0,
                };
                let gr = match self.l.look(self.g, top, t) {
                    Cell::Reduce(r) => {
                        if self.g.rules[r].orig != Orig::Rule(ri) {
                            return wrong("reduce", got, &s);
                        }
                        r
                    }
                    _ => match self.l.dflt[top].iter().find(|r| self.g.rules[**r].orig == Orig::Rule(ri)) {
                        Some(r) => *r,
                        None => return wrong("reduce", got, &s),
                    },
                };
                // children
                let sr = &self.spec.rules[ri];
                let n = sr.rhs.len();
                if s.st.len() <= n {
                    return wrong("reduce", got, &s);
                }
                let ch: Vec<Val> = s.st[s.st.len() - n..].iter().map(|e| e.val.clone()).collect();
                let mut p = 7;
                let mut cnt = 0;
                for j in 0..n {
                    let a = sr.rhs[j].alias;
                    if a == Alias::No || a == Alias::Under {
                        continue;
                    }
                    let want = self.conv(&ch[j], &self.g.rules[gr].rhs[j]);
                    let len = b[p] as usize;
                    let have = &b[p + 1..p + 1 + len];
                    if have != want.as_slice() {
                        return bad(
                            "value",
                            format!("{}: alias a{} is bound to {:?}, should be {:?}", got, j, have, want),
                        );
                    }
                    p += 1 + len;
                    cnt += 1;
                }
                assert_eq!(cnt, b[6]);
                if b[1] != 0 {
                    s.ph = Ph::Err(b[2]);
                    return Ok(vec![s]);
                }
                let val = match sr.act {
                    Act::Fwd(j) => ch[j].clone(),
                    _ => match self.spec.nty(sr.lhs) {
                        Ty::Unit => self.unit.clone(),
                        _ => Rc::new(vec![b[3]]),
                    },
                };
                self.reduce(&mut s, gr, Some(val), stats)?;
                let mut out = vec![];
                self.closure(s, src, &mut out, stats, true)?;
                Ok(out)
            }
            k::SYN => {
                let (exp, to) = match &s.ph {
                    Ph::Syn(e) => (e.clone(), None),
                    Ph::SynErr(e, to) => (e.clone(), Some(*to)),
                    _ => return wrong("handler", "the syntax error handler ran".into(), &s),
                };
                // token
                let mut p = 5;
                let tok = read_tok(b, &mut p);
                let want = match src {
                    Src::Tok(t, v) => Some((*t as u32 - 1, v.to_vec())),
                    Src::Eoi => None,
                };
                if tok != want {
                    return bad("token", format!("the syntax error handler got token {:?}, should be {:?}", tok, want));
                }
                let n = b[p] as usize;
                p += 1;
                let mut have = vec![];
                for _ in 0..n {
                    let ni = b[p];
                    p += 1;
                    let tk = read_tok(b, &mut p);
                    if ni as usize >= self.spec.terms.len() {
                        return bad("expected", format!("expected list has an unknown name (entry {:?})", tk));
                    }
                    let wt = if self.spec.term_ty_text(ni as usize).is_none() { Some((ni, vec![0])) } else { None };
                    if tk != wt {
                        return bad(
                            "expected",
                            format!("expected entry {} carries token {:?}, should be {:?}", self.tname(ni as usize + 1), tk, wt),
                        );
                    }
                    have.push(ni as usize + 1);
                }
                stats.expected_tokens += n as u64;
                let mut sorted = have.clone();
                sorted.sort();
                if sorted != exp {
                    let nm = |v: &[usize]| v.iter().map(|t| self.tname(*t)).collect::<Vec<_>>().join(" ");
                    return bad("expected", format!("expected list is [{}], should be [{}]", nm(&sorted), nm(&exp)));
                }
                if b[0] != 0 {
                    s.ph = Ph::Err(b[1]);
                    return Ok(vec![s]);
                }
                match to {
                    None => {
                        s.ec = 3;
                        s.ph = Ph::Ok;
                    }
                    Some(to) => {
                        if self.full(&s) {
                            s.ph = Ph::Ovf(false);
                        } else {
                            let val =
                                if self.spec.ety() == Ty::Unit { self.unit.clone() } else { Rc::new(vec![b[2]]) };
                            s.st.push(Ent { st: to, sy: Sy::N(self.g.err), val });
                            stats.recoveries += 1;
                            s.ec = 3;
                            s.ph = Ph::Ok;
                        }
                    }
                }
                Ok(vec![s])
            }
            k::PFAIL => match s.ph {
                Ph::PFail => {
                    s.ph = Ph::Err(b[0]);
                    Ok(vec![s])
                }
                _ => wrong("handler", "the parse failure handler ran".into(), &s),
            },
            k::OVF => match s.ph {
                Ph::Ovf(term) => {
                    let mut p = 3;
                    let tok = read_tok(b, &mut p);
                    let want = match src {
                        Src::Tok(t, v) if term => Some((*t as u32 - 1, v.to_vec())),
                        _ => None,
                    };
                    if tok != want {
                        return bad("token", format!("the overflow handler got token {:?}, should be {:?}", tok, want));
                    }
                    s.ph = Ph::Err(b[0]);
                    Ok(vec![s])
                }
                _ => wrong("overflow", format!("the stack overflow handler ran with {} entries", s.st.len()), &s),
            },
            k::DEFERR => {
                let ok = match &s.ph {
                    Ph::Syn(_) | Ph::SynErr(..) => self.spec.syn == Hand::Absent,
                    Ph::PFail => self.spec.pf == Hand::Absent,
                    Ph::Ovf(_) => self.spec.ov == Hand::Absent && self.limit != 0,
                    _ => false,
                };
                if !ok {
                    return wrong("errval", "the default error value was made".into(), &s);
                }
                s.ph = Ph::Err(b[0]);
                Ok(vec![s])
            }
            k::RETOK => match s.ph {
                Ph::Ok => {
                    s.ph = Ph::Run;
                    Ok(vec![s])
                }
                Ph::Ovf(_) => wrong("overflow", "the call returned Ok".into(), &s),
                Ph::Syn(_) | Ph::SynErr(..) | Ph::PFail => wrong("verdict", "the call returned Ok".into(), &s),
                Ph::Run => wrong("reduce", "the call returned Ok".into(), &s),
                _ => wrong("errval", "the call returned Ok".into(), &s),
            },
            k::RETERR => {
                let silent = !self.spec.error
                    && match &s.ph {
                        Ph::Syn(_) | Ph::SynErr(..) => self.spec.syn == Hand::Absent,
                        Ph::PFail => self.spec.pf == Hand::Absent,
                        Ph::Ovf(_) => self.spec.ov == Hand::Absent,
                        _ => false,
                    };
                match s.ph {
                    Ph::Err(er) => {
                        if er != b[0] {
                            return bad("errval", format!("the call returned error {}, should be {}", b[0], er));
                        }
                        Ok(vec![s])
                    }
                    _ if silent => Ok(vec![s]),
                    Ph::Ok | Ph::Accept(_) => wrong("verdict", format!("the call returned error {}", b[0]), &s),
                    Ph::Run => wrong("reduce", format!("the call returned error {}", b[0]), &s),
                    _ => wrong("handler", format!("the call returned error {}", b[0]), &s),
                }
            }
            k::RESULT => match &s.ph {
                Ph::Accept(v) => {
                    let n = b[0] as usize;
                    if &b[1..1 + n] != v.as_slice() {
                        return bad("result", format!("the result is {:?}, should be {:?}", &b[1..1 + n], v));
                    }
                    if b[1 + n] == 1 && (b[2 + n], b[3 + n]) != x {
                        return bad(
                            "extra",
                            format!("end of input returned extra argument ({}, {:#x}), should be ({}, {:#x})", b[2 + n], b[3 + n], x.0, x.1),
                        );
                    }
                    Ok(vec![s])
                }
                _ => wrong("verdict", "end of input succeeded".into(), &s),
            },
            c => bad("final", format!("unknown event {}", c)),
        }
    }
}
fn read_tok(b: &[u32], p: &mut usize) -> Option<(u32, Vec<u32>)> {
    if b[*p] == 0 {
        *p += 1;
        return None;
    }
    let t = b[*p + 1];
    let n = b[*p + 2] as usize;
    let v = b[*p + 3..*p + 3 + n].to_vec();
    *p += 3 + n;
    Some((t, v))
}
/// Identities in a value (0, 1, 2 encode (), None and Some).
pub fn ids(w: &[u32]) -> Vec<u32> {
    w.iter().copied().filter(|x| *x >= 16).collect()
}
