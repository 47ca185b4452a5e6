//! C25: the automaton printed by %verbose and with a conflict, read back and compared state by state.
use crate::campaign::*;
use crate::gen::*;
use crate::gram::*;
use crate::p_conflict::*;
use crate::report::Outcome;
use crate::subject::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mark {
    Taken,
    Dropped,
    Conflict,
}
#[derive(Clone, Debug)]
enum What {
    Shift(usize),
    Reduce(usize),
    Accept,
    Error,
}
#[derive(Default, Debug)]
struct State {
    items: Vec<(Option<usize>, String, Vec<String>)>,
    acts: Vec<(String, What, Mark)>,
}
#[derive(Default, Debug)]
struct Dump {
    states: BTreeMap<usize, State>,
    symbols: Vec<String>,
    twice: bool,
}
/// Every dump in the text, in the order printed.
fn read(text: &str) -> Result<Vec<Dump>, String> {
    let mut out: Vec<Dump> = vec![];
    let mut cur: Option<usize> = None;
    let mut symbols = false;
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let bad = || format!("a line of the report cannot be read: {:?}", l);
        match w.as_slice() {
            [] => continue,
            ["State", k] if k.ends_with(':') => {
                let Ok(k) = k[..k.len() - 1].parse::<usize>() else { return Err(bad()) };
                if k == 0 {
                    out.push(Dump::default());
                }
                let Some(d) = out.last_mut() else { return Err(format!("the report does not start with state 0: {:?}", l)) };
                d.twice |= d.states.insert(k, State::default()).is_some();
                cur = Some(k);
                symbols = false;
            }
            [x] if x.len() > 8 && x.chars().all(|c| c == '-') => cur = None,
            ["Symbols:"] => {
                symbols = !out.is_empty();
                cur = None;
            }
            [k, rest @ ..] if symbols && k.ends_with(':') => {
                if k[..k.len() - 1].parse::<usize>().is_err() || rest.len() > 1 {
                    return Err(bad());
                }
                out.last_mut().unwrap().symbols.push(rest.first().unwrap_or(&"").to_string());
            }
            w => {
                let Some(k) = cur else { continue };
                let s = out.last_mut().unwrap().states.get_mut(&k).unwrap();
                if let Some(p) = w.iter().position(|x| *x == "::=") {
                    let (no, lhs) = match p {
                        1 => (None, w[0]),
                        2 => match w[0].strip_prefix('(').and_then(|x| x.strip_suffix(')')).and_then(|x| x.parse().ok()) {
                            Some(n) => (Some(n), w[1]),
                            None => return Err(bad()),
                        },
                        _ => return Err(bad()),
                    };
                    s.items.push((no, lhs.to_string(), w[p + 1..].iter().map(|x| x.to_string()).collect()));
                    continue;
                }
                let num = |i: usize| w.get(i).and_then(|x| x.parse::<usize>().ok());
                let (what, used) = match (w.get(1), num(2)) {
                    (Some(&"shift"), Some(k)) => (What::Shift(k), 3),
                    (Some(&"reduce"), Some(k)) => (What::Reduce(k), 3),
                    (Some(&"accept"), _) => (What::Accept, 2),
                    (Some(&"error"), _) => (What::Error, 2),
                    _ => {
                        // after a conflict report: what else the compiler says
                        cur = None;
                        continue;
                    }
                };
                let rest = w[used..].join(" ");
                let mark = if rest.is_empty() {
                    Mark::Taken
                } else if rest.contains("onflict") {
                    Mark::Conflict
                } else if rest.contains("precedence") {
                    Mark::Dropped
                } else {
                    return Err(bad());
                };
                s.acts.push((w[0].to_string(), what, mark));
            }
        }
    }
    Ok(out)
}
struct Names {
    user: BTreeSet<String>,
    /// Name of an optional symbol, and what it is an option of.
    opts: HashMap<String, String>,
}
fn norm(x: &str) -> String {
    let mut v: Vec<&str> = x.split('|').collect();
    v.sort();
    v.dedup();
    v.join("|")
}
impl Names {
    fn of(&self, x: &str) -> String {
        match self.opts.get(x) {
            Some(o) if !self.user.contains(x) => format!("?{}", o),
            _ => norm(x),
        }
    }
    fn item(&self, lhs: &str, rhs: &[String]) -> String {
        let v: Vec<String> = rhs.iter().map(|x| if x == "*" { x.clone() } else { self.of(x) }).collect();
        format!("{} ::= {}", self.of(lhs), v.join(" "))
    }
}
/// The same texts from the specification alone.
struct Ref<'a> {
    c: &'a Case,
    opt: HashMap<usize, String>,
}
impl<'a> Ref<'a> {
    /// None if two optional symbols cannot be told apart.
    fn new(c: &'a Case) -> Option<Ref<'a>> {
        let mut r = Ref { c, opt: HashMap::new() };
        for x in &c.g.rules {
            if x.orig == Orig::OptSome {
                let b = r.sym(&x.rhs[0]);
                r.opt.insert(x.lhs, format!("?{}", b));
            }
        }
        let n: BTreeSet<&String> = r.opt.values().collect();
        (n.len() == r.opt.len()).then_some(r)
    }
    fn sym(&self, s: &S) -> String {
        let sp = &self.c.spec;
        match s {
            S::T(0) => "$".into(),
            S::T(t) => sp.terms[t - 1].name.clone(),
            S::N(k) if *k == self.c.g.err => "error".into(),
            S::N(k) => match sp.nts.get(*k) {
                Some(n) => n.name.clone(),
                None => self.opt[k].clone(),
            },
            S::M(k) => norm(&self.c.g.sets[*k].iter().map(|t| self.sym(&S::T(*t))).collect::<Vec<_>>().join("|")),
        }
    }
    fn item(&self, r: usize, dot: Option<usize>) -> String {
        let rule = &self.c.g.rules[r];
        let mut v: Vec<String> = rule.rhs.iter().map(|s| self.sym(s)).collect();
        if let Some(d) = dot {
            v.insert(d, "*".into());
        }
        format!("{} ::= {}", self.sym(&S::N(rule.lhs)), v.join(" "))
    }
}
#[derive(Default)]
struct Seen {
    states: u64,
    items: u64,
    acts: u64,
    dropped: u64,
    errors: u64,
    marks: u64,
}
/// Compare a dump with the reference automaton.
fn same(c: &Case, d: &Dump, seen: &mut Seen) -> Result<bool, String> {
    let Some(rf) = Ref::new(c) else { return Ok(false) };
    if d.twice {
        return Err("a state is listed twice".into());
    }
    let mut nm = Names { user: c.spec.nts.iter().map(|x| x.name.clone()).chain(c.spec.terms.iter().map(|x| x.name.clone())).collect(), opts: HashMap::new() };
    nm.user.insert("error".into());
    // rules by number, optional symbols by their rules
    let mut rules: HashMap<usize, (String, Vec<String>)> = HashMap::new();
    for s in d.states.values() {
        for (no, lhs, rhs) in &s.items {
            if rhs.iter().filter(|x| *x == "*").count() != 1 {
                return Err(format!("an item without its dot: {} ::= {:?}", lhs, rhs));
            }
            if !nm.user.contains(lhs) {
                if let Some(b) = rhs.iter().find(|x| *x != "*") {
                    nm.opts.insert(lhs.clone(), norm(b));
                }
            }
            let done = rhs.last().is_some_and(|x| x == "*");
            if done != no.is_some() {
                return Err(format!("{} ::= {:?} is numbered {:?}", lhs, rhs, no));
            }
            if let Some(n) = no {
                let r = (lhs.clone(), rhs[..rhs.len() - 1].to_vec());
                if rules.insert(*n, r.clone()).is_some_and(|o| o != r) {
                    return Err(format!("two rules have the number {}", n));
                }
            }
        }
    }
    let g = &c.g;
    let mut to_ref: HashMap<usize, usize> = HashMap::from([(0, 0)]);
    let mut back: HashMap<usize, usize> = HashMap::from([(0, 0)]);
    let mut queue = VecDeque::from([0usize]);
    let texts = |k: usize| -> Vec<String> {
        let mut v: Vec<String> = d.states[&k].items.iter().map(|i| nm.item(&i.1, &i.2)).collect();
        v.sort();
        v
    };
    let wanted = |q: usize| -> Vec<String> {
        let mut v: Vec<String> = c.l.items[q].iter().map(|(r, p)| rf.item(*r, Some(*p))).collect();
        v.sort();
        v
    };
    // targets of shifts that are printed as errors: known by their items only
    let mut hidden: Vec<usize> = vec![];
    loop {
        if queue.is_empty() {
            let Some(r) = hidden.pop() else { break };
            if back.contains_key(&r) {
                continue;
            }
            let w = wanted(r);
            let Some(k) = d.states.keys().copied().find(|k| !to_ref.contains_key(k) && texts(*k) == w) else {
                return Err(format!("no state with the items {:?} is listed", w));
            };
            to_ref.insert(k, r);
            back.insert(r, k);
            queue.push_back(k);
        }
        let k = queue.pop_front().unwrap();
        let q = to_ref[&k];
        let Some(s) = d.states.get(&k) else { return Err(format!("state {} is not listed", k)) };
        seen.states += 1;
        let (a, b) = (texts(k), wanted(q));
        if a != b {
            return Err(format!("the items of state {} are {:?}; of the grammar's automaton {:?}", k, a, b));
        }
        seen.items += a.len() as u64;
        let mut by: BTreeMap<String, Vec<(What, Mark)>> = BTreeMap::new();
        for (t, w, m) in &s.acts {
            by.entry(nm.of(t)).or_default().push((w.clone(), *m));
            seen.acts += 1;
        }
        let mut go = |n: usize, r: usize, what: &str| -> Result<(), String> {
            let (x, y) = (to_ref.get(&n).copied(), back.get(&r).copied());
            if x.is_none() && y.is_none() {
                to_ref.insert(n, r);
                back.insert(r, n);
                queue.push_back(n);
                Ok(())
            } else if x != Some(r) || y != Some(n) {
                Err(format!("state {} goes to state {} on {}, which is not that of the grammar's automaton", k, n, what))
            } else {
                Ok(())
            }
        };
        // nonterminals
        for x in 0..g.nn {
            let name = rf.sym(&S::N(x));
            let v = by.remove(&name).unwrap_or_default();
            let accept = x == g.start && q == 0;
            match (v.as_slice(), c.l.goto[q][x]) {
                ([], None) if !accept => {}
                ([(What::Accept, Mark::Taken)], None) if accept => {}
                ([(What::Shift(n), Mark::Taken)], Some(r)) => go(*n, r, &name)?,
                (v, r) => return Err(format!("state {} on {}: {:?}; the grammar's automaton {}", k, name, v, if r.is_some() { "goes on" } else { "does not" })),
            }
        }
        // terminals
        for x in 0..g.nt {
            let name = rf.sym(&S::T(x));
            let v = by.remove(&name).unwrap_or_default();
            let one = match c.l.act[q][x] {
                Cell::Shift(r) => (Some(r), vec![]),
                Cell::Reduce(r) => (None, vec![r]),
                _ => (None, vec![]),
            };
            let m = c.l.multi.get(&(q, x));
            let (sh, reds) = m.map_or(one, |m| (m.shift, m.reds.clone()));
            let wrong = |why: &str| {
                Err(format!(
                    "state {} on {}: {} ({:?}; possible are {}the rules {:?}; the state is {:?})",
                    k,
                    name,
                    why,
                    v,
                    if sh.is_some() { "a shift and " } else { "" },
                    reds.iter().map(|r| rf.item(*r, None)).collect::<Vec<_>>(),
                    a
                ))
            };
            let mut lr = vec![];
            let (mut taken, mut shifts, mut conflicts, mut errors) = (vec![], 0, 0, 0);
            for (w, mk) in &v {
                match w {
                    What::Shift(n) => {
                        shifts += 1;
                        let Some(r) = sh else { return wrong("there is no such shift") };
                        go(*n, r, &name)?;
                    }
                    What::Reduce(n) => {
                        let Some(r) = s.items.iter().find(|i| i.0 == Some(*n)) else { return wrong("the reduced rule is not complete in the state") };
                        lr.push(nm.item(&r.1, &r.2[..r.2.len() - 1]));
                    }
                    What::Error => errors += 1,
                    What::Accept => return wrong("end of the parse on a token"),
                }
                match mk {
                    Mark::Taken => taken.push(w.clone()),
                    Mark::Conflict => conflicts += 1,
                    Mark::Dropped => seen.dropped += 1,
                }
            }
            seen.errors += errors;
            seen.marks += conflicts;
            let mut rr: Vec<String> = reds.iter().map(|r| rf.item(*r, None)).collect();
            lr.sort();
            rr.sort();
            if errors > 0 {
                hidden.extend(sh);
            }
            // that a token is not associative is said instead of its shift
            if lr != rr || shifts + errors != sh.is_some() as u64 {
                return wrong("not the possible actions");
            }
            let Some(m) = m else {
                if v.iter().any(|x| x.1 != Mark::Taken) || errors > 0 {
                    return wrong("there is only one possible action, and it is not taken");
                }
                continue;
            };
            match m.open {
                None => continue,
                Some(false) if conflicts > 0 => return wrong("a conflict is reported where none is left"),
                Some(true) if conflicts == 0 => return wrong("the conflict left here is not reported"),
                _ => {}
            }
            if m.open == Some(false) || m.reds.len() + m.shift.is_some() as usize == 2 {
                let [w] = taken.as_slice() else { return wrong("not exactly one action is taken") };
                let want = if m.open == Some(false) {
                    c.l.act[q][x]
                } else {
                    match m.shift {
                        Some(r) => Cell::Shift(r),
                        None => Cell::Reduce(*m.reds.iter().min().unwrap()),
                    }
                };
                let ok = match (w, want) {
                    (What::Shift(_), Cell::Shift(_)) | (What::Error, Cell::Error) => true,
                    (What::Reduce(n), Cell::Reduce(r)) => {
                        let i = s.items.iter().find(|i| i.0 == Some(*n)).unwrap();
                        nm.item(&i.1, &i.2[..i.2.len() - 1]) == rf.item(r, None)
                    }
                    _ => false,
                };
                if !ok {
                    return wrong(&format!("the action taken must be {}", match want {
                        Cell::Shift(_) => "the shift".into(),
                        Cell::Reduce(r) => format!("to reduce {}", rf.item(r, None)),
                        _ => "a syntax error".to_string(),
                    }));
                }
            }
        }
        if let Some((x, v)) = by.into_iter().next() {
            return Err(format!("state {} on {}, which is no symbol of the grammar: {:?}", k, x, v));
        }
    }
    if to_ref.len() != d.states.len() {
        return Err(format!("{} states are listed, {} can be reached", d.states.len(), to_ref.len()));
    }
    if to_ref.len() != c.l.states() {
        return Err(format!("{} states can be reached, the grammar's automaton has {}", to_ref.len(), c.l.states()));
    }
    Ok(true)
}
fn start_of(d: &Dump) -> Option<&str> {
    d.states.get(&0)?.acts.iter().find(|a| matches!(a.1, What::Accept)).map(|a| a.0.as_str())
}
pub fn c25(ctl: &Ctl) -> Res<Outcome> {
    let rich = Cfg { alt: 8, class: 5, opt: 8, ..Cfg::plain() };
    let mixed = Cfg { err: 8, bare: 0, prec: 25, ..Cfg::mixed() };
    let f = |k: u64| -> Res<Acc> {
        let mut rng = ctl.rng(25_000_000 + k);
        let mut acc = Acc::default();
        let con = Arc::new(Mutex::new(String::new()));
        let opts = Opts { expand_only: true, per: 60, console: Some(con.clone()), ..Opts::default() };
        let mut cases: Vec<Case> = vec![];
        let mut clean = 0;
        while cases.len() < opts.per {
            let mut c = if rng.pct(45) {
                spec(&mut rng, &mixed)
            } else {
                match candidate(&mut rng, &rich) {
                    Some(c) => c,
                    None => continue,
                }
            };
            match c.l.verdict {
                Verdict::Clean if clean <= opts.per / 2 => clean += 1,
                Verdict::Conflict(_) => {}
                _ => continue,
            }
            // the dump is found by its start symbol
            let st = c.spec.start;
            c.spec.nts[st].name = format!("{}_{}", c.spec.nts[st].name, cases.len());
            c.spec.verbose = rng.pct(80);
            cases.push(c);
        }
        let units: Vec<Unit> = cases.iter().enumerate().map(|(i, c)| unit_of(i, c)).collect();
        let (_, errs) = ctl.sub.build_bins_seq(&units, &opts)?;
        let refused: HashMap<usize, CErr> = errs.into_iter().map(|e| (e.id as usize, e)).collect();
        let text = std::mem::take(&mut *con.lock().unwrap());
        let dumps = read(&text);
        for (i, c) in cases.iter().enumerate() {
            acc.runs += 1;
            acc.grammars += 1;
            acc.states += c.l.states() as u64;
            acc.rules += c.spec.rules.len() as u64;
            let bad = |acc: &mut Acc, msg: String| {
                acc.fail(Fail { cat: "report".into(), msg, src: units[i].text.clone(), run: None, input: c.g_text(), log: vec![], size: c.spec.rules.len() })
            };
            let own;
            let (list, what): (Vec<&Dump>, &str) = match (&c.l.verdict, refused.get(&i)) {
                (Verdict::Clean, None) => {
                    let d = match &dumps {
                        Ok(d) => d,
                        Err(e) => {
                            bad(&mut acc, e.clone());
                            continue;
                        }
                    };
                    let n = &c.spec.nts[c.spec.start].name;
                    (d.iter().filter(|d| start_of(d) == Some(n)).collect(), "dump")
                }
                (Verdict::Conflict(_), Some(e)) if e.kind == ErrKind::Diag => {
                    if !e.full.to_lowercase().contains("conflict") {
                        // another error came first (C03 decides whether rightly)
                        acc.note("refused_for_another_reason", 1);
                        continue;
                    }
                    own = match read(&e.full) {
                        Ok(d) => d,
                        Err(e) => {
                            bad(&mut acc, e);
                            continue;
                        }
                    };
                    (own.iter().collect(), "conflict report")
                }
                // C03 and C17
                _ => {
                    acc.note("other_verdict_than_the_reference", 1);
                    continue;
                }
            };
            if what == "dump" && !c.spec.verbose {
                if !list.is_empty() {
                    bad(&mut acc, "the states are dumped without %verbose".into());
                }
                acc.note("silent_without_verbose", 1);
                continue;
            }
            // built again without its refused neighbours, so possibly printed more than once
            let Some(d) = list.first() else {
                bad(&mut acc, format!("there is no {}", what));
                continue;
            };
            let mut seen = Seen::default();
            match same(c, d, &mut seen) {
                Ok(true) => {}
                Ok(false) => {
                    acc.note("not_compared_alike_optional_symbols", 1);
                    continue;
                }
                Err(m) => {
                    bad(&mut acc, format!("{}: {}", what, m));
                    continue;
                }
            }
            if c.spec.verbose {
                let lost: Vec<&String> = d
                    .states
                    .values()
                    .flat_map(|s| s.items.iter())
                    .flat_map(|i| i.2.iter().filter(|x| *x != "*" && !x.contains('|')).chain(std::iter::once(&i.1)))
                    .filter(|x| d.symbols.iter().filter(|y| y == x).count() != 1)
                    .collect();
                if let Some(x) = lost.first() {
                    if !c.spec.classes.iter().any(|k| k.name == **x || k.members.len() == 1) {
                        bad(&mut acc, format!("{}: the symbol {} is not listed exactly once", what, x));
                        continue;
                    }
                }
            }
            if c.spec.rules.len() > 1 {
                acc.nontrivial.insert(hash(&units[i].text));
            }
            if acc.samples.len() < 2 {
                acc.samples.push(format!("{} || {}: {} states, {} actions, {} dropped, {} marked", c.g_text(), what, seen.states, seen.acts, seen.dropped, seen.marks));
            }
            acc.note(if what == "dump" { "dumps_compared" } else { "conflict_reports_compared" }, 1);
            acc.note("states_compared", seen.states);
            acc.note("items_compared", seen.items);
            acc.note("actions_compared", seen.acts);
            acc.note("dropped_by_precedence", seen.dropped);
            acc.note("errors_by_nonassoc", seen.errors);
            acc.note("conflict_marks", seen.marks);
        }
        Ok(acc)
    };
    let acc = chunked(ctl, 28, 1.0, &f)?;
    Ok(Outcome {
        acc,
        rule: "Random grammars, with conflicts and without, many with %verbose; what the macro prints is read back as an automaton and compared with the reference construction, state by state: items, transitions, the possible actions on every token, which is taken, which are dropped by precedence and which are conflicts. Non-trivial: more than one rule and an automaton compared.".into(),
        notes: vec![],
        findings: vec![],
    })
}
