//! C03 (which grammars are refused) and C04 (how precedences decide).
use crate::campaign::*;
use crate::gen::*;
use crate::gram::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;
use std::collections::HashMap;

pub fn raw(rng: &mut Rng, c: &Cfg) -> Spec {
    let nt = rng.range(1, 5);
    let nn = rng.range(1, 4);
    let mut s = Spec::new(nt, nn);
    for l in 0..nn {
        let k = if l == 0 { rng.range(1, 2) } else { rng.range(1, 3) };
        for _ in 0..k {
            let rhs = rnd_rhs(rng, &mut s, c, 5);
            if rng.pct(3) || !has_rule(&s, l, &rhs) {
                s.rule(l, rhs);
            }
        }
    }
    s
}
pub fn candidate(rng: &mut Rng, c: &Cfg) -> Option<Case> {
    let mut s = match rng.below(20) {
        0..=4 => raw(rng, c),
        5..=12 => {
            let mut s = if rng.pct(70) {
                let s = small(rng, c);
                let k = rng.range(3, 16);
                grow(rng, c, s, k)
            } else {
                let d = rng.range(1, 2);
                idiom(rng, c, d)
            };
            for _ in 0..rng.range(1, 2) {
                mutate(rng, &mut s, c);
            }
            s
        }
        13..=15 => {
            let mut s = operators(rng);
            match rng.below(5) {
                0 => {}
                1 => {
                    if !s.prec.is_empty() {
                        let k = rng.below(s.prec.len());
                        s.prec.remove(k);
                    }
                }
                2 => {
                    if !s.prec.is_empty() {
                        let k = rng.below(s.prec.len());
                        let p = &mut s.prec[k].1;
                        let j = rng.below(p.len());
                        p.remove(j);
                        s.prec.retain(|p| !p.1.is_empty());
                    }
                }
                3 => {
                    if let Some(q) = contested(rng, c) {
                        s = q;
                        if rng.pct(20) {
                            mutate(rng, &mut s, c);
                        }
                    }
                }
                _ => mutate(rng, &mut s, c),
            }
            for r in &mut s.rules {
                if let Some(p) = r.prec {
                    if !s.prec.iter().any(|q| q.1.contains(&p)) && rng.pct(50) {
                        r.prec = None;
                    }
                }
            }
            s
        }
        _ => {
            let mut s = raw(rng, c);
            add_prec(rng, &mut s);
            s
        }
    };
    if s.rules.len() > 40 {
        return None;
    }
    for k in 0..s.nts.len() {
        let used = k == s.start || s.rules.iter().any(|r| r.rhs.iter().any(|x| x.it == Item::N(k)));
        let has = s.rules.iter().any(|r| r.lhs == k);
        if used && !has {
            return None;
        }
    }
    if s.rules.iter().any(|r| r.rhs.iter().any(|x| x.it == Item::N(s.start))) {
        return None;
    }
    s.decorate(rng, &Deco { kinds: 3, ..Deco::rich() });
    for i in 0..s.terms.len() {
        s.terms[i].name = tname(i);
        s.terms[i].declare = true;
    }
    if rng.pct(30) {
        s.start_dir = true;
        shuffle_rules(rng, &mut s);
    } else {
        let k = s.rules.iter().position(|r| r.lhs == s.start)?;
        let r = s.rules.remove(k);
        s.rules.insert(0, r);
    }
    let case = Case::of(s, "candidate");
    let min = case.g.min_len();
    if case.g.rules.iter().any(|r| min[r.lhs].is_none()) || case.l.states() >= MAX_STATES {
        return None;
    }
    Some(case)
}
/// Number of parse trees of a token string, at most 2 (a lower bound if the grammar has cycles).
struct Trees<'a> {
    g: &'a Gram,
    w: &'a [usize],
    memo: HashMap<(usize, usize, usize), u8>,
    memo2: HashMap<(usize, usize, usize, usize), u8>,
}
impl<'a> Trees<'a> {
    fn sym(&mut self, s: &S, i: usize, j: usize) -> u8 {
        match s {
            S::N(k) => self.nt(*k, i, j),
            s => (j == i + 1 && self.g.covers(s, self.w[i])) as u8,
        }
    }
    fn nt(&mut self, k: usize, i: usize, j: usize) -> u8 {
        if let Some(n) = self.memo.get(&(k, i, j)) {
            return *n;
        }
        // in progress: ignore derivations through a cycle
        self.memo.insert((k, i, j), 0);
        let mut n = 0;
        for r in self.g.by_lhs[k].clone() {
            n = (n + self.seq(r, 0, i, j)).min(2);
        }
        self.memo.insert((k, i, j), n);
        n
    }
    fn seq(&mut self, r: usize, d: usize, i: usize, j: usize) -> u8 {
        let len = self.g.rules[r].rhs.len();
        if d == len {
            return (i == j) as u8;
        }
        if let Some(n) = self.memo2.get(&(r, d, i, j)) {
            return *n;
        }
        let s = self.g.rules[r].rhs[d].clone();
        let mut n = 0u8;
        for m in i..=j {
            let a = self.sym(&s, i, m);
            if a > 0 {
                let b = self.seq(r, d + 1, m, j);
                n = (n + a * b).min(2);
            }
        }
        self.memo2.insert((r, d, i, j), n);
        n
    }
}
/// A short sentence with two parse trees, if one is found.
pub fn ambiguous(g: &Gram, rng: &mut Rng) -> Option<Vec<usize>> {
    let mut sent = Sent::new(g);
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..60 {
        let b = rng.range(0, 8);
        let w = sent.derive(rng, b);
        if w.len() > 9 || !seen.insert(w.clone()) {
            continue;
        }
        let mut t = Trees { g, w: &w, memo: HashMap::new(), memo2: HashMap::new() };
        if t.nt(g.start, 0, w.len()) >= 2 {
            return Some(w);
        }
    }
    None
}
/// Candidates, conflict-free or not, given to the macro; the reference says which must be refused.
pub fn verdicts(ctl: &Ctl, cfgs: &[Cfg], want: &(dyn Fn(&Case) -> bool + Sync), chunks: usize, share: f64, stream: u64) -> Res<Acc> {
    let opts = Opts { expand_only: true, per: 60, ..Opts::default() };
    let f = |k: u64| -> Res<Acc> {
        let mut rng = ctl.rng(900_000 + stream * 1_000_000 + k);
        let mut acc = Acc::default();
        let mut cases = vec![];
        let (mut clean, mut dirty) = (0, 0);
        while cases.len() < opts.per {
            let c = rng.pick(cfgs).clone();
            let Some(case) = candidate(&mut rng, &c) else { continue };
            if !want(&case) {
                continue;
            }
            // as many of each kind as possible
            match case.l.verdict {
                Verdict::Clean if clean <= opts.per / 2 => clean += 1,
                Verdict::Conflict(_) | Verdict::Bad(_) if dirty <= opts.per / 2 => dirty += 1,
                _ => continue,
            }
            cases.push(case);
        }
        let units: Vec<Unit> = cases.iter().enumerate().map(|(i, c)| unit_of(i, c)).collect();
        let (_, errs) = ctl.sub.build_bins_seq(&units, &opts)?;
        let mut refused: HashMap<usize, CErr> = errs.into_iter().map(|e| (e.id as usize, e)).collect();
        for (i, c) in cases.iter().enumerate() {
            let e = refused.remove(&i);
            acc.runs += 1;
            acc.grammars += 1;
            acc.states += c.l.states() as u64;
            acc.rules += c.spec.rules.len() as u64;
            if c.spec.rules.len() > 1 {
                acc.nontrivial.insert(hash(&units[i].text));
            }
            if acc.samples.len() < 2 {
                acc.samples.push(format!("{} || reference: {:?} || refused: {}", c.g_text(), c.l.verdict, e.is_some()));
            }
            let bad = |acc: &mut Acc, cat: &str, msg: String| {
                acc.fail(Fail { cat: cat.into(), msg, src: units[i].text.clone(), run: None, input: c.g_text(), log: vec![], size: c.spec.rules.len() })
            };
            match (&c.l.verdict, &e) {
                (Verdict::Clean, None) => {
                    acc.note("conflict_free_and_accepted", 1);
                    if c.l.contests > 0 {
                        acc.note("accepted_with_contests_of_three_or_more", 1);
                    }
                    if c.l.resolved > 0 {
                        acc.note("accepted_with_precedences_used", 1);
                    }
                }
                (Verdict::Clean, Some(e)) => bad(&mut acc, "refused", format!("no conflict is left, but the grammar is refused: {:?} {}", e.kind, e.msg)),
                (v, None) => bad(&mut acc, "accepted", format!("the grammar is accepted, but: {:?}", v)),
                (v, Some(e)) => {
                    if e.kind != ErrKind::Diag {
                        bad(&mut acc, "crash", format!("instead of an error: {:?} {}", e.kind, e.msg));
                    }
                    acc.note(if matches!(v, Verdict::Bad(_)) { "refused_unusable_rules" } else { "refused_conflicts" }, 1);
                }
            }
            if e.is_none() && c.l.resolved == 0 && c.spec.prec.is_empty() {
                acc.note("accepted_without_precedences", 1);
                if let Some(w) = ambiguous(&c.g, &mut rng) {
                    bad(&mut acc, "ambiguous", format!("an ambiguous grammar became a parser: two trees for {:?}", w));
                }
            }
        }
        Ok(acc)
    };
    chunked(ctl, chunks, share, &f)
}
pub fn c03(ctl: &Ctl) -> Res<Outcome> {
    let plain = Cfg::plain();
    let rich = Cfg { alt: 8, class: 5, opt: 8, ..Cfg::plain() };
    let mut acc = verdicts(ctl, &[plain.clone(), plain.clone(), rich.clone()], &|_| true, 40, 0.8, 0)?;
    // accepted grammars must also compile and run
    let c = Cfg { prec: 30, ..rich.clone() };
    let m = Mix::plain(4);
    let g = |rng: &mut Rng, n: usize| gen_cases(rng, n, &c, &m);
    let mut w = Work::new(&g, 8, 5);
    w.cats = &["crash"];
    w.share = 0.2;
    acc.add(campaign(ctl, &w)?);
    Ok(Outcome {
        acc,
        rule: "Random grammars, about half of them with LALR(1) conflicts or unusable rules (raw random ones, conflict-free ones mutated, operator grammars with a precedence removed), each given to the macro; the reference LALR(1) construction predicts whether it must be refused, and accepted ones without precedences are searched for a sentence with two parse trees. Non-trivial: more than one rule.".into(),
        notes: vec![],
        findings: vec![],
    })
}

// ---------------------------------------------------------------- C04
/// Single-expression grammars in which precedences can be judged from the
/// symbols on the stack alone.
pub fn pure_operators(rng: &mut Rng) -> Spec {
    loop {
        let mut s = Spec::new(1, 2);
        s.rule(0, vec![n(1)]);
        s.rule(1, vec![t(0)]);
        let term = |s: &mut Spec| {
            let k = s.terms.len();
            s.terms.push(Term { name: tname(k), ty: Ty::Unit, fallback: None, declare: false });
            k
        };
        let mut ops = vec![];
        let mut bins = vec![];
        for _ in 0..rng.range(1, 6) {
            let o = term(&mut s);
            ops.push(o);
            bins.push(o);
            s.rule(1, vec![n(1), t(o), n(1)]);
        }
        for _ in 0..rng.below(3) {
            let o = term(&mut s);
            ops.push(o);
            s.rule(1, vec![t(o), n(1)]);
        }
        for _ in 0..rng.below(2) {
            let o = term(&mut s);
            ops.push(o);
            s.rule(1, vec![n(1), t(o)]);
        }
        if rng.pct(40) {
            // also a prefix operator, with its own precedence (maybe that of another operator)
            let o = *rng.pick(&bins);
            let p = if rng.pct(70) { term(&mut s) } else { *rng.pick(&ops) };
            s.rule(1, vec![t(o), n(1)]);
            s.rules.last_mut().unwrap().prec = Some(p);
            if !ops.contains(&p) {
                ops.push(p);
            }
        }
        if rng.pct(30) {
            let (p, q) = (term(&mut s), term(&mut s));
            s.rule(1, vec![n(1), t(p), n(1), t(q), n(1)]);
            ops.push(if rng.pct(50) { p } else { q });
            if rng.pct(40) {
                ops.push(if ops.contains(&p) { q } else { p });
            }
        }
        if rng.pct(70) {
            let (a, b) = (term(&mut s), term(&mut s));
            s.rule(1, vec![t(a), n(1), t(b)]);
        }
        if rng.pct(30) {
            let (a, b, e) = (term(&mut s), term(&mut s), term(&mut s));
            s.rule(1, vec![t(a), n(1), t(b), n(1)]);
            s.rule(1, vec![t(a), n(1), t(b), n(1), t(e), n(1)]);
            ops.push(b);
            ops.push(e);
        }
        if rng.pct(25) && bins.len() > 1 {
            // a binary rule with the precedence of another operator
            let k = s.rules.iter().position(|r| r.rhs.len() == 3 && r.rhs[0].it == Item::N(1)).unwrap();
            s.rules[k].prec = Some(*rng.pick(&bins));
        }
        let mut left = ops.clone();
        rng.shuffle(&mut left);
        while !left.is_empty() {
            let m = rng.range(1, left.len().min(3));
            let v: Vec<usize> = left.drain(..m).collect();
            s.prec.push((*rng.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::Non]), v));
        }
        compact(&mut s);
        let case = Case::of(s, "pure-operators");
        if case.clean() {
            return case.spec;
        }
    }
}
/// What precedences demand, from the grammar's rules and the symbols on the
/// stack alone (no automaton). Returns the rules reduced, in order, and the
/// failing call; None if this oracle does not apply.
pub fn by_precedence(s: &Spec, toks: &[usize]) -> Option<(Vec<usize>, Option<usize>, u64)> {
    #[derive(Clone, PartialEq)]
    enum Y {
        T(usize),
        E,
    }
    let tp = |t: usize| s.prec.iter().enumerate().find(|p| p.1 .1.contains(&t)).map(|p| (p.0, p.1 .0));
    let as_y = |r: &Rule| -> Vec<Y> { r.rhs.iter().map(|x| if let Item::T(t) = x.it { Y::T(t) } else { Y::E }).collect() };
    let rules: Vec<(usize, Vec<Y>, Option<(usize, Assoc)>)> = s
        .rules
        .iter()
        .enumerate()
        .filter(|r| r.1.lhs == 1)
        .map(|(i, r)| {
            let p = match r.prec {
                Some(t) => tp(t),
                None => r.rhs.iter().find_map(|x| if let Item::T(t) = x.it { tp(t) } else { None }),
            };
            (i, as_y(r), p)
        })
        .collect();
    let top_rule = s.rules.iter().position(|r| r.lhs == 0)?;
    let mut st: Vec<Y> = vec![];
    let mut out = vec![];
    let mut decided = 0;
    // rules whose first d symbols are the top of the stack, where an expression is expected below them
    let fits = |st: &[Y], pre: &[Y]| st.len() >= pre.len() && st[st.len() - pre.len()..] == *pre && st[..st.len() - pre.len()].last() != Some(&Y::E);
    for i in 0..=toks.len() {
        let t = toks.get(i).copied();
        loop {
            let mut red: Vec<&(usize, Vec<Y>, Option<(usize, Assoc)>)> = rules.iter().filter(|r| fits(&st, &r.1)).collect();
            red.dedup_by_key(|r| r.0);
            if red.len() > 1 {
                return None;
            }
            let shift = t.is_some_and(|t| {
                rules.iter().any(|r| (0..r.1.len()).any(|d| r.1[d] == Y::T(t) && if d == 0 { st.last() != Some(&Y::E) } else { fits(&st, &r.1[..d]) }))
            });
            // a complete handle that ends in a token leaves no choice
            let ends_tok = red.first().is_some_and(|r| r.1.last() != Some(&Y::E));
            let choice = if ends_tok {
                false
            } else {
                match (shift, red.first()) {
                    (true, None) => true,
                    (true, Some(r)) => {
                        decided += 1;
                        let (a, asc) = tp(t.unwrap())?;
                        let (b, _) = r.2?;
                        if a > b {
                            true
                        } else if a < b {
                            false
                        } else {
                            match asc {
                                Assoc::Left => false,
                                Assoc::Right => true,
                                Assoc::Non => return Some((out, Some(i), decided)),
                            }
                        }
                    }
                    (false, Some(_)) => false,
                    (false, None) => {
                        if t.is_none() && st == [Y::E] {
                            out.push(top_rule);
                            return Some((out, None, decided));
                        }
                        return Some((out, Some(i), decided));
                    }
                }
            };
            if choice {
                st.push(Y::T(t.unwrap()));
                break;
            }
            let r = red[0];
            let k = st.len() - r.1.len();
            st.truncate(k);
            st.push(Y::E);
            out.push(r.0);
        }
    }
    None
}
fn prec_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    if c.tag != "pure-operators" || r.syn.iter().any(|d| *d == 0) || !r.fail.is_empty() || !matches!(c.spec.stack, Some((0, _))) {
        return Ok(());
    }
    if r.ops.iter().any(|o| *o > OP_EOI) || c.spec.rules.iter().any(|r| r.act == Act::Empty) {
        return Ok(());
    }
    let toks: Vec<usize> = r.ops.iter().filter(|o| **o != OP_EOI).map(|o| *o as usize).collect();
    let Some((want, fail, decided)) = by_precedence(&c.spec, &toks) else { return Ok(()) };
    acc.note("runs_decided_by_the_precedence_oracle", 1);
    acc.note("choices_decided_by_precedence", decided);
    if fail.is_some() {
        acc.note("errors_decided_by_the_precedence_oracle", 1);
    }
    let have = first_failure(log);
    if have != fail {
        return Err(Bad { cat: "precedence", msg: format!("the parser fails at call {:?}; by the precedences it should at {:?} (from 0; None: accepts)", have, fail) });
    }
    if fail.is_none() {
        let got: Vec<usize> = events(log).iter().filter(|e| e.code == k::RED).map(|e| e.b[0] as usize).collect();
        if got != want {
            return Err(Bad { cat: "precedence", msg: format!("the parser groups as {:?} (rules in order of reduction), by the precedences {:?}", got, want) });
        }
    }
    Ok(())
}
pub fn c04(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg::plain();
    let m = Mix { derived: 26, edited: 8, walks: 16, cells: 12, len: 26, ..Mix::plain(0) };
    let m2 = Mix { tolerate: 30, ..m.clone() };
    let mixed = Cfg { prec: 100, err: 6, ..Cfg::mixed() };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = vec![];
        while v.len() < n {
            let k = rng.below(12);
            if k >= 10 {
                let case = spec(rng, &mixed);
                if case.l.resolved > 0 {
                    let r = runs(rng, &case, &m2);
                    v.push((case, r));
                }
                continue;
            }
            let (s, tag) = match k {
                0..=5 => (pure_operators(rng), "pure-operators"),
                6 => (operators(rng), "operators"),
                7 => match contested(rng, &Cfg { alt: 5, opt: 5, ..Cfg::plain() }) {
                    Some(s) => (s, "contested"),
                    None => continue,
                },
                _ => match prec_random(rng, &Cfg { alt: 5, opt: 5, ..Cfg::plain() }) {
                    Some(s) => (s, "precedence"),
                    None => continue,
                },
            };
            let mut case = finish(rng, &c, s, tag);
            if tag == "pure-operators" {
                case.spec.stack = Some((0, None));
            }
            let r = runs(rng, &case, if tag == "pure-operators" { &m } else { &m2 });
            v.push((case, r));
        }
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.extra = Some(&prec_check);
    w.share = 0.7;
    let mut acc = campaign(ctl, &w)?;
    // what precedences settle, and what they leave
    let rich = Cfg { alt: 8, class: 8, opt: 4, ..Cfg::plain() };
    acc.add(verdicts(ctl, &[Cfg::plain(), rich], &|c| !c.spec.prec.is_empty(), 12, 0.3, 1)?);
    Ok(Outcome {
        acc,
        rule: "Random operator grammars (binary, prefix, postfix, ternary, mixfix operators, bracketed precedences, dangling else; levels of every associativity) and random ambiguous grammars settled by precedences, some with all other features; sentences, edited sentences, walks and one input per sampled automaton cell. The grouping of the pure operator grammars is predicted from precedences alone, without an automaton. Also grammars with precedences, about half of them with a conflict left, that the macro must accept or refuse as predicted. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
