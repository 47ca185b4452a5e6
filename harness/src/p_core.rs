//! Properties decided by driving random parsers under the trace monitor,
//! most with a second, independent oracle of their own.
use crate::campaign::*;
use crate::gen::*;
use crate::gram::*;
use crate::monitor::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

pub fn gen_cases(rng: &mut Rng, n: usize, c: &Cfg, m: &Mix) -> Vec<(Case, Vec<Run>)> {
    (0..n)
        .map(|_| {
            let case = spec(rng, c);
            let r = runs(rng, &case, m);
            (case, r)
        })
        .collect()
}
fn err<T>(cat: &'static str, msg: String) -> Result<T, Bad> {
    Err(Bad { cat, msg })
}
/// Answer of the parser to plain tokens: index of the call that failed (tokens then end of input), if any.
pub fn first_failure(log: &[u32]) -> Option<usize> {
    let mut i = 0usize;
    for e in events(log) {
        match e.code {
            k::CALL => i += 1,
            k::RETERR | k::PANIC => return Some(i - 1),
            _ => {}
        }
    }
    None
}
/// Index of the first call in which anything but plain success was observed.
pub fn first_trouble(log: &[u32]) -> Option<usize> {
    let mut i = 0usize;
    for e in events(log) {
        match e.code {
            k::CALL => i += 1,
            k::RETERR | k::PANIC | k::SYN | k::PFAIL | k::OVF => return Some(i - 1),
            _ => {}
        }
    }
    None
}
fn unlimited(c: &Case, toks: usize) -> bool {
    match c.spec.stack {
        None => toks <= 90,
        Some((0, _)) => toks <= 400,
        _ => false,
    }
}
/// Some reductions leave no trace in the log.
fn hidden(c: &Case) -> bool {
    c.spec.rules.iter().any(|r| r.act == Act::Empty || r.rhs.iter().any(|x| x.opt))
}
fn plain_tokens(r: &Run) -> Option<Vec<usize>> {
    if r.ops.iter().any(|o| *o > OP_EOI) || r.ops.last() != Some(&OP_EOI) {
        return None;
    }
    Some(r.ops.iter().filter(|o| **o != OP_EOI).map(|o| *o as usize + 1).collect())
}
/// Independent oracle on language membership and on where the first error is.
pub fn earley_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    if c.g.has_features() || !r.fail.is_empty() || r.syn.iter().any(|d| *d == 0) {
        return Ok(());
    }
    let Some(toks) = plain_tokens(r) else { return Ok(()) };
    if !unlimited(c, toks.len()) {
        return Ok(());
    }
    let mut e = Earley::new(&c.g);
    let mut want = None;
    for (i, t) in toks.iter().enumerate() {
        if !e.viable(*t) {
            want = Some(i);
            break;
        }
        e.advance(*t);
    }
    if want.is_none() && !e.accepts() {
        want = Some(toks.len());
    }
    acc.note("runs_decided_by_earley", 1);
    acc.note(if want.is_none() { "earley_sentences" } else { "earley_non_sentences" }, 1);
    let have = first_failure(log);
    if have != want {
        return err(
            "language",
            format!("the parser fails at call {:?}, by the grammar it should fail at {:?} (counting from 0; None: accepts)", have, want),
        );
    }
    Ok(())
}
pub fn c01(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { alt: 6, class: 4, opt: 6, ..Cfg::plain() };
    let m = Mix { len: 30, ..Mix::plain(ctl.q(14, 24)) };
    let g = |rng: &mut Rng, n: usize| gen_cases(rng, n, &c, &m);
    let mut w = Work::new(&g, 32, 1);
    w.extra = Some(&earley_check);
    w.build_counts = false;
    w.cats = &["language", "verdict", "result", "panic", "crash", "hang", "cap", "final"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random conflict-free grammars (rejection-sampled small ones, grown ones, composed idioms; with some alternatives, classes and optional symbols), each compiled by the macro and driven with derived sentences, edited sentences, random walks and one input per sampled automaton cell. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
/// Automaton-free check of C02: replay the logged actions against a stack of
/// (symbol, value) and require every action to reduce a suffix that is
/// literally its right-hand side.
pub fn derivation_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    let s = &c.spec;
    if c.g.has_features() || s.extra_token || r.syn.iter().any(|d| *d == 0) || !r.fail.is_empty() {
        return Ok(());
    }
    if s.rules.iter().any(|r| r.act == Act::Empty || r.rhs.iter().any(|x| x.opt || !matches!(x.it, Item::T(_) | Item::N(_)))) {
        return Ok(());
    }
    #[derive(Debug)]
    enum Y {
        T(usize),
        N(usize),
    }
    let mut st: Vec<(Y, Vec<u32>)> = vec![];
    let mut pend: Option<(usize, Vec<u32>)> = None;
    let mut ok = false;
    for e in events(log) {
        match e.code {
            k::TOK => pend = Some((e.b[0] as usize, e.b[1..].to_vec())),
            k::RETOK => {
                if let Some((t, v)) = pend.take() {
                    st.push((Y::T(t), v));
                }
            }
            k::RED => {
                let ri = e.b[0] as usize;
                let ru = &s.rules[ri];
                let n = ru.rhs.len();
                if st.len() < n {
                    return err("reduce", format!("action of rule #{} `{}` with only {} symbols derived", ri, s.rule_head(ru), st.len()));
                }
                let ch = st.split_off(st.len() - n);
                let mut p = 7;
                for (i, x) in ru.rhs.iter().enumerate() {
                    let same = match (&x.it, &ch[i].0) {
                        (Item::T(a), Y::T(b)) => a == b,
                        (Item::N(a), Y::N(b)) => a == b,
                        _ => false,
                    };
                    if !same {
                        return err("reduce", format!("action of rule #{} `{}` runs when its symbol {} is {:?} on the derivation", ri, s.rule_head(ru), i, ch[i].0));
                    }
                    if !matches!(x.alias, Alias::No | Alias::Under) {
                        let len = e.b[p] as usize;
                        let got = &e.b[p + 1..p + 1 + len];
                        p += 1 + len;
                        if got != &ch[i].1[..] {
                            return err("value", format!("action of rule #{} `{}`: alias of symbol {} is {:?}, the symbol's value is {:?}", ri, s.rule_head(ru), i, got, ch[i].1));
                        }
                    }
                }
                let val = match ru.act {
                    Act::Fwd(j) => ch[j].1.clone(),
                    _ if s.nty(ru.lhs) == Ty::Unit => vec![0],
                    _ => vec![e.b[3]],
                };
                st.push((Y::N(ru.lhs), val));
                acc.note("derivation_steps_replayed", 1);
            }
            k::RESULT => {
                let n = e.b[0] as usize;
                let got = &e.b[1..1 + n];
                match &st[..] {
                    [(Y::N(k), v)] if *k == s.start => {
                        if got != &v[..] {
                            return err("result", format!("the result is {:?}, the start symbol's value is {:?}", got, v));
                        }
                    }
                    _ => return err("reduce", format!("success with {} unreduced symbols", st.len())),
                }
                ok = true;
            }
            _ => {}
        }
    }
    if ok {
        acc.note("derivations_replayed_completely", 1);
    }
    Ok(())
}
pub fn c02(ctl: &Ctl) -> Res<Outcome> {
    let a = Cfg::plain();
    let b = Cfg { alt: 8, class: 6, opt: 8, extra_token: 20, default_ty: 15, deco: 1, prec: 15, ..Cfg::plain() };
    let f = Cfg { err: 4, bare: 5, ..Cfg::mixed() };
    let m = Mix { derived: ctl.q(20, 32), edited: 6, walks: 10, cells: 10, len: 36, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n / 3, &a, &m);
        v.extend(gen_cases(rng, n / 3, &b, &m));
        v.extend(gen_cases(rng, n - n / 3 * 2, &f, &Mix { tolerate: 40, ..m.clone() }));
        v
    };
    let mut w = Work::new(&g, 32, 1);
    w.extra = Some(&derivation_check);
    w.build_counts = false;
    w.cats = &["reduce", "value", "result", "action", "verdict", "panic", "crash", "hang", "cap", "final"];
    w.share = 0.8;
    let mut acc = campaign(ctl, &w)?;
    acc.add(crate::p_group::same_text(ctl, 12, 0.2)?);
    Ok(Outcome {
        acc,
        rule: "Random conflict-free grammars whose every action logs its rule, the identities its aliases are bound to and the identity it builds; those without further features are checked by an automaton-free replay of the logged reductions on a symbol stack, all against the reference automaton. In a further group many rules have actions with exactly the same text, with their aliases at different places, compared with the same grammar with distinct actions. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn bound_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    earley_check(c, r, log, acc)?;
    // Work per call: within one call the parser can reduce each stack entry and
    // add chains of unit and empty rules, at most (rules + 1) per stack level.
    let per = c.g.rules.len() + 1;
    let mut built = 1usize;
    let mut n = 0usize;
    let mut max = 0;
    for e in events(log) {
        match e.code {
            k::CALL => {
                n = 0;
                built += 1;
            }
            k::RED => {
                n += 1;
                max = max.max(n);
                if n > (built + 1) * per * (c.g.nn + 1) {
                    return err("bound", format!("{} actions in one call after {} tokens", n, built));
                }
            }
            _ => {}
        }
    }
    let m = acc.extra.entry("max_actions_in_one_call".into()).or_insert(0);
    *m = (*m).max(max as u64);
    Ok(())
}
pub fn c05(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { alt: 5, class: 3, opt: 8, ..Cfg::plain() };
    let m = Mix { derived: 4, edited: ctl.q(16, 24), walks: 12, cells: ctl.q(30, 60), len: 24, cut: 0, ..Mix::plain(0) };
    let ce = Cfg { err: 10, ..c.clone() };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n - n / 4, &c, &m);
        v.extend(gen_cases(rng, n / 4, &ce, &Mix { tolerate: 40, ..m.clone() }));
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.extra = Some(&bound_check);
    w.build_counts = false;
    w.cats = &["language", "bound", "verdict", "handler", "reduce", "panic", "crash", "hang", "cap", "final"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random conflict-free grammars without precedence, fallback or wildcard, some with the error symbol; inputs aimed at errors: a shortest prefix to each automaton state followed by every kind of token, edited sentences, walks with bad tokens. The Earley recogniser (the reference machine when the error symbol is used) says for each call whether it must report an error. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn c06(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { wildcard: 20, fallback: 20, prec: 25, extra_token: 25, default_ty: 15, deco: 1, ..Cfg::mixed() };
    let plain = Cfg::plain();
    let ce = Cfg { err: 8, ..c.clone() };
    let m = Mix { derived: 3, edited: 14, walks: 14, cells: ctl.q(28, 50), len: 20, tolerate: 50, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n / 3, &Cfg { bare: 0, handlers: 100, ..c.clone() }, &m);
        v.extend(gen_cases(rng, n / 3, &plain, &m));
        v.extend(gen_cases(rng, n - n / 3 * 2, &Cfg { bare: 0, handlers: 100, ..ce.clone() }, &m));
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.build_counts = false;
    w.extra = Some(&expect_check);
    w.cats = &["expected", "token", "handler", "errval", "extra", "verdict", "panic", "crash", "hang", "cap", "final"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications with and without the error symbol, fallback, wildcard, precedence and common token data; erroneous inputs at sampled automaton cells. The handler logs the token, its payload identity, the extra argument and every expected token with name and value. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: eoi_handler(ctl)?,
    })
}
/// The documentation gives %syntax_error no token for an error at end-of-input; is it run at all?
fn eoi_handler(ctl: &Ctl) -> Res<Vec<(String, String, String)>> {
    let mut s = Spec::new(2, 1);
    s.rule(0, vec![t(0), t(1)]);
    let c = Case::of(s, "fixed");
    let u = unit_of(0, &c);
    let (bins, _) = ctl.sub.build_bins_seq(&[u.clone()], &Opts::default())?;
    let Some(b) = bins.first() else { return Ok(vec![]) };
    let mut r = Run::default();
    r.ops = vec![0, OP_EOI];
    r.syn = vec![1];
    let res = ctl.sub.run_bin(&b.path, &[(0, r)], 20)?;
    let Some(Some(l)) = res.logs.first() else { return Ok(vec![]) };
    if events(l).iter().any(|e| e.code == k::SYN) {
        return Ok(vec![]);
    }
    let what = "%syntax_error does not run for a syntax error at end-of-input (input `A` for `n0 ::= A B`): only %parse_fail does";
    Ok(vec![("eoi-no-handler".into(), what.into(), format!("{}
----- source
{}
----- events
{}", what, u.text, show_log(l)))])
}
/// Automaton-free: every token that can follow what was accepted is in the
/// expected list, unless default reductions were made before the error was
/// detected (these may leave fewer continuations in the current state).
pub fn expect_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    if c.g.has_features() || !r.fail.is_empty() || r.syn.iter().any(|d| *d == 0) || hidden(c) {
        return Ok(());
    }
    let Some(toks) = plain_tokens(r) else { return Ok(()) };
    if !unlimited(c, toks.len()) {
        return Ok(());
    }
    let mut e = Earley::new(&c.g);
    let mut i = 0;
    let mut reduced = false;
    for ev in events(log) {
        match ev.code {
            k::CALL => reduced = false,
            k::RED => reduced = true,
            k::SYN if reduced => return Ok(()),
            k::RETOK => {
                if i < toks.len() {
                    e.advance(toks[i]);
                    i += 1;
                }
            }
            k::SYN => {
                let b = ev.b;
                let mut p = 5;
                p += if b[p] == 0 { 1 } else { 3 + b[p + 2] as usize };
                let n = b[p] as usize;
                p += 1;
                let mut names = vec![];
                for _ in 0..n {
                    names.push(b[p] as usize + 1);
                    p += 1;
                    p += if b[p] == 0 { 1 } else { 3 + b[p + 2] as usize };
                }
                let next = e.next_terminals();
                acc.note("expected_lists_checked_against_earley", 1);
                for t in &next {
                    if *t != 0 && !names.contains(t) {
                        return err("expected", format!("token {} can follow but is not in the expected list {:?}", t, names));
                    }
                }
                return Ok(());
            }
            k::RETERR => return Ok(()),
            _ => {}
        }
    }
    Ok(())
}
/// C08: an independent oracle for grammars without features: with a tolerant
/// handler the tokens that are not viable are dropped, and the handler runs
/// for a bad token exactly when none was dropped within the last three shifts.
pub fn drop_check(c: &Case, r: &Run, log: &[u32], acc: &mut Acc) -> Result<(), Bad> {
    if c.g.has_features() || !r.fail.is_empty() || c.spec.syn != Hand::Log || hidden(c) {
        return Ok(());
    }
    if r.ops.iter().any(|o| *o > OP_EOI && *o != OP_BUMP && *o != OP_READ) {
        return Ok(());
    }
    let n = r.ops.len();
    if !unlimited(c, n) {
        return Ok(());
    }
    let mut e = Earley::new(&c.g);
    let mut ec = 0;
    let mut syn_i = 0;
    let evs = events(log);
    let mut i = 0;
    let mut call = 0;
    while i < evs.len() {
        if evs[i].code != k::CALL {
            i += 1;
            continue;
        }
        let op = evs[i].b[0];
        let a = i + 1;
        i += 1;
        while i < evs.len() && evs[i].code != k::CALL && evs[i].code != k::END {
            i += 1;
        }
        if op > OP_EOI {
            continue;
        }
        call += 1;
        let ran = evs[a..i].iter().filter(|e| e.code == k::SYN).count();
        let okay = evs[a..i].iter().any(|e| matches!(e.code, k::RETOK | k::RESULT));
        let (want_ran, want_ok) = if op == OP_EOI {
            (evs[a..i].iter().filter(|e| e.code == k::SYN).count(), e.accepts())
        } else if e.viable(op as usize + 1) {
            e.advance(op as usize + 1);
            ec = if ec > 0 { ec - 1 } else { 0 };
            (0, true)
        } else if ec > 0 {
            ec = 3;
            acc.note("tokens_dropped_while_throttled", 1);
            if evs[a..i].iter().any(|e| e.code == k::RED) {
                // default reductions may precede the detection of an error; what they exclude is
                // for the reference automaton to judge
                return Ok(());
            }
            (0, true)
        } else {
            let d = r.syn.get(syn_i).copied().unwrap_or_else(|| r.syn.last().copied().unwrap_or(1));
            syn_i += 1;
            ec = 3;
            acc.note("tokens_dropped_by_the_handler", (d == 0) as u64);
            if evs[a..i].iter().any(|e| e.code == k::RED) {
                return Ok(());
            }
            (1, d == 0)
        };
        if ran != want_ran {
            return err("handler", format!("call {}: the syntax error handler ran {} times, should be {}", call, ran, want_ran));
        }
        if okay != want_ok {
            return err("verdict", format!("call {}: success is {}, should be {}", call, okay, want_ok));
        }
        if op == OP_EOI && !want_ok && c.spec.pf == Hand::Log && evs[a..i].iter().filter(|e| e.code == k::PFAIL).count() != 1 {
            return err("handler", format!("call {}: end of input failed without the parse failure handler", call));
        }
        if !want_ok || op == OP_EOI {
            acc.note("runs_decided_by_earley_with_drops", 1);
            return Ok(());
        }
    }
    Ok(())
}
pub fn c08(ctl: &Ctl) -> Res<Outcome> {
    let a = Cfg { alt: 5, ..Cfg::plain() };
    let b = Cfg { err: 0, bare: 0, handlers: 90, ..Cfg::mixed() };
    let m = Mix { derived: 3, edited: 22, walks: 22, cells: ctl.q(12, 20), len: 40, tolerate: 100, access: 5, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n / 2, &a, &m);
        v.extend(gen_cases(rng, n - n / 2, &b, &m));
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.build_counts = false;
    w.extra = Some(&drop_check);
    w.cats = &["verdict", "handler", "reduce", "value", "result", "panic", "crash", "hang", "cap", "final", "leak"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications without the error symbol, handlers that tolerate all, some or the first few errors, inputs with bursts of bad tokens. Half are judged call by call by an Earley recogniser that skips the dropped tokens and counts the throttle. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn c07(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 14, wildcard: 10, fallback: 15, prec: 20, extra_token: 15, default_ty: 10, bare: 5, ..Cfg::mixed() };
    let m = Mix { derived: 4, edited: 18, walks: 24, cells: ctl.q(26, 40), len: 40, tolerate: 92, fail: 4, cut: 5, access: 5, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = vec![];
        let mut tries = 0;
        while v.len() < n && tries < n * 30 {
            tries += 1;
            let case = spec(rng, &c);
            if case.g.uses_err {
                let r = runs(rng, &case, &m);
                v.push((case, r));
            }
        }
        v
    };
    let w = Work::new(&g, 28, 1);
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications that use the error symbol in at least one rule; erroneous inputs with tolerant and intolerant handlers. The monitor replays popping, the shift of the error symbol with the handler's value, the skipping and the resynchronisation. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn c09(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 5, bare: 12, handlers: 60, ..Cfg::mixed() };
    let m = Mix { derived: 8, edited: 14, walks: 12, cells: ctl.q(12, 20), len: 24, tolerate: 45, fail: 55, cut: 3, access: 15, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n, &c, &m);
        for (case, rs) in v.iter_mut() {
            if rng.pct(30) {
                case.spec.stack = Some((rng.range(2, 9), None));
            }
            for r in rs.iter_mut() {
                if rng.pct(60) {
                    r.flags |= F_AGAIN;
                }
            }
        }
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.build_counts = false;
    w.cats = &["errval", "final", "handler", "verdict", "overflow", "result", "panic", "crash", "hang", "cap"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications with handlers present or absent, small stack limits in a third of them, actions that fail at a planned point, intolerant handlers; every error value has an identity; most runs go on calling a failed parser. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn c10(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 5, bare: 0, handlers: 90, ..Cfg::mixed() };
    let m = Mix { derived: 12, edited: 12, walks: 12, cells: 10, len: 24, tolerate: 60, fail: 20, cut: 10, access: 90, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n, &c, &m);
        for (case, rs) in v.iter_mut() {
            if rng.pct(25) {
                case.spec.stack = Some((rng.range(2, 9), None));
            }
            for r in rs.iter_mut() {
                // read the extra argument after a failure too
                if rng.pct(50) {
                    r.flags |= F_AGAIN;
                    let k = r.ops.len() - 1;
                    r.ops.insert(k, *rng.pick(&[OP_READ, OP_BUMP, OP_READ]));
                }
                if rng.pct(10) {
                    r.ops.pop();
                    r.ops.push(OP_INTO);
                }
            }
        }
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.build_counts = false;
    w.cats = &["extra", "panic", "crash", "final"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications with an extra argument that is a counter plus an order-sensitive hash; every action, handler and accessor updates it and logs it, before and after failures. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
pub fn c24(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 12, bare: 3, ..Cfg::mixed() };
    let m = Mix { derived: 8, edited: 14, walks: 10, cells: 8, len: 24, tolerate: 70, fail: 15, cut: 15, access: 25, droplog: true, ..Mix::plain(0) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n, &c, &m);
        for (case, rs) in v.iter_mut() {
            case.spec.derives = 1 | (rng.below(4) << 1 | rng.below(3) << 4) as u8;
            if rng.pct(40) {
                let n = *rng.pick(&[0, 0, 3, 5, 9]);
                let ty = *rng.pick(&["", "", "rt::Lst", "rt::Stk", "std::vec::Vec"]);
                case.spec.stack = Some((n, (!ty.is_empty()).then(|| ty.into())));
            }
            if rng.pct(25) {
                // what a derive asks of type parameters holds for those that own their values
                for _ in 0..20 {
                    let gn = crate::p_generic::Gn::random(rng, &case.spec);
                    if gn.x < 2 && gn.parser_text.is_some() && !gn.forms.iter().any(|f| matches!(f, crate::p_generic::Form::Unsized | crate::p_generic::Form::Assoc)) && !gn.params.is_empty() {
                        case.spec.flavor = 0;
                        case.spec.extra_pair = false;
                        case.spec.gen = Some(Box::new(gn));
                        break;
                    }
                }
            }
            for r in rs.iter_mut() {
                r.flags |= F_FORK;
                if case.spec.gen.is_some() {
                    r.flags &= !F_DROPLOG;
                }
            }
        }
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.cats = &["fork", "crash"];
    let acc = campaign(ctl, &w)?;
    Ok(Outcome {
        acc,
        rule: "Random specifications with derived traits on the parser, always Clone, sometimes Debug and PartialEq, with every kind of payload, handler and stack; every run clones the parser, and clones of it, at up to four random points, and then carries all of them on in a random order, each in its own copy of the world (identities, planned failures). Every clone must produce exactly the event log of the parser it was made of, values and drops included, and own its own copy of every value. Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
/// Properties about one feature: every specification uses it, and every kind of disagreement counts.
pub fn feature(ctl: &Ctl, c: Cfg, m: Mix, want: &(dyn Fn(&Case) -> bool + Sync), chunks: usize, rule: &str) -> Res<Outcome> {
    let g = |rng: &mut Rng, n: usize| {
        let mut v = vec![];
        let mut tries = 0;
        while v.len() < n && tries < n * 60 {
            tries += 1;
            let case = spec(rng, &c);
            if want(&case) {
                let r = runs(rng, &case, &m);
                v.push((case, r));
            }
        }
        v
    };
    let w = Work::new(&g, chunks, 1);
    let acc = campaign(ctl, &w)?;
    Ok(Outcome { acc, rule: format!("{} Non-trivial: at least one action and one shift.", rule), notes: vec![], findings: vec![] })
}
pub fn c22(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 6, ..Cfg::mixed() };
    let m = Mix { tolerate: 60, fail: 25, cut: 25, access: 10, droplog: true, ..Mix::plain(ctl.q(12, 20)) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n, &c, &m);
        for (case, _) in v.iter_mut() {
            if rng.pct(25) {
                case.spec.stack = Some((rng.range(2, 9), None));
            }
        }
        v
    };
    let mut w = Work::new(&g, 28, 1);
    w.build_counts = false;
    w.cats = &["drop", "leak", "value", "result", "panic", "crash"];
    w.share = 0.75;
    let acc = std::thread::scope(|s| -> Res<Acc> {
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            let m = Mix { derived: 3, edited: 3, walks: 2, cells: 2, len: 10, tolerate: 60, fail: 25, cut: 25, access: 10, droplog: true, ..Mix::plain(0) };
            crate::p_inst::under_miri(ctl, &c, &m, ctl.q(5, 24), ctl.q(5, 8), ctl.q(3, 24), 0x22)
        });
        let mut acc = campaign(ctl, &w)?;
        acc.add(h.unwrap().join().map_err(|_| "the Miri driver panicked".to_string())??);
        Ok(acc)
    })?;
    Ok(Outcome {
        acc,
        rule: "Random specifications whose payloads, results and common token data log their own destruction; between calls the set of living values must be exactly that of the symbols on the reference stack; runs end by success, failing actions and handlers, overflow, into_extra and drops in mid-parse. A part runs under Miri, where every value owns memory (leaks, double frees). Non-trivial: at least one action and one shift.".into(),
        notes: vec![],
        findings: vec![],
    })
}
