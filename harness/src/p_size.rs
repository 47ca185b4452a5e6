//! C20: nothing changes as grammars and inputs grow.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::p_group::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

/// Symbols as numbered by the reference: `$`, error, default and optionals included, so that thresholds are met exactly somewhere in the swept interval.
fn symbols(c: &Case) -> usize {
    c.g.nt + c.g.nn + 2
}
fn push_rule(s: &mut Spec, lhs: usize, rhs: Vec<RhsItem>, silent: bool) {
    let r = Rule { lhs, rhs, prec: None, act: Act::Empty };
    let act = if silent && s.empty_ok(&r) { Act::Empty } else { Act::Log };
    s.rules.push(Rule { act, ..r });
}
fn fresh_t(s: &mut Spec) -> usize {
    s.terms.push(Term { name: format!("Z{}", s.terms.len()), ty: Ty::Unit, fallback: None, declare: true });
    s.terms.len() - 1
}
fn fresh_n(s: &mut Spec) -> usize {
    s.nts.push(NonTerm { name: format!("z{}", s.nts.len()), ty: Ty::Unit });
    s.nts.len() - 1
}
/// The same language plus sentences that begin with a new token.
fn pad(rng: &mut Rng, c: &Case) -> Option<(Case, String)> {
    let mut s = c.spec.clone();
    let lo = *rng.pick(&[118usize, 244, 244, 372, 500]);
    let target = rng.range(lo, lo + 16);
    let shape = rng.below(6);
    let st = s.start;
    let what;
    match shape {
        0 => {
            what = "declared tokens";
            while s.terms.len() + s.nts.len() + 3 < target {
                fresh_t(&mut s);
            }
        }
        1 => {
            what = "alternatives of the start symbol";
            // one token, one rule and one state each
            let k = if rng.pct(50) { target.saturating_sub(symbols(c)) } else { target.saturating_sub(c.l.states() + c.g.rules.len() + 5) / 2 };
            for _ in 0..k {
                let z = fresh_t(&mut s);
                push_rule(&mut s, st, vec![t(z)], true);
            }
        }
        2 => {
            what = "pairs of tokens";
            let zs: Vec<usize> = (0..rng.range(8, 15)).map(|_| fresh_t(&mut s)).collect();
            let mut n = c.l.states() + c.g.rules.len() + 5;
            'o: for a in &zs {
                for b in &zs {
                    if n >= target {
                        break 'o;
                    }
                    push_rule(&mut s, st, vec![t(*a), t(*b)], true);
                    n += 2;
                }
            }
        }
        3 => {
            what = "long right-hand sides";
            let z = fresh_t(&mut s);
            let k = rng.range(1, 2);
            for i in 0..k {
                let n = if i == 0 { target.saturating_sub(if rng.pct(50) { c.l.states() + c.g.rules.len() } else { 0 }).max(4) } else { rng.range(2, 20) };
                let mut r = vec![t(z); n];
                if i == 1 {
                    let z2 = fresh_t(&mut s);
                    r.push(t(z2));
                }
                push_rule(&mut s, st, r, false);
            }
        }
        4 => {
            what = "a chain of nonterminals";
            let z = fresh_t(&mut s);
            let k = target.saturating_sub(if rng.pct(50) { symbols(c) } else { (c.l.states() + c.g.rules.len()) / 2 }).min(260).max(3);
            let ns: Vec<usize> = (0..k).map(|_| fresh_n(&mut s)).collect();
            push_rule(&mut s, st, vec![t(z), n(ns[0])], false);
            for i in 1..k {
                push_rule(&mut s, ns[i - 1], vec![n(ns[i])], true);
            }
            push_rule(&mut s, ns[k - 1], vec![t(z)], false);
        }
        _ => {
            what = "wide rows";
            let k = target.saturating_sub(symbols(c)).max(4);
            let zs: Vec<usize> = (0..k).map(|_| fresh_t(&mut s)).collect();
            let nz = fresh_n(&mut s);
            let mut r = vec![t(zs[0])];
            for _ in 0..rng.range(2, 5) {
                let mut m = zs.clone();
                let keep = rng.range(2, k);
                rng.shuffle(&mut m);
                m.truncate(keep);
                m.sort();
                r.push(item(Item::Alt(m)));
                if rng.pct(40) {
                    r.push(n(nz));
                }
            }
            push_rule(&mut s, st, r, false);
            push_rule(&mut s, nz, vec![item(Item::Alt(zs[1..].to_vec())), t(zs[0])], false);
            if !s.rules.iter().any(|r| r.rhs.iter().any(|x| x.it == Item::N(nz))) {
                return None;
            }
        }
    }
    let p = Case::of(s, c.tag);
    if !p.clean() {
        return None;
    }
    Some((p, what.to_string()))
}
fn padded(ctl: &Ctl) -> Res<Acc> {
    let cfg = Cfg { err: 5, ..Cfg::mixed() };
    let mix = Mix { derived: 6, edited: 6, walks: 6, cells: 10, len: 20, tolerate: 40, fail: 4, cut: 4, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| loop {
        let c = spec(rng, &cfg);
        let Some((p, what)) = pad(rng, &c) else { continue };
        let mut rs = runs(rng, &c, &mix);
        rs.retain(|r| r.flags & F_DROPLOG == 0);
        let own = runs(rng, &p, &mix);
        let shared = rs.len();
        let mut all = rs.clone();
        all.extend(own);
        let text = if rng.pct(50) { p.spec.macro_body() } else { p.spec.macro_body_shuffled(rng, true) };
        let units = vec![
            GUnit { text: text_of(&c.spec, &c.spec.macro_body()), runs: rs },
            GUnit { text: text_of(&p.spec, &text), runs: all.clone() },
        ];
        let (g, l, s) = (p.g.clone(), p.l.clone(), p.spec.clone());
        let size = format!("symbols {} states+rules {}", symbols(&p) / 128 * 128, (p.l.states() + p.g.rules.len() + 5) / 128 * 128);
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            *acc.tags.entry(format!("padding: {}", what)).or_insert(0) += 1;
            *acc.tags.entry(size.clone()).or_insert(0) += 1;
            for ri in 0..all.len() {
                let b = logs[1][ri].as_ref().unwrap();
                if ri < shared {
                    let a = logs[0][ri].as_ref().unwrap();
                    if let Some(m) = same_answers(a, b) {
                        return Err((1, ri, Bad { cat: "size", msg: format!("padded with {}: {}", what, m) }));
                    }
                    acc.note("answers_compared_with_the_small_version", 1);
                }
                let mut st = Stats::default();
                if let Err(b) = Mon::new(&s, &g, &l).check(&all[ri], b, &mut st) {
                    return Err((1, ri, b));
                }
            }
            Ok(())
        };
        return Group { units, tag: c.tag, build_fails: true, names: p.spec, judge: Box::new(judge) };
    };
    let w = GWork { gen: &gen, per: 5, chunks: 32, opts: Opts { per: 4, ..Opts::default() }, share: 0.6, stream: 1 };
    group_campaign(ctl, &w)
}
/// `m` tokens in `n` consecutive positions: about m*n table entries.
fn table(m: usize, n: usize, extra: usize) -> Case {
    let mut s = Spec::new(m + extra, 2);
    s.classes.push(Class { name: "Kk".into(), members: (0..m).collect() });
    s.rule(0, (0..n).map(|_| item(Item::Class(0))).chain([crate::spec::n(1)]).collect());
    s.rule(1, vec![t(m - 1)]);
    for i in 0..extra {
        s.rule(1, vec![t(m + i)]);
    }
    Case::of(s, "wide table")
}
fn wide(ctl: &Ctl) -> Res<Acc> {
    let sizes: Vec<(usize, usize, usize)> = if ctl.thorough() {
        vec![(256, 127, 1), (256, 128, 0), (128, 254, 2), (64, 511, 1), (181, 181, 3), (255, 128, 4), (256, 255, 1), (300, 219, 2), (512, 128, 1), (127, 3, 1), (128, 2, 2)]
    } else {
        vec![(256, 127, 1), (129, 254, 0), (260, 255, 2), (127, 3, 1)]
    };
    let mut acc = Acc::default();
    let jobs: Vec<(usize, (usize, usize, usize))> = sizes.into_iter().enumerate().collect();
    let res = par_map(ctl.sub.threads, &jobs, |(k, (m, n, e))| -> Res<Acc> {
        let mut rng = ctl.rng(*k as u64 + 500);
        let mut acc = Acc::default();
        let c = table(*m, *n, *e);
        let mut rs = vec![];
        for j in 0..12 {
            let mut v: Vec<usize> = (0..*n).map(|_| rng.below(*m)).collect();
            v.push(if *e > 0 { *m + rng.below(*e) } else { *m - 1 });
            match j {
                0..=4 => {}
                5 => {
                    v.pop();
                }
                6 => v.push(0),
                7 if *e > 0 => {
                    let p = rng.below(*n);
                    v[p] = *m;
                }
                8 => *v.last_mut().unwrap() = 0,
                _ => v.truncate(rng.below(*n)),
            }
            let v: Vec<usize> = v.into_iter().map(|x| x + 1).collect();
            rs.push(Run::tokens(&v).eoi());
        }
        let g = |_: &mut Rng, _: usize| vec![];
        let mut w = Work::new(&g, 1, 9);
        w.opts.cpu = 300;
        drive(ctl, &w, &[(c, rs)], &mut acc)?;
        acc.note(&format!("table_entries_about_{}", m * n), 1);
        Ok(acc)
    });
    for r in res {
        acc.add(r?);
    }
    Ok(acc)
}
/// Long and deep inputs, checked by the program itself.
const DEEP: &str = r##"
mod list { pomelo::pomelo! { %module left; %include { } %type s u64; %type A u64; %stack_size 10; s ::= l(x) { x } %type l u64; l ::= { 0 } l ::= l(x) A(y) { x.wrapping_mul(3).wrapping_add(y) } } pub use left::*; }
mod right { pomelo::pomelo! { %module p; %type s u64; %type A u64; %stack_size 0; s ::= l(x) { x } %type l u64; l ::= { 7 } l ::= A(y) l(x) { x.wrapping_mul(3).wrapping_add(y) } } pub use p::*; }
mod nest { pomelo::pomelo! { %module p; %type s usize; %type e usize; %stack_size 0; s ::= e(x) { x } e ::= N { 1 } e ::= Open e(x) Close { x + 1 } e ::= Lb e(x) Rb { x + 1 } } pub use p::*; }
mod ops { pomelo::pomelo! { %module p; %type s i64; %type e i64; %type N i64; %stack_size 0; %left Minus; %left Times; %right Pow; s ::= e(x) { x } e ::= N; e ::= e(a) Minus e(b) { a.wrapping_sub(b) } e ::= e(a) Times e(b) { a.wrapping_mul(b) } e ::= e(a) Pow e(b) { a.wrapping_sub(b) } } pub use p::*; }
mod lim { pomelo::pomelo! { %module p; %error &'static str; %stack_size 70000; %stack_overflow { "overflow" } %syntax_error { Err("syntax") } %parse_fail { "fail" } s ::= l; l ::= ; l ::= A l; } pub use p::*; }
mod bad { pomelo::pomelo! { %module p; %error &'static str; %extra_argument (u64, u64); %stack_overflow { "overflow" } %syntax_error { extra.0 += 1; extra.1 += expected.count() as u64; Ok(()) } %parse_fail { "fail" } s ::= l; l ::= ; l ::= l A B; } pub use p::*; }
mod rec { pomelo::pomelo! { %module p; %error &'static str; %extra_argument u64; %stack_overflow { "overflow" } %syntax_error { *extra += 1; Ok(()) } %parse_fail { "fail" } s ::= l; l ::= ; l ::= l st Semi; st ::= A B; st ::= error; } pub use p::*; }
fn check(n: u64, what: &str, ok: bool) { if !ok { println!("BAD {} {}", what, n); std::process::exit(3); } println!("OK {} {}", what, n); }
fn main() {
    for n in [1u64, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, SIZE] {
        let mut p = list::Parser::new(); let mut want = 0u64;
        for i in 0..n { p.parse(list::Token::A(i)).unwrap(); want = want.wrapping_mul(3).wrapping_add(i); }
        check(n, "left recursion", p.end_of_input() == Ok(want));
        let mut p = right::Parser::new(); let mut want = 7u64;
        for i in 0..n { p.parse(right::Token::A(i)).unwrap(); }
        for i in (0..n).rev() { want = want.wrapping_mul(3).wrapping_add(i); }
        check(n, "right recursion", p.end_of_input() == Ok(want));
        let mut p = nest::Parser::new(); let k = n as usize;
        for i in 0..k { p.parse(if i % 3 == 0 { nest::Token::Open } else { nest::Token::Lb }).unwrap(); }
        p.parse(nest::Token::N).unwrap();
        for i in (0..k).rev() { p.parse(if i % 3 == 0 { nest::Token::Close } else { nest::Token::Rb }).unwrap(); }
        check(n, "nesting", p.end_of_input() == Ok(k + 1));
        let mut p = nest::Parser::new();
        for i in 0..k { p.parse(if i % 3 == 0 { nest::Token::Open } else { nest::Token::Lb }).unwrap(); }
        p.parse(nest::Token::N).unwrap();
        let mut good = true;
        for i in (0..k).rev() {
            let wrong = i == k / 2;
            let r = p.parse(if (i % 3 == 0) != wrong { nest::Token::Close } else { nest::Token::Rb });
            if wrong { good = r.is_err(); break; }
            good &= r.is_ok();
        }
        check(n, "nesting broken in the middle", good);
        drop(p);
        let mut p = ops::Parser::new(); let mut want = 0i64; let mut prod = 1i64;
        for i in 0..n as i64 {
            if i > 0 { if i % 3 == 1 { p.parse(ops::Token::Times).unwrap(); } else { p.parse(ops::Token::Minus).unwrap(); } }
            p.parse(ops::Token::N(i + 5)).unwrap();
            if i == 0 { prod = 5; } else if i % 3 == 1 { prod = prod.wrapping_mul(i + 5); } else { want = if i == 2 { prod } else { want.wrapping_sub(prod) }; prod = i + 5; }
        }
        let want = if n <= 2 { prod } else { want.wrapping_sub(prod) };
        check(n, "left-associative operators", p.end_of_input() == Ok(want));
        let mut p = ops::Parser::new(); let mut want = None;
        for i in 0..n as i64 { if i > 0 { p.parse(ops::Token::Pow).unwrap(); } p.parse(ops::Token::N(i)).unwrap(); }
        for i in (0..n as i64).rev() { want = Some(match want { None => i, Some(w) => i.wrapping_sub(w) }); }
        check(n, "right-associative operators", p.end_of_input() == Ok(want.unwrap()));
        let mut p = lim::Parser::new(); let mut at = None;
        for i in 0..n { if let Err(e) = p.parse(lim::Token::A) { at = Some((i, e)); break; } }
        // the initial entry, then one per token
        check(n, "limit", if n >= 70000 { at == Some((69999, "overflow")) } else { at.is_none() });
        if n < 70000 { let e = p.end_of_input(); check(n, "limit at the end", if n + 2 <= 70000 { e.is_ok() } else { e == Err("overflow") }); }
        let mut p = bad::Parser::new((0, 0)); let mut good = true;
        for _ in 0..n { good &= p.parse(bad::Token::B).is_ok(); }
        good &= *p.extra() == (1, 1);
        for _ in 0..4 { good &= p.parse(bad::Token::A).is_ok() && p.parse(bad::Token::B).is_ok(); }
        for _ in 0..n { good &= p.parse(bad::Token::B).is_ok(); }
        good &= *p.extra() == (2, 2);
        check(n, "dropped tokens", good && p.end_of_input().is_ok());
        let mut p = rec::Parser::new(0); let mut good = true;
        for _ in 0..n { good &= p.parse(rec::Token::B).is_ok() && p.parse(rec::Token::Semi).is_ok(); }
        check(n, "recoveries", good && p.end_of_input().is_ok_and(|r| r.1 == n));
    }
}
"##;
fn deep(ctl: &Ctl) -> Res<Acc> {
    let mut acc = Acc::default();
    let n = ctl.q(300_000, 3_000_000);
    let src = ctl.sub.work.join("deep.rs");
    let exe = ctl.sub.work.join("deep");
    let text = DEEP.replace("SIZE", &n.to_string());
    std::fs::write(&src, &text).map_err(|e| e.to_string())?;
    let mut a = ctl.sub.rustc_args();
    a.extend(["-C".into(), "opt-level=1".into(), "-C".into(), "overflow-checks=on".into(), src.display().to_string(), "-o".into(), exe.display().to_string()]);
    let out = run_limited(&a, 200, 12, Some(&ctl.sub.work))?;
    let fail = |acc: &mut Acc, cat: &str, msg: String| {
        acc.fail(Fail { cat: cat.into(), msg, src: text.clone(), run: None, input: String::new(), log: vec![], size: 0 })
    };
    if !out.ok {
        if out.stderr.contains("linking with") || out.stderr.contains("No space left") {
            return Err(tail(&out.stderr, 1000));
        }
        fail(&mut acc, "build", format!("fixed well-formed specifications do not build: {}", tail(&out.stderr, 1500)));
        return Ok(acc);
    }
    let out = run_limited(&[exe.display().to_string()], ctl.q(100, 400), 12, Some(&ctl.sub.work))?;
    let oks = out.stdout.lines().filter(|l| l.starts_with("OK ")).count() as u64;
    acc.note("long_or_deep_inputs_checked", oks);
    acc.note("longest_input_tokens", n as u64);
    acc.runs += oks;
    for l in out.stdout.lines() {
        acc.nontrivial.insert(hash(l));
    }
    if !out.ok {
        fail(&mut acc, "long input", format!("{} (signal {:?}, code {:?}) {}", out.stdout.lines().last().unwrap_or(""), out.signal, out.code, tail(&out.stderr, 500)));
    }
    Ok(acc)
}
pub fn c20(ctl: &Ctl) -> Res<Outcome> {
    let mut acc = deep(ctl)?;
    acc.add(wide(ctl)?);
    acc.add(padded(ctl)?);
    let mut o = outcome(acc, "Random specifications with all features, padded with tokens, rules, nonterminals, long right-hand sides or wide rows so that symbols or states+rules fall in 118-134, 244-260, 372-388 or 500-516; compared with the unpadded version and judged by the reference monitor. Grammars with about 32768 and 65536 table entries. Inputs of the lengths around 2^7, 2^8, 2^15, 2^16 and a large one, deep and long, over seven fixed grammars.");
    o.notes.push(("not_reached".into(), "more than 65535 states+rules or 32767 symbols (expansion time)".into()));
    Ok(o)
}
#[allow(unused)]
fn unused() {
    let _ = gen_cases;
}
