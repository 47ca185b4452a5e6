//! C17: every macro input ends in a parser or a located compile error.
use crate::campaign::*;
use crate::gen::*;
use crate::p_core::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

/// Declaration lines; `true` marks the offending ones.
type Lines = Vec<(String, bool)>;

struct Fault<'a> {
    rng: &'a mut Rng,
    s: &'a Spec,
    v: Lines,
    /// The error is about the whole invocation.
    whole: bool,
}
impl<'a> Fault<'a> {
    /// Insert directive lines in this relative order at random places.
    fn dirs(&mut self, add: &[(&str, bool)]) {
        let mut at: Vec<usize> = add.iter().map(|_| self.rng.below(self.v.len() + 1)).collect();
        at.sort();
        for (k, (t, f)) in add.iter().enumerate().rev() {
            self.v.insert(at[k], (t.to_string(), *f));
        }
    }
    fn shuffled(&mut self, add: &[&str], last_bad: bool) {
        let mut a: Vec<&str> = add.to_vec();
        self.rng.shuffle(&mut a);
        let n = a.len();
        let a: Vec<(&str, bool)> = a.into_iter().enumerate().map(|(i, x)| (x, last_bad && i + 1 == n)).collect();
        self.dirs(&a);
    }
    /// Insert a rule after the first rule (which may define the start symbol).
    fn rule(&mut self, t: &str, bad: bool) {
        let first = self.v.iter().position(|x| x.0.contains("::=")).unwrap();
        let p = self.rng.range(first + 1, self.v.len());
        self.v.insert(p, (t.to_string(), bad));
    }
    fn remove(&mut self, prefix: &str) {
        self.v.retain(|x| !x.0.starts_with(prefix));
    }
    fn start(&self) -> String {
        self.s.nts[self.s.start].name.clone()
    }
}
const CODE: &str = "{ todo!() }";

fn fault(f: &mut Fault) -> Option<&'static str> {
    let st = f.start();
    let k = match f.rng.below(70) {
        k if k < 58 => k,
        _ => 0,
    };
    Some(match k {
        0 => {
            let m: [(&str, &str, &str, &'static str); 12] = [
                ("%module", "%module ma;", "%module mb;", "module twice"),
                ("%syntax_error", "%syntax_error { Ok(()) }", "%syntax_error { todo!() };", "syntax_error twice"),
                ("%parse_fail", "%parse_fail { }", "%parse_fail { todo!() }", "parse_fail twice"),
                ("%stack_overflow", "%stack_overflow { }", "%stack_overflow { todo!() };", "stack_overflow twice"),
                ("%error ", "%error u8;", "%error u16;", "error twice"),
                ("%extra_argument", "%extra_argument u8;", "%extra_argument u8;", "extra_argument twice"),
                ("%default_type", "%default_type u8;", "%default_type String;", "default_type twice"),
                ("%token ", "%token pub enum Token {};", "%token #[doc = \"\"] enum Token {};", "token twice"),
                ("%parser ", "%parser pub struct Parser {};", "%parser struct Parser {};", "parser twice"),
                ("%extra_token", "%extra_token u8;", "%extra_token u16;", "extra_token twice"),
                ("%stack_size", "%stack_size 3;", "%stack_size 4 Vec;", "stack_size twice"),
                ("%wildcard", "%wildcard ZA;", "%wildcard ZA;", "wildcard twice"),
            ];
            let m = f.rng.pick(&m);
            f.remove(m.0);
            f.shuffled(&[m.1, m.2], true);
            m.3
        }
        1 => {
            f.remove("%start_symbol");
            let a = format!("%start_symbol {};", st);
            let b = format!("%start_symbol {};", f.rng.pick(&f.s.nts).name);
            f.shuffled(&[&a, &b], true);
            "start_symbol twice"
        }
        2 => {
            f.remove("%start_symbol");
            f.dirs(&[("%start_symbol ZA;", true)]);
            "terminal start symbol"
        }
        3 => {
            f.remove("%wildcard");
            f.dirs(&[("%wildcard ZA;", false), ("%wildcard ZB;", true)]);
            "two wildcards"
        }
        4 => {
            let n = f.rng.pick(&f.s.nts).name.clone();
            let t = match f.rng.below(3) {
                0 => format!("%fallback {} ZA;", n),
                1 => format!("%fallback ZA {};", n),
                _ => format!("%fallback ZA ZB {} ZC;", n),
            };
            f.dirs(&[(&t, true)]);
            "fallback with a nonterminal"
        }
        5 => {
            if f.rng.pct(60) {
                f.shuffled(&["%fallback ZA ZC;", "%fallback ZB ZD ZC;"], true)
            } else {
                f.dirs(&[("%fallback ZA ZB ZC ZB;", true)])
            }
            "two fallbacks for one token"
        }
        6 | 7 => {
            let n = f.rng.range(1, 5);
            let l: Vec<String> = (0..n)
                .map(|i| {
                    // the first one stands in for the others
                    let mut l = vec![format!("ZF{}", (i + 1) % n)];
                    for j in 0..f.rng.below(3) {
                        l.insert(f.rng.below(l.len() + 1), format!("ZX{}{}", i, j));
                    }
                    format!("%fallback ZF{} {};", i, l.join(" "))
                })
                .collect();
            let l: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
            f.shuffled(&l, true);
            "fallback loop"
        }
        8 => {
            f.remove("%wildcard");
            let n = f.rng.pick(&f.s.nts).name.clone();
            f.dirs(&[(&format!("%wildcard {};", n), true)]);
            "nonterminal wildcard"
        }
        9 => {
            match f.s.wildcard {
                Some(w) => {
                    let w = &f.s.terms[w].name;
                    f.remove(&format!("%type {};", w));
                    f.dirs(&[(&format!("%type {} u8;", w), true)])
                }
                None => {
                    let (a, b) = (("%wildcard ZW;", false), ("%type ZW Vec<u8>;", true));
                    if f.rng.pct(50) {
                        f.dirs(&[a, b])
                    } else {
                        f.dirs(&[b, a])
                    }
                }
            }
            "wildcard with a type"
        }
        10 => {
            let t = f.rng.pick(&["%token_class zc ZA ZB;", "%token_class _Z ZA ZB;"]).to_string();
            f.dirs(&[(&t, true)]);
            "class is not a token"
        }
        11 => {
            f.dirs(&[("%token_class ZC;", true)]);
            "empty class"
        }
        12 => {
            let n = f.rng.pick(&f.s.nts).name.clone();
            let t = match f.rng.below(2) {
                0 => format!("%token_class ZC ZA {};", n),
                _ => format!("%token_class ZC {};", n),
            };
            f.dirs(&[(&t, true)]);
            "class with a nonterminal"
        }
        13..=17 => {
            let cl = "%token_class ZC ZA ZB;".to_string();
            let used = match f.rng.below(9) {
                0 => "%fallback ZC ZQ;".into(),
                1 => "%fallback ZQ ZC;".into(),
                2 => "%left ZC;".into(),
                3 => "%nonassoc ZQ ZC ZR;".into(),
                4 => {
                    f.remove("%wildcard");
                    "%wildcard ZC;".into()
                }
                5 => "%token_class ZD ZA ZC;".into(),
                6 => format!("{} ::= ZG ZA|ZC {}", st, CODE),
                7 => format!("{} ::= ZG ZC|ZA? {}", st, CODE),
                _ => format!("{} ::= ZG [ZC] {}", st, CODE),
            };
            if used.contains("::=") {
                f.dirs(&[(&cl, false)]);
                f.rule(&used, true);
            } else if f.rng.pct(50) {
                f.dirs(&[(&cl, false), (&used, true)]);
            } else {
                f.dirs(&[(&used, true), (&cl, false)]);
            }
            "class where a plain token is needed"
        }
        18 => {
            f.rule("Zed ::= ZA { }", true);
            "terminal on the left"
        }
        19 | 20 => {
            let n = f.rng.pick(&f.s.nts).name.clone();
            let t = match f.rng.below(3) {
                0 => format!("{} ::= ZG ZA|{} {}", st, n, CODE),
                1 => format!("{} ::= ZG {}|ZA {}", st, n, CODE),
                _ => format!("{} ::= ZG ZA|ZB|{}(x) {}", st, n, CODE),
            };
            f.rule(&t, true);
            "compound with a nonterminal"
        }
        21 => {
            let n = f.rng.pick(&f.s.nts).name.clone();
            f.rule(&format!("{} ::= ZG [{}] {}", st, n, CODE), true);
            "nonterminal as precedence symbol"
        }
        22 | 23 => {
            let l = ["%type _x u8;", "%left _x;", "%start_symbol _x;", "%wildcard _x;", "%fallback ZA _x;", "%fallback _x ZA;", "%token_class ZC _x;", "%type _ u8;"];
            let t = *f.rng.pick(&l);
            f.remove(t.split(' ').next().unwrap());
            f.dirs(&[(t, true)]);
            "name with no case"
        }
        24 | 25 => {
            let l = [
                "_x ::= ZA {}".to_string(),
                format!("{} ::= ZG _x {}", st, CODE),
                format!("{} ::= ZG ZA|_x {}", st, CODE),
                format!("{} ::= ZG [_x] {}", st, CODE),
                format!("{} ::= ZG _x?(q) {}", st, CODE),
            ];
            let t = f.rng.pick(&l).clone();
            f.rule(&t, true);
            "name with no case in a rule"
        }
        26..=28 => {
            let o: Vec<usize> = (0..f.s.nts.len()).filter(|i| *i != f.s.start).collect();
            let t = match f.rng.below(4) {
                0 if !o.is_empty() => format!("{} ::= ZG {} {}", f.s.nts[*f.rng.pick(&o)].name, st, CODE),
                1 => format!("{} ::= ZG {}? {}", st, st, CODE),
                2 => format!("{} ::= {} ZG {}", st, st, CODE),
                _ => format!("{} ::= ZG {}(a) ZH {}", st, st, CODE),
            };
            f.rule(&t, true);
            "start symbol on the right"
        }
        29 | 30 => {
            let t = match f.rng.below(3) {
                0 => "zun ::= ZA { todo!() }",
                1 => "zun ::= { todo!() }",
                _ => "zun ::= ZA zun ZB { todo!() }",
            };
            f.rule(t, true);
            "rule of an unreachable symbol"
        }
        31 | 32 => {
            let o: Vec<usize> = (0..f.s.nts.len()).filter(|i| *i != f.s.start).collect();
            let t = match f.rng.below(4) {
                0 => format!("{} ::= ZG zun {}", st, CODE),
                1 => format!("{} ::= ZG ZA zun(x) ZB {}", st, CODE),
                2 if !o.is_empty() => format!("{} ::= ZG zun {}", f.s.nts[*f.rng.pick(&o)].name, CODE),
                _ => format!("{} ::= zun ZG {}", st, CODE),
            };
            f.rule(&t, true);
            "symbol without rules"
        }
        33..=37 => {
            if f.s.default_ty.is_some() {
                return None;
            }
            f.dirs(&[("%type ZA u8;", false), ("%type ZB u16;", false)]);
            let t = match f.rng.below(6) {
                0 => format!("{} ::= ZG ZA|ZB(x) {}", st, CODE),
                1 => format!("{} ::= ZG ZA|ZU(x) {}", st, CODE),
                2 => format!("{} ::= ZG ZA|ZA|ZB(mut x) ZH {}", st, CODE),
                3 => {
                    f.dirs(&[("%token_class ZC ZA ZB;", false)]);
                    format!("{} ::= ZG ZH ZC(x) {}", st, CODE)
                }
                4 => {
                    f.dirs(&[("%token_class ZC ZB ZU;", false)]);
                    format!("{} ::= ZG ZC?(x) {}", st, CODE)
                }
                _ => format!("{} ::= ZG ZA|ZB?(x) {}", st, CODE),
            };
            f.rule(&t, true);
            "alias on tokens of different types"
        }
        38 | 39 => {
            let w = f.s.wildcard?;
            let w = &f.s.terms[w].name;
            let t = match f.rng.below(2) {
                0 => format!("{} ::= ZG {}(x) {}", st, w, CODE),
                _ => format!("{} ::= ZG ZH {}(mut x) ZH {}", st, w, CODE),
            };
            f.rule(&t, true);
            "alias on the wildcard"
        }
        40 | 41 => {
            match f.rng.below(3) {
                0 => f.shuffled(&["%left ZA ZB;", "%right ZB;"], true),
                1 => f.dirs(&[("%nonassoc ZA ZB ZA;", true)]),
                _ => f.shuffled(&["%left ZB;", "%left ZA ZB;"], true),
            }
            "precedence twice"
        }
        42 => {
            let n = f.rng.pick(&f.s.nts).name.clone();
            let t = format!("%{} ZA {};", f.rng.pick(&["left", "right", "nonassoc"]), n);
            f.dirs(&[(&t, true)]);
            "precedence of a nonterminal"
        }
        43..=45 => {
            if f.s.default_ty.is_some() || f.s.extra_token {
                return None;
            }
            f.dirs(&[("%type zn u8;", false), ("%type ZA u8;", false), ("%type ZB u8;", false)]);
            f.rule(&format!("{} ::= ZG zn {}", st, CODE), false);
            let t = match f.rng.below(5) {
                0 => "zn ::= ZU;",
                1 => "zn ::= ;",
                2 => "zn ::= ZA ZB;",
                3 => "zn ::= ZA(_x);",
                _ => "zn ::= ZU ZV;",
            };
            f.rule(t, true);
            "typed rule without code"
        }
        46 => {
            f.v.retain(|x| !x.0.contains("::="));
            f.whole = true;
            "no rules"
        }
        47..=49 => {
            f.whole = true;
            match f.rng.below(4) {
                0 => {
                    f.rule(&format!("{} ::= ZG zx {}", st, CODE), false);
                    f.rule(&format!("{} ::= ZG zy {}", st, CODE), false);
                    f.rule("zx ::= ZB { todo!() }", true);
                    f.rule("zy ::= ZB { todo!() }", true);
                }
                1 => {
                    f.rule(&format!("{} ::= ZG zx ZE {}", st, CODE), false);
                    f.rule("zx ::= zx ZO zx { todo!() }", false);
                    f.rule("zx ::= ZB { todo!() }", false);
                }
                2 => {
                    f.rule(&format!("{} ::= ZG zx {}", st, CODE), false);
                    f.rule("zx ::= ZI zx { todo!() }", false);
                    f.rule("zx ::= ZI zx ZE zx { todo!() }", false);
                    f.rule("zx ::= ZB { todo!() }", false);
                }
                _ => {
                    // one of them is never reduced
                    f.rule(&format!("{} ::= ZG ZB {}", st, CODE), true);
                    f.rule(&format!("{} ::= ZG ZB {}", st, CODE), true);
                }
            }
            "conflict"
        }
        50 => {
            let l = ["%frobnicate x;", "%Type A u8;", "%types A u8;", "%12;", "%%", "; ;", "%stack_size abc;", "%stack_size 1.5;", "%stack_size -1;", "%stack_size 99999999999999999999999;", "%left A, B;", "%module a b;", "%verbose x;", "%include x;", "%syntax_error 3;", "12 ::= A;", "%parser enum Parser {};", "%token struct Token {};", "%start_symbol 3;"];
            let t = *f.rng.pick(&l);
            f.dirs(&[(t, true)]);
            "malformed declaration"
        }
        51 => {
            if f.s.extra_token || f.s.default_ty.is_some() {
                return None;
            }
            f.shuffled(&["%type ZB u16;", "%fallback ZA ZB;"], false);
            f.dirs(&[("%type ZA u8;", true)]);
            f.rule(&format!("{} ::= ZG ZA {}", st, CODE), false);
            "fallback to another type"
        }
        52 => {
            f.remove("%token ");
            let t = *f.rng.pick(&["%token pub enum Token { A };", "%token pub enum Token { Zed(u8), };"]);
            f.dirs(&[(t, true)]);
            "variants in the token enum"
        }
        53 => {
            f.remove("%parser ");
            f.dirs(&[("%parser pub struct Parser { x: u8 };", true)]);
            "fields in the parser struct"
        }
        54 | 55 => {
            f.remove("%parser ");
            f.remove("%token ");
            let a = *f.rng.pick(&["%token pub enum Token<'a> {};", "%token pub enum Token<T> {};", "%token enum Token<const N: usize> {};"]);
            let b = *f.rng.pick(&["%parser pub struct Parser {};", "%parser pub struct Parser<'b, U> {};", "%parser struct Parser<const M: usize> {};"]);
            f.dirs(&[(a, true)]);
            f.dirs(&[(b, false)]);
            "token parameter missing from the parser"
        }
        56 => {
            let n = f.s.nts.iter().find(|x| x.ty == Ty::Unit)?.name.clone();
            f.dirs(&[(&format!("%type #[doc = \"\"] {} u8;", n), true)]);
            "attributes on a nonterminal"
        }
        57 => {
            let t = f.s.terms.iter().find(|x| x.ty != Ty::Unit).map(|x| x.name.clone()).unwrap_or_else(|| "ZT".into());
            if t == "ZT" {
                f.dirs(&[("%type ZT u8;", false)]);
            }
            // the original declaration comes first
            f.v.push((format!("%type {} u8;", t), true));
            "type twice"
        }
        _ => unreachable!(),
    })
}

fn bare_unit(id: usize, body: &str) -> Unit {
    Unit { id: id as u32, text: format!("pub mod g{} {{ use rt::*; pub fn tc() {{}} pub fn ni() {{}}\npomelo::pomelo! {{\n{}\n}}\n}}\n", id, body) }
}
fn crash_fail(e: &CErr, src: &str, acc: &mut Acc) -> bool {
    let cat = match e.kind {
        ErrKind::Crash => "crash",
        ErrKind::Hang => "hang",
        ErrKind::Diag => return false,
    };
    acc.fail(Fail {
        cat: format!("expansion {}", cat),
        msg: format!("the expansion ended by a {}: {}", cat, e.msg),
        src: src.to_string(),
        run: None,
        input: String::new(),
        log: vec![],
        size: src.len(),
    });
    true
}
fn faults(ctl: &Ctl, k: u64) -> Res<Acc> {
    let mut rng = ctl.rng(7_000_003 + k);
    let mut acc = Acc::default();
    let cfg = Cfg { err: 4, ..Cfg::mixed() };
    let mut units = vec![];
    let mut meta = vec![];
    while units.len() < 60 {
        let c = spec(&mut rng, &cfg);
        let lines: Lines = c.spec.decls().into_iter().map(|d| (d.1.replace('\n', " "), false)).collect();
        let name;
        let mut v = lines.clone();
        let mut whole = false;
        if rng.pct(4) {
            name = "none";
        } else {
            let mut f = Fault { rng: &mut rng, s: &c.spec, v: lines, whole: false };
            match fault(&mut f) {
                None => continue,
                Some(n) => name = n,
            }
            whole = f.whole;
            v = f.v;
        }
        let body: Vec<&str> = v.iter().map(|x| x.0.as_str()).collect();
        let mut bad: Vec<usize> = v.iter().enumerate().filter(|x| x.1 .1).map(|x| x.0 + 2).collect();
        if name == "malformed declaration" {
            // the unexpected token may be the next one
            bad.push(bad[0] + 1);
        }
        if whole {
            bad.push(1);
        }
        if name == "none" {
            let id = units.len();
            units.push(Unit { id: id as u32, text: c.spec.module_text(id, &body.join("\n")) });
        } else {
            units.push(bare_unit(units.len(), &body.join("\n")));
        }
        meta.push((name, bad, body.len()));
    }
    let o = Opts { per: 60, expand_only: true, ..Opts::default() };
    let (_, errs) = ctl.sub.build_bins_seq(&units, &o)?;
    let mut seen = vec![false; units.len()];
    for e in &errs {
        let i = e.id as usize;
        seen[i] = true;
        if crash_fail(e, &units[i].text, &mut acc) {
            continue;
        }
        let (name, bad, n) = &meta[i];
        let at: Vec<&(usize, usize, String)> = e.at.iter().filter(|a| a.0 >= 1 && a.0 < n + 3).collect();
        let msg = if *name == "none" {
            Some(format!("a well-formed specification is refused: {}", e.msg))
        } else if at.is_empty() || at.iter().any(|a| !bad.contains(&a.0)) {
            Some(format!("fault `{}`: reported at {:?}, the offending line of the module is {:?}: {}", name, e.at.iter().map(|a| (a.0, a.1)).collect::<Vec<_>>(), bad, e.msg))
        } else {
            acc.note("faults_reported_at_their_declaration", 1);
            let text = at[0].2.split(['`', '\'', '\n', ',']).next().unwrap_or("").trim().to_string();
            acc.note(&format!("diagnostic: {}", text), 1);
            *acc.tags.entry(format!("fault: {}", name)).or_insert(0) += 1;
            None
        };
        if let Some(m) = msg {
            acc.fail(Fail { cat: "diagnostic".into(), msg: m, src: units[i].text.clone(), run: None, input: String::new(), log: vec![], size: units[i].text.len() });
        }
    }
    for (i, s) in seen.iter().enumerate() {
        let (name, ..) = &meta[i];
        acc.runs += 1;
        acc.traces.insert(hash(&units[i].text));
        acc.nontrivial.insert(hash(&units[i].text));
        if acc.samples.len() < 2 && *name != "none" {
            acc.samples.push(format!("fault `{}` in: {}", name, units[i].text.replace('\n', " ").chars().take(700).collect::<String>()));
        }
        if !s {
            if *name == "none" {
                acc.note("well_formed_specifications_expanded", 1);
                continue;
            }
            acc.fail(Fail {
                cat: "accepted".into(),
                msg: format!("fault `{}` is not reported", name),
                src: units[i].text.clone(),
                run: None,
                input: String::new(),
                log: vec![],
                size: units[i].text.len(),
            });
        }
    }
    Ok(acc)
}

/// Split into tokens; a delimited group is one nested vector.
#[derive(Clone, Debug)]
enum Tt {
    T(String),
    G(char, Vec<Tt>),
}
fn lex(s: &str) -> Vec<Tt> {
    fn go(c: &[char], i: &mut usize, end: Option<char>) -> Vec<Tt> {
        let mut v = vec![];
        while *i < c.len() {
            let x = c[*i];
            if Some(x) == end {
                *i += 1;
                return v;
            }
            if x.is_whitespace() {
                *i += 1;
            } else if let Some(e) = match x {
                '(' => Some(')'),
                '[' => Some(']'),
                '{' => Some('}'),
                _ => None,
            } {
                *i += 1;
                v.push(Tt::G(x, go(c, i, Some(e))));
            } else if x.is_alphanumeric() || x == '_' {
                let a = *i;
                while *i < c.len() && (c[*i].is_alphanumeric() || c[*i] == '_') {
                    *i += 1;
                }
                v.push(Tt::T(c[a..*i].iter().collect()));
            } else if x == '"' {
                let a = *i;
                *i += 1;
                while *i < c.len() && c[*i] != '"' {
                    *i += 1;
                }
                *i += 1;
                v.push(Tt::T(c[a..*i].iter().collect()));
            } else if x == '\'' {
                let a = *i;
                *i += 1;
                while *i < c.len() && c[*i].is_alphanumeric() {
                    *i += 1;
                }
                v.push(Tt::T(c[a..*i].iter().collect()));
            } else {
                let mut n = 1;
                if c[*i..].starts_with(&[':', ':', '=']) {
                    n = 3;
                }
                let mut t: String = c[*i..*i + n].iter().collect();
                *i += n;
                if n == 1 && *i < c.len() && "<>:=&-.*!|+'".contains(c[*i]) && !c[*i..].starts_with(&[':', ':', '=']) {
                    // joint
                    t.push('\u{1}');
                }
                v.push(Tt::T(t));
            }
        }
        v
    }
    go(&s.chars().collect::<Vec<_>>(), &mut 0, None)
}
fn show(v: &[Tt], o: &mut String) {
    for t in v {
        match t {
            Tt::T(s) => {
                o.push_str(s.trim_end_matches('\u{1}'));
                if !s.ends_with('\u{1}') && (!s.starts_with('\'') || s.len() > 1) {
                    o.push(' ');
                }
            }
            Tt::G(c, v) => {
                o.push(*c);
                show(v, o);
                o.push(match c {
                    '(' => ')',
                    '[' => ']',
                    _ => '}',
                });
                o.push(' ');
            }
        }
    }
}
fn collect(v: &[Tt], words: &mut Vec<Tt>) {
    for t in v {
        words.push(t.clone());
        if let Tt::G(_, w) = t {
            collect(w, words);
        }
    }
}
fn fuzz_tree(rng: &mut Rng, v: &mut Vec<Tt>, pool: &[Tt], depth: usize) {
    if depth < 3 && rng.pct(25) {
        let gs: Vec<usize> = (0..v.len()).filter(|i| matches!(v[*i], Tt::G(..))).collect();
        if !gs.is_empty() {
            let i = *rng.pick(&gs);
            if let Tt::G(_, w) = &mut v[i] {
                return fuzz_tree(rng, w, pool, depth + 1);
            }
        }
    }
    let n = v.len();
    match rng.below(9) {
        0 if n > 0 => {
            v.remove(rng.below(n));
        }
        1 if n > 0 => {
            let i = rng.below(n);
            let x = v[i].clone();
            v.insert(i, x);
        }
        2 if n > 1 => {
            let (i, j) = (rng.below(n), rng.below(n));
            v.swap(i, j);
        }
        3 if n > 1 => {
            let i = rng.below(n - 1);
            v.swap(i, i + 1);
        }
        4 if n > 2 => {
            // move a stretch
            let a = rng.below(n);
            let b = rng.range(a, (a + 12).min(n - 1));
            let x: Vec<Tt> = v.drain(a..=b).collect();
            let p = rng.below(v.len() + 1);
            v.splice(p..p, x);
        }
        5 if n > 0 => {
            let i = rng.below(n);
            v[i] = rng.pick(pool).clone();
        }
        6 if n > 2 => {
            let a = rng.below(n);
            let b = rng.range(a, (a + 8).min(n - 1));
            v.drain(a..=b);
        }
        7 if n > 0 => {
            let i = rng.below(n);
            if let Tt::G(c, _) = &mut v[i] {
                *c = *rng.pick(&['(', '[', '{']);
            } else {
                let x = v[i].clone();
                v[i] = Tt::G(*rng.pick(&['(', '[', '{']), vec![x]);
            }
        }
        _ => {
            let p = rng.below(n + 1);
            v.insert(p, rng.pick(pool).clone());
        }
    }
}
/// Mutations that keep the syntax of declarations: names exchanged, declarations repeated, lost or moved, marks added.
fn shake(rng: &mut Rng, s: &Spec) -> String {
    let mut lines: Vec<String> = s
        .decls()
        .into_iter()
        .map(|d| match (d.1.find("::="), d.1.find('{')) {
            (Some(_), Some(b)) => format!("{}{{ todo!() }}", &d.1[..b]),
            _ => d.1,
        })
        .collect();
    let mut names: Vec<String> = s.terms.iter().map(|x| x.name.clone()).chain(s.nts.iter().map(|x| x.name.clone())).chain(s.classes.iter().map(|x| x.name.clone())).collect();
    names.extend(["error", "_", "_0", "_1", "New", "newn", "Token", "Parser", "self_", "extra", "token"].map(String::from));
    for _ in 0..rng.range(1, 5) {
        if lines.is_empty() {
            break;
        }
        let i = rng.below(lines.len());
        match rng.below(10) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(rng.below(lines.len() + 1), l);
            }
            2 => {
                let l = lines.remove(i);
                lines.insert(rng.below(lines.len() + 1), l);
            }
            _ => {
                // change one symbol
                let l = lines[i].clone();
                let other = rng.pick(&names).clone();
                if let Some(p) = l.find("::=") {
                    let cut = l.find('{').unwrap_or(l.len());
                    let (lhs, tail) = (l[..p].trim().to_string(), l[cut..].to_string());
                    let mut w: Vec<String> = l[p + 3..cut].trim().trim_end_matches(';').split(' ').filter(|x| !x.is_empty()).map(String::from).collect();
                    let mut lhs = lhs;
                    let n = w.len();
                    let plain = |x: &str| x.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>();
                    match rng.below(8) {
                        0 => lhs = other,
                        1 => w.insert(rng.below(n + 1), other),
                        _ if n == 0 => {}
                        2 => {
                            w.remove(rng.below(n));
                        }
                        3 => {
                            let j = rng.below(n);
                            w[j] = format!("{}|{}", plain(&w[j]), other);
                        }
                        4 => {
                            let j = rng.below(n);
                            w[j] = format!("{}?", plain(&w[j]));
                        }
                        5 => {
                            let j = rng.below(n);
                            w[j] = format!("{}{}({})", plain(&w[j]), rng.pick(&["", "?"]), rng.pick(&["x", "_", "mut y", "(a, b)", "Some(z)", "3"]));
                        }
                        6 => w.push(format!("[{}]", other)),
                        _ => {
                            let j = rng.below(n);
                            w[j] = other;
                        }
                    }
                    let tail = if tail.is_empty() && rng.pct(85) { "{ todo!() }".to_string() } else if tail.is_empty() { ";".into() } else { tail };
                    lines[i] = format!("{} ::= {} {}", lhs, w.join(" "), tail);
                } else if ["%type", "%left", "%right", "%nonassoc", "%fallback", "%token_class", "%wildcard", "%start_symbol"].iter().any(|d| l.starts_with(d)) {
                    let mut w: Vec<String> = l.trim_end_matches(';').split(' ').map(String::from).collect();
                    if l.starts_with("%type") {
                        let j = if w[1].starts_with('#') { w.iter().rposition(|x| x.ends_with(']')).map_or(1, |j| j + 1) } else { 1 };
                        if j < w.len() {
                            w[j] = other;
                        }
                    } else {
                        let j = rng.range(1, w.len() - 1);
                        match rng.below(4) {
                            0 if w.len() > 2 => {
                                w.remove(j);
                            }
                            1 => w.insert(j, other),
                            _ => w[j] = other,
                        }
                    }
                    lines[i] = format!("{};", w.join(" "));
                }
            }
        }
    }
    for l in lines.iter_mut() {
        if l.contains("::=") && l.ends_with(';') && !l.contains('{') && rng.pct(90) {
            l.truncate(l.len() - 1);
            l.push_str("{ todo!() }");
        }
    }
    lines.join("\n")
}
fn token_fuzz(ctl: &Ctl, k: u64) -> Res<Acc> {
    let mut rng = ctl.rng(8_000_003 + k);
    let mut acc = Acc::default();
    let cfg = Cfg { err: 6, ..Cfg::mixed() };
    let words = [
        "%", "::=", ";", "|", "?", "type", "module", "include", "syntax_error", "parse_fail", "stack_overflow", "left", "right", "nonassoc", "default_type", "extra_argument", "error",
        "start_symbol", "fallback", "wildcard", "token_class", "token", "verbose", "extra_token", "stack_size", "parser", "enum", "struct", "Token", "Parser", "_", "_0", "_1", "_A", "mut", "fn", "'a", "0", "18446744073709551616",
        "A", "B", "C", "n0", "n1", "n2", "K0", "<", ">", ",", "$", "#", "::", "=", "!", "self", "Self", "crate", "u8", "&", "dyn", "impl", "\"s\"", "r#type", "yy",
    ];
    let pool0: Vec<Tt> = words.iter().map(|w| Tt::T(w.to_string())).collect();
    let mut units = vec![];
    while units.len() < 100 {
        let mut c = spec(&mut rng, &cfg);
        // handler and action bodies are irrelevant here
        for r in c.spec.rules.iter_mut() {
            if rng.pct(40) {
                r.act = Act::Empty;
            }
        }
        if rng.pct(60) {
            units.push(bare_unit(units.len(), &shake(&mut rng, &c.spec)));
            continue;
        }
        let body = if rng.pct(50) { c.spec.macro_body() } else { c.spec.macro_body_shuffled(&mut rng, true) };
        let mut v = lex(&body);
        for x in v.iter_mut() {
            if let Tt::G('{', w) = x {
                w.clear();
            }
        }
        let mut pool = pool0.clone();
        collect(&v, &mut pool);
        for _ in 0..rng.range(1, 4) {
            fuzz_tree(&mut rng, &mut v, &pool, 0);
            if rng.pct(35) {
                break;
            }
        }
        let mut t = String::new();
        show(&v, &mut t);
        // `%` at the end of a line comment or the like cannot happen: no slashes are generated
        if t.contains("//") || t.contains("/*") {
            continue;
        }
        units.push(bare_unit(units.len(), &t));
    }
    let o = Opts { per: 100, expand_only: true, cpu: 60, ..Opts::default() };
    let (_, errs) = ctl.sub.build_bins_seq(&units, &o)?;
    let mut refused = 0;
    let mut accepted = units.len() as u64 - errs.len() as u64;
    for e in &errs {
        let i = e.id as usize;
        if !crash_fail(e, &units[i].text, &mut acc) {
            if e.msg.starts_with("error[") {
                // (from the compiler, about the code of actions
                accepted += 1;
                continue;
            }
            refused += 1;
            *acc.tags.entry(format!("fuzz: {}", e.msg.lines().next().unwrap_or("").split('`').next().unwrap_or("").chars().take(60).collect::<String>())).or_insert(0) += 1;
        }
    }
    acc.note("mutated_token_trees_refused", refused);
    acc.note("mutated_token_trees_accepted", accepted);
    for u in &units {
        acc.runs += 1;
        acc.nontrivial.insert(hash(&u.text));
        acc.traces.insert(hash(&u.text));
    }
    Ok(acc)
}
pub fn c17(ctl: &Ctl) -> Res<Outcome> {
    let mut acc = chunked(ctl, 24, 0.35, &|k| faults(ctl, k))?;
    acc.add(chunked(ctl, 24, 0.3, &|k| token_fuzz(ctl, k))?);
    let c = Cfg { err: 4, ..Cfg::mixed() };
    let m = Mix { tolerate: 30, ..Mix::plain(3) };
    let g = |rng: &mut Rng, n: usize| {
        let mut v = gen_cases(rng, n, &c, &m);
        for x in v.iter_mut() {
            x.0.spec.flavor = rng.next() | 1;
        }
        v
    };
    let mut w = Work::new(&g, 24, 3);
    w.cats = &["crash", "hang"];
    w.build_counts = true;
    w.share = 0.35;
    acc.add(campaign(ctl, &w)?);
    Ok(Outcome {
        acc,
        rule: "Single faults of all documented kinds planted in random well-formed specifications (the diagnostic must be at the offending declaration); random token-tree mutations of specifications (only a diagnostic or an expansion may come out); well-formed specifications with random attributes, includes, declarations of the enum and struct (must build). Non-trivial: a distinct macro input that was expanded.".into(),
        notes: vec![],
        findings: vec![],
    })
}
