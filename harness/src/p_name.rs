//! C18: independence of order, names and builds.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_group::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

const TN: &[&str] = &[
    "Some", "None", "Ok", "Err", "Option", "Result", "Vec", "Box", "String", "Default", "Token", "Parser", "Iterator", "Clone", "Copy", "Drop",
    "From", "Into", "Send", "Sync", "YYMinorType", "YYStackEntry", "YYStack", "YY", "YYSTACKDEPTH", "Error", "Output", "ExpectedTokens", "E", "X", "L", "V",
    "Zed", "AAA", "Q_1", "Aé", "YYNOCODE", "YYWILDCARD", "YYERRORSYMBOL", "YYStatus", "YYMajor", "ToTokens", "BTreeMap", "PhantomData", "Fn", "Sized",
];
const NN: &[&str] = &[
    "result", "option", "yy", "yyminor", "yymajor", "yyact", "token", "tokens", "extra", "parse", "parser", "expr", "unwrap", "i32", "u8", "str", "vec",
    "x1", "zz", "aaa", "uñ", "q_2", "new", "end_of_input", "into_extra", "yyres", "yyp0", "core", "std", "list", "item", "error_list", "error2", "expected", "name", "code", "self_",
    "ok", "some", "none", "err", "drop", "stmt", "main", "default", "yystack", "wildcard", "eoi",
];
const AN: &[&str] = &[
    "yy", "yyact", "yygotominor", "yyp0", "yyp1", "token", "code", "result", "yyminor", "yymajor", "yyruleno", "yysize", "yylhsminor", "yyres", "i", "x", "v", "e", "ok", "yystack", "stateno",
    "a", "b", "zz", "top", "action", "yygoto", "f", "mem", "core", "n", "rule", "yymsp", "yypminor", "tuple", "p", "s",
];
const MN: &[&str] = &["m", "grammar", "parser2", "token", "yy", "lexer_", "tables", "z"];

fn rename(rng: &mut Rng, s: &Spec, aliases_only: bool) -> Spec {
    let mut o = s.clone();
    let mut tn: Vec<String> = TN.iter().map(|x| x.to_string()).collect();
    let mut nn: Vec<String> = NN.iter().map(|x| x.to_string()).collect();
    let mut an: Vec<String> = AN.iter().map(|x| x.to_string()).collect();
    for v in [&mut tn, &mut nn, &mut an] {
        rng.shuffle(v);
    }
    if !aliases_only {
        for (i, x) in o.terms.iter_mut().enumerate() {
            x.name = match (tn.pop(), rng.pct(60)) {
                (Some(n), true) => n,
                _ => format!("{}{}_", (b'A' + rng.below(26) as u8) as char, i),
            };
        }
        for (i, c) in o.classes.iter_mut().enumerate() {
            c.name = tn.pop().unwrap_or(format!("Cls{}", i));
        }
        for (i, x) in o.nts.iter_mut().enumerate() {
            x.name = match (nn.pop(), rng.pct(60)) {
                (Some(n), true) => n,
                _ => format!("{}{}_", (b'a' + rng.below(26) as u8) as char, i),
            };
        }
    }
    o.anames = an;
    o.module = rng.pick(MN).to_string();
    o
}
pub fn c18(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 5, bare: 0, opt: 8, ..Cfg::mixed() };
    let mix = Mix { derived: 10, edited: 8, walks: 8, cells: 8, len: 24, tolerate: 40, fail: 5, cut: 4, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| {
        let mut c = spec(rng, &cfg);
        c.spec.verbose = false;
        let rs = runs(rng, &c, &mix);
        let s = &c.spec;
        let base = text_of(s, &s.macro_body());
        let mut texts: Vec<(&'static str, bool, String)> = vec![("base", true, base.clone())];
        texts.push(("directives shuffled", false, text_of(s, &s.macro_body_shuffled(rng, false))));
        texts.push(("everything shuffled", false, text_of(s, &s.macro_body_shuffled(rng, true))));
        let r = rename(rng, s, true);
        texts.push(("other aliases and module", true, text_of(&r, &r.macro_body())));
        // a second compiler process starts here (Opts::per is 4)
        let r = rename(rng, s, false);
        texts.push(("renamed", false, text_of(&r, &r.macro_body())));
        texts.push(("another build", true, base.clone()));
        let mut r = rename(rng, s, false);
        r.verbose = rng.pct(50);
        texts.push(("renamed and shuffled", false, text_of(&r, &r.macro_body_shuffled(rng, true))));
        let mut v = s.clone();
        v.verbose = true;
        texts.push(("verbose", true, text_of(&v, &v.macro_body())));
        let units = texts.iter().map(|t| GUnit { text: t.2.clone(), runs: rs.clone() }).collect();
        let (g, l, s2) = (c.g.clone(), c.l.clone(), c.spec.clone());
        let kinds: Vec<(&'static str, bool)> = texts.iter().map(|t| (t.0, t.1)).collect();
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            for ri in 0..rs.len() {
                let a = logs[0][ri].as_ref().unwrap();
                for ui in 1..logs.len() {
                    let b = logs[ui][ri].as_ref().unwrap();
                    let (name, exact) = kinds[ui];
                    let m = if exact && a != b { Some("the observations are not identical".to_string()) } else { same_answers(a, b) };
                    if let Some(m) = m {
                        return Err((ui, ri, Bad { cat: "same behaviour", msg: format!("version `{}`: {}", name, m) }));
                    }
                    acc.note(if exact { "identical_logs_compared" } else { "answers_compared" }, 1);
                    let mut st = Stats::default();
                    if let Err(b) = Mon::new(&s2, &g, &l).check(&rs[ri], b, &mut st) {
                        return Err((ui, ri, b));
                    }
                }
            }
            Ok(())
        };
        Group { units, tag: c.tag, build_fails: true, names: c.spec, judge: Box::new(judge) }
    };
    let w = GWork { gen: &gen, per: 6, chunks: ctl.q(36, 100_000), opts: Opts { per: 4, ..Opts::default() }, share: 1.0, stream: 1 };
    let acc = group_campaign(ctl, &w)?;
    Ok(outcome(acc, "Groups of one random specification: as generated, directives shuffled, everything shuffled (precedence order and start symbol kept), aliases and module renamed, all symbols renamed to random and hostile names, renamed and shuffled, with %verbose, and the same text in a second compiler process; all driven with the same plans and compared."))
}
