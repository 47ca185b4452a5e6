//! One workload and oracle per property.
use crate::campaign::*;
use crate::gen::*;
use crate::p_conflict::*;
use crate::p_core::*;
use crate::p_diag::*;
use crate::p_generic::*;
use crate::p_group::*;
use crate::p_inst::*;
use crate::p_name::*;
use crate::p_nostd::*;
use crate::p_size::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

pub fn run(ctl: &Ctl) -> Res<Outcome> {
    match ctl.prop.as_str() {
        "C01" => c01(ctl),
        "C02" => c02(ctl),
        "C03" => c03(ctl),
        "C04" => c04(ctl),
        "C05" => c05(ctl),
        "C06" => c06(ctl),
        "C07" => c07(ctl),
        "C08" => c08(ctl),
        "C09" => c09(ctl),
        "C10" => c10(ctl),
        "C24" => c24(ctl),
        "C26" => crate::p_env::c26(ctl),
        "C25" => crate::p_report::c25(ctl),
        "C12" => feature(
            ctl,
            Cfg { fallback: 100, err: 3, wildcard: 20, ..Cfg::mixed() },
            Mix { cells: ctl.q(24, 40), tolerate: 40, fail: 4, cut: 4, ..Mix::plain(10) },
            &|c| c.spec.terms.iter().any(|t| t.fallback.is_some()),
            26,
            "Random specifications in which some tokens fall back to others, in chains and together with wildcard, classes, precedence and the error symbol; inputs reach sampled automaton cells with every token.",
        ),
        "C13" => feature(
            ctl,
            Cfg { wildcard: 100, err: 3, fallback: 25, ..Cfg::mixed() },
            Mix { cells: ctl.q(24, 40), tolerate: 40, fail: 4, cut: 4, ..Mix::plain(10) },
            &|c| c.spec.wildcard.is_some(),
            26,
            "Random specifications with a wildcard token; inputs reach sampled automaton cells with every token.",
        ),
        "C16" => feature(
            ctl,
            Cfg { extra_token: 45, default_ty: 35, wildcard: 12, fallback: 15, prec: 10, ..Cfg::mixed() },
            Mix { cells: 6, tolerate: 30, ..Mix::plain(8) },
            &|_| true,
            30,
            "Random specifications that mix untyped and typed symbols, %default_type and %extra_token, rules without code, pair aliases; every payload has an identity, and the token enumeration is matched exhaustively with its types.",
        ),
        "C11" => c11(ctl),
        "C14" => c14(ctl),
        "C15" => c15(ctl),
        "C17" => c17(ctl),
        "C18" => c18(ctl),
        "C19" => c19(ctl),
        "C20" => c20(ctl),
        "C21" => c21(ctl),
        "C22" => c22(ctl),
        "C23" => c23(ctl),
        "MIX" => mix(ctl),
        p => Err(format!("no such property {}", p)),
    }
}
fn mix(ctl: &Ctl) -> Res<Outcome> {
    let c = Cfg { err: 4, ..Cfg::mixed() };
    let m = Mix { droplog: true, ..Mix::all(12) };
    let g = |rng: &mut Rng, n: usize| gen_cases(rng, n, &c, &m);
    let w = Work::new(&g, 48, 1);
    let acc = campaign(ctl, &w)?;
    Ok(Outcome { acc, rule: "everything".into(), notes: vec![], findings: vec![] })
}
#[allow(dead_code)]
fn unused(_: &mut Rng, _: Ty) {}
