//! C26: the same specification in crates of several editions and builds.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::p_group::outcome;
use crate::report::Outcome;
use crate::subject::*;

/// The harness's own items may cause warnings, the generated ones may not.
fn strict_text(t: &str) -> String {
    let mut out = String::new();
    for l in t.lines() {
        if ["fn ", "pub fn ", "impl", "pub struct ", "type ", "pub type ", "struct "].iter().any(|p| l.starts_with(p)) {
            out.push_str("#[allow(warnings)] ");
        }
        out.push_str(&l.replace(" use ", " #[allow(unused_imports)] use "));
        out.push('\n');
    }
    out
}
pub fn c26(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 8, handlers: 40, ..Cfg::mixed() };
    let mix = Mix { derived: 8, edited: 8, walks: 6, cells: 8, len: 24, tolerate: 40, fail: 10, cut: 5, deep: 25, ..Mix::plain(0) };
    let fl = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let o = || Opts { per: 12, ..Opts::default() };
    let strict = "#![deny(warnings)] #![allow(unused_parens)] #![forbid(unsafe_code)]";
    let envs: Vec<(&str, Opts)> = vec![
        ("edition 2021, unoptimised", o()),
        ("edition 2018, optimised", Opts { edition: "2018", flags: fl(&["-C", "opt-level=3"]), ..o() }),
        ("edition 2024, optimised, with overflow checks", Opts { edition: "2024", flags: fl(&["-C", "opt-level=2", "-C", "overflow-checks=on"]), ..o() }),
        ("edition 2021, optimised for size", Opts { flags: fl(&["-C", "opt-level=s"]), ..o() }),
        ("edition 2018, warnings and unsafe code forbidden", Opts { edition: "2018", header: strict.into(), check_only: true, ..o() }),
        ("edition 2021, warnings and unsafe code forbidden", Opts { header: strict.into(), check_only: true, ..o() }),
        ("edition 2024, warnings and unsafe code forbidden", Opts { edition: "2024", header: strict.into(), check_only: true, ..o() }),
    ];
    let f = |k: u64| -> Res<Acc> {
        let mut rng = ctl.rng(26_000_000 + k);
        let mut acc = Acc::default();
        let mut cases = gen_cases(&mut rng, 12, &cfg, &mix);
        for (case, rs) in cases.iter_mut() {
            if case.spec.anames.is_empty() && case.spec.twins == 0 && rng.pct(30) {
                // in capitals, as in the examples of Lemon
                case.spec.anames = (0..16).map(|i| format!("Val{}", i)).collect();
            }
            match rng.below(5) {
                0 => case.spec.derives = 1 | (rng.below(4) << 1) as u8,
                1 => {
                    case.spec.flavor = 0;
                    case.spec.extra_pair = false;
                    let gn = crate::p_generic::Gn::random(&mut rng, &case.spec);
                    case.spec.gen = Some(Box::new(gn));
                    for r in rs.iter_mut() {
                        r.flags &= !F_DROPLOG;
                    }
                    acc.note("generic specifications", 1);
                }
                _ => {}
            }
        }
        let units: Vec<Unit> = cases.iter().enumerate().map(|(i, c)| unit_of(i, &c.0)).collect();
        let mut base: Vec<Vec<Option<Vec<u32>>>> = cases.iter().map(|c| vec![None; c.1.len()]).collect();
        // the strict builds take turns
        let strict = 4 + (k % 3) as usize;
        for (ei, (name, opts)) in envs.iter().enumerate() {
            if ei >= 4 && ei != strict {
                continue;
            }
            let fail = |acc: &mut Acc, cat: &str, i: usize, ri: Option<usize>, msg: String, log: &[u32]| {
                let r = ri.map(|ri| cases[i].1[ri].clone());
                acc.fail(Fail {
                    cat: cat.into(),
                    msg: format!("{}: {}", name, msg),
                    src: units[i].text.clone(),
                    input: format!("{} || {}", cases[i].0.g_text(), r.as_ref().map_or(String::new(), |r| r.text(&cases[i].0.spec))),
                    run: r,
                    log: log.iter().copied().take(20_000).collect(),
                    size: cases[i].0.spec.rules.len() * 1000,
                })
            };
            let some = units.clone();
            let some: Vec<Unit> = if opts.check_only { some.into_iter().map(|u| Unit { text: strict_text(&u.text), ..u }).collect() } else { some };
            let (bins, errs) = ctl.sub.build_bins_seq(&some, opts)?;
            let lost: Vec<usize> = errs.iter().map(|e| e.id as usize).collect();
            for e in errs {
                fail(&mut acc, "build", e.id as usize, None, format!("does not build: {:?} {}", e.kind, e.msg), &[]);
            }
            acc.note(&format!("builds: {}", name), (some.len() - lost.len()) as u64);
            if opts.check_only {
                continue;
            }
            for b in &bins {
                let list: Vec<(u32, Run)> = b.ids.iter().flat_map(|id| cases[*id as usize].1.iter().map(|r| (*id, r.clone()))).collect();
                let at: Vec<(usize, usize)> = b.ids.iter().flat_map(|id| (0..cases[*id as usize].1.len()).map(|r| (*id as usize, r))).collect();
                let res = ctl.sub.run_bin(&b.path, &list, 60)?;
                let _ = std::fs::remove_file(&b.path);
                if let Some((i, hang, why)) = &res.stuck {
                    fail(&mut acc, if *hang { "hang" } else { "crash" }, at[*i].0, Some(at[*i].1), format!("driving the parser {}", why), &[]);
                }
                for (j, l) in res.logs.into_iter().enumerate() {
                    let (i, ri) = at[j];
                    let Some(l) = l else { continue };
                    if ei == 0 {
                        let mut st = Stats::default();
                        quick_stats(&l, &mut st);
                        acc.runs += 1;
                        let gh = hash(&units[i].text);
                        if st.actions > 0 && st.shifts > 0 {
                            acc.nontrivial.insert(hash(&(gh, &list[j].1)));
                        }
                        acc.stats.add(&st);
                        acc.traces.insert(hash(&(gh, &l)));
                        let c = &cases[i].0;
                        let mut st = Stats::default();
                        if let Err(b) = Mon::new(&c.spec, &c.g, &c.l).check(&list[j].1, &l, &mut st) {
                            *acc.other.entry(b.cat.to_string()).or_insert(0) += 1;
                        }
                        base[i][ri] = Some(l);
                    } else if let Some(b) = &base[i][ri] {
                        acc.note("logs_compared", 1);
                        acc.note("events_compared", l.len() as u64);
                        if *b != l {
                            fail(&mut acc, "same behaviour", i, Some(ri), format!("not the observations of the first build ({} and {} words, equal up to word {})", l.len(), b.len(), b.iter().zip(&l).take_while(|x| x.0 == x.1).count()), &l);
                        }
                    }
                }
            }
        }
        acc.grammars += cases.len() as u64;
        for c in &cases {
            *acc.tags.entry(c.0.tag.to_string()).or_insert(0) += 1;
        }
        Ok(acc)
    };
    let acc = chunked(ctl, 13, 1.0, &f)?;
    Ok(outcome(acc, "Random specifications of all kinds, each built in crates of several editions and with several optimisation levels and overflow and panic settings; the observations of every plan must be identical in all of them. Each is also built with warnings and unsafe code forbidden."))
}
