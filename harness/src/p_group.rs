//! Properties decided by running several versions of one specification side
//! by side and comparing what was observed.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;

fn bad<T>(u: usize, r: usize, cat: &'static str, msg: String) -> Result<T, (usize, usize, Bad)> {
    Err((u, r, Bad { cat, msg }))
}
fn accepted(log: &[u32]) -> bool {
    events(log).iter().any(|e| e.code == k::RESULT)
}
/// Same answers: equal logs on accepted inputs, the same failing call otherwise.
pub fn same_answers(a: &[u32], b: &[u32]) -> Option<String> {
    let (fa, fb) = (first_trouble(a), first_trouble(b));
    if fa != fb {
        return Some(format!("the first error is at call {:?}, in the reference version at {:?}", fb, fa));
    }
    if fa.is_none() && a != b {
        let (x, y) = (events(a), events(b));
        let i = (0..x.len().min(y.len())).find(|i| x[*i].code != y[*i].code || x[*i].b != y[*i].b).unwrap_or(x.len().min(y.len()));
        let sh = |v: &Vec<Ev>| v.get(i).map_or("nothing".to_string(), |e| show_log(&[&[e.b.len() as u32 + 1, e.code], e.b].concat()).trim().to_string());
        return Some(format!("observation {} differs on an input without errors: `{}`, in the reference version `{}`", i, sh(&y), sh(&x)));
    }
    None
}
pub fn outcome(acc: Acc, rule: &str) -> Outcome {
    Outcome { acc, rule: format!("{} Non-trivial: at least one action and one shift.", rule), notes: vec![], findings: vec![] }
}

/// Rules whose actions have the same text: the aliases still are those of each rule.
pub fn same_text(ctl: &Ctl, chunks: usize, share: f64) -> Res<Acc> {
    let cfg = Cfg { deco: 1, ..Cfg::plain() };
    let mix = Mix { derived: 20, edited: 6, walks: 8, cells: 8, len: 30, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| {
        let mut c = spec(rng, &cfg);
        c.spec.extra = false;
        c.spec.stack = Some((0, None));
        let rs = runs(rng, &c, &mix);
        let mut t = c.spec.clone();
        t.twins = rng.next() | 1;
        let units = vec![GUnit { text: text_of(&c.spec, &c.spec.macro_body()), runs: rs.clone() }, GUnit { text: text_of(&t, &t.macro_body()), runs: rs.clone() }];
        let (g, l, s) = (c.g.clone(), c.l.clone(), c.spec.clone());
        let same: std::collections::HashMap<String, usize> = t.rules.iter().enumerate().fold(Default::default(), |mut m, (i, r)| {
            if r.act != Act::Empty {
                *m.entry(t.rule_text(i).split_once('{').map_or(String::new(), |x| x.1.to_string())).or_default() += 1;
            }
            m
        });
        let shared = same.values().filter(|n| **n > 1).sum::<usize>() as u64;
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            acc.note("rules_whose_action_text_is_shared", shared);
            for ri in 0..rs.len() {
                let (a, b) = (logs[0][ri].as_ref().unwrap(), logs[1][ri].as_ref().unwrap());
                let mut st = Stats::default();
                if let Err(e) = Mon::new(&s, &g, &l).check(&rs[ri], a, &mut st) {
                    return Err((0, ri, e));
                }
                let (x, y) = (events(a), events(b));
                for i in 0..x.len().max(y.len()) {
                    let (Some(e), Some(f)) = (x.get(i), y.get(i)) else {
                        return bad(1, ri, "reduce", format!("{} observations, {} when the actions are told apart", y.len(), x.len()));
                    };
                    let ok = if e.code == k::RED && f.code == k::RED {
                        let tw = t.twin(e.b[0] as usize);
                        let split = |b: &[u32]| {
                            let mut v = vec![];
                            let mut p = 7;
                            while p < b.len() {
                                let n = b[p] as usize;
                                v.push(b[p + 1..p + 1 + n].to_vec());
                                p += 1 + n;
                            }
                            v
                        };
                        let (u, v) = (split(e.b), split(f.b));
                        acc.note("actions_with_shared_text_compared", 1);
                        f.b[0] as usize == tw.len() && e.b[1..7] == f.b[1..7] && u.len() == tw.len() && v.len() == tw.len() && (0..u.len()).all(|j| u[j] == v[tw[j]])
                    } else {
                        e.code == f.code && e.b == f.b
                    };
                    if !ok {
                        return bad(1, ri, "value", format!("observation {}: {} {:?}, when the actions are told apart {} {:?}", i, f.code, f.b, e.code, e.b));
                    }
                }
            }
            Ok(())
        };
        Group { units, tag: c.tag, build_fails: true, names: c.spec, judge: Box::new(judge) }
    };
    let w = GWork { gen: &gen, per: 10, chunks, opts: Opts::default(), share, stream: 9 };
    group_campaign(ctl, &w)
}

// ---------------------------------------------------------------- C11
pub fn c11(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 4, bare: 0, handlers: 85, ..Cfg::mixed() };
    let mix = Mix { derived: 8, edited: 5, walks: 6, cells: 6, len: 30, tolerate: 50, fail: 6, cut: 3, access: 5, deep: 70, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| {
        let c = spec(rng, &cfg);
        let mut rs = runs(rng, &c, &mix);
        for r in rs.iter_mut() {
            r.flags &= !F_DROPLOG;
        }
        let n1 = rng.range(1, 5);
        let n2 = rng.range(4, 12);
        let n3 = rng.range(2, 20);
        let stacks: Vec<(usize, Option<String>)> = vec![
            (0, Some("rt::Stk".into())),
            (0, None),
            (n1, None),
            (n2, Some("rt::Stk".into())),
            (n3, Some("rt::Lst".into())),
            (5000, Some("rt::Rev".into())),
        ];
        // and the default: a limit of one hundred
        let stacks: Vec<Option<(usize, Option<String>)>> = stacks.into_iter().map(Some).chain([None]).collect();
        let mut cases = vec![];
        let mut units = vec![];
        for st in &stacks {
            let mut s = c.spec.clone();
            s.stack = st.clone();
            units.push(GUnit { text: text_of(&s, &s.macro_body()), runs: rs.clone() });
            cases.push(s);
        }
        let (g, l) = (c.g.clone(), c.l.clone());
        let names = c.spec.clone();
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            for ri in 0..rs.len() {
                let full = logs[0][ri].as_ref().unwrap();
                let plain = without_stk(full);
                for ui in 0..stacks.len() {
                    let lg = logs[ui][ri].as_ref().unwrap();
                    let limit = stacks[ui].as_ref().map_or(100, |s| s.0);
                    let have = without_stk(lg);
                    // the stack as the instrumented type saw it
                    let mut max = 0;
                    for e in events(lg) {
                        if e.code == k::STK {
                            acc.note("stack_operations_observed", 1);
                            max = max.max(e.b[1] as usize);
                            if e.b[0] == 6 {
                                return bad(ui, ri, "stack", "pop on an empty stack".into());
                            }
                        }
                    }
                    if limit != 0 && max > limit {
                        return bad(ui, ri, "stack", format!("the stack holds {} entries, its limit is {}", max, limit));
                    }
                    let m = acc.extra.entry("max_entries_on_a_stack".into()).or_insert(0);
                    *m = (*m).max(max as u64);
                    // where would the limit be exceeded?
                    let fe = events(full);
                    let cut = if limit == 0 { None } else { fe.iter().position(|e| e.code == k::STK && e.b[0] == 1 && e.b[1] as usize > limit) };
                    match cut {
                        None => {
                            if have != plain {
                                return bad(ui, ri, "stack", format!("with stack {:?} the observations differ from those with an unlimited stack, although it never holds more entries than the limit", stacks[ui]));
                            }
                        }
                        Some(p) => {
                            acc.note("overflows_predicted_from_the_unlimited_run", 1);
                            let mut pre = vec![];
                            for e in &fe[..p] {
                                if e.code != k::STK {
                                    pre.push(e.b.len() as u32 + 1);
                                    pre.push(e.code);
                                    pre.extend(e.b);
                                }
                            }
                            if !have.starts_with(&pre) {
                                return bad(ui, ri, "stack", format!("with stack {:?} the observations differ before the limit is reached", stacks[ui]));
                            }
                            let rest = events(&have[pre.len()..]);
                            let want = if names.ov == Hand::Log { k::OVF } else { k::DEFERR };
                            let ok_first = rest.first().is_some_and(|e| e.code == want || (want == k::DEFERR && !names.error && e.code == k::RETERR));
                            if !ok_first {
                                return bad(ui, ri, "overflow", format!("with stack {:?} one more entry than the limit is needed, but the overflow is not reported", stacks[ui]));
                            }
                            let calm = fe[..p].iter().all(|e| !matches!(e.code, k::SYN | k::DEFERR));
                            if want == k::OVF && calm {
                                // no error so far: token present exactly when a token was being accepted
                                let is_tok = fe[p + 1..].first().is_some_and(|e| e.code == k::RETOK);
                                if (rest[0].b[3] == 1) != is_tok {
                                    return bad(ui, ri, "overflow", format!("with stack {:?} the overflow handler has token: {}, a token is being accepted: {}", stacks[ui], rest[0].b[3] == 1, is_tok));
                                }
                            }
                        }
                    }
                    let mut st = Stats::default();
                    if let Err(b) = Mon::new(&cases[ui], &g, &l).check(&rs[ri], &have, &mut st) {
                        return Err((ui, ri, b));
                    }
                    acc.note("overflow_handler_runs", st.overflows);
                }
            }
            Ok(())
        };
        Group { units, tag: c.tag, build_fails: true, names: c.spec, judge: Box::new(judge) }
    };
    let w = GWork { gen: &gen, per: 4, chunks: 24, opts: Opts::default(), share: 1.0, stream: 1 };
    let acc = group_campaign(ctl, &w)?;
    Ok(outcome(acc, "Groups of one random specification with an unlimited instrumented stack, an unlimited Vec, three small random limits (Vec, instrumented stack, linked list) and a front-growing stack, all driven with the same plans. The instrumented unlimited run predicts where each limit must be hit."))
}

// ---------------------------------------------------------------- C14, C15
#[derive(Clone, Debug)]
enum Pick {
    Same,
    Absent,
    Present,
    Member(usize),
}
/// Write the rules out: one copy per member of an alternative or class, and with and without optional symbols.
fn expand(s: &Spec, alts: bool, opts: bool) -> Option<(Spec, Vec<String>)> {
    let mut e = s.clone();
    e.rules.clear();
    e.rule_ids.clear();
    let mut texts = vec![];
    for (i, r) in s.rules.iter().enumerate() {
        let mut picks: Vec<Vec<Pick>> = vec![vec![]];
        for x in &r.rhs {
            let mut o = vec![];
            let members = match &x.it {
                Item::Alt(v) if alts => Some(v.clone()),
                Item::Class(c) if alts => Some(s.classes[*c].members.clone()),
                _ => None,
            };
            match members {
                _ if x.opt && !opts => o.push(Pick::Same),
                Some(v) => {
                    if x.opt {
                        o.push(Pick::Absent);
                    }
                    o.extend(v.into_iter().map(Pick::Member))
                }
                None => {
                    if x.opt {
                        o.extend([Pick::Absent, Pick::Present])
                    } else {
                        o.push(Pick::Same)
                    }
                }
            }
            picks = picks.into_iter().flat_map(|p| o.iter().map(move |q| { let mut p = p.clone(); p.push(q.clone()); p })).collect();
            if picks.len() > 60 {
                return None;
            }
        }
        for p in picks {
            let mut rhs = vec![];
            let mut head = format!("{} ::=", s.nts[r.lhs].name);
            let mut pre = String::new();
            let mut ch = vec![];
            for (j, x) in r.rhs.iter().enumerate() {
                let an = s.an(j);
                let it = match &p[j] {
                    Pick::Member(m) => Item::T(*m),
                    _ => x.it.clone(),
                };
                if x.opt && x.alias != Alias::No && x.alias != Alias::Under {
                    let ty = s.item_ty(x).unwrap();
                    match p[j] {
                        Pick::Absent => pre += &format!("let {}{an}: {ty} = None; ", if x.alias == Alias::Mut { "mut " } else { "" }),
                        Pick::Same => {}
                        _ => pre += &format!("let {}{an}: {ty} = Some({an}); ", if x.alias == Alias::Mut { "mut " } else { "" }),
                    }
                }
                match x.alias {
                    Alias::No | Alias::Under => {}
                    Alias::Pair => ch.push(format!("&(&l{j}, &v{j}) as &dyn Obs")),
                    _ => ch.push(format!("&{an} as &dyn Obs")),
                }
                if matches!(p[j], Pick::Absent) {
                    continue;
                }
                head += " ";
                head += &s.item_text(&it);
                let keep = matches!(p[j], Pick::Same) && x.opt;
                if keep {
                    head += "?";
                }
                head += &match x.alias {
                    Alias::No => String::new(),
                    Alias::Plain | Alias::Mut if x.opt && !keep => format!("({an})"),
                    Alias::Plain => format!("({an})"),
                    Alias::Mut => format!("(mut {an})"),
                    Alias::Pair => format!("((l{j}, v{j}))"),
                    Alias::Under => "(_)".into(),
                };
                rhs.push(RhsItem { it, opt: keep, alias: x.alias });
            }
            if let Some(p) = r.prec {
                head += &format!(" [{}]", s.terms[p].name);
            }
            match r.act {
                Act::Empty => {
                    head += ";";
                }
                a => {
                    head += &format!(" {{ {pre}let r = rt::red::<{}, _>({}, &mut *extra, &[{}])?; ", s.err_text(), s.rid(i), ch.join(", "));
                    match (a, ty_text(s.nty(r.lhs))) {
                        (Act::Fwd(j), _) => head += &format!("{} }}", s.an(j)),
                        (_, None) => head += "}",
                        (_, Some(t)) => head += &format!("<{}>::mk(r) }}", t),
                    }
                }
            }
            texts.push(head);
            e.rules.push(Rule { lhs: r.lhs, rhs, prec: r.prec, act: r.act });
            e.rule_ids.push(s.rid(i));
        }
    }
    Some((e, texts))
}
fn expansion(ctl: &Ctl, cfg: Cfg, alts: bool, opts: bool, want: fn(&Spec) -> bool, rule: &str) -> Res<Outcome> {
    let mix = Mix { derived: 14, edited: 8, walks: 8, cells: 12, len: 24, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| loop {
        let mut c = spec(rng, &cfg);
        if !want(&c.spec) || c.spec.rules.iter().any(|r| r.act == Act::Empty && r.rhs.iter().any(|x| x.opt)) {
            continue;
        }
        c.spec.stack = Some((0, None));
        let Some((e, mut texts)) = expand(&c.spec, alts, opts) else { continue };
        let ec = Case::of(e, "expanded");
        if !ec.clean() || ec.g.nt != c.g.nt {
            continue;
        }
        let rs = runs(rng, &c, &mix);
        if !c.spec.start_dir {
            // the first rule decides the start symbol
        } else {
            rng.shuffle(&mut texts);
        }
        let keep_classes = c.spec.rules.iter().any(|r| r.rhs.iter().any(|x| matches!(x.it, Item::Class(_)) && !(alts && (!x.opt || opts))));
        let dirs: Vec<String> = c
            .spec
            .decls()
            .into_iter()
            .filter(|d| d.0 != DeclKind::Rule && (keep_classes || !d.1.starts_with("%token_class")))
            .map(|d| d.1)
            .collect();
        let ebody = format!("{}\n{}\n{}", dirs.join("\n"), mention(&c.spec), texts.join("\n"));
        let units = vec![
            GUnit { text: text_of(&c.spec, &ebody), runs: rs.clone() },
            GUnit { text: text_of(&c.spec, &c.spec.macro_body()), runs: rs.clone() },
            GUnit { text: text_of(&c.spec, &c.spec.macro_body_shuffled(rng, true)), runs: rs.clone() },
        ];
        let (g, l, s) = (c.g.clone(), c.l.clone(), c.spec.clone());
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            for ri in 0..rs.len() {
                let a = logs[0][ri].as_ref().unwrap();
                for ui in 1..logs.len() {
                    let b = logs[ui][ri].as_ref().unwrap();
                    if let Some(m) = same_answers(a, b) {
                        return bad(ui, ri, "expansion", m);
                    }
                    if accepted(b) {
                        acc.note("accepted_inputs_compared_with_the_expansion", 1);
                    } else {
                        acc.note("rejected_inputs_compared_with_the_expansion", 1);
                    }
                    let mut st = Stats::default();
                    if let Err(b) = Mon::new(&s, &g, &l).check(&rs[ri], b, &mut st) {
                        return Err((ui, ri, b));
                    }
                    acc.note("optional_symbols_seen", st.optionals);
                }
            }
            Ok(())
        };
        return Group { units, tag: c.tag, build_fails: true, names: c.spec, judge: Box::new(judge) };
    };
    let w = GWork { gen: &gen, per: 8, chunks: 24, opts: Opts::default(), share: 0.5, stream: 1 };
    let mut acc = group_campaign(ctl, &w)?;
    // and under all features against the reference automaton
    let m = Mix { tolerate: 40, fail: 5, cut: 5, ..Mix::plain(10) };
    let c2 = Cfg { err: 3, ..Cfg::mixed() };
    let c2 = Cfg { alt: cfg.alt.max(c2.alt), class: cfg.class.max(c2.class), opt: cfg.opt.max(c2.opt), ..c2 };
    let g2 = |rng: &mut Rng, n: usize| {
        let mut v = vec![];
        while v.len() < n {
            let case = spec(rng, &c2);
            if want(&case.spec) {
                let r = runs(rng, &case, &m);
                v.push((case, r));
            }
        }
        v
    };
    let mut w = Work::new(&g2, 14, 2);
    w.share = 0.35;
    acc.add(campaign(ctl, &w)?);
    // what is refused because of the expansion, and what is not
    let c3 = Cfg { extra_token: 0, default_ty: 0, ..cfg };
    acc.add(crate::p_conflict::verdicts(ctl, &[c3], &|c| want(&c.spec), 10, 0.15, if opts { 3 } else { 2 })?);
    Ok(outcome(acc, rule))
}
/// Declarations that keep every token in the enumeration when a class is written out.
fn mention(_s: &Spec) -> String {
    String::new()
}
pub fn c14(ctl: &Ctl) -> Res<Outcome> {
    expansion(
        ctl,
        Cfg { alt: 25, class: 20, opt: 5, extra_token: 20, default_ty: 10, ..Cfg::plain() },
        true,
        false,
        |s| s.rules.iter().any(|r| r.rhs.iter().any(|x| matches!(x.it, Item::Alt(_) | Item::Class(_)))),
        "Groups of one random specification with token alternatives and classes, the same with declarations shuffled, and its expansion written out by the harness (one rule per member), driven with the same inputs; plus random specifications with all features under the reference monitor, and specifications with and without conflicts that the macro must refuse or accept as the expansion.",
    )
}
pub fn c15(ctl: &Ctl) -> Res<Outcome> {
    expansion(
        ctl,
        Cfg { alt: 6, class: 6, opt: 30, extra_token: 20, default_ty: 10, ..Cfg::plain() },
        false,
        true,
        |s| s.rules.iter().any(|r| r.rhs.iter().any(|x| x.opt)),
        "Groups of one random specification with optional symbols, the same with declarations shuffled, and its expansion written out by the harness (rules with and without the symbol), driven with the same inputs; plus random specifications with all features under the reference monitor, and specifications with and without conflicts that the macro must refuse or accept as the expansion.",
    )
}
