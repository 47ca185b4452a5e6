//! C21: no_std with a fixed-capacity stack, and no allocation.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_core::*;
use crate::p_generic::Gn;
use crate::p_group::outcome;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::subject::*;

fn allocations(log: &[u32]) -> Vec<(usize, u32)> {
    let mut call = 0;
    let mut v = vec![];
    for e in events(log) {
        match e.code {
            k::CALL => call += 1,
            k::ALLOC => v.push((call, e.b[0])),
            _ => {}
        }
    }
    v
}
pub fn c21(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 6, handlers: 80, extra_token: 15, ..Cfg::mixed() };
    let mix = Mix { tolerate: 60, fail: 10, cut: 10, access: 8, ..Mix::plain(12) };
    let make = |rng: &mut Rng, n: usize, fixed: bool| {
        let mut v = gen_cases(rng, n, &cfg, &mix);
        for (c, rs) in v.iter_mut() {
            c.spec.flavor = 0;
            c.spec.stack = Some(if !fixed {
                (0, None)
            } else if rng.pct(35) {
                (rng.range(2, 8), Some("rt::Fix8".into()))
            } else {
                (rng.range(60, 100), Some("rt::Fix100".into()))
            });
            if fixed && rng.pct(12) {
                let g = Gn::random(rng, &c.spec);
                c.spec.gen = Some(Box::new(g));
            }
            for r in rs.iter_mut() {
                r.flags |= F_ALLOC;
                if c.spec.gen.is_some() {
                    r.flags &= !F_DROPLOG;
                }
            }
        }
        v
    };
    // the counter works: a Vec stack allocates
    let g0 = |rng: &mut Rng, n: usize| make(rng, n, false);
    let seen = std::sync::atomic::AtomicU64::new(0);
    let count = |_: &Case, _: &Run, log: &[u32], _: &mut Acc| -> Result<(), Bad> {
        seen.fetch_add(allocations(log).len() as u64, std::sync::atomic::Ordering::SeqCst);
        Ok(())
    };
    let mut w = Work::new(&g0, 1, 2);
    w.opts.per = 6;
    w.share = 0.0;
    w.build_counts = false;
    w.monitor = false;
    w.extra = Some(&count);
    drive_once(ctl, &w)?;
    let seen = seen.into_inner();
    if seen == 0 {
        return Err("the allocation counter sees nothing with a Vec stack".into());
    }
    let g = |rng: &mut Rng, n: usize| make(rng, n, true);
    let none = |_: &Case, _: &Run, log: &[u32], acc: &mut Acc| -> Result<(), Bad> {
        let a = allocations(log);
        acc.note("calls watched for allocations", events(log).iter().filter(|e| e.code == k::CALL).count() as u64 + 1);
        match a.first() {
            None => Ok(()),
            Some((c, n)) => Err(Bad { cat: "allocation", msg: format!("call {} (0: creation) makes {} heap allocations with a stack that never allocates", c, n) }),
        }
    };
    let mut w = Work::new(&g, 44, 1);
    w.opts.header = "#![no_std]".into();
    w.extra = Some(&none);
    let mut acc = campaign(ctl, &w)?;
    acc.note("allocations seen by the counter with a Vec stack (must not be 0)", seen);
    Ok(outcome(acc, "Random specifications in a crate without the standard library, with stacks of fixed capacity (8 and 100 entries, inline array) and limits up to the capacity. A counting global allocator is armed inside the parser and disarmed inside the runtime's callbacks: creation, feeding, errors, enumeration of the expected tokens, recovery, end and drop must not allocate; the reference machine judges the logs."))
}
fn drive_once(ctl: &Ctl, w: &Work) -> Res<()> {
    let mut rng = ctl.rng(w.stream);
    let cases = (w.gen)(&mut rng, w.opts.per);
    let mut acc = Acc::default();
    drive(ctl, w, &cases, &mut acc)
}
