//! Random grammars and random inputs for them.
use crate::gram::*;
use crate::monitor::*;
use crate::rng::Rng;
use crate::spec::*;
use std::collections::{BTreeSet, HashMap};

pub struct Case {
    pub spec: Spec,
    pub g: Gram,
    pub l: Lalr,
    pub tag: &'static str,
}
impl Case {
    pub fn of(spec: Spec, tag: &'static str) -> Case {
        let g = Gram::of(&spec);
        let l = Lalr::build(&g);
        Case { spec, g, l, tag }
    }
    pub fn g_text(&self) -> String {
        let mut v: Vec<String> = self
            .spec
            .prec
            .iter()
            .map(|(a, t)| format!("%{:?} {}", a, t.iter().map(|i| self.spec.terms[*i].name.clone()).collect::<Vec<_>>().join(" ")))
            .collect();
        v.extend(self.spec.rules.iter().map(|r| self.spec.rule_head(r)));
        format!("start {}: {}", self.spec.nts[self.spec.start].name, v.join("; "))
    }
    pub fn clean(&self) -> bool {
        self.l.verdict == Verdict::Clean && !(self.l.resolved > 0 && self.g.may_loop())
    }
}

/// Probabilities (percent) of the optional features, per place where they may occur.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub alt: usize,
    pub class: usize,
    pub opt: usize,
    pub err: usize,
    pub wildcard: usize,
    pub fallback: usize,
    pub prec: usize,
    pub extra_token: usize,
    pub default_ty: usize,
    pub handlers: usize,
    /// Percent of specs without an extra argument / error type.
    pub bare: usize,
    pub deco: u8,
}
impl Cfg {
    /// Plain rules only, everything observed.
    pub fn plain() -> Cfg {
        Cfg {
            alt: 0,
            class: 0,
            opt: 0,
            err: 0,
            wildcard: 0,
            fallback: 0,
            prec: 0,
            extra_token: 0,
            default_ty: 0,
            handlers: 100,
            bare: 0,
            deco: 0,
        }
    }
    pub fn mixed() -> Cfg {
        Cfg {
            alt: 12,
            class: 8,
            opt: 12,
            err: 0,
            wildcard: 25,
            fallback: 30,
            prec: 25,
            extra_token: 25,
            default_ty: 15,
            handlers: 85,
            bare: 15,
            deco: 1,
        }
    }
}

pub fn rnd_item(rng: &mut Rng, s: &mut Spec, c: &Cfg) -> RhsItem {
    let nt = s.terms.len();
    let nn = s.nts.len();
    let mut it = if nn > 1 && rng.pct(42) {
        Item::N(rng.range(1, nn - 1))
    } else {
        Item::T(rng.below(nt))
    };
    if matches!(it, Item::T(_)) {
        if c.alt > 0 && rng.pct(c.alt) && nt >= 2 {
            let k = rng.range(2, 3.min(nt));
            let mut v: Vec<usize> = (0..nt).collect();
            rng.shuffle(&mut v);
            v.truncate(k);
            it = Item::Alt(v);
        } else if c.class > 0 && rng.pct(c.class) && nt >= 2 {
            if !s.classes.is_empty() && rng.pct(60) {
                it = Item::Class(rng.below(s.classes.len()));
            } else {
                let k = rng.range(1, 3.min(nt));
                let mut v: Vec<usize> = (0..nt).collect();
                rng.shuffle(&mut v);
                v.truncate(k);
                s.classes.push(Class { name: format!("K{}", s.classes.len()), members: v });
                it = Item::Class(s.classes.len() - 1);
            }
        }
    }
    if c.err > 0 && rng.pct(c.err) {
        return item(Item::Err);
    }
    RhsItem { it, opt: c.opt > 0 && rng.pct(c.opt), alias: Alias::No }
}
pub fn rnd_rhs(rng: &mut Rng, s: &mut Spec, c: &Cfg, max: usize) -> Vec<RhsItem> {
    let n = match rng.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=5 => 2,
        6..=8 => 3,
        _ => rng.range(0, max),
    };
    (0..n).map(|_| rnd_item(rng, s, c)).collect()
}
pub fn has_rule(s: &Spec, lhs: usize, rhs: &[RhsItem]) -> bool {
    s.rules.iter().any(|r| r.lhs == lhs && r.rhs == rhs)
}
/// A small random grammar by rejection. Not decorated.
pub fn small(rng: &mut Rng, c: &Cfg) -> Spec {
    loop {
        let nt = rng.range(1, 5);
        let nn = rng.range(1, 4);
        let mut s = Spec::new(nt, nn);
        for l in 0..nn {
            let k = if l == 0 { rng.range(1, 2) } else { rng.range(1, 3) };
            for _ in 0..k {
                let rhs = rnd_rhs(rng, &mut s, c, 5);
                if !has_rule(&s, l, &rhs) {
                    s.rule(l, rhs);
                }
            }
        }
        let case = Case::of(s, "small");
        if case.clean() && case.g.reduced() {
            return case.spec;
        }
    }
}
/// Right-recursive chains with a common text at their end: which one it was is known from the token after it, a
/// look-ahead that travels down the whole chain, around its cycles and past empty neighbours.
fn parallel_chains(rng: &mut Rng, s: &mut Spec, c: &Cfg, ri: usize) {
    if s.nts.len() > 60 || s.terms.len() > 60 {
        return;
    }
    let l = s.rules[ri].lhs;
    let new_t = |s: &mut Spec| {
        let t = s.terms.len();
        s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
        item(Item::T(t))
    };
    let new_n = |s: &mut Spec| {
        let p = s.nts.len();
        s.nts.push(NonTerm { name: format!("n{}", p), ty: Ty::Unit });
        p
    };
    let k = rng.range(1, 5);
    let mut text = rnd_rhs(rng, s, c, 2);
    if text.is_empty() || rng.pct(40) {
        text = vec![new_t(s)];
    }
    let step: Vec<RhsItem> = (0..k).map(|_| new_t(s)).collect();
    let back = if rng.pct(50) { Some((rng.below(k), rng.below(k), new_t(s))) } else { None };
    let empty: Option<usize> = if rng.pct(35) { Some(new_n(s)) } else { None };
    let at = rng.below(k);
    let mut nr = vec![];
    if let Some(e) = empty {
        nr.push((e, vec![]));
        if rng.pct(40) {
            nr.push((e, vec![new_t(s)]));
        }
    }
    // the chain is entered in several contexts, and not always at its first link
    let mut entries: Vec<(Vec<RhsItem>, usize)> = vec![];
    for i in 0..rng.range(1, 3) {
        let mut pre: Vec<RhsItem> = vec![];
        if i > 0 || rng.pct(30) {
            pre.push(new_t(s));
        }
        entries.push((pre, if rng.pct(50) { 0 } else { rng.below(k) }));
    }
    for _ in 0..rng.range(2, 3) {
        let ch: Vec<usize> = (0..k).map(|_| new_n(s)).collect();
        for (pre, at) in &entries {
            let mut head = pre.clone();
            head.push(n(ch[*at]));
            head.push(new_t(s));
            if rng.pct(20) {
                head.push(rnd_item(rng, s, c));
            }
            nr.push((l, head));
        }
        for i in 0..k {
            let mut r = if i + 1 < k {
                vec![step[i].clone(), n(ch[i + 1])]
            } else {
                text.clone()
            };
            if let (Some(e), true) = (empty, at == i) {
                r.push(n(e));
            }
            nr.push((ch[i], r));
        }
        if let Some((i, j, b)) = &back {
            nr.push((ch[*i], vec![b.clone(), n(ch[*j])]));
        }
    }
    match rng.below(3) {
        0 => nr.reverse(),
        1 => rng.shuffle(&mut nr),
        _ => {}
    }
    for (l, r) in nr {
        s.rule(l, r);
    }
}
/// Other nonterminals for the text of a rule, told apart by precedence only: several reductions compete with a shift.
fn rivals(rng: &mut Rng, s: &mut Spec, c: &Cfg, ri: usize) {
    if s.nts.len() > 60 {
        return;
    }
    let toks: Vec<usize> = s.prec.iter().flat_map(|p| p.1.iter().copied()).collect();
    // a rule with an operator, if there is one
    let mut ri = ri;
    for _ in 0..6 {
        let has_op = s.rules[ri].rhs.iter().any(|x| matches!(x.it, Item::T(t) if toks.contains(&t)));
        if has_op && s.rules[ri].rhs.len() >= 2 {
            break;
        }
        ri = rng.below(s.rules.len());
    }
    let (lhs, text) = (s.rules[ri].lhs, s.rules[ri].rhs.clone());
    if rng.pct(60) && s.rules[ri].prec.is_none() {
        s.rules[ri].prec = Some(*rng.pick(&toks));
    }
    let from = s.rules.len();
    for _ in 0..rng.range(1, 2) {
        let f = s.nts.len();
        s.nts.push(NonTerm { name: format!("n{}", f), ty: Ty::Unit });
        s.rule(f, text.clone());
        s.rules.last_mut().unwrap().prec = Some(*rng.pick(&toks));
        for _ in 0..rng.range(1, 2) {
            let mut r = vec![n(f)];
            if rng.pct(80) {
                r.push(item(Item::T(*rng.pick(&toks))));
                if rng.pct(60) {
                    r.push(rnd_item(rng, s, c));
                }
            }
            let l = if rng.pct(40) || lhs == s.start { s.start } else { lhs };
            if !has_rule(s, l, &r) {
                s.rule(l, r);
            }
        }
    }
    if rng.pct(50) {
        // their order must not matter
        let mut t = s.rules.split_off(rng.range(0, from));
        rng.shuffle(&mut t);
        s.rules.extend(t);
    }
}
pub fn mutate(rng: &mut Rng, s: &mut Spec, c: &Cfg) {
    let ri = rng.below(s.rules.len());
    match rng.below(if s.prec.is_empty() { 13 } else { 15 }) {
        13 | 14 => rivals(rng, s, c, ri),
        12 => parallel_chains(rng, s, c, ri),
        10 => {
            // the same symbol behind a chain of nonterminals, some with an empty neighbour
            if s.rules[ri].rhs.is_empty() || s.nts.len() > 60 {
                return;
            }
            let at = rng.below(s.rules[ri].rhs.len());
            if s.rules[ri].rhs[at].opt {
                return;
            }
            let k = rng.range(1, 4);
            let base = s.nts.len();
            for i in 0..k {
                s.nts.push(NonTerm { name: format!("n{}", base + i), ty: Ty::Unit });
            }
            let x = std::mem::replace(&mut s.rules[ri].rhs[at], n(base));
            let mut nr = vec![];
            for i in 0..k {
                let mut rhs = vec![if i + 1 < k { n(base + i + 1) } else { x.clone() }];
                if rng.pct(25) {
                    let e = s.nts.len();
                    s.nts.push(NonTerm { name: format!("n{}", e), ty: Ty::Unit });
                    rhs.insert(rng.below(2), n(e));
                    nr.push((e, vec![]));
                    if rng.pct(50) {
                        let it = rnd_item(rng, s, c);
                        nr.push((e, vec![it]));
                    }
                }
                nr.push((base + i, rhs));
            }
            if rng.pct(30) {
                nr.reverse();
            }
            if rng.pct(30) {
                rng.shuffle(&mut nr);
            }
            for (l, r) in nr {
                s.rule(l, r);
            }
        }
        11 => {
            // nonterminals for the same text, told apart by what follows, possibly far down
            if s.nts.len() > 60 || s.terms.len() > 60 {
                return;
            }
            let l = s.rules[ri].lhs;
            let text = rnd_rhs(rng, s, c, 2);
            let k = rng.range(2, 3);
            for _ in 0..k {
                let p = s.nts.len();
                s.nts.push(NonTerm { name: format!("n{}", p), ty: Ty::Unit });
                let mut nr = vec![(p, text.clone())];
                for _ in 0..rng.range(1, 3) {
                    let t = s.terms.len();
                    s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
                    let mut next = item(Item::T(t));
                    for _ in 0..rng.below(5) {
                        let q = s.nts.len();
                        s.nts.push(NonTerm { name: format!("n{}", q), ty: Ty::Unit });
                        let mut r = vec![next];
                        if rng.pct(25) {
                            r.push(rnd_item(rng, s, c));
                        }
                        nr.push((q, r));
                        next = n(q);
                    }
                    nr.push((l, vec![n(p), next]));
                }
                if rng.pct(60) {
                    nr.reverse();
                }
                for (l, r) in nr {
                    s.rule(l, r);
                }
            }
        }
        0 | 1 => {
            let l = rng.below(s.nts.len());
            let rhs = rnd_rhs(rng, s, c, 6);
            if !has_rule(s, l, &rhs) {
                s.rule(l, rhs);
            }
        }
        2 | 3 => {
            let it = rnd_item(rng, s, c);
            let at = rng.below(s.rules[ri].rhs.len() + 1);
            s.rules[ri].rhs.insert(at, it);
        }
        4 | 5 => {
            // a new nonterminal in place of an item or in between
            let n = s.nts.len();
            s.nts.push(NonTerm { name: format!("n{}", n), ty: Ty::Unit });
            let at = rng.below(s.rules[ri].rhs.len() + 1);
            let mut rhs = vec![];
            if at < s.rules[ri].rhs.len() && rng.pct(50) {
                rhs.push(s.rules[ri].rhs.remove(at));
            }
            let mut x = item(Item::N(n));
            x.opt = rng.pct(c.opt);
            s.rules[ri].rhs.insert(at, x);
            if rhs.is_empty() || rng.pct(50) {
                let it = rnd_item(rng, s, c);
                let p = rng.below(rhs.len() + 1);
                rhs.insert(p, it);
            }
            s.rule(n, rhs);
            if rng.pct(60) {
                // recursion or an alternative
                let mut rhs = rnd_rhs(rng, s, c, 4);
                if rng.pct(50) {
                    let p = if rng.pct(70) { 0 } else { rhs.len() };
                    rhs.insert(p, item(Item::N(n)));
                }
                if !has_rule(s, n, &rhs) {
                    s.rule(n, rhs);
                }
            }
        }
        6 => {
            let mut r = s.rules[ri].clone();
            if !r.rhs.is_empty() {
                let at = rng.below(r.rhs.len());
                r.rhs[at] = rnd_item(rng, s, c);
                if !has_rule(s, r.lhs, &r.rhs) {
                    s.rules.push(r);
                }
            }
        }
        7 => {
            // a new terminal
            let t = s.terms.len();
            s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
            let at = rng.below(s.rules[ri].rhs.len() + 1);
            let x = item(Item::T(t));
            if at < s.rules[ri].rhs.len() && rng.pct(50) {
                s.rules[ri].rhs[at] = x;
            } else {
                s.rules[ri].rhs.insert(at, x);
            }
        }
        8 => {
            if !s.rules[ri].rhs.is_empty() {
                let at = rng.below(s.rules[ri].rhs.len());
                s.rules[ri].rhs[at] = rnd_item(rng, s, c);
            }
        }
        _ => {
            if !s.rules[ri].rhs.is_empty() && rng.pct(50) {
                let at = rng.below(s.rules[ri].rhs.len());
                s.rules[ri].rhs.remove(at);
            } else if s.rules.len() > 3 {
                s.rules.remove(ri);
            }
        }
    }
}
/// Grow a grammar to about `want` rules, staying conflict-free.
pub fn grow(rng: &mut Rng, c: &Cfg, mut s: Spec, want: usize) -> Spec {
    let mut tries = 0;
    while s.rules.len() < want && tries < want * 25 {
        tries += 1;
        let mut q = s.clone();
        mutate(rng, &mut q, c);
        let mut seen = BTreeSet::new();
        if q.rules.iter().any(|r| !seen.insert(format!("{:?}{:?}", r.lhs, r.rhs))) {
            continue;
        }
        let case = Case::of(q, "grown");
        if case.clean() && case.g.reduced() {
            s = case.spec;
        }
    }
    s
}
/// Practical grammars: lists, blocks, expressions, declarations, put together at random.
pub struct Idiom<'a> {
    pub rng: &'a mut Rng,
    pub s: Spec,
    pub with_err: bool,
    pub with_opt: bool,
    pub with_alt: bool,
}
impl<'a> Idiom<'a> {
    fn term(&mut self) -> usize {
        let t = self.s.terms.len();
        self.s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
        t
    }
    fn nt(&mut self) -> usize {
        let t = self.s.nts.len();
        self.s.nts.push(NonTerm { name: format!("n{}", t), ty: Ty::Unit });
        t
    }
    fn tt(&mut self) -> RhsItem {
        let x = self.term();
        t(x)
    }
    /// A construct that starts with a token nothing else starts with.
    fn elem(&mut self, depth: usize) -> usize {
        let me = self.nt();
        let k = self.rng.below(if depth == 0 { 3 } else { 9 });
        match k {
            0 => {
                for _ in 0..self.rng.range(1, 3) {
                    let a = self.tt();
                    self.s.rule(me, vec![a]);
                }
            }
            1 => {
                let (a, b) = (self.tt(), self.tt());
                self.s.rule(me, vec![a.clone(), b]);
                let c = self.tt();
                self.s.rule(me, vec![a, c]);
            }
            2 => {
                if self.with_alt && self.rng.pct(60) {
                    let (a, b, c) = (self.term(), self.term(), self.tt());
                    self.s.rule(me, vec![item(Item::Alt(vec![a, b])), c]);
                } else {
                    let a = self.tt();
                    let b = self.tt();
                    self.s.rule(me, vec![a, b.clone(), b]);
                }
            }
            3 => {
                // bracketed list
                let l = self.list(depth - 1);
                let (o, c) = (self.tt(), self.tt());
                self.s.rule(me, vec![o.clone(), n(l), c.clone()]);
                if self.with_err {
                    self.s.rule(me, vec![o, item(Item::Err), c]);
                }
            }
            4 => {
                // optional tail
                let e = self.elem(depth - 1);
                let (o, c) = (self.tt(), self.tt());
                if self.with_opt {
                    let mut x = n(e);
                    x.opt = true;
                    self.s.rule(me, vec![o, x, c]);
                } else {
                    self.s.rule(me, vec![o.clone(), n(e), c.clone()]);
                    self.s.rule(me, vec![o, c]);
                }
            }
            5 => {
                // if / else with a mandatory end
                let (a, b) = (self.elem(depth - 1), self.elem(depth - 1));
                let (i, e, f) = (self.tt(), self.tt(), self.tt());
                self.s.rule(me, vec![i.clone(), n(a), f.clone()]);
                self.s.rule(me, vec![i, n(a), e, n(b), f]);
            }
            6 => {
                // sequence with nullable parts
                let (a, b) = (self.tt(), self.tt());
                let p = self.nt();
                let q = self.nt();
                let (x, y) = (self.tt(), self.tt());
                self.s.rule(p, vec![]);
                self.s.rule(p, vec![x]);
                self.s.rule(q, vec![]);
                self.s.rule(q, vec![y]);
                self.s.rule(me, vec![a, n(p), n(q), b]);
            }
            7 => {
                // layered expressions
                let levels = self.rng.range(1, 3);
                let mut inner = self.elem(depth - 1);
                for i in 0..levels {
                    let o = if i + 1 == levels { me } else { self.nt() };
                    let op = self.tt();
                    if self.rng.pct(60) {
                        self.s.rule(o, vec![n(o), op, n(inner)]);
                    } else {
                        self.s.rule(o, vec![n(inner), op, n(o)]);
                    }
                    self.s.rule(o, vec![n(inner)]);
                    inner = o;
                }
            }
            _ => {
                // union of constructs
                let k = self.rng.range(2, 4);
                for _ in 0..k {
                    let e = self.elem(depth - 1);
                    self.s.rule(me, vec![n(e)]);
                }
            }
        }
        me
    }
    fn list(&mut self, depth: usize) -> usize {
        let e = self.elem(depth);
        let l = self.nt();
        match self.rng.below(6) {
            0 => {
                self.s.rule(l, vec![]);
                self.s.rule(l, vec![n(l), n(e)]);
            }
            1 => {
                self.s.rule(l, vec![]);
                self.s.rule(l, vec![n(e), n(l)]);
            }
            2 => {
                let c = self.tt();
                self.s.rule(l, vec![n(e)]);
                self.s.rule(l, vec![n(l), c, n(e)]);
            }
            3 => {
                let c = self.tt();
                self.s.rule(l, vec![n(e)]);
                self.s.rule(l, vec![n(e), c, n(l)]);
            }
            4 => {
                // trailing separator allowed
                let c = self.tt();
                let k = self.nt();
                self.s.rule(k, vec![n(e)]);
                self.s.rule(k, vec![n(k), c.clone(), n(e)]);
                self.s.rule(l, vec![n(k)]);
                self.s.rule(l, vec![n(k), c]);
            }
            _ => {
                // statements
                let c = self.tt();
                self.s.rule(l, vec![]);
                self.s.rule(l, vec![n(l), n(e), c.clone()]);
                if self.with_err {
                    self.s.rule(l, vec![n(l), item(Item::Err), c]);
                }
            }
        }
        l
    }
}
pub fn idiom(rng: &mut Rng, c: &Cfg, depth: usize) -> Spec {
    loop {
        let s = Spec::new(0, 1);
        let (e, o, a) = (c.err > 0, c.opt > 0, c.alt > 0);
        let mut i = Idiom { rng, s, with_err: e, with_opt: o, with_alt: a };
        let b = if i.rng.pct(70) { i.list(depth) } else { i.elem(depth) };
        i.s.rule(0, vec![n(b)]);
        let mut s = i.s;
        // merge some terminals, as real grammars reuse punctuation
        for _ in 0..rng.below(4) {
            if s.terms.len() > 3 {
                let mut q = s.clone();
                let (x, y) = (rng.below(q.terms.len()), rng.below(q.terms.len()));
                for r in &mut q.rules {
                    for it in &mut r.rhs {
                        if it.it == Item::T(x) {
                            it.it = Item::T(y);
                        }
                    }
                }
                let mut seen = BTreeSet::new();
                if q.rules.iter().all(|r| seen.insert(format!("{:?}{:?}", r.lhs, r.rhs))) && Case::of(q.clone(), "").clean() {
                    s = q;
                }
            }
        }
        let case = Case::of(s, "idiom");
        if case.clean() {
            return case.spec;
        }
    }
}
/// Drop what nothing refers to, so that every terminal exists in the generated parser.
pub fn compact(s: &mut Spec) {
    let mut used = vec![false; s.terms.len()];
    let mut cused = vec![false; s.classes.len()];
    for r in &s.rules {
        for x in &r.rhs {
            match &x.it {
                Item::T(i) => used[*i] = true,
                Item::Alt(v) => v.iter().for_each(|i| used[*i] = true),
                Item::Class(k) => cused[*k] = true,
                _ => {}
            }
        }
        if let Some(p) = r.prec {
            used[p] = true;
        }
    }
    let cmap: Vec<Option<usize>> = {
        let mut k = 0;
        cused
            .iter()
            .map(|u| {
                u.then(|| {
                    k += 1;
                    k - 1
                })
            })
            .collect()
    };
    let mut i = 0;
    s.classes.retain(|_| {
        i += 1;
        cused[i - 1]
    });
    for k in &s.classes {
        k.members.iter().for_each(|i| used[*i] = true);
    }
    for (_, ts) in &s.prec {
        ts.iter().for_each(|i| used[*i] = true);
    }
    for (i, x) in s.terms.iter().enumerate() {
        if let Some(f) = x.fallback {
            used[f] = true;
            used[i] = true;
        }
        if s.wildcard == Some(i) || x.declare {
            used[i] = true;
        }
    }
    let tmap: Vec<usize> = {
        let mut k = 0;
        used.iter()
            .map(|u| {
                if *u {
                    k += 1;
                }
                k.max(1) - 1
            })
            .collect()
    };
    let mut i = 0;
    s.terms.retain(|_| {
        i += 1;
        used[i - 1]
    });
    for x in &mut s.terms {
        x.fallback = x.fallback.map(|f| tmap[f]);
    }
    s.wildcard = s.wildcard.map(|w| tmap[w]);
    for (_, ts) in &mut s.prec {
        ts.iter_mut().for_each(|i| *i = tmap[*i]);
    }
    for k in &mut s.classes {
        k.members.iter_mut().for_each(|i| *i = tmap[*i]);
    }
    for r in &mut s.rules {
        r.prec = r.prec.map(|p| tmap[p]);
        for x in &mut r.rhs {
            match &mut x.it {
                Item::T(i) => *i = tmap[*i],
                Item::Alt(v) => v.iter_mut().for_each(|i| *i = tmap[*i]),
                Item::Class(k) => *k = cmap[*k].unwrap(),
                _ => {}
            }
        }
    }
    // nonterminals
    let mut nused = vec![false; s.nts.len()];
    nused[s.start] = true;
    for r in &s.rules {
        nused[r.lhs] = true;
    }
    let nmap: Vec<usize> = {
        let mut k = 0;
        nused
            .iter()
            .map(|u| {
                if *u {
                    k += 1;
                }
                k.max(1) - 1
            })
            .collect()
    };
    let mut i = 0;
    s.nts.retain(|_| {
        i += 1;
        nused[i - 1]
    });
    s.start = nmap[s.start];
    for r in &mut s.rules {
        r.lhs = nmap[r.lhs];
        for x in &mut r.rhs {
            if let Item::N(k) = &mut x.it {
                *k = nmap[*k];
            }
        }
    }
}
/// Terminals that occur as such in rules.
pub fn rule_terms(s: &Spec) -> Vec<usize> {
    let mut b = BTreeSet::new();
    for r in &s.rules {
        for x in &r.rhs {
            match &x.it {
                Item::T(i) => {
                    b.insert(*i);
                }
                Item::Alt(v) => b.extend(v.iter().copied()),
                Item::Class(k) => b.extend(s.classes[*k].members.iter().copied()),
                _ => {}
            }
        }
    }
    b.into_iter().collect()
}
pub fn add_fallbacks(rng: &mut Rng, s: &mut Spec, extra: usize) {
    for _ in 0..extra {
        let t = s.terms.len();
        s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
    }
    let n = s.terms.len();
    for i in 0..n {
        let fresh = i >= n - extra;
        if s.wildcard == Some(i) || !(fresh || rng.pct(30)) {
            continue;
        }
        for _ in 0..4 {
            let f = rng.below(n);
            // acyclic
            let mut u = Some(f);
            let mut ok = f != i && s.wildcard != Some(f);
            while let Some(x) = u {
                if x == i {
                    ok = false;
                    break;
                }
                u = s.terms[x].fallback;
            }
            if ok {
                s.terms[i].fallback = Some(f);
                break;
            }
        }
        if fresh && s.terms[i].fallback.is_none() {
            s.terms[i].declare = true;
        }
    }
}
pub fn add_prec(rng: &mut Rng, s: &mut Spec) {
    let mut ts: Vec<usize> = (0..s.terms.len()).collect();
    rng.shuffle(&mut ts);
    let k = rng.range(1, ts.len().min(6));
    ts.truncate(k);
    while !ts.is_empty() {
        let a = *rng.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]);
        let m = rng.range(1, ts.len().min(3));
        let v: Vec<usize> = ts.drain(..m).collect();
        s.prec.push((a, v));
    }
    if !s.prec.is_empty() {
        let all: Vec<usize> = s.prec.iter().flat_map(|p| p.1.clone()).collect();
        for i in 0..s.rules.len() {
            if rng.pct(15) {
                s.rules[i].prec = Some(if rng.pct(85) { *rng.pick(&all) } else { rng.below(s.terms.len()) });
            }
        }
    }
}
/// Ambiguous or not, with random precedences; kept when they settle every conflict.
pub fn prec_random(rng: &mut Rng, c: &Cfg) -> Option<Spec> {
    for _ in 0..400 {
        let nt = rng.range(2, 5);
        let nn = rng.range(2, 4);
        let mut s = Spec::new(nt, nn);
        for l in 0..nn {
            for _ in 0..if l == 0 { 1 } else { rng.range(1, 4) } {
                let rhs = rnd_rhs(rng, &mut s, c, 5);
                if !has_rule(&s, l, &rhs) {
                    s.rule(l, rhs);
                }
            }
        }
        add_prec(rng, &mut s);
        let case = Case::of(s, "prec");
        if case.clean() && case.l.resolved > 0 && case.g.reduced() {
            return Some(case.spec);
        }
    }
    None
}
/// Grammars in which a shift and several reductions, or three reductions, compete for a token.
pub fn contested(rng: &mut Rng, c: &Cfg) -> Option<Spec> {
    for _ in 0..60 {
        let mut s = if rng.pct(70) { operators(rng) } else { prec_random(rng, c)? };
        if s.prec.len() < 3 && rng.pct(60) {
            // levels of their own for rules
            for _ in 0..2 {
                let t = s.terms.len();
                s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
                let at = rng.below(s.prec.len() + 1);
                s.prec.insert(at, (*rng.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![t]));
                s.rule(s.start, vec![t_item(t)]);
            }
        }
        if s.prec.is_empty() {
            continue;
        }
        for _ in 0..rng.range(1, 2) {
            let ri = rng.below(s.rules.len());
            rivals(rng, &mut s, c, ri);
        }
        let case = Case::of(s, "contested");
        if case.clean() && case.l.contests > 0 && case.g.reduced() {
            return Some(case.spec);
        }
    }
    None
}
fn t_item(k: usize) -> RhsItem {
    item(Item::T(k))
}
/// A choice between reductions of the same tokens, decided by a token that comes after
/// chains of nullable symbols, or after the end of the enclosing constructs.
pub fn decided(rng: &mut Rng, c: &Cfg) -> Spec {
    loop {
        let mut s = Spec::new(0, 1);
        fn tt(s: &mut Spec) -> usize {
            let k = s.terms.len();
            s.terms.push(Term { name: tname(k), ty: Ty::Unit, fallback: None, declare: false });
            k
        }
        fn nt(s: &mut Spec) -> usize {
            let k = s.nts.len();
            s.nts.push(NonTerm { name: format!("n{}", k), ty: Ty::Unit });
            k
        }
        // a nullable symbol
        fn null(rng: &mut Rng, s: &mut Spec, c: &Cfg, depth: usize) -> RhsItem {
            if c.opt > 0 && rng.pct(15) {
                let mut x = t(tt(s));
                x.opt = true;
                return x;
            }
            let k = nt(s);
            match rng.below(if depth == 0 { 3 } else { 6 }) {
                0 => s.rule(k, vec![]),
                1 => {
                    s.rule(k, vec![]);
                    let x = tt(s);
                    s.rule(k, vec![t(x)]);
                }
                2 => {
                    s.rule(k, vec![]);
                    let x = tt(s);
                    s.rule(k, vec![n(k), t(x)]);
                }
                3 => {
                    let x = null(rng, s, c, depth - 1);
                    s.rule(k, vec![x]);
                }
                4 => {
                    let x = null(rng, s, c, depth - 1);
                    let y = null(rng, s, c, depth - 1);
                    s.rule(k, vec![x, y]);
                }
                _ => {
                    let x = null(rng, s, c, depth - 1);
                    s.rule(k, vec![x]);
                    let y = tt(s);
                    s.rule(k, vec![t(y)]);
                }
            }
            n(k)
        }
        let top = nt(&mut s);
        s.rule(0, vec![n(top)]);
        let pre: Vec<usize> = (0..rng.range(1, 2)).map(|_| tt(&mut s)).collect();
        let shared = if rng.pct(30) { Some(null(rng, &mut s, c, 1)) } else { None };
        let mut tails: Vec<usize> = vec![];
        for _ in 0..rng.range(2, 4) {
            // the rival reduction, at the end of some constructs
            let r = nt(&mut s);
            let rhs = pre.iter().map(|x| t(*x)).collect();
            s.rule(r, rhs);
            let mut inner = n(r);
            for _ in 0..rng.below(3) {
                let w = nt(&mut s);
                let mut rhs = vec![inner];
                while rng.pct(40) {
                    rhs.push(null(rng, &mut s, c, 1));
                }
                s.rule(w, rhs);
                if rng.pct(30) {
                    let x = tt(&mut s);
                    s.rule(w, vec![t(x)]);
                }
                inner = n(w);
            }
            let mut rhs = vec![inner];
            for _ in 0..rng.below(3) {
                rhs.push(match &shared {
                    Some(x) if rng.pct(30) => x.clone(),
                    _ => null(rng, &mut s, c, 2),
                });
            }
            // what comes at last, behind a chain of unit rules
            let mut x = if !tails.is_empty() && rng.pct(20) { t(*rng.pick(&tails)) } else { t(tt(&mut s)) };
            if let Item::T(k) = x.it {
                tails.push(k);
            }
            for _ in 0..rng.below(3) {
                let u = nt(&mut s);
                s.rule(u, vec![x]);
                x = n(u);
            }
            if !rng.pct(15) {
                rhs.push(x);
            }
            s.rule(top, rhs);
        }
        if rng.pct(40) {
            // the same again
            let l = nt(&mut s);
            s.rules[0].rhs = vec![n(l)];
            s.rule(l, vec![n(top)]);
            let x = tt(&mut s);
            let sep = rng.pct(60).then(|| t(x));
            s.rule(l, if rng.pct(50) { [n(l)].into_iter().chain(sep).chain([n(top)]).collect() } else { [n(top)].into_iter().chain(sep).chain([n(l)]).collect() });
        }
        if rng.pct(60) {
            let f = s.rules.remove(0);
            shuffle_rules(rng, &mut s);
            s.rules.insert(0, f);
        }
        let case = Case::of(s, "decided");
        if case.clean() && case.g.reduced() {
            return case.spec;
        }
    }
}
/// Operator grammars, as in every calculator.
pub fn operators(rng: &mut Rng) -> Spec {
    loop {
        let mut s = Spec::new(1, 2);
        s.rule(0, vec![n(1)]);
        s.rule(1, vec![t(0)]);
        let term = |s: &mut Spec| {
            let t = s.terms.len();
            s.terms.push(Term { name: tname(t), ty: Ty::Unit, fallback: None, declare: false });
            t
        };
        let mut ops: Vec<usize> = vec![];
        let k = rng.range(1, 7);
        for _ in 0..k {
            let o = term(&mut s);
            ops.push(o);
            match rng.below(8) {
                0 => s.rule(1, vec![t(o), n(1)]),
                1 => s.rule(1, vec![n(1), t(o)]),
                2 => {
                    let p = term(&mut s);
                    if rng.pct(50) {
                        ops.push(p);
                    }
                    s.rule(1, vec![n(1), t(o), n(1), t(p), n(1)]);
                }
                _ => s.rule(1, vec![n(1), t(o), n(1)]),
            }
        }
        if rng.pct(60) {
            let (a, b) = (term(&mut s), term(&mut s));
            s.rule(1, vec![t(a), n(1), t(b)]);
        }
        if rng.pct(30) {
            // dangling else
            let (a, b, e) = (term(&mut s), term(&mut s), term(&mut s));
            let at = s.rules.len();
            s.rule(1, vec![t(a), n(1), t(b), n(1)]);
            s.rule(1, vec![t(a), n(1), t(b), n(1), t(e), n(1)]);
            let _ = at;
            ops.push(b);
            ops.push(e);
        }
        if rng.pct(40) && !ops.is_empty() {
            // an operator that is also a prefix, with its own precedence
            let o = *rng.pick(&ops);
            let p = term(&mut s);
            let rhs = vec![t(o), n(1)];
            if !has_rule(&s, 1, &rhs) {
                s.rule(1, rhs);
                s.rules.last_mut().unwrap().prec = Some(p);
                ops.push(p);
            }
        }
        if rng.pct(20) {
            // juxtaposition is beyond simple precedence unless every first token has one
            let o = *rng.pick(&ops);
            let rhs = vec![n(1), t(o), t(o), n(1)];
            if !has_rule(&s, 1, &rhs) {
                s.rule(1, rhs);
            }
        }
        let mut left = ops.clone();
        rng.shuffle(&mut left);
        if rng.pct(10) {
            left.pop();
        }
        while !left.is_empty() {
            let m = rng.range(1, left.len().min(3));
            let v: Vec<usize> = left.drain(..m).collect();
            s.prec.push((*rng.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::Non]), v));
        }
        compact(&mut s);
        let case = Case::of(s, "operators");
        if case.clean() {
            return case.spec;
        }
    }
}
/// Random specification with the features of `c`; conflict-free.
pub fn spec(rng: &mut Rng, c: &Cfg) -> Case {
    let (mut s, tag) = match rng.below(22) {
        20 => (decided(rng, c), "decided"),
        21 => {
            let s = decided(rng, c);
            let k = s.rules.len() + rng.below(5);
            (grow(rng, c, s, k), "decided-grown")
        }
        0..=6 => (small(rng, c), "small"),
        7..=13 => {
            let s = small(rng, c);
            let k = rng.range(5, 18);
            (grow(rng, c, s, k), "grown")
        }
        14 => {
            let s = small(rng, c);
            let k = rng.range(18, 40);
            (grow(rng, c, s, k), "grown-large")
        }
        _ => {
            let d = rng.range(1, 3);
            let s = idiom(rng, c, d);
            if rng.pct(50) {
                let k = s.rules.len() + rng.below(6);
                (grow(rng, c, s, k), "idiom-grown")
            } else {
                (s, "idiom")
            }
        }
    };
    let mut tag = tag;
    if c.prec > 0 && rng.pct(c.prec) {
        if rng.pct(50) {
            s = operators(rng);
            tag = "operators";
            if rng.pct(40) {
                let k = s.rules.len() + rng.range(2, 8);
                s = grow(rng, c, s, k);
                tag = "operators-grown";
            }
        } else if let Some(q) = prec_random(rng, c) {
            s = q;
            tag = "precedence";
        }
    }
    finish(rng, c, s, tag)
}
pub fn finish(rng: &mut Rng, c: &Cfg, mut s: Spec, tag: &'static str) -> Case {
    compact(&mut s);
    for i in 0..s.terms.len() {
        // distinct, in order; `compact` may have left holes in the numbering
        s.terms[i].name = tname(i);
    }
    for i in 0..s.classes.len() {
        s.classes[i].name = format!("K{}", i);
    }
    if c.wildcard > 0 && rng.pct(c.wildcard) {
        let single: Vec<usize> = rule_terms(&s);
        if !single.is_empty() {
            s.wildcard = Some(*rng.pick(&single));
        }
    }
    if c.fallback > 0 && rng.pct(c.fallback) && !s.terms.is_empty() {
        let k = rng.below(3);
        add_fallbacks(rng, &mut s, k);
    }
    s.extra_token = rng.pct(c.extra_token);
    s.extra_pair = rng.pct(30);
    if rng.pct(c.default_ty) {
        s.default_ty = Some(rng.below(4) as u8);
    }
    let d = match c.deco {
        0 => Deco::full(),
        _ => Deco { kinds: rng.range(1, 5), ..Deco::rich() },
    };
    s.decorate(rng, &d);
    if rng.pct(c.bare) {
        s.extra = false;
        s.syn = Hand::Absent;
        s.pf = Hand::Absent;
        s.ov = Hand::Absent;
        if rng.pct(50) {
            s.error = false;
        }
    }
    for h in [&mut s.syn, &mut s.pf, &mut s.ov] {
        if !rng.pct(c.handlers) {
            *h = Hand::Absent;
        }
    }
    // start symbol and rule order
    if rng.pct(30) {
        s.start_dir = true;
        shuffle_rules(rng, &mut s);
    }
    for i in 0..s.terms.len() {
        let cl = &s.classes;
        let used = s.wildcard == Some(i)
            || s.terms.iter().enumerate().any(|(j, x)| x.fallback == Some(i) || (j == i && (x.fallback.is_some() || x.ty != Ty::Unit)))
            || s.prec.iter().any(|(_, t)| t.contains(&i))
            || cl.iter().any(|c| c.members.contains(&i))
            || s.rules.iter().any(|r| {
                r.prec == Some(i)
                    || r.rhs.iter().any(|x| match &x.it {
                        Item::T(t) => *t == i,
                        Item::Alt(v) => v.contains(&i),
                        _ => false,
                    })
            });
        if !used {
            s.terms[i].declare = true;
        }
    }
    if !s.start_dir && s.rules[0].lhs != s.start {
        let k = s.rules.iter().position(|r| r.lhs == s.start).unwrap();
        let r = s.rules.remove(k);
        s.rules.insert(0, r);
    }
    s.stack = match rng.below(4) {
        0 => None,
        _ => Some((0, None)),
    };
    if rng.pct(20) {
        s.flavor = rng.next() | 1;
    }
    let c = Case::of(s, tag);
    debug_assert!(c.clean() || c.spec.wildcard.is_some());
    c
}
pub fn shuffle_rules(rng: &mut Rng, s: &mut Spec) {
    let mut r = s.rules.clone();
    rng.shuffle(&mut r);
    s.rules = r;
}

/// Abstract machine used to steer input generation (not an oracle).
#[derive(Clone)]
pub struct Steer<'a> {
    pub c: &'a Case,
    pub st: Vec<usize>,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum StepR {
    Shift,
    Accept,
    Error,
}
impl<'a> Steer<'a> {
    pub fn new(c: &'a Case) -> Self {
        Steer { c, st: vec![0] }
    }
    pub fn top(&self) -> usize {
        *self.st.last().unwrap()
    }
    pub fn feed(&mut self, t: usize) -> StepR {
        for _ in 0..100_000 {
            match self.c.l.look(&self.c.g, self.top(), t) {
                Cell::Shift(to) => {
                    self.st.push(to);
                    return StepR::Shift;
                }
                Cell::Reduce(r) => {
                    let gr = &self.c.g.rules[r];
                    if gr.lhs == self.c.g.start {
                        return StepR::Accept;
                    }
                    if self.st.len() <= gr.rhs.len() {
                        return StepR::Error;
                    }
                    let k = self.st.len() - gr.rhs.len();
                    self.st.truncate(k);
                    match self.c.l.goto[self.top()][gr.lhs] {
                        Some(to) => self.st.push(to),
                        None => return StepR::Error,
                    }
                }
                _ => return StepR::Error,
            }
        }
        StepR::Error
    }
    /// Discard until the error symbol can be taken, and take it.
    pub fn recover(&mut self) {
        let mut k = self.st.len();
        while k > 0 {
            if let Some(to) = self.c.l.goto[self.st[k - 1]][self.c.g.err] {
                self.st.truncate(k);
                self.st.push(to);
                return;
            }
            k -= 1;
        }
    }
    /// A token sequence that completes the parse from here (ignoring conflicts settled by precedence).
    pub fn complete(&self, rng: &mut Rng, min: &[Option<usize>], sent: &mut Sent) -> Vec<usize> {
        let g = &self.c.g;
        let mut out = vec![];
        let mut st = self.st.clone();
        let cost = |r: usize, d: usize| -> usize {
            g.rules[r].rhs[d..]
                .iter()
                .map(|s| match s {
                    S::N(k) => min[*k].unwrap_or(10_000),
                    _ => 1,
                })
                .sum()
        };
        let kern = &self.c.l.kernels[*st.last().unwrap()];
        let Some(&(mut r, mut d)) = kern.iter().min_by_key(|(r, d)| cost(*r, *d)) else { return out };
        for _ in 0..10_000 {
            for s in &g.rules[r].rhs[d..] {
                sent.derive_min(rng, s, &mut out);
            }
            let lhs = g.rules[r].lhs;
            if lhs == g.start || st.len() <= d || out.len() > 4000 {
                return out;
            }
            let k = st.len() - d;
            st.truncate(k);
            let top = *st.last().unwrap();
            // an item of that state before lhs
            let mut cand: Vec<(usize, usize)> = vec![];
            let mut seen = vec![false; g.nn];
            let mut todo: Vec<(usize, usize)> = self.c.l.kernels[top].clone();
            while let Some((r2, d2)) = todo.pop() {
                if let Some(S::N(k)) = g.rules[r2].rhs.get(d2) {
                    if *k == lhs {
                        cand.push((r2, d2 + 1));
                    }
                    if !seen[*k] {
                        seen[*k] = true;
                        todo.extend(g.by_lhs[*k].iter().map(|q| (*q, 0)));
                    }
                }
            }
            if cand.is_empty() {
                return out;
            }
            let best = *cand
                .iter()
                .min_by_key(|(r2, d2)| cost(*r2, *d2) * 4 + usize::from(g.rules[*r2].lhs == lhs) * 2 + rng.below(3))
                .unwrap();
            r = best.0;
            d = best.1;
            if !self.c.l.kernels[top].contains(&(r, d - 1)) && d == 1 {
                // item at the start of its rule: its lhs is completed in this same state
            }
            // stack now ends before the symbols rhs[..d-1]; lhs itself is virtual
            st.push(usize::MAX);
            if st.len() <= d {
                return out;
            }
        }
        out
    }
}
/// Random sentences.
pub struct Sent<'a> {
    pub g: &'a Gram,
    pub min: Vec<Option<usize>>,
    /// Cheapest rule per nonterminal.
    best: HashMap<usize, usize>,
}
impl<'a> Sent<'a> {
    pub fn new(g: &'a Gram) -> Self {
        let min = g.min_len();
        let mut best: HashMap<usize, usize> = HashMap::new();
        // a rule whose parts settle before it, so that expansion ends
        let mut done = vec![false; g.nn];
        let mut len: Vec<usize> = vec![usize::MAX; g.nn];
        done[g.err] = true;
        len[g.err] = 0;
        loop {
            let mut pick: Option<(usize, usize, usize)> = None;
            for k in 0..g.nn {
                if done[k] {
                    continue;
                }
                for r in &g.by_lhs[k] {
                    let mut tot = 0usize;
                    let ok = g.rules[*r].rhs.iter().all(|s| match s {
                        S::N(j) => {
                            if done[*j] {
                                tot += len[*j];
                                true
                            } else {
                                false
                            }
                        }
                        _ => {
                            tot += 1;
                            true
                        }
                    });
                    if ok && pick.is_none_or(|p| tot < p.2) {
                        pick = Some((k, *r, tot));
                    }
                }
            }
            match pick {
                None => break,
                Some((k, r, n)) => {
                    done[k] = true;
                    len[k] = n;
                    best.insert(k, r);
                }
            }
        }
        Sent { g, min, best }
    }
    pub fn derive_min(&mut self, rng: &mut Rng, s: &S, out: &mut Vec<usize>) {
        let mut todo = vec![s.clone()];
        while let Some(s) = todo.pop() {
            match s {
                S::T(t) => out.push(t),
                S::M(k) => out.push(*rng.pick(&self.g.sets[k])),
                S::N(k) => {
                    if let Some(r) = self.best.get(&k) {
                        for x in self.g.rules[*r].rhs.iter().rev() {
                            todo.push(x.clone());
                        }
                    }
                }
            }
        }
    }
    /// A random sentence of roughly at most `budget` tokens.
    pub fn derive(&mut self, rng: &mut Rng, budget: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = vec![S::N(self.g.start)];
        let mut left = budget as i64;
        let mut steps = 0;
        while let Some(s) = todo.pop() {
            match s {
                S::N(k) => {
                    steps += 1;
                    let ok: Vec<usize> = self.g.by_lhs[k]
                        .iter()
                        .copied()
                        .filter(|r| self.g.rules[*r].rhs.iter().all(|s| !matches!(s, S::N(j) if self.min[*j].is_none())))
                        .collect();
                    if left <= 0 || steps > 3 * budget + 50 || ok.is_empty() {
                        self.derive_min(rng, &S::N(k), &mut out);
                        continue;
                    }
                    let r = *rng.pick(&ok);
                    left -= self.g.rules[r].rhs.iter().filter(|s| !matches!(s, S::N(_))).count() as i64;
                    for x in self.g.rules[r].rhs.iter().rev() {
                        todo.push(x.clone());
                    }
                }
                s => self.derive_min(rng, &s, &mut out),
            }
        }
        out
    }
}
pub fn edit(rng: &mut Rng, nt: usize, v: &mut Vec<usize>) {
    if nt < 2 {
        return;
    }
    let any = rng.range(1, nt - 1);
    match rng.below(5) {
        0 if !v.is_empty() => {
            let i = rng.below(v.len());
            v.remove(i);
        }
        1 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] = any;
        }
        2 if v.len() > 1 => {
            let i = rng.below(v.len() - 1);
            v.swap(i, i + 1);
        }
        3 if !v.is_empty() => {
            let i = rng.below(v.len());
            v.truncate(i);
        }
        _ => {
            let i = rng.below(v.len() + 1);
            v.insert(i, any);
        }
    }
}
/// What kind of plans to make.
#[derive(Clone)]
pub struct Mix {
    pub derived: usize,
    pub edited: usize,
    pub walks: usize,
    pub cells: usize,
    /// Tokens per input, roughly.
    pub len: usize,
    /// Percent of runs with tolerated errors, failing actions, drops in the middle, extra accessors.
    pub tolerate: usize,
    pub fail: usize,
    pub cut: usize,
    pub access: usize,
    pub droplog: bool,
    /// Percent of specifications with an input that needs a deep stack, if there is one.
    pub deep: usize,
}
impl Mix {
    pub fn plain(n: usize) -> Mix {
        Mix {
            derived: n,
            edited: n,
            walks: n,
            cells: n,
            len: 24,
            tolerate: 0,
            fail: 0,
            cut: 0,
            access: 0,
            droplog: false,
            deep: 25,
        }
    }
    pub fn all(n: usize) -> Mix {
        Mix { tolerate: 60, fail: 12, cut: 12, access: 15, ..Mix::plain(n) }
    }
}
pub fn walk(rng: &mut Rng, c: &Case, len: usize, bad: usize, sent: &mut Sent) -> Vec<usize> {
    let mut m = Steer::new(c);
    let mut out = vec![];
    let n = rng.range(0, len);
    for _ in 0..n {
        let e = c.l.expected(&c.g, m.top());
        let t = if e.is_empty() || rng.pct(bad) {
            if c.g.nt < 2 {
                break;
            }
            rng.range(1, c.g.nt - 1)
        } else {
            *rng.pick(&e)
        };
        out.push(t);
        match m.feed(t) {
            StepR::Accept => break,
            StepR::Error if c.g.uses_err => m.recover(),
            _ => {}
        }
    }
    if rng.pct(75) {
        let min = sent.min.clone();
        out.extend(m.complete(rng, &min, sent));
    }
    out
}
/// Tokens for which the stack grows to about `depth` entries, if the grammar has any.
pub fn deep(c: &Case, rng: &mut Rng, sent: &mut Sent, depth: usize) -> Option<Vec<usize>> {
    let ns = c.l.states();
    let mut edges: Vec<Vec<(S, usize)>> = vec![vec![]; ns];
    for s in 0..ns {
        for t in 1..c.g.nt {
            if let Cell::Shift(to) = c.l.act[s][t] {
                edges[s].push((S::T(t), to));
            }
        }
        for k in 0..c.g.nn {
            if let (Some(to), true, true) = (c.l.goto[s][k], k != c.g.err || !c.g.uses_err, sent.min[k].is_some()) {
                edges[s].push((S::N(k), to));
            }
        }
    }
    // states from which the stack can grow for ever
    let mut core = vec![true; ns];
    loop {
        let gone: Vec<usize> = (0..ns).filter(|s| core[*s] && !edges[*s].iter().any(|e| core[e.1])).collect();
        if gone.is_empty() {
            break;
        }
        gone.iter().for_each(|s| core[*s] = false);
    }
    if !core[0] {
        return None;
    }
    let mut out = vec![];
    let mut s = 0;
    for _ in 1..depth {
        let e: Vec<&(S, usize)> = edges[s].iter().filter(|e| core[e.1]).collect();
        let (x, to) = (*rng.pick(&e)).clone();
        sent.derive_min(rng, &x, &mut out);
        s = to;
        if out.len() > 1500 {
            return None;
        }
    }
    let mut st = Steer::new(c);
    for t in &out {
        st.feed(*t);
    }
    if rng.pct(80) {
        let min = sent.min.clone();
        out.extend(st.complete(rng, &min, sent));
    }
    Some(out)
}
/// Shortest token strings that lead to each state.
pub fn prefixes(c: &Case, rng: &mut Rng, sent: &mut Sent) -> Vec<Option<Vec<usize>>> {
    let g = &c.g;
    let ns = c.l.states();
    let mut dist: Vec<usize> = vec![usize::MAX; ns];
    let mut from: Vec<Option<(usize, S)>> = vec![None; ns];
    let mut done = vec![false; ns];
    dist[0] = 0;
    loop {
        let Some(s) = (0..ns).filter(|s| !done[*s] && dist[*s] != usize::MAX).min_by_key(|s| dist[*s]) else { break };
        done[s] = true;
        for t in 1..g.nt {
            if let Cell::Shift(to) = c.l.act[s][t] {
                if dist[s] + 1 < dist[to] {
                    dist[to] = dist[s] + 1;
                    from[to] = Some((s, S::T(t)));
                }
            }
        }
        for k in 0..g.nn {
            if let (Some(to), Some(m)) = (c.l.goto[s][k], sent.min[k]) {
                if dist[s].saturating_add(m) < dist[to] {
                    dist[to] = dist[s] + m;
                    from[to] = Some((s, S::N(k)));
                }
            }
        }
    }
    (0..ns)
        .map(|s| {
            if dist[s] == usize::MAX {
                return None;
            }
            let mut path = vec![];
            let mut u = s;
            while u != 0 {
                let (p, x) = from[u].clone()?;
                path.push(x);
                u = p;
            }
            let mut out = vec![];
            for x in path.iter().rev() {
                sent.derive_min(rng, x, &mut out);
            }
            Some(out)
        })
        .collect()
}
/// Turn a token string into a plan with faults.
pub fn plan(rng: &mut Rng, toks: &[usize], m: &Mix) -> Run {
    let mut r = Run::default();
    for t in toks {
        if rng.pct(m.access) && rng.pct(30) {
            r.ops.push(*rng.pick(&[OP_BUMP, OP_READ]));
        }
        r.ops.push(*t as u32 - 1);
    }
    if rng.pct(m.access) {
        r.ops.push(*rng.pick(&[OP_BUMP, OP_READ, OP_INTO]));
    }
    r.ops.push(OP_EOI);
    if rng.pct(m.cut) {
        let k = rng.below(r.ops.len());
        r.ops.truncate(k);
        r.ops.push(OP_DROP);
    }
    if rng.pct(m.tolerate) {
        r.syn = match rng.below(4) {
            0 => vec![0],
            1 => (0..rng.range(1, 6)).map(|_| 0).chain([1]).collect(),
            _ => vec![0, 0, 0, 0],
        };
    }
    if rng.pct(m.fail) {
        r.fail = vec![rng.range(1, 1 + toks.len()) as u32];
    }
    if rng.pct(50) {
        r.flags |= F_AGAIN;
        if rng.pct(50) {
            // keep asking after a failure
            r.ops.retain(|o| *o != OP_INTO);
        }
    }
    if m.droplog && rng.pct(70) {
        r.flags |= F_DROPLOG;
    }
    r
}
pub fn runs(rng: &mut Rng, c: &Case, m: &Mix) -> Vec<Run> {
    let mut sent = Sent::new(&c.g);
    let mut seen: BTreeSet<(Vec<usize>, usize)> = BTreeSet::new();
    let mut out = vec![];
    let mut toks: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..m.derived {
        let b = rng.range(0, m.len);
        toks.push(sent.derive(rng, b));
    }
    for _ in 0..m.edited {
        let b = rng.range(0, m.len);
        let mut v = sent.derive(rng, b);
        for _ in 0..rng.range(1, 3) {
            edit(rng, c.g.nt, &mut v);
        }
        toks.push(v);
    }
    for _ in 0..m.walks {
        let bad = *rng.pick(&[0, 5, 15, 30]);
        toks.push(walk(rng, c, m.len, bad, &mut sent));
    }
    if m.cells > 0 {
        let pre = prefixes(c, rng, &mut sent);
        let mut cells: Vec<(usize, usize)> = vec![];
        for s in 0..c.l.states() {
            if pre[s].is_some() {
                for t in 0..c.g.nt {
                    cells.push((s, t));
                }
            }
        }
        rng.shuffle(&mut cells);
        for (s, t) in cells.into_iter().take(m.cells) {
            let mut v = pre[s].clone().unwrap();
            if v.len() > 400 {
                continue;
            }
            if t != 0 {
                v.push(t);
                if rng.pct(60) {
                    // go on from there
                    let mut st = Steer::new(c);
                    for t in &v {
                        if st.feed(*t) == StepR::Error && c.g.uses_err {
                            st.recover();
                        }
                    }
                    for _ in 0..rng.range(0, 6) {
                        let e = c.l.expected(&c.g, st.top());
                        if e.is_empty() {
                            break;
                        }
                        let t = *rng.pick(&e);
                        v.push(t);
                        st.feed(t);
                    }
                    let min = sent.min.clone();
                    v.extend(st.complete(rng, &min, &mut sent));
                }
            }
            toks.push(v);
        }
    }
    if rng.pct(m.deep) {
        let n = *rng.pick(&[40, 98, 99, 100, 101, 102, 103, 130, 260]);
        toks.extend(deep(c, rng, &mut sent, n));
    }
    for v in toks {
        if v.len() > 3000 {
            continue;
        }
        let n = seen.len();
        if seen.insert((v.clone(), 0)) {
            out.push(plan(rng, &v, m));
        } else if m.tolerate + m.fail + m.cut > 0 && seen.insert((v.clone(), n)) {
            out.push(plan(rng, &v, m));
        }
    }
    out
}
