//! The reference side: desugaring to a context-free grammar, an LALR(1)
//! construction with the documented conflict resolution, and an Earley
//! recogniser that knows nothing about automata.
use crate::spec::*;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum S {
    /// Terminal; 0 is end of input, i+1 is terminal i of the spec.
    T(usize),
    N(usize),
    /// Set of terminals.
    M(usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Orig {
    Rule(usize),
    OptNone,
    OptSome,
}
#[derive(Clone, Debug)]
pub struct GRule {
    pub lhs: usize,
    pub rhs: Vec<S>,
    pub prec: Option<(usize, Assoc)>,
    pub orig: Orig,
}
#[derive(Clone, Debug)]
pub struct Gram {
    pub nt: usize,
    pub nn: usize,
    pub rules: Vec<GRule>,
    pub by_lhs: Vec<Vec<usize>>,
    pub start: usize,
    pub err: usize,
    pub uses_err: bool,
    pub sets: Vec<Vec<usize>>,
    pub tprec: Vec<Option<(usize, Assoc)>>,
    pub fb: Vec<Option<usize>>,
    pub wc: Option<usize>,
    pub nullable: Vec<bool>,
    pub first: Vec<Bits>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Bits(pub Vec<u64>);
impl Bits {
    pub fn new(n: usize) -> Bits {
        Bits(vec![0; n.div_ceil(64)])
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn set(&mut self, i: usize) -> bool {
        let h = self.has(i);
        self.0[i / 64] |= 1 << (i % 64);
        !h
    }
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut c = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let x = *a | *b;
            c |= x != *a;
            *a = x;
        }
        c
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.0.len() * 64).filter(|i| self.has(*i))
    }
}

impl Gram {
    pub fn of(s: &Spec) -> Gram {
        let nt = s.terms.len() + 1;
        let mut tprec = vec![None; nt];
        for (l, (a, ts)) in s.prec.iter().enumerate() {
            for i in ts {
                tprec[i + 1] = Some((l, *a));
            }
        }
        let err = s.nts.len();
        let mut nn = s.nts.len() + 1;
        let mut sets: Vec<Vec<usize>> = vec![];
        let mut class_set: HashMap<usize, usize> = HashMap::new();
        let mut opt: HashMap<Item, usize> = HashMap::new();
        let mut rules = vec![];
        let mut tail = vec![];
        for (ri, r) in s.rules.iter().enumerate() {
            let mut rhs = vec![];
            for x in &r.rhs {
                let base = match &x.it {
                    Item::T(i) => S::T(i + 1),
                    Item::N(i) => S::N(*i),
                    Item::Err => S::N(err),
                    Item::Alt(v) => {
                        sets.push(v.iter().map(|i| i + 1).collect());
                        S::M(sets.len() - 1)
                    }
                    Item::Class(c) => {
                        let k = *class_set.entry(*c).or_insert_with(|| {
                            sets.push(s.classes[*c].members.iter().map(|i| i + 1).collect());
                            sets.len() - 1
                        });
                        S::M(k)
                    }
                };
                if x.opt {
                    let k = match opt.get(&x.it) {
                        Some(k) => *k,
                        None => {
                            let k = nn;
                            nn += 1;
                            tail.push((k, base));
                            opt.insert(x.it.clone(), k);
                            k
                        }
                    };
                    rhs.push(S::N(k));
                } else {
                    rhs.push(base);
                }
            }
            rules.push(GRule { lhs: r.lhs, rhs, prec: r.prec.and_then(|p| tprec[p + 1]), orig: Orig::Rule(ri) });
            if r.prec.is_none() {
                let g = rules.last_mut().unwrap();
                g.prec = leftmost_prec(&g.rhs, &sets, &tprec);
            }
        }
        for (k, base) in tail {
            rules.push(GRule { lhs: k, rhs: vec![], prec: None, orig: Orig::OptNone });
            let p = leftmost_prec(std::slice::from_ref(&base), &sets, &tprec);
            rules.push(GRule { lhs: k, rhs: vec![base], prec: p, orig: Orig::OptSome });
        }
        let mut by_lhs = vec![vec![]; nn];
        for (i, r) in rules.iter().enumerate() {
            by_lhs[r.lhs].push(i);
        }
        let mut g = Gram {
            nt,
            nn,
            rules,
            by_lhs,
            start: s.start,
            err,
            uses_err: s.uses_err(),
            sets,
            tprec,
            fb: std::iter::once(None).chain(s.terms.iter().map(|x| x.fallback.map(|f| f + 1))).collect(),
            wc: s.wildcard.map(|w| w + 1),
            nullable: vec![false; nn],
            first: vec![Bits::new(nt); nn],
        };
        g.firsts();
        g
    }
    /// Is some nonterminal derivable from itself, or left recursive behind an
    /// empty prefix?  No table-driven parser terminates on such grammars if a
    /// precedence is what resolves the conflicts they always have.
    pub fn may_loop(&self) -> bool {
        let eps = |v: &[S]| v.iter().all(|s| matches!(s, S::N(n) if self.nullable[*n]));
        // (from, to, something empty before, nothing after)
        let mut e: Vec<(usize, usize, bool, bool)> = vec![];
        for r in &self.rules {
            for (i, s) in r.rhs.iter().enumerate() {
                if let S::N(b) = s {
                    e.push((r.lhs, *b, i > 0, eps(&r.rhs[i + 1..])));
                }
                if !eps(&r.rhs[i..i + 1]) {
                    break;
                }
            }
        }
        let closure = |f: &dyn Fn(&(usize, usize, bool, bool)) -> bool| {
            let mut m = vec![vec![false; self.nn]; self.nn];
            for x in e.iter().filter(|x| f(x)) {
                m[x.0][x.1] = true;
            }
            for k in 0..self.nn {
                for i in 0..self.nn {
                    if m[i][k] {
                        for j in 0..self.nn {
                            m[i][j] |= m[k][j];
                        }
                    }
                }
            }
            m
        };
        let unit = closure(&|x| x.3);
        let left = closure(&|_| true);
        (0..self.nn).any(|i| unit[i][i]) || e.iter().any(|x| x.2 && left[x.1][x.0])
            || e.iter().any(|x| x.2 && x.0 == x.1)
    }
    /// Terminals a right-hand side symbol stands for.
    pub fn atoms(&self, s: &S) -> Vec<S> {
        match s {
            S::M(k) => {
                let mut v: Vec<S> = vec![];
                for t in &self.sets[*k] {
                    if !v.contains(&S::T(*t)) {
                        v.push(S::T(*t));
                    }
                }
                v
            }
            s => vec![s.clone()],
        }
    }
    pub fn covers(&self, s: &S, t: usize) -> bool {
        match s {
            S::T(u) => *u == t,
            S::M(k) => self.sets[*k].contains(&t),
            S::N(_) => false,
        }
    }
    fn firsts(&mut self) {
        loop {
            let mut ch = false;
            for r in &self.rules {
                if !self.nullable[r.lhs] && r.rhs.iter().all(|s| matches!(s, S::N(k) if self.nullable[*k])) {
                    self.nullable[r.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        loop {
            let mut ch = false;
            for i in 0..self.rules.len() {
                let lhs = self.rules[i].lhs;
                let f = self.first_seq(&self.rules[i].rhs, None);
                ch |= self.first[lhs].or(&f);
            }
            if !ch {
                break;
            }
        }
    }
    /// FIRST of a symbol sequence followed by `la`.
    pub fn first_seq(&self, rhs: &[S], la: Option<&Bits>) -> Bits {
        let mut b = Bits::new(self.nt);
        for s in rhs {
            match s {
                S::T(t) => {
                    b.set(*t);
                    return b;
                }
                S::M(k) => {
                    for t in &self.sets[*k] {
                        b.set(*t);
                    }
                    return b;
                }
                S::N(k) => {
                    b.or(&self.first[*k]);
                    if !self.nullable[*k] {
                        return b;
                    }
                }
            }
        }
        if let Some(la) = la {
            b.or(la);
        }
        b
    }
    /// Length of a shortest sentence per nonterminal (None: unproductive).
    pub fn min_len(&self) -> Vec<Option<usize>> {
        let mut m: Vec<Option<usize>> = vec![None; self.nn];
        m[self.err] = Some(0);
        loop {
            let mut ch = false;
            for r in &self.rules {
                let mut tot = 0;
                let ok = r.rhs.iter().all(|s| match s {
                    S::N(k) => m[*k].map(|x| tot += x).is_some(),
                    _ => {
                        tot += 1;
                        true
                    }
                });
                if ok && m[r.lhs].is_none_or(|x| tot < x) {
                    m[r.lhs] = Some(tot);
                    ch = true;
                }
            }
            if !ch {
                return m;
            }
        }
    }
    /// Every nonterminal derives something.
    pub fn reduced(&self) -> bool {
        self.min_len().iter().all(|x| x.is_some())
    }
    pub fn has_features(&self) -> bool {
        self.uses_err || self.wc.is_some() || self.fb.iter().any(|f| f.is_some()) || self.tprec.iter().any(|p| p.is_some())
    }
}
fn leftmost_prec(rhs: &[S], sets: &[Vec<usize>], tp: &[Option<(usize, Assoc)>]) -> Option<(usize, Assoc)> {
    for s in rhs {
        let p = match s {
            S::T(t) => tp[*t],
            S::M(k) => sets[*k].iter().find_map(|t| tp[*t]),
            S::N(_) => None,
        };
        if p.is_some() {
            return p;
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cell {
    None,
    Shift(usize),
    Reduce(usize),
    /// Non-associative: a syntax error although the token is in the table.
    Error,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Clean,
    /// Left-over conflicts, as text.
    Conflict(String),
    /// A conflict the documentation does not say how to resolve.
    Unclear,
    /// Unusable rule or symbol.
    Bad(String),
}
#[derive(Clone, Debug)]
pub struct Lalr {
    pub verdict: Verdict,
    /// [state][terminal]
    pub act: Vec<Vec<Cell>>,
    /// [state][nonterminal]
    pub goto: Vec<Vec<Option<usize>>>,
    /// Rules (not of the start symbol) with a reduce cell in the state.
    pub dflt: Vec<Vec<usize>>,
    /// Kernel items per state.
    pub kernels: Vec<Vec<(usize, usize)>>,
    /// cells with three or more candidates
    pub contests: usize,
    pub resolved: usize,
    /// All items per state.
    pub items: Vec<Vec<(usize, usize)>>,
    /// Cells with two or more candidates: the shift, the reductions, and whether a conflict remains (None: unclear).
    pub multi: HashMap<(usize, usize), Multi>,
}
#[derive(Clone, Debug)]
pub struct Multi {
    pub shift: Option<usize>,
    pub reds: Vec<usize>,
    pub open: Option<bool>,
}
pub const MAX_STATES: usize = 4000;

enum Contest {
    Won(Cell),
    Open,
    Unclear,
}
/// Three or more possible actions: the best one by the documented rules for two, whatever the others are to each other.
fn contest(g: &Gram, t: usize, sh: Option<usize>, rs: &[usize]) -> Contest {
    let prec = |r: &usize| g.rules[*r].prec.map(|p| p.0);
    if rs.iter().any(|r| prec(r).is_none()) || (sh.is_some() && g.tprec[t].is_none()) {
        return Contest::Open;
    }
    let top = rs.iter().filter_map(prec).max();
    let leaders: Vec<usize> = rs.iter().copied().filter(|r| prec(r) == top).collect();
    let (above, assoc) = match (sh, g.tprec[t]) {
        (Some(_), Some((a, assoc))) => (Some(a).cmp(&top), assoc),
        _ => (std::cmp::Ordering::Less, Assoc::Left),
    };
    let shift = || Contest::Won(Cell::Shift(sh.unwrap()));
    match (above, assoc, leaders.len()) {
        (std::cmp::Ordering::Greater, ..) | (std::cmp::Ordering::Equal, Assoc::Right, _) => shift(),
        (std::cmp::Ordering::Equal, Assoc::Non, 1) => Contest::Won(Cell::Error),
        // an error in any case, or a conflict between the rules?
        (std::cmp::Ordering::Equal, Assoc::Non, _) => Contest::Unclear,
        (_, _, 1) => Contest::Won(Cell::Reduce(leaders[0])),
        _ => Contest::Open,
    }
}
impl Lalr {
    pub fn build(g: &Gram) -> Lalr {
        let mut kernels: Vec<Vec<(usize, usize)>> = vec![];
        let mut index: HashMap<Vec<(usize, usize)>, usize> = HashMap::new();
        let mut items: Vec<Vec<(usize, usize)>> = vec![];
        let mut trans: Vec<Vec<(S, usize)>> = vec![];
        let k0: Vec<(usize, usize)> = g.by_lhs[g.start].iter().map(|r| (*r, 0)).collect();
        kernels.push(k0.clone());
        index.insert(k0, 0);
        let mut bad = None;
        for r in &g.rules {
            if r.rhs.contains(&S::N(g.start)) {
                bad = Some("start symbol on the RHS".to_string());
            }
        }
        let mut i = 0;
        while i < kernels.len() {
            // closure
            let mut it = kernels[i].clone();
            let mut seen = vec![false; g.nn];
            let mut p = 0;
            while p < it.len() {
                let (r, d) = it[p];
                p += 1;
                if let Some(S::N(k)) = g.rules[r].rhs.get(d) {
                    if g.by_lhs[*k].is_empty() && *k != g.err {
                        bad = Some("nonterminal without rules".to_string());
                    }
                    if !seen[*k] {
                        seen[*k] = true;
                        for q in &g.by_lhs[*k] {
                            if !it.contains(&(*q, 0)) {
                                it.push((*q, 0));
                            }
                        }
                    }
                }
            }
            // transitions per atom
            let mut tr: Vec<(S, Vec<(usize, usize)>)> = vec![];
            let mut pos: HashMap<S, usize> = HashMap::new();
            for &(r, d) in &it {
                if let Some(s) = g.rules[r].rhs.get(d) {
                    for a in g.atoms(s) {
                        let k = *pos.entry(a.clone()).or_insert_with(|| {
                            tr.push((a.clone(), vec![]));
                            tr.len() - 1
                        });
                        if !tr[k].1.contains(&(r, d + 1)) {
                            tr[k].1.push((r, d + 1));
                        }
                    }
                }
            }
            let mut out = vec![];
            for (a, mut k) in tr {
                k.sort();
                let s = *index.entry(k.clone()).or_insert_with(|| {
                    kernels.push(k);
                    kernels.len() - 1
                });
                out.push((a, s));
            }
            items.push(it);
            trans.push(out);
            i += 1;
            if kernels.len() > MAX_STATES {
                bad = Some("too big".into());
                break;
            }
        }
        let ns = items.len();
        let mut l = Lalr {
            verdict: Verdict::Clean,
            act: vec![vec![Cell::None; g.nt]; ns],
            goto: vec![vec![None; g.nn]; ns],
            dflt: vec![vec![]; ns],
            kernels: kernels.clone(),
            resolved: 0,
            contests: 0,
            items: items.clone(),
            multi: HashMap::new(),
        };
        if let Some(b) = bad {
            l.verdict = Verdict::Bad(b);
            return l;
        }
        // lookaheads
        let pos: Vec<HashMap<(usize, usize), usize>> =
            items.iter().map(|v| v.iter().enumerate().map(|(i, x)| (*x, i)).collect()).collect();
        let mut la: Vec<Vec<Bits>> = items.iter().map(|v| vec![Bits::new(g.nt); v.len()]).collect();
        for k in 0..kernels[0].len() {
            la[0][k].set(0);
        }
        let mut work: Vec<usize> = (0..ns).rev().collect();
        let mut queued = vec![true; ns];
        let tmap: Vec<HashMap<S, usize>> = trans.iter().map(|v| v.iter().cloned().collect()).collect();
        while let Some(s) = work.pop() {
            queued[s] = false;
            // closure lookaheads
            loop {
                let mut ch = false;
                for p in 0..items[s].len() {
                    let (r, d) = items[s][p];
                    if let Some(S::N(k)) = g.rules[r].rhs.get(d) {
                        let f = g.first_seq(&g.rules[r].rhs[d + 1..], Some(&la[s][p]));
                        for q in &g.by_lhs[*k] {
                            let j = pos[s][&(*q, 0)];
                            ch |= la[s][j].or(&f);
                        }
                    }
                }
                if !ch {
                    break;
                }
            }
            for p in 0..items[s].len() {
                let (r, d) = items[s][p];
                if let Some(x) = g.rules[r].rhs.get(d) {
                    for a in g.atoms(x) {
                        let to = tmap[s][&a];
                        let j = pos[to][&(r, d + 1)];
                        let src = la[s][p].clone();
                        if la[to][j].or(&src) && !queued[to] {
                            queued[to] = true;
                            work.push(to);
                        }
                    }
                }
            }
        }
        // cells
        let mut conflict = None;
        let mut unclear = false;
        let mut used = vec![false; g.rules.len()];
        for s in 0..ns {
            let mut shift: Vec<Option<usize>> = vec![None; g.nt];
            for (a, to) in &trans[s] {
                match a {
                    S::T(t) => shift[*t] = Some(*to),
                    S::N(k) => l.goto[s][*k] = Some(*to),
                    S::M(_) => unreachable!(),
                }
            }
            let mut red: Vec<Vec<usize>> = vec![vec![]; g.nt];
            for p in 0..items[s].len() {
                let (r, d) = items[s][p];
                if d == g.rules[r].rhs.len() {
                    for t in la[s][p].iter() {
                        if t < g.nt {
                            red[t].push(r);
                        }
                    }
                }
            }
            for t in 0..g.nt {
                let mut open = Some(false);
                let c = match (shift[t], red[t].as_slice()) {
                    (None, []) => Cell::None,
                    (Some(x), []) => Cell::Shift(x),
                    (None, [r]) => Cell::Reduce(*r),
                    (Some(x), [r]) => match (g.tprec[t], g.rules[*r].prec) {
                        (Some((a, assoc)), Some((b, _))) => {
                            l.resolved += 1;
                            if a > b {
                                Cell::Shift(x)
                            } else if a < b {
                                Cell::Reduce(*r)
                            } else {
                                match assoc {
                                    Assoc::Left => Cell::Reduce(*r),
                                    Assoc::Right => Cell::Shift(x),
                                    Assoc::Non => Cell::Error,
                                }
                            }
                        }
                        _ => {
                            open = Some(true);
conflict = Some(format!("shift/reduce on terminal {} between state {} and rule {}", t, x, r));
                            Cell::None
                        }
                    },
                    (None, [r, q]) => match (g.rules[*r].prec, g.rules[*q].prec) {
                        (Some((a, _)), Some((b, _))) if a != b => {
                            l.resolved += 1;
                            Cell::Reduce(if a > b { *r } else { *q })
                        }
                        _ => {
                            open = Some(true);
conflict = Some(format!("reduce/reduce on terminal {} between rules {} and {}", t, r, q));
                            Cell::None
                        }
                    },
                    (sh, rs) => {
                        l.contests += 1;
                        match contest(g, t, sh, rs) {
                            Contest::Won(c) => {
                                l.resolved += 1;
                                c
                            }
                            Contest::Open => {
                                open = Some(true);
conflict = Some(format!("multiple conflict on terminal {}", t));
                                Cell::None
                            }
                            Contest::Unclear => {
                                open = None;
unclear = true;
                                Cell::None
                            }
                        }
                    }
                };
                if shift[t].is_some() as usize + red[t].len() > 1 {
                    l.multi.insert((s, t), Multi { shift: shift[t], reds: red[t].clone(), open });
                }
                if let Cell::Reduce(r) = c {
                    used[r] = true;
                    if g.rules[r].lhs != g.start && !l.dflt[s].contains(&r) {
                        l.dflt[s].push(r);
                    }
                }
                l.act[s][t] = c;
            }
        }
        l.verdict = if conflict.is_some() {
            Verdict::Conflict(conflict.unwrap())
        } else if unclear {
            Verdict::Unclear
        } else if let Some(r) = used.iter().position(|u| !u) {
            Verdict::Bad(format!("rule {} cannot be reduced", r))
        } else {
            Verdict::Clean
        };
        l
    }
    pub fn states(&self) -> usize {
        self.act.len()
    }
    /// What the state does with a terminal: as itself, else as its fallbacks, else as the wildcard.
    pub fn look(&self, g: &Gram, s: usize, t: usize) -> Cell {
        let mut u = t;
        loop {
            if self.act[s][u] != Cell::None {
                return self.act[s][u];
            }
            match g.fb[u] {
                Some(f) => u = f,
                None => break,
            }
        }
        if t != 0 {
            if let Some(w) = g.wc {
                return self.act[s][w];
            }
        }
        Cell::None
    }
    /// Terminals (without end of input) the state accepts.
    pub fn expected(&self, g: &Gram, s: usize) -> Vec<usize> {
        (1..g.nt).filter(|t| matches!(self.look(g, s, *t), Cell::Shift(_) | Cell::Reduce(_))).collect()
    }
}

/// Earley chart over the plain grammar: sentence and viable-prefix questions.
pub struct Earley<'a> {
    g: &'a Gram,
    /// sets[i]: items (rule, dot, origin)
    sets: Vec<Vec<(usize, usize, usize)>>,
    productive: Vec<bool>,
    seen: Vec<std::collections::HashSet<(usize, usize, usize)>>,
    pub steps: usize,
}
impl<'a> Earley<'a> {
    pub fn new(g: &'a Gram) -> Self {
        let productive = g.min_len().iter().map(|x| x.is_some()).collect();
        let mut e = Earley { g, sets: vec![], productive, seen: vec![], steps: 0 };
        e.sets.push(vec![]);
        e.seen.push(Default::default());
        let init: Vec<_> = g.by_lhs[g.start].iter().map(|r| (*r, 0, 0)).collect();
        for i in init {
            e.add(0, i);
        }
        e.complete(0);
        e
    }
    fn rule_ok(&self, r: usize) -> bool {
        self.g.rules[r].rhs.iter().all(|s| match s {
            S::N(k) => self.productive[*k],
            _ => true,
        })
    }
    fn add(&mut self, i: usize, it: (usize, usize, usize)) {
        if self.rule_ok(it.0) && self.seen[i].insert(it) {
            self.sets[i].push(it);
        }
    }
    fn complete(&mut self, i: usize) {
        let mut p = 0;
        while p < self.sets[i].len() {
            self.steps += 1;
            let (r, d, o) = self.sets[i][p];
            p += 1;
            let rhs = &self.g.rules[r].rhs;
            if d == rhs.len() {
                let lhs = self.g.rules[r].lhs;
                let back: Vec<_> = self.sets[o]
                    .iter()
                    .filter(|(r2, d2, _)| self.g.rules[*r2].rhs.get(*d2) == Some(&S::N(lhs)))
                    .cloned()
                    .collect();
                for (r2, d2, o2) in back {
                    self.add(i, (r2, d2 + 1, o2));
                }
            } else if let S::N(k) = rhs[d] {
                for q in self.g.by_lhs[k].clone() {
                    self.add(i, (q, 0, i));
                }
                if self.g.nullable[k] {
                    self.add(i, (r, d + 1, o));
                }
            }
        }
    }
    /// Number of tokens consumed.
    pub fn len(&self) -> usize {
        self.sets.len() - 1
    }
    pub fn next_terminals(&self) -> Vec<usize> {
        let mut b = Bits::new(self.g.nt);
        for (r, d, _) in self.sets.last().unwrap() {
            match self.g.rules[*r].rhs.get(*d) {
                Some(S::T(t)) => {
                    b.set(*t);
                }
                Some(S::M(k)) => {
                    for t in &self.g.sets[*k] {
                        b.set(*t);
                    }
                }
                _ => {}
            }
        }
        b.iter().filter(|t| *t < self.g.nt).collect()
    }
    pub fn viable(&self, t: usize) -> bool {
        self.sets
            .last()
            .unwrap()
            .iter()
            .any(|(r, d, _)| self.g.rules[*r].rhs.get(*d).is_some_and(|s| self.g.covers(s, t)))
    }
    pub fn accepts(&self) -> bool {
        self.sets
            .last()
            .unwrap()
            .iter()
            .any(|(r, d, o)| *o == 0 && self.g.rules[*r].lhs == self.g.start && *d == self.g.rules[*r].rhs.len())
    }
    /// Consume a viable terminal.
    pub fn advance(&mut self, t: usize) {
        let i = self.sets.len();
        let next: Vec<_> = self
            .sets
            .last()
            .unwrap()
            .iter()
            .filter(|(r, d, _)| self.g.rules[*r].rhs.get(*d).is_some_and(|s| self.g.covers(s, t)))
            .map(|(r, d, o)| (*r, d + 1, *o))
            .collect();
        self.sets.push(vec![]);
        self.seen.push(Default::default());
        for it in next {
            self.add(i, it);
        }
        self.complete(i);
    }
}
