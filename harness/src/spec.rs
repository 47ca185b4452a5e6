//! Grammar specifications as the harness sees them, and their emission as
//! `pomelo!` source plus the glue that drives the generated parser.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Unit,
    V(u8),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Assoc {
    Left,
    Right,
    Non,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Item {
    T(usize),
    N(usize),
    Alt(Vec<usize>),
    Class(usize),
    Err,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alias {
    No,
    Plain,
    Mut,
    /// `(l, v)` on a token that carries common data and a payload.
    Pair,
    /// `_`
    Under,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct RhsItem {
    pub it: Item,
    pub opt: bool,
    pub alias: Alias,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    /// Logs and builds a fresh value.
    Log,
    /// Logs and returns the value of right-hand side symbol i.
    Fwd(usize),
    /// No code.
    Empty,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<RhsItem>,
    pub prec: Option<usize>,
    pub act: Act,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Term {
    pub name: String,
    pub ty: Ty,
    pub fallback: Option<usize>,
    /// Emit a `%type` directive even if untyped.
    pub declare: bool,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct NonTerm {
    pub name: String,
    pub ty: Ty,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Class {
    pub name: String,
    pub members: Vec<usize>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Hand {
    Absent,
    Log,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Spec {
    pub terms: Vec<Term>,
    pub nts: Vec<NonTerm>,
    pub classes: Vec<Class>,
    pub rules: Vec<Rule>,
    pub start: usize,
    pub start_dir: bool,
    pub prec: Vec<(Assoc, Vec<usize>)>,
    pub wildcard: Option<usize>,
    pub err_ty: Ty,
    pub default_ty: Option<u8>,
    pub extra: bool,
    pub extra_token: bool,
    /// The common token data are a pair.
    pub extra_pair: bool,
    /// Error type E (else `()`).
    pub error: bool,
    pub syn: Hand,
    pub pf: Hand,
    pub ov: Hand,
    /// Limit and custom stack type (a path in scope of the module).
    pub stack: Option<(usize, Option<String>)>,
    pub module: String,
    pub verbose: bool,
    /// Extra raw declarations.
    pub raw: Vec<String>,
    /// Rule number logged by each rule's action (empty: its index).
    pub rule_ids: Vec<usize>,
    /// Names of the aliases by position (missing: a0, a1, ...).
    pub anames: Vec<String>,
    /// Write the actions so that many have the same text: aliases are named and numbered at random (0: no).
    pub twins: u64,
    /// Seed of harmless variations of the text (0: none).
    pub flavor: u64,
    /// Traits derived for the parser: Clone (1), Debug (2), PartialEq (4).
    pub derives: u8,
    /// Type parameters instead of concrete types (None: no parameters).
    pub gen: Option<Box<crate::p_generic::Gn>>,
}
pub fn item(it: Item) -> RhsItem {
    RhsItem { it, opt: false, alias: Alias::No }
}
pub fn t(i: usize) -> RhsItem {
    item(Item::T(i))
}
pub fn n(i: usize) -> RhsItem {
    item(Item::N(i))
}

impl Spec {
    pub fn new(nterm: usize, nnt: usize) -> Spec {
        Spec {
            terms: (0..nterm).map(|i| Term { name: tname(i), ty: Ty::Unit, fallback: None, declare: false }).collect(),
            nts: (0..nnt).map(|i| NonTerm { name: format!("n{}", i), ty: Ty::Unit }).collect(),
            classes: vec![],
            rules: vec![],
            start: 0,
            start_dir: false,
            prec: vec![],
            wildcard: None,
            err_ty: Ty::Unit,
            default_ty: None,
            extra: true,
            extra_token: false,
            extra_pair: false,
            error: true,
            syn: Hand::Log,
            pf: Hand::Log,
            ov: Hand::Log,
            stack: Some((0, None)),
            module: "parser".into(),
            verbose: false,
            raw: vec![],
            rule_ids: vec![],
            anames: vec![],
            twins: 0,
            flavor: 0,
            derives: 0,
            gen: None,
        }
    }
    pub fn rule(&mut self, lhs: usize, rhs: Vec<RhsItem>) {
        self.rules.push(Rule { lhs, rhs, prec: None, act: Act::Log });
    }
    pub fn uses_err(&self) -> bool {
        self.rules.iter().any(|r| r.rhs.iter().any(|x| x.it == Item::Err))
    }
    fn dflt(&self, t: Ty) -> Ty {
        match (t, self.default_ty) {
            (Ty::Unit, Some(k)) => Ty::V(k),
            (t, _) => t,
        }
    }
    /// The type of a terminal without the common token data.
    pub fn tty(&self, i: usize) -> Ty {
        if self.wildcard == Some(i) {
            Ty::Unit
        } else {
            self.dflt(self.terms[i].ty)
        }
    }
    pub fn nty(&self, i: usize) -> Ty {
        self.dflt(self.nts[i].ty)
    }
    pub fn ety(&self) -> Ty {
        self.dflt(self.err_ty)
    }
    /// Type text of the value of an item (None: untyped).
    pub fn item_ty(&self, x: &RhsItem) -> Option<String> {
        let b = match &x.it {
            Item::T(i) => self.term_ty_text(*i),
            Item::N(i) => ty_text(self.nty(*i)),
            Item::Alt(v) => self.term_ty_text(v[0]),
            Item::Class(c) => self.term_ty_text(self.classes[*c].members[0]),
            Item::Err => ty_text(self.ety()),
        };
        if x.opt {
            if !self.can_alias(x) {
                return None;
            }
            Some(format!("Option<{}>", b.unwrap_or("()".into())))
        } else {
            b
        }
    }
    pub fn l_ty(&self) -> &'static str {
        match (self.extra_token, self.extra_pair && self.gen.is_none()) {
            (false, _) => "()",
            (true, false) => "L",
            (true, true) => "(L, L)",
        }
    }
    pub fn term_ty_text(&self, i: usize) -> Option<String> {
        let b = ty_text(self.tty(i));
        if self.extra_token {
            Some(match b {
                None => self.l_ty().into(),
                Some(b) => format!("({}, {})", self.l_ty(), b),
            })
        } else {
            b
        }
    }
    /// An Empty action is fine: untyped LHS, or exactly one typed symbol of the same type and no alias.
    pub fn empty_ok(&self, r: &Rule) -> bool {
        let lt = ty_text(self.nty(r.lhs));
        if lt.is_none() {
            return true;
        }
        if r.rhs.iter().any(|x| x.alias != Alias::No) {
            return false;
        }
        let typed: Vec<_> = r.rhs.iter().filter_map(|x| self.item_ty(x)).collect();
        let plain = |x: &RhsItem| self.can_alias(x) || matches!(x.it, Item::T(_));
        typed.len() == 1 && Some(&typed[0]) == lt.as_ref() && r.rhs.iter().all(plain)
    }
    pub fn item_text(&self, x: &Item) -> String {
        match x {
            Item::T(i) => self.terms[*i].name.clone(),
            Item::N(i) => self.nts[*i].name.clone(),
            Item::Alt(v) => v.iter().map(|i| self.terms[*i].name.clone()).collect::<Vec<_>>().join("|"),
            Item::Class(c) => self.classes[*c].name.clone(),
            Item::Err => "error".into(),
        }
    }
    pub fn an(&self, i: usize) -> String {
        self.anames.get(i).cloned().unwrap_or_else(|| format!("a{}", i))
    }
    pub fn rid(&self, i: usize) -> usize {
        self.rule_ids.get(i).copied().unwrap_or(i)
    }
    /// Number of each alias of a rule in the text of its action.
    pub fn twin(&self, idx: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.rules[idx].rhs.iter().filter(|x| !matches!(x.alias, Alias::No | Alias::Under)).count()).collect();
        Rng::new(self.twins.wrapping_add(idx as u64)).shuffle(&mut v);
        v
    }
    pub fn rule_head(&self, r: &Rule) -> String {
        self.head(r, &|i| self.an(i))
    }
    fn head(&self, r: &Rule, an: &dyn Fn(usize) -> String) -> String {
        let mut s = format!("{} ::=", self.nts[r.lhs].name);
        for (i, x) in r.rhs.iter().enumerate() {
            s.push(' ');
            s += &self.item_text(&x.it);
            if x.opt {
                s.push('?');
            }
            match x.alias {
                Alias::No => {}
                Alias::Plain => {
                    // any irrefutable pattern will do
                    let h = if self.flavor == 0 { 0 } else { Rng::new(self.flavor ^ (s.len() as u64) << 20).below(9) };
                    match h {
                        7 => write!(s, "({} @ _)", an(i)).unwrap(),
                        8 => write!(s, "(({}))", an(i)).unwrap(),
                        _ => write!(s, "({})", an(i)).unwrap(),
                    }
                }
                Alias::Mut => write!(s, "(mut {})", an(i)).unwrap(),
                Alias::Pair => write!(s, "((l{}, v{}))", i, i).unwrap(),
                Alias::Under => s += "(_)",
            }
        }
        if let Some(p) = r.prec {
            write!(s, " [{}]", self.terms[p].name).unwrap();
        }
        s
    }
    pub fn err_text(&self) -> &'static str {
        if self.error && self.gen.as_ref().is_some_and(|g| g.e) {
            "PE"
        } else if self.error {
            "E"
        } else {
            "()"
        }
    }
    pub fn rule_text(&self, idx: usize) -> String {
        let r = &self.rules[idx];
        let tw = self.twin(idx);
        let nth = |i: usize| r.rhs[..i].iter().filter(|x| !matches!(x.alias, Alias::No | Alias::Under)).count();
        let an = |i: usize| if self.twins != 0 { tw.get(nth(i)).map_or(String::new(), |k| format!("q{:02}", k)) } else { self.an(i) };
        let mut s = self.head(r, &an);
        match r.act {
            Act::Empty => s.push(';'),
            a => {
                let mut ch = vec![];
                for (i, x) in r.rhs.iter().enumerate() {
                    match x.alias {
                        Alias::No | Alias::Under => {}
                        Alias::Pair => ch.push(format!("&(&l{i}, &v{i}) as &dyn Obs", i = i)),
                        _ => ch.push(format!("&{} as &dyn Obs", an(i))),
                    }
                }
                let mut id = self.rid(idx);
                if self.twins != 0 {
                    ch.sort();
                    id = ch.len();
                }
                write!(
                    s,
                    " {{ let r = rt::red::<{}, _>({}, &mut *extra, &[{}])?; ",
                    self.err_text(),
                    id,
                    ch.join(", ")
                )
                .unwrap();
                match a {
                    Act::Fwd(i) => write!(s, "{} }}", an(i)).unwrap(),
                    _ => match ty_text(self.nty(r.lhs)) {
                        None => s += "}",
                        Some(t) => match &self.gen {
                            None => write!(s, "<{}>::mk(r) }}", t).unwrap(),
                            Some(g) => write!(s, "{} }}", g.mk(self.nty(r.lhs))).unwrap(),
                        },
                    },
                }
            }
        }
        s
    }
    /// The declarations: (is a rule, text). Precedence declarations and rules are in their significant order.
    fn base_decls(&self) -> Vec<(DeclKind, String)> {
        use DeclKind::*;
        let mut v = vec![];
        if self.module != "parser" {
            v.push((Dir, format!("%module {};", self.module)));
        }
        let g = self.gen.as_deref();
        let rt = if self.derives != 0 { "rt::cl" } else { "rt" };
        let tyt = |t: Ty| match (g, ty_text(t)) {
            (Some(g), Some(_)) => Some(g.ty(t)),
            (_, t) => t,
        };
        match g {
            None => v.push((Dir, format!("%include {{ use {rt}::{{V, L, E, X, Obs}}; use super::{{tc, ni}}; }}"))),
            Some(g) => {
                v.push((Dir, format!("%include {{ use {rt}::{{V, L, E, X, Obs, Val, Lk, Fam, F0, R, Er, Ext}}; use super::{{tc, ni}}; }}")));
                for d in g.decls(self) {
                    v.push((Dir, d));
                }
            }
        }
        for r in &self.raw {
            v.push((Dir, r.clone()));
        }
        if self.verbose {
            v.push((Dir, "%verbose;".into()));
        }
        if self.error {
            v.push((Dir, format!("%error {};", self.err_text())));
        }
        if self.extra {
            v.push((Dir, format!("%extra_argument {};", g.map_or("X", |g| g.x_ty()))));
        }
        if self.extra_token {
            v.push((Dir, format!("%extra_token {};", if g.is_some_and(|g| g.l) { "PL" } else { self.l_ty() })));
        }
        if let Some(k) = self.default_ty {
            v.push((Dir, format!("%default_type {};", tyt(Ty::V(k)).unwrap())));
        }
        let e = self.err_text();
        if self.syn == Hand::Log {
            let val = match self.ety() {
                Ty::Unit => "()".to_string(),
                Ty::V(k) => match g {
                    None => format!("V::<{}>::mk(r)", k),
                    Some(g) => g.mk(Ty::V(k)),
                },
            };
            let val = if self.uses_err() || self.err_ty != Ty::Unit || self.default_ty.is_some() { val } else { "()".into() };
            v.push((
                Dir,
                format!(
                    "%syntax_error {{ let r = rt::syn::<{e}, _>(&mut *extra, token.as_ref().map(tc), expected.map(|x| (ni(x.name), x.token.as_ref().map(tc))))?; Ok({val}) }}"
                ),
            ));
        }
        if self.pf == Hand::Log {
            v.push((Dir, format!("%parse_fail {{ rt::pfail::<{e}, _>(&mut *extra) }}")));
        }
        if self.ov == Hand::Log {
            v.push((Dir, format!("%stack_overflow {{ rt::ovf::<{e}, _>(&mut *extra, token.as_ref().map(tc)) }}")));
        }
        if let Some((n, ty)) = &self.stack {
            v.push((Dir, format!("%stack_size {}{};", n, ty.as_ref().map_or(String::new(), |t| format!(" {}", t)))));
        }
        for (i, x) in self.terms.iter().enumerate() {
            if self.wildcard == Some(i) {
                v.push((Dir, format!("%wildcard {};", x.name)));
            }
            if let Some(t) = tyt(x.ty) {
                v.push((Dir, format!("%type {} {};", x.name, t)));
            } else if x.declare {
                v.push((Dir, format!("%type {};", x.name)));
            }
        }
        for x in &self.nts {
            if let Some(t) = tyt(x.ty) {
                v.push((Dir, format!("%type {} {};", x.name, t)));
            }
        }
        if let Some(t) = tyt(self.err_ty) {
            v.push((Dir, format!("%type error {};", t)));
        }
        for c in &self.classes {
            let m: Vec<_> = c.members.iter().map(|i| self.terms[*i].name.clone()).collect();
            v.push((Dir, format!("%token_class {} {};", c.name, m.join(" "))));
        }
        for (i, x) in self.terms.iter().enumerate() {
            let m: Vec<_> = self.terms.iter().filter(|y| y.fallback == Some(i)).map(|y| y.name.clone()).collect();
            if !m.is_empty() {
                v.push((Dir, format!("%fallback {} {};", x.name, m.join(" "))));
            }
        }
        for (a, ts) in &self.prec {
            let d = match a {
                Assoc::Left => "left",
                Assoc::Right => "right",
                Assoc::Non => "nonassoc",
            };
            let m: Vec<_> = ts.iter().map(|i| self.terms[*i].name.clone()).collect();
            v.push((Prec, format!("%{} {};", d, m.join(" "))));
        }
        if self.start_dir {
            v.push((Dir, format!("%start_symbol {};", self.nts[self.start].name)));
        }
        for i in 0..self.rules.len() {
            v.push((DeclKind::Rule, self.rule_text(i)));
        }
        v
    }
    pub fn decls(&self) -> Vec<(DeclKind, String)> {
        let mut v = self.base_decls();
        if self.flavor != 0 {
            self.season(&mut v);
        }
        if self.derives != 0 {
            let l = ["Clone", "Debug", "PartialEq"];
            let l: Vec<&str> = (0..3).filter(|i| self.derives >> i & 1 != 0).map(|i| l[i]).collect();
            let d = match self.derives >> 4 & 3 {
                0 => l.iter().map(|x| format!("#[derive({})] ", x)).collect::<String>(),
                1 => format!("#[derive({},)] ", l.join(", ").replace("Debug", "std::fmt::Debug")),
                _ => format!("#[derive({})] ", l.join(", ").replace("Clone", "::core::clone::Clone")),
            };
            match v.iter_mut().find(|x| x.1.starts_with("%parser ")) {
                Some(x) => x.1 = x.1.replacen("%parser ", &format!("%parser {}", d), 1),
                None => v.insert(0, (DeclKind::Dir, format!("%parser {}pub struct Parser {{}};", d))),
            }
        }
        v
    }
    /// What the decorations must have done, as statements.
    fn season_checks(&self) -> String {
        if self.flavor == 0 {
            return String::new();
        }
        self.season(&mut self.base_decls()).iter().map(|c| format!("assert!({}); ", c)).collect()
    }
    /// Harmless documented variations: attributes, includes, enum and struct declarations, optional semicolons.
    fn season(&self, v: &mut Vec<(DeclKind, String)>) -> Vec<String> {
        let mut checks = vec![];
        let mut rng = Rng::new(self.flavor);
        for (_, d) in v.iter_mut() {
            if d.ends_with('}') && rng.pct(30) {
                d.push(';');
            }
            if let Some(r) = d.strip_prefix("%type ") {
                if r.starts_with(|c: char| c.is_ascii_uppercase()) && rng.pct(40) {
                    *d = format!("%type #[doc = \"payload\"] {}{}", rng.pick(&["", "#[allow(dead_code)] "]), r);
                }
            }
        }
        let mut add = vec![];
        let m = &self.module;
        let unit: Vec<usize> = (0..self.terms.len()).filter(|i| self.term_ty_text(*i).is_none()).collect();
        if rng.pct(60) {
            let mut attr = String::new();
            let t = if unit.is_empty() { 0 } else { *rng.pick(&unit) };
            // the attribute of one variant, seen by a derive on the enumeration
            if !unit.is_empty() && rng.pct(50) {
                attr += "#[derive(Default)] ";
                let n = &self.terms[t].name;
                checks.push(format!("matches!(Token::default(), Token::{})", n));
                let d = format!("%type {};", n);
                let pos = v.iter().position(|x| x.1.starts_with("%type ") && x.1.trim_end_matches(';').ends_with(&format!(" {}", n)));
                match pos {
                    Some(p) => {
                        v[p].1 = v[p].1.replacen("%type ", "%type #[default] ", 1);
                    }
                    None => v.insert(0, (DeclKind::Dir, d.replacen("%type ", "%type #[default] ", 1))),
                }
            }
            if !self.terms.is_empty() && rng.pct(30) {
                attr += "#[repr(align(64))] ";
                checks.push("std::mem::align_of::<Token>() == 64".into());
            }
            attr += rng.pick(&["", "#[allow(clippy::all)] ", "#[doc = \"tokens\"] #[must_use] "]);
            add.push(format!("%token {}{}enum Token {{}};", attr, rng.pick(&["pub ", "pub(crate) ", "pub(in super) "])));
        }
        if rng.pct(40) {
            let attr = *rng.pick(&["", "#[allow(clippy::all)] ", "#[must_use] #[repr(align(64))] "]);
            if attr.contains("64") {
                checks.push("std::mem::align_of::<Parser>() == 64".into());
            }
            add.push(format!("%parser {}{}struct Parser {{}};", attr, rng.pick(&["pub ", "pub(crate) ", "pub "])));
        }
        if rng.pct(30) {
            // names that are common in user code
            let names = ["pub type Result<T> = ::core::result::Result<T, u64>;", "pub struct State;", "pub struct Stack;", "pub enum Action {}", "pub struct Rule;", "pub struct Entry;", "pub trait Lexer {}"];
            checks.push(format!("{m}::common()"));
            add.push(format!("%include {{ {} {} pub fn common() -> bool {{ true }} }}", names[0], rng.pick(&names[1..])));
        }
        for k in 0..rng.below(3) {
            checks.push(format!("{m}::helper{k}() == {k}"));
            add.push(format!("%include {{ pub fn helper{k}() -> u32 {{ {k} }} const _: () = (); {} }}{}", rng.pick(&["use std::fmt::Debug as _;", "#[derive(Clone)] pub struct Inc<'a>(pub &'a str);", ""]).replace("Inc", &format!("Inc{k}")), rng.pick(&["", ";"])));
        }
        for a in add {
            let p = rng.below(v.iter().filter(|d| d.0 == DeclKind::Dir).count() + 1);
            v.insert(p, (DeclKind::Dir, a));
        }
        checks
    }
    /// The `pomelo!` input, declarations in canonical order.
    pub fn macro_body(&self) -> String {
        self.decls().into_iter().map(|d| d.1).collect::<Vec<_>>().join("\n")
    }
    /// As above, shuffled where order is documented not to matter.
    pub fn macro_body_shuffled(&self, rng: &mut Rng, rules_too: bool) -> String {
        let d = self.decls();
        let mut dirs: Vec<String> = d.iter().filter(|x| x.0 == DeclKind::Dir).map(|x| x.1.clone()).collect();
        rng.shuffle(&mut dirs);
        let mut rules: Vec<String> = d.iter().filter(|x| x.0 == DeclKind::Rule).map(|x| x.1.clone()).collect();
        if rules_too {
            let first = if self.start_dir { None } else { Some(rules.remove(0)) };
            rng.shuffle(&mut rules);
            if let Some(f) = first {
                rules.insert(0, f);
            }
        }
        let prec: Vec<String> = d.iter().filter(|x| x.0 == DeclKind::Prec).map(|x| x.1.clone()).collect();
        // random merge of the three sequences
        let mut seqs = [dirs, rules, prec];
        for s in seqs.iter_mut() {
            s.reverse();
        }
        let mut out = vec![];
        loop {
            let tot: usize = seqs.iter().map(|s| s.len()).sum();
            if tot == 0 {
                break;
            }
            let mut k = rng.below(tot);
            for s in seqs.iter_mut() {
                if k < s.len() {
                    out.push(s.pop().unwrap());
                    break;
                }
                k -= s.len();
            }
        }
        out.join("\n")
    }
    /// The whole module `mod g<id>` with the given macro body.
    pub fn module_text(&self, id: usize, body: &str) -> String {
        let mut s = String::new();
        let m = &self.module;
        let rt = if self.derives != 0 { "rt::cl" } else { "rt" };
        writeln!(s, "pub mod g{} {{ use {rt}::*; use self::{}::{{Parser, Token}};", id, m).unwrap();
        writeln!(s, "pomelo::pomelo! {{\n{}\n}}", body).unwrap();
        s += &self.glue();
        s += "}\n";
        s
    }
    pub fn glue(&self) -> String {
        if let Some(g) = &self.gen {
            return g.glue(self);
        }
        let mut s = String::new();
        let l = if self.l_ty() == "L" { "L::new()" } else { "(L::new(), L::new())" };
        s += "fn mk0(t: u32) -> Token { match t {\n";
        for (i, x) in self.terms.iter().enumerate() {
            let e = match (self.tty(i), self.extra_token) {
                (Ty::Unit, false) => format!("Token::{}", x.name),
                (Ty::Unit, true) => format!("Token::{}({l})", x.name),
                (Ty::V(k), false) => format!("Token::{}(V::<{k}>::new())", x.name),
                (Ty::V(k), true) => format!("Token::{}(({l}, V::<{k}>::new()))", x.name),
            };
            writeln!(s, "{} => {},", i, e).unwrap();
        }
        s += "_ => panic!(\"no such token\") } }\n";
        s += "fn mk(t: u32) -> Token { ";
        if self.extra_token {
            writeln!(s, "access(&|| mk0(t), &|| {l}, &|k| tc(k).1, &|k| k.extra(), &|k| k.extra_mut(), &|k| k.into_extra());").unwrap();
        }
        s += "let k = mk0(t); tokw(t, &tc(&k).1); k }\n";
        s += "fn tc(t: &Token) -> Tc { match t {\n";
        for (i, x) in self.terms.iter().enumerate() {
            if self.term_ty_text(i).is_some() {
                writeln!(s, "Token::{}(v) => ({}, words(v)),", x.name, i).unwrap();
            } else {
                writeln!(s, "Token::{} => ({}, words(&())),", x.name, i).unwrap();
            }
        }
        if self.terms.is_empty() {
            s += "_ => unreachable!()";
        }
        s += "} }\n";
        s += "fn ni(s: &str) -> u32 { match s {\n";
        for (i, x) in self.terms.iter().enumerate() {
            writeln!(s, "\"{}\" => {},", x.name, i).unwrap();
        }
        s += "_ => 999_999 } }\n";
        s += "pub struct I(Option<Parser>);\nimpl Inst for I {\n";
        s += "fn feed(&mut self, t: u32) -> Result<(), u32> { let k = mk(t); let p = self.0.as_mut().unwrap(); unit(armed(|| p.parse(k))) }\n";
        let fin = if self.extra { "fin_x" } else { "fin" };
        writeln!(s, "fn eoi(&mut self) -> Fin {{ let p = self.0.take().unwrap(); {fin}(armed(|| p.end_of_input())) }}").unwrap();
        s += "fn drop_it(&mut self) { let p = self.0.take(); armed(|| drop(p)) }\n";
        s += "fn moved(self: Box<Self>) -> Box<dyn Inst + Send> { Box::new(*self) }\n";
        s += &self.fork("I");
        if self.extra {
            s += "fn ext(&mut self, k: u32) -> Option<[u32; 2]> { match k { 0 => { let p = self.0.as_mut().unwrap(); p.extra_mut().bump(2000); Some(p.extra_mut().get()) } 1 => Some(self.0.as_ref().unwrap().extra().get()), _ => Some(self.0.take().unwrap().into_extra().get()) } }\n";
        } else {
            s += "fn ext(&mut self, _k: u32) -> Option<[u32; 2]> { None }\n";
        }
        s += "}\n";
        let x = if self.extra { "X::new()" } else { "" };
        writeln!(s, "pub fn make() -> Box<dyn Inst + Send> {{ {}Box::new(I(Some(armed(|| Parser::new({x}))))) }}", self.season_checks()).unwrap();
        s
    }
    /// The clone method of a driver, if the parser has clones.
    pub fn fork(&self, driver: &str) -> String {
        let mut s = String::new();
        if self.derives & 1 != 0 {
            s += "fn fork(&self) -> Option<Box<dyn Inst + Send>> { let p = self.0.as_ref()?; let q = p.clone(); ";
            if self.derives & 2 != 0 {
                s += "alike(\"what it looks like\", format!(\"{:?}\", p) == format!(\"{:?}\", q)); alike(\"what it looks like\", format!(\"{:#?}\", p).contains(\"Parser\")); ";
            }
            if self.derives & 4 != 0 {
                s += "alike(\"comparisons\", *p == q && !(q != *p)); ";
            }
            s += &format!("Some(Box::new({}(Some(q)))) }}\n", driver);
        }
        s
    }
    /// Size class used to describe what was generated.
    pub fn shape(&self) -> String {
        format!("{}t{}n{}r", self.terms.len(), self.nts.len(), self.rules.len())
    }
    /// Give symbols random payload types and rules random aliases and actions.
    pub fn decorate(&mut self, rng: &mut Rng, o: &Deco) {
        let kinds = o.kinds.max(1);
        for i in 0..self.terms.len() {
            if rng.pct(o.typed_t) && self.wildcard != Some(i) {
                self.terms[i].ty = Ty::V(rng.below(kinds) as u8);
            }
            self.terms[i].declare = rng.pct(10);
        }
        // fallback targets: untyped or the type of every source (the common
        // token data makes every token typed); chains: repeat until stable
        for _ in 0..=self.terms.len() {
            for i in 0..self.terms.len() {
                if let Some(f) = self.terms[i].fallback {
                    let ft = self.terms[f].ty;
                    if ft != Ty::Unit || self.default_ty.is_some() || self.extra_token {
                        self.terms[i].ty = ft;
                    }
                }
            }
        }
        for x in &mut self.nts {
            if rng.pct(o.typed_n) {
                x.ty = Ty::V(rng.below(kinds) as u8);
            }
        }
        if self.uses_err() && rng.pct(o.typed_n) {
            self.err_ty = Ty::V(rng.below(kinds) as u8);
        }
        for i in 0..self.rules.len() {
            let mut r = self.rules[i].clone();
            for x in &mut r.rhs {
                x.alias = Alias::No;
            }
            for j in 0..r.rhs.len() {
                if rng.pct(o.alias) && self.can_alias(&r.rhs[j]) {
                    let pair = self.extra_token
                        && !r.rhs[j].opt
                        && match &r.rhs[j].it {
                            Item::T(i) => self.tty(*i) != Ty::Unit,
                            Item::Alt(v) => self.tty(v[0]) != Ty::Unit,
                            Item::Class(c) => self.tty(self.classes[*c].members[0]) != Ty::Unit,
                            _ => false,
                        };
                    r.rhs[j].alias = match rng.below(12) {
                        0 => Alias::Mut,
                        1 => Alias::Under,
                        2..=5 if pair => Alias::Pair,
                        _ => Alias::Plain,
                    };
                }
            }
            r.act = Act::Log;
            if rng.pct(o.fwd) {
                let lt = ty_text(self.nty(r.lhs));
                let c: Vec<usize> = (0..r.rhs.len())
                    .filter(|j| r.rhs[*j].alias == Alias::Plain && self.item_ty(&r.rhs[*j]) == lt && lt.is_some())
                    .collect();
                if !c.is_empty() {
                    r.act = Act::Fwd(*rng.pick(&c));
                }
            }
            if rng.pct(o.empty) {
                let mut q = r.clone();
                if ty_text(self.nty(q.lhs)).is_some() || rng.pct(70) {
                    for x in &mut q.rhs {
                        x.alias = Alias::No;
                    }
                }
                q.act = Act::Empty;
                if self.empty_ok(&q) {
                    r = q;
                }
            }
            self.rules[i] = r;
        }
    }
    pub fn same_ty(&self, v: &[usize]) -> bool {
        v.iter().all(|m| self.tty(*m) == self.tty(v[0]) && Some(*m) != self.wildcard)
    }
    pub fn can_alias(&self, x: &RhsItem) -> bool {
        let same = |v: &[usize]| self.same_ty(v);
        match &x.it {
            Item::T(i) => self.wildcard != Some(*i),
            Item::Alt(v) => same(v),
            Item::Class(c) => same(&self.classes[*c].members),
            _ => true,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DeclKind {
    Dir,
    Prec,
    Rule,
}
pub struct Deco {
    pub kinds: usize,
    pub typed_t: usize,
    pub typed_n: usize,
    pub alias: usize,
    pub fwd: usize,
    pub empty: usize,
}
impl Deco {
    pub fn rich() -> Deco {
        Deco { kinds: 4, typed_t: 70, typed_n: 80, alias: 80, fwd: 15, empty: 15 }
    }
    /// Every rule is observed and everything is typed and aliased.
    pub fn full() -> Deco {
        Deco { kinds: 4, typed_t: 80, typed_n: 90, alias: 100, fwd: 10, empty: 0 }
    }
}
pub fn ty_text(t: Ty) -> Option<String> {
    match t {
        Ty::Unit => None,
        Ty::V(k) => Some(format!("V<{}>", k)),
    }
}
pub fn tname(i: usize) -> String {
    if i < 26 {
        format!("{}", (b'A' + i as u8) as char)
    } else {
        format!("T{}", i)
    }
}
