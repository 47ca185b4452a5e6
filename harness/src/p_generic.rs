//! C23: generic parsers against their concrete instances.
use crate::campaign::*;
use crate::gen::*;
use crate::monitor::*;
use crate::p_group::outcome;
use crate::report::Outcome;
use crate::rng::Rng;
use crate::spec::*;
use crate::subject::*;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form {
    /// V<k>
    Plain,
    /// A type parameter.
    Param,
    /// V<N>, N a const parameter.
    Const,
    /// A reference.
    Ref,
    /// A reference to an unsized type parameter.
    Unsized,
    /// An associated type of a type parameter.
    Assoc,
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Param {
    pub name: String,
    pub life: bool,
    /// `const N: usize`
    pub cons: bool,
    /// Needed by the parser's code.
    pub bounds: Vec<String>,
    /// Needed by the enumeration too.
    pub must: bool,
    pub token: bool,
    pub inst: [String; 2],
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Gn {
    pub forms: Vec<Form>,
    pub l: bool,
    pub e: bool,
    /// 0: X, 1: PX, 2: &'b mut X, 3: &'b mut PX
    pub x: u8,
    pub params: Vec<Param>,
    pub token_order: Vec<usize>,
    pub parser_order: Vec<usize>,
    pub token_text: Option<String>,
    pub parser_text: Option<String>,
}
impl Gn {
    /// Random parameters for the types that a specification uses.
    pub fn random(rng: &mut Rng, s: &Spec) -> Gn {
        let v = |t: Ty| match t {
            Ty::V(k) => Some(k as usize),
            _ => None,
        };
        let tk: BTreeSet<usize> = (0..s.terms.len()).filter_map(|i| v(s.tty(i))).collect();
        let mut pk: BTreeSet<usize> = (0..s.nts.len()).filter_map(|i| v(s.nty(i))).collect();
        if s.uses_err() {
            pk.extend(v(s.ety()));
        }
        let mut forms = vec![];
        let mut params: Vec<Param> = vec![];
        let p = |name: String, bounds: &[&str], must, token, inst: [String; 2]| Param {
            name,
            life: false,
            cons: false,
            bounds: bounds.iter().map(|s| s.to_string()).collect(),
            must,
            token,
            inst,
        };
        let heavy = rng.pct(80);
        for k in 0..8 {
            let f = if !(tk.contains(&k) || pk.contains(&k)) || !heavy && rng.pct(60) {
                Form::Plain
            } else {
                match rng.below(12) {
                    0 => Form::Plain,
                    1..=4 => Form::Param,
                    5..=6 => Form::Const,
                    7..=8 => Form::Ref,
                    9 => Form::Unsized,
                    _ => Form::Assoc,
                }
            };
            forms.push(f);
            let t = tk.contains(&k);
            let vk = format!("V<{}>", k);
            match f {
                Form::Plain => {}
                Form::Param => params.push(p(format!("P{}", k), &["Val"], false, t, [vk.clone(), if rng.pct(50) { format!("Box<{}>", vk) } else { format!("[{}; 1]", vk) }])),
                Form::Const => params.push(Param { cons: true, ..p(format!("N{}", k), &[], true, t, [k.to_string(), "{ 3 + 4 }".into()]) }),
                Form::Ref => {}
                Form::Unsized => params.push(p(format!("U{}", k), &["?Sized", "Lk"], true, t, [format!("R<{}>", k), "dyn Obs + Send + Sync".into()])),
                Form::Assoc => params.push(p(format!("A{}", k), &["Fam"], true, t, ["F0".into(), "(V<3>,)".into()])),
            }
        }
        let is_ref = |k: &usize| matches!(forms[*k], Form::Ref | Form::Unsized);
        if tk.iter().chain(pk.iter()).any(is_ref) {
            let b = if rng.pct(20) { vec!["'a".to_string()] } else { vec![] };
            params.push(Param { life: true, bounds: b, ..p("'a".into(), &[], false, tk.iter().any(is_ref), ["'static".into(), "'static".into()]) });
        }
        let l = s.extra_token && !s.terms.is_empty() && rng.pct(60);
        if l {
            params.push(p("PL".into(), &["Val"], false, true, ["L".into(), "Box<L>".into()]));
        }
        let e = s.error && rng.pct(40);
        if e {
            params.push(p("PE".into(), &["Er", "Default"], false, false, ["E".into(), "Box<E>".into()]));
        }
        let x = if s.extra { *rng.pick(&[0, 0, 1, 1, 2, 3]) } else { 0 };
        if x % 2 == 1 {
            params.push(p("PX".into(), &["Ext"], false, false, ["X".into(), "Box<X>".into()]));
        }
        if x >= 2 {
            params.push(Param { life: true, ..p("'b".into(), &[], false, false, ["'static".into(), "'static".into()]) });
        }
        let order = |rng: &mut Rng, only: bool| -> Vec<usize> {
            let mut o: Vec<usize> = (0..params.len()).filter(|i| !only || params[*i].token).collect();
            rng.shuffle(&mut o);
            o.sort_by_key(|i| !params[*i].life);
            o
        };
        let token_order = order(rng, true);
        let parser_order = order(rng, false);
        let decl = |rng: &mut Rng, kind: &str, o: &[usize], need: bool| -> (String, bool) {
            let mut g = vec![];
            let mut w = vec![];
            let mut full = true;
            let dflt = rng.pct(20);
            for i in o {
                let p = &params[*i];
                let mut inl = vec![];
                let take = need || p.must || rng.pct(50);
                full &= take || p.bounds.is_empty();
                for b in &p.bounds {
                    if !take && b != "?Sized" {
                        continue;
                    }
                    if rng.pct(50) {
                        inl.push(b.clone())
                    } else {
                        w.push(match rng.below(3) {
                            _ if p.life || b == "?Sized" => format!("{}: {}", p.name, b),
                            0 => format!("for<'z> {}: {}", p.name, b),
                            _ => format!("{}: {}", p.name, b),
                        });
                    }
                }
                if take && !p.life && !p.cons && p.name.starts_with(['P', 'U']) && rng.pct(15) {
                    w.push(if p.name == "PX" || p.name == "PE" { format!("{}: Sized", p.name) } else { format!("for<'z> fn(&'z {}): Sized", p.name) });
                }
                g.push(format!(
                    "{}{}{}{}",
                    if p.cons { "const " } else { "" },
                    p.name,
                    if p.cons {
                        ": usize".to_string()
                    } else if inl.is_empty() {
                        String::new()
                    } else {
                        format!(": {}", inl.join(" + "))
                    },
                    if Some(i) == o.last() && !p.life && !p.cons && dflt { format!(" = {}", p.inst[0]) } else { String::new() }
                ));
            }
            let comma = if !g.is_empty() && rng.pct(20) { "," } else { "" };
            let g = if g.is_empty() { String::new() } else { format!("<{}{}>", g.join(", "), comma) };
            let w = if w.is_empty() { String::new() } else { format!(" where {}{}", w.join(", "), rng.pick(&["", ","])) };
            (format!("%{} pub {} {}{}{} {{}}{}", kind, if kind == "token" { "enum" } else { "struct" }, if kind == "token" { "Token" } else { "Parser" }, g, w, ";"), full)
        };
        // without %parser, the parser has the parameters and bounds of the tokens
        let same = params.iter().all(|p| p.token);
        let lazy = same && rng.pct(50);
        let (tt, _) = decl(rng, "token", &token_order, lazy);
        let (pt, _) = decl(rng, "parser", &parser_order, true);
        Gn {
            forms,
            l,
            e,
            x,
            token_text: if token_order.is_empty() && rng.pct(50) { None } else { Some(tt) },
            parser_text: if lazy { None } else { Some(pt) },
            parser_order: if lazy { token_order.clone() } else { parser_order },
            params,
            token_order,
        }
    }
    pub fn ty(&self, t: Ty) -> String {
        let Ty::V(k) = t else { return "()".into() };
        match self.forms[k as usize] {
            Form::Plain => format!("V<{}>", k),
            Form::Param => format!("P{}", k),
            Form::Const => format!("V<N{}>", k),
            Form::Ref => format!("&'a R<{}>", k),
            Form::Unsized => format!("&'a U{}", k),
            Form::Assoc => format!("A{}::Item", k),
        }
    }
    /// Expression that makes a value with identity `r`.
    pub fn mk(&self, t: Ty) -> String {
        let Ty::V(k) = t else { return "()".into() };
        match self.forms[k as usize] {
            Form::Plain => format!("V::<{}>::mk(r)", k),
            Form::Param => format!("P{}::mk(r)", k),
            Form::Const => format!("V::<N{}>::mk(r)", k),
            Form::Ref => format!("<R<{}> as Lk>::lk(r)", k),
            Form::Unsized => format!("U{}::lk(r)", k),
            Form::Assoc => format!("<A{}::Item as Val>::mk(r)", k),
        }
    }
    pub fn x_ty(&self) -> &'static str {
        ["X", "PX", "&'b mut X", "&'b mut PX"][self.x as usize]
    }
    pub fn decls(&self, _s: &Spec) -> Vec<String> {
        self.token_text.iter().chain(self.parser_text.iter()).cloned().collect()
    }
    fn inst_of(&self, name: &str, j: usize) -> &str {
        &self.params.iter().find(|p| p.name == name).unwrap().inst[j]
    }
    fn inst_mk(&self, t: Ty, j: usize) -> String {
        let Ty::V(k) = t else { return "()".into() };
        match self.forms[k as usize] {
            Form::Plain => format!("V::<{}>::mk(nid())", k),
            Form::Param => format!("<{} as Val>::mk(nid())", self.inst_of(&format!("P{}", k), j)),
            Form::Const => format!("V::<{}>::mk(nid())", self.inst_of(&format!("N{}", k), j)),
            Form::Ref => format!("<R<{}> as Lk>::lk(nid())", k),
            Form::Unsized => format!("<{} as Lk>::lk(nid())", self.inst_of(&format!("U{}", k), j)),
            Form::Assoc => format!("<<{} as Fam>::Item as Val>::mk(nid())", self.inst_of(&format!("A{}", k), j)),
        }
    }
    fn args(&self, o: &[usize], j: usize) -> String {
        if o.is_empty() {
            return String::new();
        }
        format!("<{}>", o.iter().map(|i| self.params[*i].inst[j].clone()).collect::<Vec<_>>().join(", "))
    }
    fn names(&self, o: &[usize]) -> String {
        if o.is_empty() {
            return String::new();
        }
        format!("<{}>", o.iter().map(|i| self.params[*i].name.clone()).collect::<Vec<_>>().join(", "))
    }
    fn params(&self, o: &[usize]) -> String {
        if o.is_empty() {
            return String::new();
        }
        let v: Vec<String> = o
            .iter()
            .map(|i| {
                let p = &self.params[*i];
                if p.cons {
                    format!("const {}: usize", p.name)
                } else if p.bounds.is_empty() {
                    p.name.clone()
                } else {
                    format!("{}: {}", p.name, p.bounds.join(" + "))
                }
            })
            .collect();
        format!("<{}>", v.join(", "))
    }
    pub fn glue(&self, sp: &Spec) -> String {
        let mut s = String::new();
        let (to, po) = (&self.token_order, &self.parser_order);
        for j in 0..2 {
            writeln!(s, "type Tk{j} = Token{}; type Pr{j} = Parser{};", self.args(to, j), self.args(po, j)).unwrap();
            writeln!(s, "fn mk_{j}(t: u32) -> Tk{j} {{ match t {{").unwrap();
            let l = if self.l { format!("<{} as Val>::mk(nid())", self.inst_of("PL", j)) } else { "L::new()".into() };
            for (i, x) in sp.terms.iter().enumerate() {
                let t = sp.tty(i);
                let e = match (t, sp.extra_token) {
                    (Ty::Unit, false) => format!("Token::{}", x.name),
                    (Ty::Unit, true) => format!("Token::{}({l})", x.name),
                    (t, false) => format!("Token::{}({})", x.name, self.inst_mk(t, j)),
                    (t, true) => format!("Token::{}(({l}, {}))", x.name, self.inst_mk(t, j)),
                };
                writeln!(s, "{} => {},", i, e).unwrap();
            }
            s += "_ => panic!(\"no such token\") } }\n";
            writeln!(s, "fn mk{j}(t: u32) -> Tk{j} {{ ").unwrap();
            if sp.extra_token {
                writeln!(s, "access(&|| mk_{j}(t), &|| {l}, &|k| tc(k).1, &|k| k.extra(), &|k| k.extra_mut(), &|k| k.into_extra());").unwrap();
            }
            writeln!(s, "let k = mk_{j}(t); tokw(t, &tc(&k).1); k }}").unwrap();
            writeln!(s, "pub struct I{j}(Option<Pr{j}>);\nimpl Inst for I{j} {{").unwrap();
            writeln!(s, "fn feed(&mut self, t: u32) -> Result<(), u32> {{ let k = mk{j}(t); unit(self.0.as_mut().unwrap().parse(k)) }}").unwrap();
            let fin = if sp.extra { "fin_x" } else { "fin" };
            writeln!(s, "fn eoi(&mut self) -> Fin {{ {fin}(self.0.take().unwrap().end_of_input()) }}").unwrap();
            s += "fn drop_it(&mut self) { self.0 = None }\n";
            s += "fn moved(self: Box<Self>) -> Box<dyn Inst + Send> { Box::new(*self) }\n";
            s += &sp.fork(&format!("I{j}"));
            if sp.extra {
                s += "fn ext(&mut self, k: u32) -> Option<[u32; 2]> { match k { 0 => { let p = self.0.as_mut().unwrap(); p.extra_mut().bump(2000); Some(p.extra_mut().get()) } 1 => Some(self.0.as_ref().unwrap().extra().get()), _ => Some(self.0.take().unwrap().into_extra().get()) } }\n";
            } else {
                s += "fn ext(&mut self, _k: u32) -> Option<[u32; 2]> { None }\n";
            }
            s += "}\n";
            let boxed = self.x % 2 == 1 && j == 1;
            let x = if boxed { "Box::new(X::new())" } else { "X::new()" };
            let x = if self.x >= 2 { format!("Box::leak(Box::new({}))", x) } else { x.to_string() };
            let x = if sp.extra { x } else { String::new() };
            writeln!(s, "pub fn make{} () -> Box<dyn Inst + Send> {{ Box::new(I{j}(Some(<Pr{j}>::new({x})))) }}", if j == 0 { "" } else { "2" }).unwrap();
        }
        // from generic code, for any lifetime
        writeln!(s, "pub fn local{}(mut p: Parser{}, t: Token{}) -> bool {{ let r = p.parse(t).is_ok(); r && p.end_of_input().is_ok() }}", self.params(po), self.names(po), self.names(to)).unwrap();
        writeln!(s, "fn tc{}(t: &Token{}) -> Tc {{ match t {{", self.params(to), self.names(to)).unwrap();
        for (i, x) in sp.terms.iter().enumerate() {
            if sp.term_ty_text(i).is_some() {
                writeln!(s, "Token::{}(v) => ({}, words(v)),", x.name, i).unwrap();
            } else {
                writeln!(s, "Token::{} => ({}, words(&())),", x.name, i).unwrap();
            }
        }
        if sp.terms.is_empty() {
            s += "_ => unreachable!()";
        }
        s += "} }\nfn ni(s: &str) -> u32 { match s {\n";
        for (i, x) in sp.terms.iter().enumerate() {
            writeln!(s, "\"{}\" => {},", x.name, i).unwrap();
        }
        s += "_ => 999_999 } }\n";
        s
    }
}
pub fn c23(ctl: &Ctl) -> Res<Outcome> {
    let cfg = Cfg { err: 8, bare: 0, default_ty: 20, extra_token: 25, wildcard: 12, fallback: 20, ..Cfg::mixed() };
    let mix = Mix { derived: 8, edited: 6, walks: 6, cells: 6, len: 20, tolerate: 40, fail: 8, cut: 8, access: 10, ..Mix::plain(0) };
    let gen = |rng: &mut Rng| {
        let mut c = spec(rng, &cfg);
        c.spec.flavor = 0;
        c.spec.extra_pair = false;
        if rng.pct(15) {
            c.spec.stack = Some((rng.range(3, 9), if rng.pct(50) { Some("rt::Lst".into()) } else { None }));
        }
        let mut rs = runs(rng, &c, &mix);
        for r in rs.iter_mut() {
            r.flags &= !F_DROPLOG;
        }
        let mut units = vec![GUnit { text: text_of(&c.spec, &c.spec.macro_body()), runs: rs.clone() }];
        let mut what = vec![];
        for _ in 0..2 {
            let mut g = c.spec.clone();
            let gn = Gn::random(rng, &g);
            what.push(gn.clone());
            g.gen = Some(Box::new(gn));
            units.push(GUnit { text: text_of(&g, &g.macro_body()), runs: rs.clone() });
            units.push(GUnit { text: "pub mod g@ID@ { pub use super::g@PREV@::make2 as make; }".into(), runs: rs.clone() });
        }
        let (g, l, s2) = (c.g.clone(), c.l.clone(), c.spec.clone());
        let judge = move |logs: &[Vec<Option<Vec<u32>>>], acc: &mut Acc| {
            for w in &what {
                for f in &w.forms {
                    if *f != Form::Plain {
                        acc.note(&format!("payload types as {:?}", f), 1);
                    }
                }
                acc.note("parameters declared", w.params.len() as u64);
                acc.note(if w.parser_text.is_some() { "with %parser" } else { "without %parser" }, 1);
                acc.note("extra argument or error type generic", (w.x > 0 || w.e) as u64);
            }
            for ri in 0..rs.len() {
                let a = logs[0][ri].as_ref().unwrap();
                let mut st = Stats::default();
                if let Err(b) = Mon::new(&s2, &g, &l).check(&rs[ri], &without_stk(a), &mut st) {
                    *acc.other.entry(b.cat.to_string()).or_insert(0) += 1;
                }
                for ui in 1..logs.len() {
                    let b = logs[ui][ri].as_ref().unwrap();
                    acc.note("logs compared with the concrete parser's", 1);
                    if a != b {
                        let (x, y) = (events(a), events(b));
                        let i = (0..x.len().min(y.len())).find(|i| x[*i].code != y[*i].code || x[*i].b != y[*i].b).unwrap_or(x.len().min(y.len()));
                        let sh = |v: &Vec<Ev>| v.get(i).map_or("nothing".to_string(), |e| show_log(&[&[e.b.len() as u32 + 1, e.code], e.b].concat()).trim().to_string());
                        return Err((ui, ri, Bad { cat: "generic", msg: format!("observation {} is `{}` in an instance of the generic parser, `{}` in the concrete parser", i, sh(&y), sh(&x)) }));
                    }
                }
            }
            Ok(())
        };
        Group { units, tag: c.tag, build_fails: true, names: c.spec, judge: Box::new(judge) }
    };
    let w = GWork { gen: &gen, per: 4, chunks: ctl.q(36, 100_000), opts: Opts { per: 20, ..Opts::default() }, share: 1.0, stream: 1 };
    let acc = group_campaign(ctl, &w)?;
    Ok(outcome(acc, "Groups of one random specification: with concrete types, and two versions whose payload, common token data, error and extra argument types are type, const and lifetime parameters (also unsized, borrowed and associated types) with bounds and where-clauses in random places, with and without %parser, each with two instantiations side by side. Logs must be identical; borrowed payloads check their address at every observation; calls from generic code compile for any lifetime."))
}
