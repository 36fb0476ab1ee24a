//! Terms as plain data, to and from JSON and to and from chomp's own terms.
use crate::json::{codes, J};
use chomp::chomp::ast::{self, Expression, NamedExpression};
use chomp::chomp::name::{Content, Name};
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use std::collections::HashMap;

pub const VARIABLE: u8 = 1;
pub const LET: u8 = 2;
pub const LABEL: u8 = 3;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nm {
    pub c: String,
    pub k: u8,
}

pub fn no_name() -> Nm {
    Nm { c: String::new(), k: 0 }
}
pub fn nm(c: &str, k: u8) -> Nm {
    Nm { c: c.to_owned(), k }
}

pub type Sp = (i64, i64);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Eps,
    Lit(String),
    Cat(Vec<T>, Vec<Sp>),
    Alt(Vec<T>, Vec<Sp>),
    Fix(Box<T>),
    Var(usize),
    Call(Box<T>, Vec<T>),
    Lam(Vec<Nm>, Box<T>),
    Let(Nm, Box<T>, Box<T>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct T {
    pub k: K,
    pub n: Nm,
    pub sp: Sp,
}

impl From<K> for T {
    fn from(k: K) -> T {
        T { k, n: no_name(), sp: (0, 0) }
    }
}

pub fn eps() -> T {
    K::Eps.into()
}
pub fn lit(s: &str) -> T {
    K::Lit(s.to_owned()).into()
}
pub fn var(i: usize) -> T {
    K::Var(i).into()
}
pub fn cat(es: Vec<T>) -> T {
    let n = es.len();
    K::Cat(es, vec![(0, 0); n - 1]).into()
}
pub fn alt(es: Vec<T>) -> T {
    let n = es.len();
    K::Alt(es, vec![(0, 0); n - 1]).into()
}
/// `! /x/ body`
pub fn fix(body: T) -> T {
    K::Fix(Box::new(K::Lam(vec![nm("x", VARIABLE)], Box::new(body)).into())).into()
}

pub fn nm_j(n: &Nm) -> J {
    name_j(n)
}
fn name_j(n: &Nm) -> J {
    obj! {c: codes(&n.c), k: J::Int(n.k as i64)}
}
fn name_of(j: &J) -> Nm {
    Nm { c: j.get("c").text(), k: j.get("k").int() as u8 }
}
fn sp_j(s: &Sp) -> J {
    J::Arr(vec![J::Int(s.0), J::Int(s.1)])
}
fn sp_of(j: &J) -> Sp {
    (j.arr()[0].int(), j.arr()[1].int())
}

impl T {
    pub fn size(&self) -> usize {
        match &self.k {
            K::Eps | K::Lit(_) | K::Var(_) => 1,
            K::Cat(es, _) | K::Alt(es, _) => 1 + es.iter().map(T::size).sum::<usize>(),
            K::Fix(e) | K::Lam(_, e) => 1 + e.size(),
            K::Call(f, a) => 1 + f.size() + a.iter().map(T::size).sum::<usize>(),
            K::Let(_, b, e) => 1 + b.size() + e.size(),
        }
    }
    pub fn depth(&self) -> usize {
        1 + match &self.k {
            K::Eps | K::Lit(_) | K::Var(_) => 0,
            K::Cat(es, _) | K::Alt(es, _) => es.iter().map(T::depth).max().unwrap_or(0),
            K::Fix(e) | K::Lam(_, e) => e.depth(),
            K::Call(f, a) => f.depth().max(a.iter().map(T::depth).max().unwrap_or(0)),
            K::Let(_, b, e) => b.depth().max(e.depth()),
        }
    }

    pub fn to_j(&self) -> J {
        let n = name_j(&self.n);
        let sp = sp_j(&self.sp);
        let many = |v: &[T]| J::Arr(v.iter().map(T::to_j).collect());
        let sps = |v: &[Sp]| J::Arr(v.iter().map(sp_j).collect());
        match &self.k {
            K::Eps => obj! {k: "eps", n: n, sp: sp},
            K::Lit(s) => obj! {k: "lit", n: n, sp: sp, s: codes(s)},
            K::Cat(es, ps) => obj! {k: "cat", n: n, sp: sp, es: many(es), ps: sps(ps)},
            K::Alt(es, ps) => obj! {k: "alt", n: n, sp: sp, es: many(es), ps: sps(ps)},
            K::Fix(e) => obj! {k: "fix", n: n, sp: sp, e: e.to_j()},
            K::Var(i) => obj! {k: "var", n: n, sp: sp, i: *i},
            K::Call(f, a) => obj! {k: "call", n: n, sp: sp, f: f.to_j(), r#as: many(a)},
            K::Lam(p, e) => obj! {k: "lam", n: n, sp: sp,
                                  ps: J::Arr(p.iter().map(name_j).collect()), e: e.to_j()},
            K::Let(x, b, e) => obj! {k: "let", n: n, sp: sp, x: name_j(x), b: b.to_j(), e: e.to_j()},
        }
    }
    pub fn of_j(j: &J) -> T {
        let many = |j: &J| j.arr().iter().map(T::of_j).collect::<Vec<_>>();
        let sps = |j: &J| j.arr().iter().map(sp_of).collect::<Vec<_>>();
        let one = |j: &J| Box::new(T::of_j(j));
        let k = match j.get("k").str() {
            "eps" => K::Eps,
            "lit" => K::Lit(j.get("s").text()),
            "cat" => K::Cat(many(j.get("es")), sps(j.get("ps"))),
            "alt" => K::Alt(many(j.get("es")), sps(j.get("ps"))),
            "fix" => K::Fix(one(j.get("e"))),
            "var" => K::Var(j.get("i").us()),
            "call" => K::Call(one(j.get("f")), many(j.get("as"))),
            "lam" => K::Lam(j.get("ps").arr().iter().map(name_of).collect(), one(j.get("e"))),
            "let" => K::Let(name_of(j.get("x")), one(j.get("b")), one(j.get("e"))),
            k => panic!("kind {}", k),
        };
        T { k, n: name_of(j.get("n")), sp: sp_of(j.get("sp")) }
    }
}

/// Correspondence between spans and token numbers (from 1).
pub struct Spans {
    pub spans: Vec<Span>,
    starts: HashMap<(usize, usize), i64>,
    ends: HashMap<(usize, usize), i64>,
}

fn flat(ts: TokenStream, out: &mut Vec<Span>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                out.push(g.span_open());
                flat(g.stream(), out);
                out.push(g.span_close());
            }
            t => out.push(t.span()),
        }
    }
}

impl Spans {
    pub fn of_source(src: &str) -> Option<Spans> {
        let ts: TokenStream = src.parse().ok()?;
        let mut spans = Vec::new();
        flat(ts, &mut spans);
        let mut starts = HashMap::new();
        let mut ends = HashMap::new();
        for (i, s) in spans.iter().enumerate() {
            starts.insert((s.start().line, s.start().column), i as i64 + 1);
            ends.insert((s.end().line, s.end().column), i as i64 + 1);
        }
        Some(Spans { spans, starts, ends })
    }
    /// A table of n distinct spans, for terms that come from no source.
    pub fn dummy(n: usize) -> Spans {
        let src = (0..n).map(|_| "t").collect::<Vec<_>>().join(" ");
        Spans::of_source(&src).unwrap()
    }
    pub fn to(&self, s: Sp) -> Span {
        if s.0 <= 0 {
            return Span::call_site();
        }
        let a = self.spans[s.0 as usize - 1];
        let b = self.spans[s.1 as usize - 1];
        if s.0 == s.1 {
            a
        } else {
            a.join(b).unwrap_or(a)
        }
    }
    /// Token numbers of a span; 0,0 for no place; -1 if it is no token boundary.
    pub fn from(&self, s: Span) -> Sp {
        let (a, b) = (s.start(), s.end());
        if a == b {
            return (0, 0);
        }
        (
            *self.starts.get(&(a.line, a.column)).unwrap_or(&-1),
            *self.ends.get(&(b.line, b.column)).unwrap_or(&-1),
        )
    }
}

thread_local! {
    /// How names are written: 0 text only, 1 identifiers, 2 raw identifiers.
    pub static SPELLING: std::cell::Cell<u8> = std::cell::Cell::new(0);
}

pub fn content(text: &str, how: u8) -> Content {
    let plain = matches!(text, "_" | "self" | "Self" | "super" | "crate" | "");
    match how {
        1 if !text.is_empty() => Content::from(Ident::new(text, Span::call_site())),
        2 if !plain => Content::from(Ident::new_raw(text, Span::call_site())),
        _ => Content::from(text.to_owned()),
    }
}

pub fn to_name(n: &Nm) -> Option<Name> {
    let c = content(&n.c, SPELLING.with(|s| s.get()));
    match n.k {
        0 => None,
        VARIABLE => Some(Name::new_variable(c)),
        LET => Some(Name::new_let(c)),
        _ => Some(Name::new_label(c)),
    }
}
fn must_name(n: &Nm) -> Name {
    to_name(n).unwrap_or_else(|| Name::new_variable(String::new()))
}

pub fn text_of(c: &Content) -> String {
    match c {
        Content::Spanned(i) => {
            let s = i.to_string();
            s.strip_prefix("r#").map(str::to_owned).unwrap_or(s)
        }
        Content::Spanless(s) => s.clone(),
    }
}

pub fn from_name(n: Option<&Name>) -> Nm {
    match n {
        None => no_name(),
        Some(n) => {
            let c = n.content.clone();
            let k = if *n == Name::new_variable(c.clone()) {
                VARIABLE
            } else if *n == Name::new_let(c.clone()) {
                LET
            } else {
                LABEL
            };
            Nm { c: text_of(&c), k }
        }
    }
}

pub fn to_real(t: &T, sp: &Spans) -> NamedExpression {
    let bx = |e: &T| Box::new(to_real(e, sp));
    let list = |es: &[T], ps: &[Sp]| -> (Box<NamedExpression>, Vec<(Span, NamedExpression)>) {
        let first = Box::new(to_real(&es[0], sp));
        let rest = es[1..].iter().zip(ps).map(|(e, p)| (sp.to(*p), to_real(e, sp))).collect();
        (first, rest)
    };
    let expr: Expression = match &t.k {
        K::Eps => ast::Epsilon.into(),
        K::Lit(s) => s.clone().into(),
        K::Cat(es, ps) => {
            let (first, rest) = list(es, ps);
            ast::Cat { first, rest }.into()
        }
        K::Alt(es, ps) => {
            let (first, rest) = list(es, ps);
            ast::Alt { first, rest }.into()
        }
        K::Fix(e) => ast::Fix { inner: bx(e) }.into(),
        K::Var(i) => ast::Variable { index: *i }.into(),
        K::Call(f, a) => ast::Call {
            on: bx(f),
            args: a.iter().map(|e| to_real(e, sp)).collect(),
        }
        .into(),
        K::Lam(p, e) => ast::Lambda {
            args: p.iter().map(must_name).collect(),
            inner: bx(e),
        }
        .into(),
        K::Let(x, b, e) => ast::Let { name: must_name(x), bound: bx(b), body: bx(e) }.into(),
    };
    NamedExpression { name: to_name(&t.n), span: sp.to(t.sp), expr }
}

pub fn from_real(e: &NamedExpression, sp: &Spans) -> T {
    let bx = |e: &NamedExpression| Box::new(from_real(e, sp));
    let list = |first: &NamedExpression, rest: &[(Span, NamedExpression)]| {
        let mut es = vec![from_real(first, sp)];
        es.extend(rest.iter().map(|(_, e)| from_real(e, sp)));
        (es, rest.iter().map(|(p, _)| sp.from(*p)).collect::<Vec<_>>())
    };
    let k = match &e.expr {
        Expression::Epsilon(_) => K::Eps,
        Expression::Literal(s) => K::Lit(s.clone()),
        Expression::Cat(c) => {
            let (es, ps) = list(&c.first, &c.rest);
            K::Cat(es, ps)
        }
        Expression::Alt(c) => {
            let (es, ps) = list(&c.first, &c.rest);
            K::Alt(es, ps)
        }
        Expression::Fix(f) => K::Fix(bx(&f.inner)),
        Expression::Variable(v) => K::Var(v.index),
        Expression::Call(c) => {
            K::Call(bx(&c.on), c.args.iter().map(|e| from_real(e, sp)).collect())
        }
        Expression::Lambda(l) => {
            K::Lam(l.args.iter().map(|n| from_name(Some(n))).collect(), bx(&l.inner))
        }
        Expression::Let(l) => K::Let(from_name(Some(&l.name)), bx(&l.bound), bx(&l.body)),
    };
    T { k, n: from_name(e.name.as_ref()), sp: sp.from(e.span) }
}
