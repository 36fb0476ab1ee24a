//! Surface programs: tokens, random programs, and their layout as text.
use crate::gen::{self, NAMES};
use crate::json::{codes, J};
use crate::rng::Rng;
use crate::term::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    P(char),
    Id(String, bool),
    Str(String),
    Bad(String),
}

pub fn toks_j(v: &[Tok]) -> J {
    J::Arr(
        v.iter()
            .map(|t| match t {
                Tok::P(c) => obj! {t: c.to_string()},
                Tok::Id(s, raw) => obj! {t: "id", c: codes(s), s: s.clone(), raw: *raw},
                Tok::Str(s) => obj! {t: "str", c: codes(s)},
                Tok::Bad(s) => obj! {t: "bad", c: codes(s)},
            })
            .collect(),
    )
}

pub fn toks_of(j: &J) -> Vec<Tok> {
    j.arr()
        .iter()
        .map(|t| match t.get("t").str() {
            "id" => Tok::Id(t.get("c").text(), t.get("raw") == &J::Bool(true)),
            "str" => Tok::Str(t.get("c").text()),
            "bad" => Tok::Bad("1".to_owned()),
            p => Tok::P(p.chars().next().unwrap()),
        })
        .collect()
}

/// Longer names that differ as the old ones do, but in few places.
pub fn alike(t: &mut [Tok], r: &mut Rng) {
    let long = "x".repeat(*r.pick(&[7, 15, 32, 64, 70, 256]));
    let how = r.below(3);
    let mut known: Vec<String> = Vec::new();
    for t in t {
        if let Tok::Id(s, raw) = t {
            if !*raw && matches!(s.as_str(), "match" | "let" | "_") {
                continue;
            }
            let i = known.iter().position(|k| k == s).unwrap_or_else(|| {
                known.push(s.clone());
                known.len() - 1
            });
            *s = match how {
                0 => format!("{}{}", long, s),
                1 => format!("{}{}", s, long),
                // the case of some letters
                _ => long.char_indices().map(|(j, c)| if j < 10 && i >> j & 1 == 1 { 'X' } else { c }).collect(),
            };
        }
    }
}

// ---------------------------------------------------------------------------
// Named programs.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum S {
    Eps,
    Id(String),
    Str(String),
    Bang(Box<S>),
    Call(Vec<S>),
    Cat(Vec<S>),
    Alt(Vec<S>),
    Lab(Box<S>, String),
    Lam(Vec<String>, Box<S>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prog {
    pub lets: Vec<(String, Vec<String>, S)>,
    pub goal: S,
}

impl S {
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    pub fn walk(&self, f: &mut impl FnMut(&S)) {
        f(self);
        match self {
            S::Eps | S::Id(_) | S::Str(_) => (),
            S::Bang(e) | S::Lab(e, _) | S::Lam(_, e) => e.walk(f),
            S::Call(v) | S::Cat(v) | S::Alt(v) => v.iter().for_each(|e| e.walk(f)),
        }
    }
    pub fn walk_mut(&mut self, f: &mut impl FnMut(&mut S)) {
        f(self);
        match self {
            S::Eps | S::Id(_) | S::Str(_) => (),
            S::Bang(e) | S::Lab(e, _) | S::Lam(_, e) => e.walk_mut(f),
            S::Call(v) | S::Cat(v) | S::Alt(v) => v.iter_mut().for_each(|e| e.walk_mut(f)),
        }
    }
    pub fn free(&self, bound: &mut Vec<String>, out: &mut BTreeSet<String>) {
        match self {
            S::Eps | S::Str(_) => (),
            S::Id(x) => {
                if !bound.contains(x) {
                    out.insert(x.clone());
                }
            }
            S::Bang(e) | S::Lab(e, _) => e.free(bound, out),
            S::Lam(p, e) => {
                let n = bound.len();
                bound.extend(p.iter().cloned());
                e.free(bound, out);
                bound.truncate(n);
            }
            S::Call(v) | S::Cat(v) | S::Alt(v) => v.iter().for_each(|e| e.free(bound, out)),
        }
    }
}

fn free_vars(t: &T, d: usize, out: &mut BTreeSet<usize>) {
    match &t.k {
        K::Eps | K::Lit(_) => (),
        K::Var(i) => {
            if *i >= d {
                out.insert(*i - d);
            }
        }
        K::Cat(es, _) | K::Alt(es, _) => es.iter().for_each(|e| free_vars(e, d, out)),
        K::Fix(e) => free_vars(e, d, out),
        K::Lam(p, e) => free_vars(e, d + p.len(), out),
        K::Call(f, a) => {
            free_vars(f, d, out);
            a.iter().for_each(|e| free_vars(e, d, out));
        }
        K::Let(_, b, e) => {
            free_vars(b, d, out);
            free_vars(e, d + 1, out);
        }
    }
}

pub fn ident(r: &mut Rng, common: bool) -> String {
    if !common && r.chance(1, 12) {
        return (*r.pick(&["_x", "__", "_1", "é", "名", "aÉb", "ß", "x_", "r2d2", "Self", "self", "fn", "type", "ǆ"])).to_owned();
    }
    if r.chance(1, 10) {
        // any letters and digits
        loop {
            let mut s = String::new();
            let n = r.range(1, 4);
            while s.len() < n {
                let c = (r.below(128) as u8) as char;
                if c.is_ascii_alphabetic() || (!s.is_empty() && (c.is_ascii_digit() || c == '_')) {
                    s.push(c)
                }
            }
            if !keyword(&s) {
                return s;
            }
        }
    }
    if r.chance(2, 3) {
        (*r.pick(&["x", "y", "z", "f", "g"])).to_owned()
    } else {
        loop {
            let n = *r.pick(&NAMES);
            if n != "match" || !common {
                return n.to_owned();
            }
        }
    }
}

const KEYWORDS: &[&str] = &[
    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate", "do", "dyn", "else",
    "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop", "macro", "match", "mod",
    "move", "mut", "override", "priv", "pub", "ref", "return", "Self", "self", "static", "struct", "super", "trait",
    "true", "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "_",
];
pub fn keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}
/// Keywords that cannot be written raw.
fn never_raw(s: &str) -> bool {
    matches!(s, "self" | "Self" | "super" | "crate" | "_")
}

/// A name for a binder over `body`, at depth `d` of it, that captures nothing.
fn binder(r: &mut Rng, common: bool, taken: &BTreeSet<String>) -> String {
    for _ in 0..20 {
        let x = ident(r, common);
        if !taken.contains(&x) && !never_raw(&x) {
            return x;
        }
    }
    let mut i = 0;
    loop {
        let x = format!("v{}", i);
        if !taken.contains(&x) {
            return x;
        }
        i += 1;
    }
}

/// A core term with nested lets as calls of lambdas.
pub fn to_surface(t: &T, env: &mut Vec<String>, r: &mut Rng, common: bool) -> S {
    let go = |ts: &[T], env: &mut Vec<String>, r: &mut Rng| -> Vec<S> {
        ts.iter().map(|e| to_surface(e, env, r, common)).collect()
    };
    match &t.k {
        K::Eps => S::Eps,
        K::Lit(s) => S::Str(s.clone()),
        K::Var(i) => {
            if *i < env.len() {
                S::Id(env[env.len() - 1 - i].clone())
            } else {
                S::Id(ident(r, common))
            }
        }
        K::Cat(es, _) => S::Cat(go(es, env, r)),
        K::Alt(es, _) => S::Alt(go(es, env, r)),
        K::Fix(e) => S::Bang(Box::new(to_surface(e, env, r, common))),
        K::Lam(p, e) => {
            let (ps, e) = under(p.len(), e, env, r, common);
            S::Lam(ps, Box::new(e))
        }
        K::Call(f, a) => {
            let mut v = vec![to_surface(f, env, r, common)];
            v.extend(go(a, env, r));
            S::Call(v)
        }
        K::Let(_, b, e) => {
            let b = to_surface(b, env, r, common);
            let (ps, e) = under(1, e, env, r, common);
            S::Call(vec![S::Lam(ps, Box::new(e)), b])
        }
    }
}

/// Name n binders over e.
fn under(n: usize, e: &T, env: &mut Vec<String>, r: &mut Rng, common: bool) -> (Vec<String>, S) {
    let mut fv = BTreeSet::new();
    free_vars(e, 0, &mut fv);
    let mut ps = Vec::new();
    for j in 0..n {
        // binder j is index n-1-j; outer names in use and used binders must differ
        let mut taken: BTreeSet<String> = fv
            .iter()
            .filter(|i| **i >= n && **i - n < env.len())
            .map(|i| env[env.len() - 1 - (*i - n)].clone())
            .collect();
        for (k, p) in ps.iter().enumerate() {
            // an earlier binder may be hidden only if it is not used
            if fv.contains(&(n - 1 - k)) {
                taken.insert(String::clone(p));
            }
        }
        let _ = j;
        ps.push(binder(r, common, &taken));
    }
    let m = env.len();
    env.extend(ps.iter().cloned());
    let s = to_surface(e, env, r, common);
    env.truncate(m);
    (ps, s)
}

/// A random program whose expansion terminates (well sorted).
pub fn program(r: &mut Rng, fuel: usize, common: bool) -> Prog {
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    let mut sorts: Vec<gen::Sort> = Vec::new();
    let mut terms = Vec::new();
    for _ in 0..n {
        let s = gen::random_sort(r, 2);
        let b = gen::sorted(r, &mut sorts.clone(), &s, fuel / (n + 1));
        sorts.push(s);
        terms.push(b);
    }
    let goal = gen::sorted(r, &mut sorts.clone(), &gen::Sort::G, fuel / (n + 1));
    named(r, terms, goal, common)
}

/// Any program, bound variables mostly in scope.
pub fn wild_program(r: &mut Rng, fuel: usize, common: bool) -> Prog {
    let n = r.below(4);
    let terms = (0..n).map(|i| gen::wild(r, i, fuel / (n + 1))).collect();
    let goal = gen::wild(r, n, fuel / (n + 1));
    named(r, terms, goal, common)
}

fn named(r: &mut Rng, terms: Vec<T>, goal: T, common: bool) -> Prog {
    let n = terms.len();
    let mut env: Vec<String> = Vec::new();
    let mut lets = Vec::new();
    for (j, t) in terms.iter().enumerate() {
        // what the later terms use of the names so far
        let mut taken = BTreeSet::new();
        for (k, u) in terms.iter().chain(std::iter::once(&goal)).enumerate().skip(j + 1) {
            let mut fv = BTreeSet::new();
            free_vars(u, 0, &mut fv);
            for (m, x) in env.iter().enumerate() {
                if fv.contains(&(k - 1 - m)) {
                    taken.insert(x.clone());
                }
            }
        }
        let x = if r.chance(1, 25) && !common { "_".to_owned() } else { binder(r, common, &taken) };
        let s = to_surface(t, &mut env, r, common);
        lets.push(match s {
            S::Lam(ps, e) if r.chance(2, 3) => (x.clone(), ps, *e),
            s => (x.clone(), Vec::new(), s),
        });
        env.push(x);
    }
    let goal = to_surface(&goal, &mut env, r, common);
    debug_assert_eq!(lets.len(), n);
    Prog { lets, goal }
}

/// A program with a lot of one thing: definitions, parameters, parts, nesting or letters.
pub fn big(r: &mut Rng, common: bool) -> Prog {
    let mut firsts: Vec<char> = ('!'..='~').collect();
    r.shuffle(&mut firsts);
    let n = if r.chance(1, 15) { r.range(60, 150) } else { r.range(8, 30) };
    let string = |r: &mut Rng, i: usize| {
        let mut s = firsts[i % firsts.len()].to_string();
        if r.chance(1, 3) {
            s.push(firsts[r.below(firsts.len())]);
        }
        S::Str(s)
    };
    let style = r.below(3);
    let stem = ident(r, true).trim_start_matches("r#").trim_end_matches(|c: char| c.is_ascii_digit()).to_owned();
    let name = |i: usize| match style {
        0 => format!("{}{}", stem, i),
        1 => format!("x{}", i % 7),
        _ => "same".to_owned(),
    };
    let id = |i: usize| S::Id(name(i));
    let some = |r: &mut Rng, v: Vec<S>| if r.chance(1, 2) { S::Cat(v) } else { S::Alt(v) };
    let mut lets = Vec::new();
    let goal = match r.below(8) {
        0 => {
            // nested as deep as there are names
            let n = n.min(60);
            for i in 0..n {
                let rest = if i == 0 { S::Eps } else { id(i - 1) };
                let s = string(r, i);
                let s = if r.chance(1, 2) { S::Alt(vec![s, rest]) } else { S::Cat(vec![s, rest]) };
                lets.push((name(i), Vec::new(), s));
            }
            id(n - 1)
        }
        1 => {
            let mut ids: Vec<S> = (0..n).map(id).collect();
            for i in 0..n {
                lets.push((name(i), Vec::new(), string(r, i)));
            }
            r.shuffle(&mut ids);
            if r.chance(1, 2) {
                let k = r.below(ids.len());
                ids[k] = S::Lab(Box::new(ids[k].clone()), "part".to_owned());
            }
            some(r, ids)
        }
        k @ 2..=3 => {
            let mut body: Vec<S> = (0..n).map(id).collect();
            r.shuffle(&mut body);
            body.truncate(r.range(2, n));
            let body = some(r, body);
            let ps: Vec<String> = (0..n).map(name).collect();
            let args = if r.chance(1, 6) { n + 1 - 2 * r.below(2) } else { n };
            let args: Vec<S> = (0..args).map(|i| string(r, i)).collect();
            let f = if k == 2 {
                S::Lam(ps, Box::new(body))
            } else {
                lets.push(("f".to_owned(), ps, body));
                S::Id("f".to_owned())
            };
            S::Call(std::iter::once(f).chain(args).collect())
        }
        4 => {
            // one argument at a time
            let n = n.min(16);
            let mut e: S = some(r, (0..n).map(id).collect());
            for i in (0..n).rev() {
                e = S::Lam(vec![name(i)], Box::new(e));
            }
            for i in 0..n {
                e = S::Call(vec![e, string(r, i)]);
            }
            e
        }
        5 => {
            let v: Vec<S> = (0..2 * n).map(|i| string(r, i)).collect();
            some(r, v)
        }
        6 => {
            let mut e = S::Str("~~".to_owned());
            for i in 0..n.min(20) {
                let s = string(r, i);
                e = match r.below(5) {
                    0 => S::Alt(vec![s, e]),
                    1 => S::Alt(vec![e, s]),
                    2 => S::Cat(vec![e, s]),
                    3 => S::Cat(vec![s, S::Lab(Box::new(e), name(i))]),
                    _ => S::Cat(vec![s, e]),
                };
            }
            e
        }
        _ => {
            let long: String = (0..r.range(60, 300)).map(|_| firsts[r.below(firsts.len())]).collect();
            let x: String = (0..r.range(30, 120)).map(|_| *r.pick(&['a', 'b', 'C', 'd', 'e'])).collect();
            lets.push((x.clone(), Vec::new(), S::Str(long)));
            let s = S::Str(firsts[0].to_string());
            S::Cat(vec![S::Id(x.clone()), s, S::Lab(Box::new(S::Id(x.clone())), format!("{}f", x))])
        }
    };
    let _ = common;
    Prog { lets, goal }
}

/// Lift random subterms of a program into lets (with parameters for the
/// variables they use): the expansion stays the same but for names.
pub fn abstracted(r: &mut Rng, mut p: Prog, times: usize, common: bool) -> Prog {
    for _ in 0..times {
        let mut used: BTreeSet<String> = BTreeSet::new();
        let mut note = |s: &S| match s {
            S::Id(x) => {
                used.insert(x.clone());
            }
            S::Lam(ps, _) => used.extend(ps.iter().cloned()),
            _ => (),
        };
        for (_, ps, e) in &p.lets {
            ps.iter().for_each(|x| note(&S::Id(x.clone())));
            e.walk(&mut note);
        }
        p.goal.walk(&mut note);
        for (x, _, _) in &p.lets {
            used.insert(x.clone());
        }
        let x = binder(r, common, &used);
        let at = r.below(p.lets.len() + 1);
        let globals: BTreeSet<String> = p.lets[..at].iter().map(|l| l.0.clone()).collect();
        let locals: Vec<String> = if at < p.lets.len() { p.lets[at].1.clone() } else { Vec::new() };
        let body = if at < p.lets.len() { &mut p.lets[at].2 } else { &mut p.goal };
        let n = body.size();
        let pos = r.below(n);
        let mut c = 0;
        let mut lifted = None;
        let mut stack = Vec::new();
        stack.extend(locals);
        lift(body, pos, &mut c, &mut stack, &globals, &x, r, &mut lifted);
        if let Some((ps, e)) = lifted {
            p.lets.insert(at, (x, ps, e));
        }
    }
    p
}

#[allow(clippy::too_many_arguments)]
fn lift(
    s: &mut S,
    pos: usize,
    c: &mut usize,
    bound: &mut Vec<String>,
    globals: &BTreeSet<String>,
    name: &str,
    r: &mut Rng,
    out: &mut Option<(Vec<String>, S)>,
) {
    if out.is_some() {
        return;
    }
    if *c == pos && !matches!(s, S::Lam(..)) {
        let mut fv = BTreeSet::new();
        s.free(&mut Vec::new(), &mut fv);
        // variables bound here, even if a let of the same name exists
        let ps: Vec<String> = fv.iter().filter(|x| bound.contains(x)).cloned().collect();
        let rest_ok = fv.iter().all(|x| bound.contains(x) || globals.contains(x));
        if rest_ok && ps.len() <= 4 {
            let mut ps = ps;
            r.shuffle(&mut ps);
            let call = if ps.is_empty() {
                S::Id(name.to_owned())
            } else {
                S::Call(std::iter::once(name.to_owned()).chain(ps.iter().cloned()).map(S::Id).collect())
            };
            let old = std::mem::replace(s, call);
            *out = Some((ps, old));
            return;
        }
    }
    *c += 1;
    match s {
        S::Eps | S::Id(_) | S::Str(_) => (),
        S::Bang(e) | S::Lab(e, _) => lift(e, pos, c, bound, globals, name, r, out),
        S::Lam(p, e) => {
            let n = bound.len();
            bound.extend(p.iter().cloned());
            lift(e, pos, c, bound, globals, name, r, out);
            bound.truncate(n);
        }
        S::Call(v) | S::Cat(v) | S::Alt(v) => {
            for e in v {
                lift(e, pos, c, bound, globals, name, r, out)
            }
        }
    }
}

/// Put labels on random subterms.
pub fn label(r: &mut Rng, p: &mut Prog, num: usize, den: usize, common: bool) {
    let mut f = |s: &mut S| {
        while r.chance(num, den + 1) && !matches!(s, S::Lam(..) | S::Alt(_)) {
            let twice = matches!(s, S::Lab(..));
            let l = loop {
                let l = if !common && r.chance(1, 20) { "_".to_owned() } else { ident(r, common) };
                if !common || !keyword(&l) {
                    break l;
                }
            };
            let old = std::mem::replace(s, S::Eps);
            *s = S::Lab(Box::new(old), l);
            if twice || !r.chance(1, 5) {
                break;
            }
        }
    };
    for (_, _, e) in &mut p.lets {
        label_in(e, &mut f);
    }
    label_in(&mut p.goal, &mut f);
}
fn label_in(s: &mut S, f: &mut impl FnMut(&mut S)) {
    match s {
        S::Eps | S::Id(_) | S::Str(_) => (),
        S::Bang(e) | S::Lab(e, _) | S::Lam(_, e) => label_in(e, f),
        S::Call(v) | S::Cat(v) | S::Alt(v) => v.iter_mut().for_each(|e| label_in(e, f)),
    }
    f(s)
}

// ---------------------------------------------------------------------------
// Programs to tokens.

fn word(s: &str) -> Tok {
    Tok::Id(s.to_owned(), false)
}

struct Writer<'a> {
    r: &'a mut Rng,
    common: bool,
    extra: usize,
    out: Vec<Tok>,
}

impl Writer<'_> {
    fn p(&mut self, c: char) {
        self.out.push(Tok::P(c));
    }
    /// An identifier where keywords are allowed.
    fn any_id(&mut self, s: &str) {
        let raw = !self.common && !never_raw(s) && self.r.chance(1, 10);
        self.out.push(Tok::Id(s.to_owned(), raw));
    }
    fn id(&mut self, s: &str) {
        let raw = !never_raw(s) && (keyword(s) || (!self.common && self.r.chance(1, 10)));
        self.out.push(Tok::Id(s.to_owned(), raw));
    }
    /// Levels: 0 expr, 1 alt, 2 labelled, 3 cat, 4 call, 5 term.
    fn write(&mut self, s: &S, level: usize) {
        let own = match s {
            S::Lam(..) => 0,
            S::Alt(_) => 1,
            S::Lab(..) => 2,
            S::Cat(_) => 3,
            S::Call(_) => 4,
            _ => 5,
        };
        if own < level || self.r.chance(self.extra, 20) {
            self.p('(');
            self.write(s, 0);
            self.p(')');
            return;
        }
        match s {
            S::Eps => self.out.push(word("_")),
            S::Id(x) => self.any_id(x),
            S::Str(s) => self.out.push(Tok::Str(s.clone())),
            S::Bang(e) => {
                self.p('!');
                self.write(e, 5)
            }
            S::Call(v) => v.iter().for_each(|e| self.write(e, 5)),
            S::Cat(v) => self.sep(v, '.', 4),
            S::Alt(v) => self.sep(v, '|', 2),
            S::Lab(e, l) => {
                self.write(e, 3);
                self.p(':');
                self.any_id(l)
            }
            S::Lam(ps, e) => {
                self.p('/');
                ps.iter().for_each(|x| self.id(x));
                self.p('/');
                self.write(e, 1)
            }
        }
    }
    fn sep(&mut self, v: &[S], c: char, level: usize) {
        for (i, e) in v.iter().enumerate() {
            if i > 0 {
                self.p(c)
            }
            self.write(e, level)
        }
    }
}

pub fn tokens(p: &Prog, r: &mut Rng, common: bool) -> Vec<Tok> {
    let extra = *r.pick(&[0, 0, 1, 4]);
    let mut w = Writer { r, common, extra, out: Vec::new() };
    for (x, ps, e) in &p.lets {
        w.out.push(word("let"));
        w.any_id(x);
        ps.iter().for_each(|x| w.id(x));
        w.p('=');
        w.write(e, 0);
        w.p(';');
    }
    w.out.push(word("match"));
    w.write(&p.goal, 0);
    w.p(';');
    w.out
}

pub fn random_token(r: &mut Rng, common: bool) -> Tok {
    match r.below(14) {
        0..=6 => Tok::P(*r.pick(&['!', '(', ')', '.', ':', '|', '/', '=', ';'])),
        7..=9 => Tok::Id(ident(r, common), false),
        10 => word(r.pick(&["_", "let", "match"])),
        11 if !common => Tok::Bad((*r.pick(&["1", "'a'", "{", "}", "[", "]", ",", "+", "#", "-", "?", "b\"x\"", "$"])).to_owned()),
        11 => word("_"),
        _ => Tok::Str((*r.pick(&["a", "b", "ab"])).to_owned()),
    }
}

/// One random edit.
pub fn edit(t: &mut Vec<Tok>, r: &mut Rng, common: bool) {
    let n = t.len();
    let i = r.below(n.max(1));
    match r.below(7) {
        0 if n > 1 => {
            t.remove(i);
        }
        1 => {
            let x = random_token(r, common);
            t.insert(i, x);
        }
        2 if n > 1 => {
            let j = r.below(n);
            t.swap(i, j);
        }
        3 if n > 0 => t.insert(i, t[i].clone()),
        4 if n > 0 => t[i] = random_token(r, common),
        5 if n > 0 => {
            // another name
            let ids: Vec<usize> = (0..n).filter(|i| matches!(t[*i], Tok::Id(..))).collect();
            if !ids.is_empty() {
                let i = *r.pick(&ids);
                t[i] = Tok::Id(ident(r, common), false);
            }
        }
        _ => {
            if n > 1 {
                let j = (i + 1).min(n - 1);
                t.swap(i, j);
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Tokens to text.

const WS: [char; 11] =
    [' ', '\t', '\n', '\x0b', '\x0c', '\r', '\u{85}', '\u{200e}', '\u{200f}', '\u{2028}', '\u{2029}'];

fn gap(r: &mut Rng, style: usize, must: bool, common: bool) -> String {
    let mut s = String::new();
    match style {
        0 => {
            if must {
                s.push(' ')
            }
        }
        1 => s.push(' '),
        _ => {
            let n = if must { r.range(1, 3) } else { r.below(3) };
            for _ in 0..n {
                if !common && r.chance(1, 8) {
                    s.push_str(*r.pick(&["/* c \" ; */", "// c ; \"\n", "/* /* x */ */"]));
                    // "/" before a comment would swallow it
                } else if r.chance(3, 4) {
                    s.push(*r.pick(&[' ', '\n', ' ', '\t']))
                } else {
                    s.push(*r.pick(&WS))
                }
            }
            if must && !s.chars().any(|c| c == ' ' || c == '\n') {
                s.push(' ')
            }
        }
    }
    s
}

pub fn quote(s: &str, r: &mut Rng, common: bool) -> String {
    if !common && r.chance(1, 12) && !s.contains(|c| c == '"' || c == '\r') {
        return format!("r#\"{}\"#", s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        let esc = match c {
            '"' => true,
            '\\' => true,
            '\r' => true,
            // the self-hosted front end takes only printable ASCII unescaped
            c if common && !(' '..='~').contains(&c) => true,
            _ => r.chance(1, 8),
        };
        if !esc {
            o.push(c);
            continue;
        }
        let short = match c {
            '"' => "\\\"",
            '\'' => "\\'",
            '\n' => "\\n",
            '\r' => "\\r",
            '\t' => "\\t",
            '\\' => "\\\\",
            '\0' => "\\0",
            _ => "",
        };
        if !short.is_empty() && r.chance(2, 3) {
            o.push_str(short)
        } else if (c as u32) < 128 && r.chance(1, 2) {
            if r.chance(1, 2) {
                o.push_str(&format!("\\x{:02x}", c as u32))
            } else {
                o.push_str(&format!("\\x{:02X}", c as u32))
            }
        } else {
            let width = r.range(1, 6);
            o.push_str(&format!("\\u{{{:0w$X}}}", c as u32, w = width))
        }
    }
    o.push('"');
    o
}

fn needs_gap(a: &Tok, b: &Tok, common: bool) -> bool {
    let wordy = |t: &Tok| !matches!(t, Tok::P(_));
    if matches!(a, Tok::Bad(_)) || matches!(b, Tok::Bad(_)) || (wordy(a) && wordy(b)) {
        return true;
    }
    if *a == Tok::P('/') && *b == Tok::P('/') {
        return true;
    }
    if let Tok::Id(s, false) = a {
        if s == "let" || s == "match" {
            return true;
        }
    }
    common
        && (wordy(a) || *a == Tok::P(')'))
        && (wordy(b) || *b == Tok::P('(') || *b == Tok::P('!'))
}

/// Random layout.  `common`: only what both front ends understand.
pub fn text(toks: &[Tok], r: &mut Rng, common: bool) -> String {
    let style = r.below(4);
    let mut s = if style > 1 { gap(r, style, false, common) } else { String::new() };
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let slash = toks[i - 1] == Tok::P('/');
            let must = needs_gap(&toks[i - 1], t, common);
            let mut g = gap(r, style, must, common);
            if slash && (g.starts_with('/') || g.starts_with('*')) {
                g.insert(0, ' ');
            }
            s.push_str(&g);
        }
        match t {
            Tok::P(c) => s.push(*c),
            Tok::Id(x, raw) => {
                if *raw {
                    s.push_str("r#")
                }
                s.push_str(x)
            }
            Tok::Str(x) => s.push_str(&quote(x, r, common)),
            Tok::Bad(x) => s.push_str(x),
        }
    }
    if style > 1 {
        let g = gap(r, style, false, common);
        if s.ends_with('/') && g.starts_with('/') {
            s.push(' ')
        }
        s.push_str(&g);
    }
    s
}

/// One slip of the pen.
pub fn scribble(x: &mut Vec<char>, r: &mut Rng) {
    const MARKS: [&str; 40] = [
        "\"", "\\", "/", "*", ":", "|", ".", "!", "(", ")", "_", ";", "=", " ", "\n", "x", "1", "r#", "#", "'", "{", "}",
        "\u{85}", "\u{200e}", "\u{a0}", "e\u{301}", "/*", "*/", "//", "\r", "\\x7f", "\\x80", "\\u{d800}", "\\u{110000}",
        "\\u{41}", "\\u{0041_}", "\\q", "\"\"", "let ", "match ",
    ];
    let at = r.below(x.len() + 1);
    let blanks: Vec<usize> = (0..x.len()).filter(|&i| x[i].is_whitespace()).collect();
    match r.below(9) {
        0 | 1 if !blanks.is_empty() => {
            let i = *r.pick(&blanks);
            x.remove(i);
        }
        2 if !x.is_empty() => {
            x.remove(at.min(x.len() - 1));
        }
        3 if !x.is_empty() => {
            let at = at.min(x.len() - 1);
            let m = *r.pick(&MARKS);
            x.splice(at..at + 1, m.chars());
        }
        4 if x.len() > 1 => {
            let at = at.min(x.len() - 2);
            x.swap(at, at + 1);
        }
        5 => {
            let to = (at + r.range(1, 6)).min(x.len());
            x.drain(at..to);
        }
        6 => {
            let to = (at + r.range(1, 6)).min(x.len());
            let part = x[at..to].to_vec();
            let at = r.below(x.len() + 1);
            x.splice(at..at, part);
        }
        _ => {
            // inside a string half of the time
            let quoted: Vec<usize> = (1..x.len()).filter(|&i| x[i - 1] == '"').collect();
            let at = if r.chance(1, 2) && !quoted.is_empty() { *r.pick(&quoted) } else { at };
            let m = *r.pick(&MARKS);
            x.splice(at..at, m.chars());
        }
    }
}
