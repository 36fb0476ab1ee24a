//! The commands.
use chomp::nibble::convert::Context;
use crate::gen;
use crate::json::{codes, J};
use crate::pipe::{self, Front};
use crate::rng::Rng;
use crate::surf::{self, Prog, Tok, S};
use quote::ToTokens;
use crate::term::*;
use crate::Run;

pub fn dispatch(cmd: &str, run: &mut Run) {
    match cmd {
        "expand" => expand(run),
        "expand-replay" => replay(run, "expand"),
        "check" => check(run),
        "check-replay" => replay(run, "check"),
        "front" => front(run, false),
        "front-replay" => front(run, true),
        "places" => places(run),
        "places-replay" => places_replay(run),
        "texts" => texts(run),
        "scopes" => scopes(run),
        "pairs" => pairs(run),
        "runtime" => crate::rt::runtime(run),
        "runs" => crate::rt::runs(run),
        "faults" => crate::rt::faults(run),
        "types" => types(run),
        #[cfg(feature = "auto")]
        "common" => common(run),
        #[cfg(feature = "auto")]
        "tools" => tools(run),
        #[cfg(feature = "auto")]
        "library" => both_libraries(run),
        "parsers" => parsers(run),
        c => panic!("unknown command {}", c),
    }
}

pub fn lines(path: &str) -> Vec<J> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| J::parse(l).expect("json line"))
        .collect()
}

fn expand_event(run: &mut Run, t: &T, sp: &Spans) {
    let tj = t.to_j();
    run.begin(&obj! {ev: "expand", t: tj.clone()});
    let r = pipe::reduce(t, sp);
    run.emit(&obj! {ev: "expand", t: tj, r: r});
}

/// Random programs through expansion.
fn expand(run: &mut Run) {
    let mut r = run.rng(3);
    let sp = Spans::dummy(60);
    let n = run.num("n", 300);
    let max = run.num("max", 30);
    let mut seen = std::collections::HashSet::new();
    let mut done = 0;
    let mut tries = 0;
    while done < n && tries < 200 * n {
        tries += 1;
        if r.chance(1, 60) {
            if let Some(mut t) = big_term(&mut r) {
                if r.chance(1, 4) {
                    gen::perturb(&mut t, &mut r);
                }
                if gen::terminates(&t, 100, 1000) {
                    expand_event(run, &t, &sp);
                    done += 1;
                }
            }
            continue;
        }
        let fuel = r.range(3, max);
        let mut t = match r.below(4) {
            0 => gen::wild(&mut r, 0, fuel),
            1 => {
                let d = r.below(3);
                gen::wild(&mut r, d, fuel)
            }
            k => {
                let d = r.below(3);
                let mut env: Vec<_> = (0..d).map(|_| gen::random_sort(&mut r, 1)).collect();
                let goal = if r.chance(4, 5) { gen::Sort::G } else { gen::random_sort(&mut r, 1) };
                let mut t = gen::sorted(&mut r, &mut env, &goal, fuel);
                if k == 3 && r.chance(1, 2) {
                    gen::perturb(&mut t, &mut r);
                }
                t
            }
        };
        if r.chance(1, 12) {
            gen::widen(&mut t, &mut r);
        }
        // leaves tell nothing
        let mut redexes = 0;
        gen::walk(&mut t, &mut |u| {
            if matches!(u.k, K::Call(..) | K::Let(..)) {
                redexes += 1
            }
        });
        if redexes == 0 && !r.chance(1, 30) {
            continue;
        }
        if t.size() > 3 * max || !gen::terminates(&t, 40, 400) || !seen.insert(t.clone()) {
            continue;
        }
        gen::decorate(&mut t, &mut r, 4);
        expand_event(run, &t, &sp);
        done += 1;
    }
}

fn check_event(run: &mut Run, t: &T, sp: &Spans) {
    let tj = t.to_j();
    run.begin(&obj! {ev: "check", t: tj.clone()});
    let r = pipe::infer(t, sp);
    run.emit(&obj! {ev: "check", t: tj, r: r});
}

pub fn accepted(t: &T, sp: &Spans) -> bool {
    let e = to_real(t, sp);
    matches!(pipe::guard(|| pipe::infer_real(e)), Ok(Ok(_)))
}

/// Random grammars through type checking: an evolved pool of accepted ones,
/// near misses, and arbitrary terms.
fn check(run: &mut Run) {
    let mut r = run.rng(4);
    let sp = Spans::dummy(60);
    let n = run.num("n", 300);
    let max = run.num("max", 20);
    let mut none = Spans::dummy(1);
    none.spans.truncate(1);
    let pool = gen::evolve(&mut r, n * 2 / 5, max, true, &mut |t| accepted(t, &none));
    let mut cases = pool.clone();
    while cases.len() < n {
        if r.chance(1, 60) {
            let t = big_term(&mut r).and_then(|t| pipe::guard(|| pipe::reduce_real(to_real(&t, &sp))).ok());
            if let Some(Ok(t)) = t {
                let mut t = from_real(&t, &sp);
                if r.chance(1, 2) {
                    gen::collide(&mut t, &mut r);
                }
                cases.push(t);
            }
            continue;
        }
        let mut t = match r.below(8) {
            0..=3 => {
                let mut t = r.pick(&pool).clone();
                if r.chance(1, 2) {
                    gen::perturb_grammar(&mut t, &mut r);
                }
                if r.chance(2, 3) {
                    gen::collide(&mut t, &mut r);
                }
                t
            }
            4 if r.chance(1, 5) => gen::nested(&mut r),
            4..=6 => {
                let fuel = r.range(2, max);
                gen::grammar(&mut r, 0, fuel, false)
            }
            _ => {
                let fuel = r.range(2, max / 2);
                gen::wild(&mut r, 0, fuel)
            }
        };
        if t.size() <= 2 * max {
            if r.chance(1, 20) {
                gen::widen(&mut t, &mut r);
                if r.chance(1, 2) {
                    gen::collide(&mut t, &mut r);
                }
            }
            gen::decorate(&mut t, &mut r, 0);
            cases.push(t);
        }
    }
    for mut t in cases {
        gen::decorate(&mut t, &mut r, 3);
        check_event(run, &t, &sp);
    }
}

/// Terms enumerated by TLC, with the outcome the specification gives them
/// (structure only): run the real code and compare.
fn replay(run: &mut Run, what: &str) {
    let sp = Spans::dummy(2);
    let cases = lines(run.str("in"));
    let total = cases.len();
    let mut bad = 0;
    for c in cases {
        let t = T::of_j(c.get("t"));
        if c.get("r").get("st") == &J::from("div") {
            continue;
        }
        run.begin(&obj! {ev: what, t: c.get("t").clone()});
        let got = if what == "expand" { pipe::reduce(&t, &sp) } else { pipe::infer(&t, &sp) };
        let (w, g) = (normal(c.get("r")), normal(&got));
        if w != g {
            bad += 1;
            if bad <= 20 {
                run.emit(&obj! {ev: what, t: c.get("t").clone(), want: c.get("r").clone(), got: got});
            }
        }
    }
    println!("replayed {} mismatches {}", total, bad);
}

/// Names and places removed.
fn normal(j: &J) -> J {
    match j {
        J::Obj(m) => J::Obj(
            m.iter()
                .filter(|(k, _)| !matches!(k.as_str(), "n" | "sp" | "want" | "have" | "nm" | "ix" | "msg" | "syn"))
                .map(|(k, v)| {
                    let v = if k == "ps" { J::Int(v.arr().len() as i64) } else { normal(v) };
                    (k.clone(), v)
                })
                .collect(),
        ),
        J::Arr(v) => J::Arr(v.iter().map(normal).collect()),
        j => j.clone(),
    }
}

/// A random program as tokens: well sorted, typable with lets, arbitrary, or
/// damaged.
pub fn some_tokens(r: &mut Rng, pool: &[T], common: bool) -> Vec<Tok> {
    let p = some_program(r, pool, common);
    let mut t = surf::tokens(&p, r, common);
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            surf::edit(&mut t, r, common);
        }
    } else if r.chance(1, 25) {
        let n = r.below(8);
        t = (0..n).map(|_| surf::random_token(r, common)).collect();
    }
    if t.len() < 80 && r.chance(1, 20) {
        surf::alike(&mut t, r);
    }
    t
}

pub fn some_program(r: &mut Rng, pool: &[T], common: bool) -> Prog {
    if r.chance(1, 40) {
        return surf::big(r, common);
    }
    let fuel = r.range(2, 30);
    let mut p = match r.below(6) {
        0 | 1 => surf::program(r, fuel, common),
        2 => surf::wild_program(r, fuel, common),
        _ => {
            let t = r.pick(pool).clone();
            let goal = surf::to_surface(&t, &mut Vec::new(), r, common);
            Prog { lets: Vec::new(), goal }
        }
    };
    let times = *r.pick(&[0, 0, 1, 2, 3, 5]);
    p = surf::abstracted(r, p, times, common);
    if r.chance(1, 2) {
        let n = r.range(1, 5);
        surf::label(r, &mut p, n, 10, common);
    }
    p
}

/// The term of a program with a lot of one thing.
fn big_term(r: &mut Rng) -> Option<T> {
    let p = surf::big(r, false);
    let src = surf::text(&surf::tokens(&p, r, false), r, false);
    let sp = Spans::of_source(&src)?;
    match pipe::front(&src, &sp) {
        Front::Term(t) => {
            let mut t = from_real(&t, &sp);
            gen::walk(&mut t, &mut |u| {
                u.sp = (r.range(1, 40) as i64, 40);
                if let K::Cat(_, ps) | K::Alt(_, ps) = &mut u.k {
                    ps.iter_mut().for_each(|p| *p = (r.range(1, 40) as i64, 40))
                }
            });
            Some(t)
        }
        _ => None,
    }
}

/// Accepted grammars.
pub fn typed_pool(r: &mut Rng, n: usize, max: usize, odd: bool) -> Vec<T> {
    let none = Spans::dummy(1);
    gen::evolve(r, n, max, odd, &mut |t| accepted(t, &none))
}

/// Programs through the front end, and rendered and read again.
fn front(run: &mut Run, replay: bool) {
    let mut r = run.rng(1);
    let n = run.num("n", 300);
    let cases: Vec<Vec<Tok>> = if replay {
        lines(run.str("in")).iter().map(|j| surf::toks_of(j.get("w"))).collect()
    } else {
        let pool = typed_pool(&mut r, 120, 16, true);
        (0..n).map(|_| some_tokens(&mut r, &pool, false)).collect()
    };
    for toks in cases {
        let src = surf::text(&toks, &mut r, false);
        let tj = surf::toks_j(&toks);
        run.begin(&obj! {ev: "front", toks: tj.clone(), src: src.clone()});
        let sp = Spans::of_source(&src).unwrap_or_else(|| Spans::dummy(1));
        let f = pipe::front(&src, &sp);
        let mut line = obj! {ev: "front", toks: tj, src: src.clone(), r: pipe::front_j(&f, &sp)};
        if let Front::Term(t) = &f {
            line.set("again", again(&src, t));
        }
        run.emit(&line);
    }
}

enum Op {
    /// Bind for good.
    Push(Nm, u8),
    /// Bind for a while.
    With(Vec<(Nm, u8)>, Vec<Op>),
    Look(Nm, u8),
}

fn some_ops(r: &mut Rng, names: &[&str], depth: usize, left: &mut usize) -> Vec<Op> {
    let mut ops = Vec::new();
    let name = |r: &mut Rng| {
        let k = *r.pick(&[VARIABLE, LET, LABEL]);
        (nm(r.pick(names), k), r.below(3) as u8)
    };
    let most = r.range(1, 12);
    while *left > 0 && ops.len() < most {
        *left -= 1;
        match r.below(if depth < 6 { 6 } else { 3 }) {
            0 if depth == 0 => {
                let (n, how) = name(r);
                ops.push(Op::Push(n, how));
            }
            0..=2 => {
                let (n, how) = name(r);
                ops.push(Op::Look(n, how));
            }
            _ => {
                let k = *r.pick(&[1, 1, 1, 0, 2, 3, 5]) * if names.len() > 20 { r.range(1, 20) } else { 1 };
                let ns = (0..k).map(|_| name(r)).collect();
                ops.push(Op::With(ns, some_ops(r, names, depth + 1, left)));
            }
        }
    }
    ops
}

fn scope_steps(ops: &[Op], out: &mut Vec<J>) {
    let step = |o: &str, ns: Vec<J>| obj! {o: o, ns: J::Arr(ns)};
    for op in ops {
        match op {
            Op::Push(n, _) => out.push(step("push", vec![codes(&n.c)])),
            Op::Look(n, _) => out.push(step("look", vec![codes(&n.c)])),
            Op::With(ns, inner) => {
                out.push(step("open", ns.iter().map(|(n, _)| codes(&n.c)).collect()));
                scope_steps(inner, out);
                out.push(step("shut", ns.iter().map(|(n, _)| codes(&n.c)).collect()));
            }
        }
    }
}

fn run_scopes(c: &mut Context, ops: &[Op], out: &mut Vec<J>) {
    let real = |(n, how): (&Nm, u8)| spelled(how, || to_name(n)).expect("a name");
    for op in ops {
        match op {
            Op::Push(n, how) => c.push_variable(real((n, *how))),
            Op::Look(n, how) => out.push(J::Int(c.lookup(&real((n, *how))).map_or(-1, |j| j as i64))),
            Op::With(ns, inner) => {
                let names: Vec<_> = ns.iter().map(|(n, h)| real((n, *h))).collect();
                if names.len() == 1 && inner.len() % 2 == 0 {
                    let name = names.into_iter().next().unwrap();
                    c.with_variable(name, |c| run_scopes(c, inner, out));
                } else {
                    c.with_variables(names, |c| run_scopes(c, inner, out));
                }
            }
        }
    }
}

/// The scopes on their own.
fn scopes(run: &mut Run) {
    let mut r = run.rng(29);
    let n = run.num("n", 300);
    let all = ["a", "b", "x", "type", "self", "_", "ab", "A", "r", "caf\u{e9}", "x1"];
    let many: Vec<String> = (0..300).map(|i| format!("n{}", i)).collect();
    for i in 0..n {
        let few = r.range(1, 5);
        let mut names = all.to_vec();
        r.shuffle(&mut names);
        names.truncate(few);
        let mut left = *r.pick(&[6, 12, 30, 60]);
        let mut ops = Vec::new();
        if i % 25 == 3 {
            // a great many names at once
            names = many[..r.range(21, 300)].iter().map(|s| s.as_str()).collect();
            left = 150;
            for n in &names {
                if r.chance(2, 3) {
                    ops.push(Op::Push(nm(n, LET), r.below(3) as u8));
                }
            }
            for _ in 0..20 {
                ops.push(Op::Look(nm(r.pick(&names), LET), r.below(3) as u8));
            }
        }
        ops.extend(some_ops(&mut r, &names, 0, &mut left));
        let mut steps = Vec::new();
        scope_steps(&ops, &mut steps);
        let mut line = obj! {ev: "scope", ops: J::Arr(steps)};
        run.begin(&line);
        let mut found = Vec::new();
        if pipe::guard(|| run_scopes(&mut Context::new(), &ops, &mut found)).is_err() {
            // no answer
            found.push(J::Int(-2));
        }
        line.set("found", J::Arr(found));
        run.emit(&line);
    }
}

/// Texts of programs with characters, not tokens, out of place.
fn texts(run: &mut Run) {
    let mut r = run.rng(23);
    let n = run.num("n", 300);
    let pool = typed_pool(&mut r, 120, 16, true);
    for _ in 0..n {
        let common = r.chance(1, 2);
        let mut toks = some_tokens(&mut r, &pool, common);
        let many = *r.pick(&[25, 60, 120]);
        if toks.len() > many {
            toks.drain(..toks.len() - many);
        }
        let mut x: Vec<char> = surf::text(&toks, &mut r, common).chars().collect();
        let times = *r.pick(&[0, 1, 1, 1, 2, 2, 4]);
        for _ in 0..times {
            surf::scribble(&mut x, &mut r);
        }
        let src: String = x.iter().collect();
        let sp = Spans::dummy(1);
        let mut line = obj! {ev: "text", x: codes(&src), src: src.clone()};
        run.begin(&line);
        let a = pipe::front(&src, &sp);
        line.set("r", pipe::front_j(&a, &sp));
        #[cfg(feature = "auto")]
        {
            let b = selfhosted(&src, &sp);
            let eq = match (&a, &b) {
                (Front::Term(x), Front::Term(y)) => x == y && y == x,
                _ => false,
            };
            line.set("s", pipe::front_j(&b, &sp));
            line.set("eq", J::Bool(eq));
        }
        run.emit(&line);
    }
}

/// Render the parsed program to tokens and back.
fn again(src: &str, t: &chomp::chomp::ast::NamedExpression) -> J {
    let st = match pipe::parse(src) {
        Ok(Some(st)) => st,
        _ => return obj! {st: "panic"},
    };
    match pipe::guard(|| st.to_token_stream().to_string()) {
        Err(m) => pipe::panic_j(m),
        Ok(text) => {
            let sp = match Spans::of_source(&text) {
                Some(sp) => sp,
                None => return obj! {st: "lex"},
            };
            match pipe::front(&text, &sp) {
                Front::Term(u) => {
                    let mut j = obj! {st: "ok", t: from_real(&u, &sp).to_j()};
                    j.set("eq", J::Bool(u == *t && *t == u));
                    j
                }
                f => pipe::front_j(&f, &sp),
            }
        }
    }
}

/// Whole compilations: which programs stop where.
fn places(run: &mut Run) {
    let mut r = run.rng(16);
    let n = run.num("n", 300);
    let pool = typed_pool(&mut r, 150, 14, false);
    let mut done = 0;
    while done < n {
        let mut p = some_program(&mut r, &pool, false);
        if r.chance(1, 2) {
            disturb(&mut p, &mut r);
        }
        let mut toks = surf::tokens(&p, &mut r, false);
        if r.chance(1, 6) {
            surf::edit(&mut toks, &mut r, false);
        }
        let src = surf::text(&toks, &mut r, false);
        let tj = surf::toks_j(&toks);
        run.begin(&obj! {ev: "places", toks: tj.clone(), src: src.clone()});
        let sp = Spans::of_source(&src).unwrap_or_else(|| Spans::dummy(1));
        if let Front::Term(t) = pipe::front(&src, &sp) {
            if !gen::terminates(&from_real(&t, &sp), 40, 400) {
                continue;
            }
        } else if done % 10 != 0 {
            continue;
        }
        let c = pipe::compile(&src, &sp);
        if c.get("st") == &J::from("ok") && r.chance(3, 4) {
            continue;
        }
        let mut line = obj! {ev: "places", toks: tj, src: src.clone(), r: c};
        if run.num("starts", 0) > 0 {
            // where each token is, for those who count lines and columns
            let at = |x: &proc_macro2::Span| J::Arr(vec![J::from(x.start().line), J::from(x.start().column)]);
            line.set("id", J::from(done));
            line.set("starts", J::Arr(sp.spans.iter().map(at).collect()));
        }
        run.emit(&line);
        done += 1;
    }
}

fn o_opt(lit: &S) -> S {
    S::Cat(vec![S::Str("y".to_owned()), S::Alt(vec![lit.clone(), S::Eps])])
}

fn places_replay(run: &mut Run) {
    let mut r = run.rng(18);
    for c in lines(run.str("in")) {
        let toks = surf::toks_of(c.get("w"));
        let src = surf::text(&toks, &mut r, false);
        let tj = surf::toks_j(&toks);
        run.begin(&obj! {ev: "places", toks: tj.clone(), src: src.clone()});
        let sp = Spans::of_source(&src).unwrap_or_else(|| Spans::dummy(1));
        match pipe::front(&src, &sp) {
            Front::Term(t) if !gen::terminates(&from_real(&t, &sp), 40, 400) => continue,
            Front::Syntax => continue,
            _ => (),
        }
        let c = pipe::compile(&src, &sp);
        if c.get("st") != &J::from("ok") {
            run.emit(&obj! {ev: "places", toks: tj, src: src.clone(), r: c});
        }
    }
}

/// Change one subterm of a program, keeping its variables in scope.
fn disturb(p: &mut Prog, r: &mut Rng) {
    let n = p.lets.len();
    let at = r.below(n + 1);
    let body = if at < n { &mut p.lets[at].2 } else { &mut p.goal };
    let pos = r.below(body.size());
    let mut ids = Vec::new();
    body.walk(&mut |s| {
        if let S::Id(x) = s {
            ids.push(x.clone())
        }
    });
    let mut c = 0;
    body.walk_mut(&mut |s| {
        if c == pos {
            let old = std::mem::replace(s, S::Eps);
            let lit = S::Str((*r.pick(&["a", "b", "c", "ab", ""])).to_owned());
            *s = match r.below(14) {
                9 | 10 => match old {
                    S::Call(mut es) => {
                        if es.len() > 2 && r.chance(1, 2) {
                            es.pop();
                        } else {
                            es.push(lit);
                        }
                        S::Call(es)
                    }
                    o => S::Cat(vec![
                        S::Str("z".to_owned()),
                        S::Alt(vec![S::Eps, lit.clone()]),
                        lit,
                        o,
                    ]),
                },
                11 => S::Cat(vec![o_opt(&lit), old]),
                12 => S::Cat(vec![old, o_opt(&lit), lit]),
                0 => S::Eps,
                1 => lit,
                2 if !ids.is_empty() => S::Id(r.pick(&ids).clone()),
                3 => S::Alt(vec![old, S::Eps]),
                4 => S::Alt(vec![old.clone(), lit, old]),
                5 => S::Cat(vec![old.clone(), lit, old]),
                6 => S::Cat(vec![S::Alt(vec![S::Eps, lit]), old]),
                7 => S::Call(vec![old, lit]),
                _ => S::Bang(Box::new(old)),
            };
        }
        c += 1;
    });
}

fn hash_of<H: std::hash::Hash>(x: &H) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn spelled<R>(how: u8, f: impl FnOnce() -> R) -> R {
    SPELLING.with(|s| s.set(how));
    let x = f();
    SPELLING.with(|s| s.set(0));
    x
}

/// Change a binder's name somewhere, if there is one.
fn rebind(t: &mut T, r: &mut Rng) {
    let mut all = 0;
    gen::walk(t, &mut |u| match &u.k {
        K::Lam(p, _) => all += p.len(),
        K::Let(..) => all += 1,
        _ => (),
    });
    if all == 0 {
        return;
    }
    let at = r.below(all);
    let mut c = 0;
    let kind = r.chance(1, 3);
    let text = (*r.pick(&gen::NAMES)).to_owned();
    let mut change = |n: &mut Nm| {
        if c == at {
            if kind {
                n.k = n.k % 3 + 1;
            } else {
                n.c = text.clone();
            }
        }
        c += 1;
    };
    gen::walk(t, &mut |u| match &mut u.k {
        K::Lam(p, _) => p.iter_mut().for_each(&mut change),
        K::Let(x, ..) => change(x),
        _ => (),
    });
}

/// Terms and names compared.
fn pairs(run: &mut Run) {
    let mut r = run.rng(170);
    let n = run.num("n", 300);
    let sp = Spans::dummy(60);
    let pool = typed_pool(&mut r, 150, 14, true);
    for k in 0..n {
        if k % 4 == 3 {
            name_pair(run, &mut r);
            continue;
        }
        let mut a = if r.chance(1, 2) {
            r.pick(&pool).clone()
        } else {
            let fuel = r.range(1, 12);
            gen::wild(&mut r, 2, fuel)
        };
        if r.chance(1, 8) {
            gen::widen(&mut a, &mut r);
        }
        gen::decorate(&mut a, &mut r, 3);
        let mut b = a.clone();
        match r.below(8) {
            0 | 1 => (),
            2 => gen::perturb(&mut b, &mut r),
            3 => gen::perturb_grammar(&mut b, &mut r),
            4 | 5 => rebind(&mut b, &mut r),
            6 => {
                // a literal or part dropped, doubled or swapped
                let mut done = false;
                let d = r.below(3);
                gen::walk(&mut b, &mut |u| {
                    if let (false, K::Cat(es, ps) | K::Alt(es, ps)) = (done, &mut u.k) {
                        done = true;
                        match d {
                            0 => es.swap(0, 1),
                            1 => {
                                es.push(es[0].clone());
                                ps.push((1, 1));
                            }
                            _ if es.len() > 2 => {
                                es.pop();
                                ps.pop();
                            }
                            _ => (),
                        }
                    }
                });
            }
            _ => b = r.pick(&pool).clone(),
        }
        if r.chance(1, 2) {
            // other places and other attached names
            gen::walk(&mut b, &mut |u| u.n = no_name());
            gen::decorate(&mut b, &mut r, 3);
        }
        if r.chance(1, 8) {
            // near the end, where a shallow comparison would not look
            gen::walk(&mut b, &mut |u| u.n = no_name());
        }
        let (ha, hb) = (r.below(3) as u8, r.below(3) as u8);
        let (aj, bj) = (a.to_j(), b.to_j());
        run.begin(&obj! {ev: "pair", a: aj.clone(), b: bj.clone()});
        let x = spelled(ha, || to_real(&a, &sp));
        let y = spelled(hb, || to_real(&b, &sp));
        let mut line = obj! {ev: "pair", a: aj, b: bj, ab: J::Bool(x == y), ba: J::Bool(y == x)};
        line.set("aa", J::Bool(x == x.clone()));
        let (tx, ty) = (
            pipe::guard(|| pipe::infer_real(x)),
            pipe::guard(|| pipe::infer_real(y)),
        );
        let (typed, teq, theq) = match (tx, ty) {
            (Ok(Ok(x)), Ok(Ok(y))) => (true, x == y, hash_of(&x) == hash_of(&y)),
            _ => (false, false, false),
        };
        line.set("typed", J::Bool(typed));
        line.set("teq", J::Bool(teq));
        line.set("theq", J::Bool(theq));
        run.emit(&line);
    }
}

fn name_pair(run: &mut Run, r: &mut Rng) {
    let text = |r: &mut Rng| {
        (*r.pick(&["x", "y", "match", "self", "_", "foo", "Foo", "fo_o", "é", "r", "type", "_1", "rx"])).to_owned()
    };
    let a = nm(&text(r), r.range(1, 3) as u8);
    let mut b = a.clone();
    if r.chance(1, 3) {
        b.c = text(r);
    }
    if r.chance(1, 3) {
        b.k = r.range(1, 3) as u8;
    }
    let (ha, hb) = (r.below(3) as u8, r.below(3) as u8);
    let (aj, bj) = (nm_j(&a), nm_j(&b));
    run.begin(&obj! {ev: "name", a: aj.clone(), b: bj.clone(), ha: ha as usize, hb: hb as usize});
    let x = spelled(ha, || to_name(&a).unwrap());
    let y = spelled(hb, || to_name(&b).unwrap());
    let line = obj! {ev: "name", a: aj, b: bj, ha: ha as usize, hb: hb as usize,
        ab: J::Bool(x == y), ba: J::Bool(y == x), heq: J::Bool(hash_of(&x) == hash_of(&y)),
        text: J::Bool((x.content == a.c) && ((x.content == b.c) == (a.c == b.c)))};
    run.emit(&line);
}

/// Accepted grammars turned into code: one file per grammar in `dir`, one
/// line per grammar with what the code offers and the inputs to try on it.
fn parsers(run: &mut Run) {
    let mut r = run.rng(600 + run.num("salt", 0) as u64);
    let dir = run.str("dir").to_owned();
    let n = run.num("n", 100);
    let each = run.num("inputs", 16);
    let max = run.num("max", 18);
    let sp = Spans::dummy(60);
    let mut cases: Vec<(T, bool)> = Vec::new();
    if !run.str("in").is_empty() {
        for c in lines(run.str("in")) {
            if c.get("r").get("st") == &J::from("ok") {
                cases.push((T::of_j(c.get("t")), true));
            }
        }
        if run.num("every", 1) > 1 {
            let k = run.num("every", 1);
            let from = r.below(k);
            cases = cases.into_iter().skip(from).step_by(k).collect();
        }
    }
    let pool = typed_pool(&mut r, (n * 2).max(150), max, true);
    let plain = typed_pool(&mut r, 150, 14, false);
    if n > 50 {
        cases.extend(gen::seeds().into_iter().filter(|t| accepted(t, &sp)).map(|t| (t, false)));
    }
    for (share, like) in [(n / 8, false), (n / 10, true)] {
        let most = cases.len() + share;
        let mut tries = 0;
        while tries < 40 * n && cases.len() < most.min(n) {
            tries += 1;
            let a = r.pick(&pool).clone();
            let t = if like { Some(gen::near(&mut r, &a)) } else { gen::twins(&mut r, &a, true) };
            if let Some(mut t) = t {
                if !like || r.chance(1, 4) {
                    let names = *r.pick(&[0, 0, 3]);
                    gen::decorate(&mut t, &mut r, names);
                }
                if t.size() <= 3 * max && accepted(&t, &sp) {
                    cases.push((t, false));
                }
            }
        }
    }
    while cases.len() < n {
        let names = *r.pick(&[0, 2, 5, 9]);
        if r.chance(1, 2) {
            let mut t = if r.chance(1, 10) { gen::wide(&mut r, &pool) } else { r.pick(&pool).clone() };
            gen::decorate(&mut t, &mut r, names);
            if r.chance(1, 3) && t.size() < max {
                // the same again under other names
                let mut u = t.clone();
                gen::walk(&mut u, &mut |u| u.n = no_name());
                gen::decorate(&mut u, &mut r, 9 - names);
                let c = *r.pick(&["@", "é", "\n"]);
                t = if r.chance(1, 2) {
                    cat(vec![lit(c), t, lit("#"), u])
                } else {
                    alt(vec![cat(vec![lit(c), t]), cat(vec![lit("#"), u])])
                };
            }
            if accepted(&t, &sp) {
                cases.push((t, false));
            }
        } else {
            let from = if r.chance(1, 2) { &plain } else { &pool };
            let p = some_program(&mut r, from, false);
            let src = surf::text(&surf::tokens(&p, &mut r, false), &mut r, false);
            let ss = Spans::of_source(&src).unwrap_or_else(|| Spans::dummy(1));
            if let Front::Term(t) = pipe::front(&src, &ss) {
                if t_terminates(&t, &ss) {
                    if let Ok(Ok(t)) = pipe::guard(|| pipe::reduce_real(t)) {
                        let mut t = from_real(&t, &ss);
                        gen::walk(&mut t, &mut |u| {
                            u.sp = (1, 1);
                            if let K::Cat(_, ps) | K::Alt(_, ps) = &mut u.k {
                                ps.iter_mut().for_each(|p| *p = (2, 2))
                            }
                        });
                        if t.size() <= 3 * max && accepted(&t, &sp) && (t.size() > 2 || r.chance(1, 10)) {
                            cases.push((t, false));
                        }
                    }
                }
            }
        }
    }
    for (id, (t, small)) in cases.into_iter().enumerate() {
        let ins = if small { crate::words::all_words(&t, run.num("len", 3)) } else { crate::words::inputs(&t, &mut r, each) };
        let ins = J::Arr(ins.iter().map(|w| codes(w)).collect());
        run.begin(&obj! {ev: "emit", t: t.to_j()});
        let emit_named = |name| match pipe::infer_real(to_real(&t, &sp)) {
            Ok(tt) => pipe::emit_named(tt, name).to_string(),
            Err(_) => panic!("not accepted"),
        };
        let emit = || emit_named(None);
        let mut line = obj! {ev: "parser", id: id, t: t.to_j(), inputs: ins, small: J::Bool(small)};
        match pipe::guard(|| (emit(), emit(), emit())) {
            Err(m) => line.set("code", pipe::panic_j(m)),
            Ok((a, b, c)) => {
                line.set("again", J::Bool(a == b && b == c));
                match crate::api::of_code(&a) {
                    Ok(api) => {
                        line.set("code", obj! {st: "ok"});
                        line.set("named", root_name(&t, &api, &a, &mut r, emit_named));
                        line.set("api", api);
                    }
                    Err(m) => line.set("code", obj! {st: "invalid", msg: codes(&m)}),
                }
                std::fs::write(format!("{}/g{}.rs", dir, id), a).unwrap();
            }
        }
        run.emit(&line);
    }
}

/// The same code with a name for its root: one used in the grammar, or like the types it defines.
fn root_name<F: Fn(Option<chomp::chomp::name::Name>) -> String>(t: &T, api: &J, plain: &str, r: &mut Rng, emit: F) -> J {
    let mut names: Vec<String> = vec![(*r.pick(&gen::NAMES)).to_owned(), (*r.pick(&["Ast", "Épée", "type"])).to_owned()];
    gen::walk(&mut t.clone(), &mut |u| if u.n.k != 0 { names.push(u.n.c.clone()) });
    for ty in api.get("defs").arr() {
        names.extend((0..3).map(|_| ty.str().trim_end_matches(|c: char| c.is_ascii_digit()).to_owned()));
        names.push(ty.str().to_owned());
    }
    let name = r.pick(&names).clone();
    match pipe::guard(|| emit(to_name(&nm(&name, LABEL)))) {
        Err(m) => pipe::panic_j(m),
        Ok(code) => match crate::api::of_named(&code, plain) {
            Err(m) => obj! {st: "invalid", asked: codes(&name), msg: codes(&m)},
            Ok(mut j) => {
                j.set("asked", codes(&name));
                j
            }
        },
    }
}

fn t_terminates(t: &chomp::chomp::ast::NamedExpression, sp: &Spans) -> bool {
    gen::terminates(&from_real(t, sp), 40, 400)
}

/// Accepted grammars over few characters, with their types.
fn types(run: &mut Run) {
    let mut r = run.rng(5);
    let sp = Spans::dummy(2);
    let n = run.num("n", 300);
    let mut cases: Vec<T> = Vec::new();
    if !run.str("in").is_empty() {
        cases.extend(lines(run.str("in")).iter().map(|c| T::of_j(c.get("t"))));
    }
    let mut pool = typed_pool(&mut r, n, run.num("max", 14), false);
    // fewer characters: more chances to collide
    for t in &mut pool {
        let k = r.range(2, 6);
        let mut letters = ['a', 'b', 'c', 'd', 'e', 'f'];
        if r.chance(1, 3) {
            letters = *r.pick(&[
                ['A', '\u{10041}', 'a', '\u{141}', '\u{4100}', '\u{100041}'],
                ['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'],
                ['\u{e9}', 'e', '\u{301}', '\u{c9}', 'E', '\u{69}'],
                ['\0', '\u{10ffff}', '\n', '\u{10a}', '\u{d7ff}', '\u{e000}'],
                ['0', '1', '9', 'z', 'Z', '_'],
            ]);
            r.shuffle(&mut letters);
        }
        gen::walk(t, &mut |u| {
            if let K::Lit(s) = &mut u.k {
                *s = s.chars().map(|c| letters[(c as u32) as usize % k]).collect();
            }
        });
    }
    for t in pool {
        let mut u = t.clone();
        cases.push(t);
        for _ in 0..3 {
            gen::perturb_grammar(&mut u, &mut r);
            if u.size() <= 18 {
                cases.push(u.clone());
            }
        }
    }
    for t in cases {
        run.begin(&obj! {ev: "types", t: t.to_j()});
        let got = pipe::infer(&t, &sp);
        if got.get("st") == &J::from("ok") {
            run.emit(&obj! {ev: "types", t: t.to_j(), tt: got.get("tt").clone()});
        }
    }
}

/// The self-hosted front end.
#[cfg(feature = "auto")]
pub fn selfhosted(src: &str, sp: &Spans) -> Front {
    use chewed::Parse;
    match pipe::guard(|| autonibble::Ast::parse_str(src).ok()) {
        Err(m) => Front::Panic(m),
        Ok(None) => Front::Syntax,
        Ok(Some(ast)) => pipe::convert(ast, sp),
    }
}

/// Programs of the common syntax through both front ends.
#[cfg(feature = "auto")]
fn common(run: &mut Run) {
    let mut r = run.rng(2);
    let n = run.num("n", 300);
    let cases: Vec<Vec<Tok>> = if run.str("in") != "" {
        lines(run.str("in")).iter().map(|j| surf::toks_of(j.get("w"))).filter(|w| w.iter().all(plain)).collect()
    } else {
        let pool = typed_pool(&mut r, 120, 16, true);
        let mut v = Vec::new();
        while v.len() < n {
            let mut w = some_tokens(&mut r, &pool, true);
            for t in &mut w {
                if matches!(t, Tok::Str(_)) && r.chance(1, 4) {
                    let n = r.range(1, 6);
                    let s = (0..n).map(|_| if r.chance(4, 5) { r.range(32, 126) } else { r.below(128) } as u8 as char);
                    *t = Tok::Str(s.collect());
                }
            }
            if w.iter().all(plain) {
                v.push(w)
            }
        }
        v
    };
    let sp = Spans::dummy(1);
    for toks in cases {
        let src = surf::text(&toks, &mut r, true);
        let tj = surf::toks_j(&toks);
        run.begin(&obj! {ev: "common", toks: tj.clone(), src: src.clone()});
        let a = pipe::front(&src, &sp);
        let b = selfhosted(&src, &sp);
        let eq = match (&a, &b) {
            (Front::Term(x), Front::Term(y)) => x == y && y == x,
            _ => false,
        };
        run.emit(&obj! {ev: "common", toks: tj, src: src.clone(), r: pipe::front_j(&a, &sp),
            s: pipe::front_j(&b, &sp), eq: eq});
    }
}

#[cfg(feature = "auto")]
fn plain(t: &Tok) -> bool {
    match t {
        Tok::P(_) => true,
        Tok::Bad(_) => false,
        Tok::Str(s) => !s.is_empty(),
        Tok::Id(s, raw) => !raw && (s == "_" || s.is_ascii() && s.starts_with(|c: char| c.is_ascii_alphabetic())),
    }
}

/// What the library makes of a program: its code or its diagnostic.
#[cfg(feature = "auto")]
fn library<C: chomp::nibble::convert::Convert>(read: Result<C, String>, sp: &Spans) -> J {
    let said = |mut j: J, m: String| {
        j.set("st", J::from("err"));
        j.set("msg", J::from(m));
        j
    };
    let st = match read {
        Ok(st) => st,
        Err(m) => return said(obj! {e: "syntax"}, m),
    };
    let t = match st.convert(&mut chomp::nibble::convert::Context::default()) {
        Ok(t) => t,
        Err(e) => {
            let kind = match e {
                chomp::nibble::convert::ConvertError::UndeclaredName(_) => "undeclared",
                _ => "char",
            };
            return said(obj! {e: kind}, e.to_string());
        }
    };
    if !t_terminates(&t, sp) {
        return obj! {st: "div"};
    }
    let t = match pipe::reduce_real(t) {
        Ok(t) => t,
        Err(e) => {
            let m = e.to_string();
            return said(pipe::reduction_error_j(e, sp), m);
        }
    };
    match pipe::infer_real(t) {
        Ok(tt) => obj! {st: "ok", code: format!("{:#}", pipe::emit(tt))},
        Err(e) => {
            let m = e.to_string();
            said(pipe::type_error_j(e, sp), m)
        }
    }
}

#[cfg(feature = "auto")]
fn of_both(src: &str, sp: &Spans) -> (J, J) {
    use chewed::Parse;
    let a = pipe::guard(|| {
        library(syn::parse_str::<chomp::nibble::Statement>(src).map_err(|e| e.to_string()), sp)
    });
    let b = pipe::guard(|| library(autonibble::Ast::parse_str(src).map_err(|e| e.to_string()), sp));
    (a.unwrap_or_else(pipe::panic_j), b.unwrap_or_else(pipe::panic_j))
}

/// What the library makes of given texts.
#[cfg(feature = "auto")]
fn both_libraries(run: &mut Run) {
    let sp = Spans::dummy(1);
    for c in lines(run.str("in")) {
        let src = c.get("src").text();
        run.begin(&obj! {ev: "library", src: src.clone()});
        let (a, b) = of_both(&src, &sp);
        run.emit(&obj! {chomp: a, autonibble: b});
    }
}

/// Programs, and what the library makes of them, for the command line tools
/// and the macro.
#[cfg(feature = "auto")]
fn tools(run: &mut Run) {
    let mut r = run.rng(12);
    let n = run.num("n", 300);
    let pool = typed_pool(&mut r, 150, 16, true);
    let mut done = 0;
    let mut tries = 0;
    while done < n && tries < 50 * n {
        tries += 1;
        let common = r.chance(1, 2);
        let mut toks;
        if r.chance(1, 30) {
            toks = deep(&mut r);
        } else {
            let mut p = some_program(&mut r, &pool, common);
            if r.chance(1, 2) {
                disturb(&mut p, &mut r);
            }
            toks = surf::tokens(&p, &mut r, common);
        }
        if r.chance(1, 5) {
            surf::edit(&mut toks, &mut r, common);
        }
        let plainly = toks.iter().all(plain);
        let src = surf::text(&toks, &mut r, common);
        let tj = surf::toks_j(&toks);
        run.begin(&obj! {ev: "tools", toks: tj.clone(), src: src.clone()});
        let sp = Spans::dummy(1);
        let (a, b) = of_both(&src, &sp);
        let div = J::from("div");
        if a.get("st") == &div || b.get("st") == &div {
            continue;
        }
        if a.get("st") == &J::from("ok") && toks.len() < 5 && r.chance(4, 5) {
            continue;
        }
        let mut line = obj! {ev: "tools", id: done, toks: tj, src: src.clone(), common: common && plainly,
            chomp: a.clone(), autonibble: b};
        if a.get("st") == &J::from("ok") {
            // for the macro
            let code = a.get("code").str().to_owned();
            if let (Front::Term(t), Ok(api)) = (pipe::front(&src, &sp), crate::api::of_code(&code)) {
                if let Ok(t) = pipe::reduce_real(t) {
                    let ins = crate::words::inputs(&from_real(&t, &sp), &mut r, 6);
                    line.set("inputs", J::Arr(ins.iter().map(|w| codes(w)).collect()));
                    line.set("api", api);
                }
            }
        }
        run.emit(&line);
        done += 1;
    }
}

/// Nesting, about a hundred deep.
#[cfg(feature = "auto")]
fn deep(r: &mut Rng) -> Vec<Tok> {
    let n = r.range(60, 100);
    let id = |s: &str| Tok::Id(s.to_owned(), false);
    let mut t = vec![];
    match r.below(5) {
        4 => {
            // far more code than a pipe holds
            t.push(id("match"));
            for i in 0..r.range(150, 250) {
                if i > 0 {
                    t.push(Tok::P('.'));
                }
                t.push(Tok::Str((0..3).map(|k| (b'a' + (i / 26usize.pow(k) % 26) as u8) as char).collect()));
            }
        }
        0 => {
            t.push(id("match"));
            (0..n).for_each(|_| t.push(Tok::P('(')));
            t.push(Tok::Str("a".to_owned()));
            (0..n).for_each(|_| t.push(Tok::P(')')));
        }
        1 => {
            for i in 0..n {
                let x = format!("v{}", i);
                t.extend([id("let"), id(&x), Tok::P('='), Tok::Str("a".to_owned()), Tok::P('.')]);
                t.push(if i == 0 { Tok::Str("b".to_owned()) } else { id(&format!("v{}", i - 1)) });
                t.push(Tok::P(';'));
            }
            t.extend([id("match"), id(&format!("v{}", n - 1))]);
        }
        2 => {
            t.push(id("match"));
            for _ in 0..n {
                t.extend([Tok::Str("a".to_owned()), Tok::P('.'), Tok::P('('), Tok::Str("b".to_owned()), Tok::P('|')]);
            }
            t.push(id("_"));
            (0..n).for_each(|_| t.push(Tok::P(')')));
        }
        _ => {
            // checking takes time exponential in the depth of fixed points
            let n = r.range(2, 7);
            t.push(id("match"));
            for i in 0..n {
                let x = format!("v{}", i);
                t.extend([Tok::P('!'), Tok::P('('), Tok::P('/'), id(&x), Tok::P('/')]);
            }
            t.push(Tok::Str("a".to_owned()));
            (0..n).for_each(|_| t.push(Tok::P(')')));
        }
    }
    t.push(Tok::P(';'));
    t
}
