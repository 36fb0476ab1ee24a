//! Random terms.  Nothing here is an oracle: it only decides what is tried.
use crate::rng::Rng;
use crate::term::*;

pub const CHARS: [char; 6] = ['a', 'b', 'c', 'd', 'e', 'f'];
pub const ODD: [char; 18] = [
    'é', 'λ', '\u{1F600}', '\n', '\r', '"', '\\', ' ', '\'', '\u{85}', '0', '{', '}', '\u{2028}', 'A', '\0', '\u{7f}', '\u{301}',
];
pub const NAMES: [&str; 14] = [
    "x", "foo", "Bar", "a_b", "aB", "a1", "A", "fooBar", "part", "branch", "lit", "match", "HTTPFoo", "x_1",
];

#[derive(Clone)]
pub enum Sort {
    G,
    Fun(Vec<Sort>, Box<Sort>),
}

fn same(a: &Sort, b: &Sort) -> bool {
    match (a, b) {
        (Sort::G, Sort::G) => true,
        (Sort::Fun(x, r), Sort::Fun(y, s)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)) && same(r, s)
        }
        _ => false,
    }
}

/// Usually few, now and then many.
fn several(r: &mut Rng, lo: usize, hi: usize) -> usize {
    if r.chance(1, 9) {
        r.range(hi, hi + 5)
    } else {
        r.range(lo, hi)
    }
}

pub fn random_sort(r: &mut Rng, depth: usize) -> Sort {
    if depth == 0 || r.chance(3, 5) {
        Sort::G
    } else {
        let n = several(r, 1, 3);
        let a = (0..n).map(|_| random_sort(r, depth - 1)).collect();
        Sort::Fun(a, Box::new(random_sort(r, depth - 1)))
    }
}

pub fn literal(r: &mut Rng, odd: bool) -> T {
    let n = *r.pick(&[1, 1, 1, 1, 2, 2, 3, 0, 1, 1, 1, 1, 2, 2, 3, 6]);
    let s: String = (0..n)
        .map(|_| if odd && r.chance(1, 4) { *r.pick(&ODD) } else { *r.pick(&CHARS) })
        .collect();
    lit(&s)
}

/// Spans and names sprinkled over a term.
pub fn decorate(t: &mut T, r: &mut Rng, names: usize) {
    let s = |r: &mut Rng| {
        let i = r.range(1, 40) as i64;
        if r.chance(1, 2) {
            (i, i)
        } else {
            (i, (i + r.below(10) as i64).min(40))
        }
    };
    t.sp = s(r);
    if r.chance(names, 10) {
        t.n = nm(r.pick(&NAMES), r.range(1, 3) as u8);
    }
    match &mut t.k {
        K::Eps | K::Lit(_) | K::Var(_) => (),
        K::Cat(es, ps) | K::Alt(es, ps) => {
            for p in ps {
                let i = r.range(1, 40) as i64;
                *p = (i, i);
            }
            for e in es {
                decorate(e, r, names)
            }
        }
        K::Fix(e) | K::Lam(_, e) => decorate(e, r, names),
        K::Call(f, a) => {
            decorate(f, r, names);
            for e in a {
                decorate(e, r, names)
            }
        }
        K::Let(_, b, e) => {
            decorate(b, r, names);
            decorate(e, r, names)
        }
    }
}

/// A well-sorted program: its expansion always terminates.
pub fn sorted(r: &mut Rng, env: &mut Vec<Sort>, goal: &Sort, fuel: usize) -> T {
    let vars: Vec<usize> =
        (0..env.len()).filter(|i| same(&env[env.len() - 1 - i], goal)).collect();
    if fuel <= 1 {
        if !vars.is_empty() && r.chance(3, 4) {
            return var(*r.pick(&vars));
        }
        return match goal {
            Sort::G => {
                if r.chance(1, 6) {
                    eps()
                } else {
                    literal(r, false)
                }
            }
            Sort::Fun(a, b) => lambda(r, env, a, b, fuel),
        };
    }
    if !vars.is_empty() && r.chance(1, 6) {
        return var(*r.pick(&vars));
    }
    let choice = r.below(10);
    match (goal, choice) {
        (_, 0 | 1) => {
            let s = random_sort(r, 2);
            let b = sorted(r, env, &s, fuel / 2);
            env.push(s);
            let e = sorted(r, env, goal, fuel / 2);
            env.pop();
            let x = nm(r.pick(&NAMES), LET);
            K::Let(x, Box::new(b), Box::new(e)).into()
        }
        (_, 2 | 3 | 4) => {
            // a variable that yields the goal when applied, or a fresh function
            let funs: Vec<usize> = (0..env.len())
                .filter(|i| match &env[env.len() - 1 - i] {
                    Sort::Fun(_, res) => same(res, goal),
                    Sort::G => false,
                })
                .collect();
            let (f, args) = if !funs.is_empty() && r.chance(2, 3) {
                let i = *r.pick(&funs);
                match env[env.len() - 1 - i].clone() {
                    Sort::Fun(a, _) => (var(i), a),
                    Sort::G => unreachable!(),
                }
            } else {
                let n = several(r, 1, 3);
                let a: Vec<Sort> = (0..n).map(|_| random_sort(r, 1)).collect();
                let s = Sort::Fun(a.clone(), Box::new(goal.clone()));
                (sorted(r, env, &s, fuel / 2), a)
            };
            let a = args.iter().map(|s| sorted(r, env, s, fuel / args.len().max(3))).collect();
            K::Call(Box::new(f), a).into()
        }
        (Sort::Fun(a, b), _) => lambda(r, env, a, b, fuel - 1),
        (Sort::G, 5 | 6) => {
            let n = several(r, 2, 3);
            cat((0..n).map(|_| sorted(r, env, goal, fuel / n)).collect())
        }
        (Sort::G, 7 | 8) => {
            let n = several(r, 2, 3);
            alt((0..n).map(|_| sorted(r, env, goal, fuel / n)).collect())
        }
        (Sort::G, _) => {
            let s = Sort::Fun(vec![Sort::G], Box::new(Sort::G));
            K::Fix(Box::new(sorted(r, env, &s, fuel - 1))).into()
        }
    }
}

fn lambda(r: &mut Rng, env: &mut Vec<Sort>, a: &[Sort], b: &Sort, fuel: usize) -> T {
    let n = env.len();
    env.extend(a.iter().cloned());
    let e = sorted(r, env, b, fuel.saturating_sub(1));
    env.truncate(n);
    let ps = a.iter().map(|_| nm(r.pick(&NAMES), VARIABLE)).collect();
    K::Lam(ps, Box::new(e)).into()
}

/// Any term at all, with about `d` variables in scope.
pub fn wild(r: &mut Rng, d: usize, fuel: usize) -> T {
    if fuel <= 1 {
        return match r.below(6) {
            0 => eps(),
            1 | 2 => literal(r, false),
            _ => var(r.below(d + 2)),
        };
    }
    match r.below(12) {
        0 | 1 => {
            let b = wild(r, d, fuel / 2);
            let e = wild(r, d + 1, fuel / 2);
            K::Let(nm(r.pick(&NAMES), LET), Box::new(b), Box::new(e)).into()
        }
        2 | 3 | 4 => {
            let n = several(r, 1, 3);
            let f = wild(r, d, fuel / 2);
            let a = (0..n).map(|_| wild(r, d, fuel / n.max(3))).collect();
            K::Call(Box::new(f), a).into()
        }
        5 | 6 | 7 => {
            let n = several(r, 1, 3);
            let ps = (0..n).map(|_| nm(r.pick(&NAMES), VARIABLE)).collect();
            K::Lam(ps, Box::new(wild(r, d + n, fuel - 1))).into()
        }
        8 => K::Fix(Box::new(wild(r, d, fuel - 1))).into(),
        9 | 10 => {
            let n = several(r, 2, 3);
            cat((0..n).map(|_| wild(r, d, fuel / n)).collect())
        }
        _ => {
            let n = several(r, 2, 3);
            alt((0..n).map(|_| wild(r, d, fuel / n)).collect())
        }
    }
}

/// Some sequence or choice in t with many more parts, mostly in front.
pub fn widen(t: &mut T, r: &mut Rng) {
    let mut n = 0;
    walk(t, &mut |u| n += matches!(u.k, K::Cat(..) | K::Alt(..)) as usize);
    if n == 0 {
        let old = std::mem::replace(t, eps());
        let other = lit("w");
        *t = if r.chance(1, 2) { cat(vec![other, old]) } else { alt(vec![other, old]) };
        n = 1;
    }
    let (at, more, front) = (r.below(n), r.range(10, 70), r.chance(3, 4));
    let mut c = 0;
    walk(t, &mut |u| {
        if let K::Cat(es, ps) | K::Alt(es, ps) = &mut u.k {
            if c == at {
                for j in 0..more as u32 {
                    // alike to nothing else
                    let l = lit(&std::char::from_u32(0x4e00 + j).unwrap().to_string());
                    let k = if front { j as usize } else { es.len() - 1 };
                    es.insert(k, l);
                    ps.push(ps[0]);
                }
            }
            c += 1;
        }
    });
}

/// Random one-place change of a term.
pub fn perturb(t: &mut T, r: &mut Rng) {
    let n = t.size();
    let at = r.below(n);
    let d = 3;
    let mut c = 0;
    walk(t, &mut |u: &mut T| {
        if c == at {
            match r.below(4) {
                0 => *u = wild(r, d, 2),
                1 => {
                    if let K::Call(_, a) = &mut u.k {
                        if a.len() > 1 && r.chance(1, 2) {
                            a.pop();
                        } else {
                            a.push(var(r.below(3)));
                        }
                    } else if let K::Var(i) = &mut u.k {
                        *i += 1;
                    }
                }
                2 => {
                    if let K::Lam(p, _) = &mut u.k {
                        p.push(nm("extra", VARIABLE));
                    } else if let K::Var(i) = &mut u.k {
                        *i = i.saturating_sub(1);
                    }
                }
                _ => {
                    let old = u.clone();
                    *u = K::Call(Box::new(old), vec![lit("q")]).into();
                }
            }
        }
        c += 1;
    });
}

pub fn walk(t: &mut T, f: &mut impl FnMut(&mut T)) {
    f(t);
    match &mut t.k {
        K::Eps | K::Lit(_) | K::Var(_) => (),
        K::Cat(es, _) | K::Alt(es, _) => es.iter_mut().for_each(|e| walk(e, f)),
        K::Fix(e) | K::Lam(_, e) => walk(e, f),
        K::Call(g, a) => {
            walk(g, f);
            a.iter_mut().for_each(|e| walk(e, f))
        }
        K::Let(_, b, e) => {
            walk(b, f);
            walk(e, f)
        }
    }
}

/// Random grammar: no lets, calls or stray lambdas; may or may not be typable.
pub fn grammar(r: &mut Rng, d: usize, fuel: usize, odd: bool) -> T {
    if fuel <= 1 {
        return match r.below(10) {
            0 => eps(),
            1 | 2 | 3 if d > 0 => var(r.below(d)),
            4 if r.chance(1, 12) => var(r.below(d + 2)),
            _ => literal(r, odd),
        };
    }
    match r.below(10) {
        0..=3 => {
            let n = r.range(2, 4).min(fuel);
            cat((0..n).map(|_| grammar(r, d, (fuel - 1) / n, odd)).collect())
        }
        4..=7 => {
            let n = r.range(2, 4).min(fuel);
            alt((0..n).map(|_| grammar(r, d, (fuel - 1) / n, odd)).collect())
        }
        _ => fix(grammar(r, d + 1, fuel - 1, odd)),
    }
}

/// Fixed points inside one another, with a variable far from its binder.
pub fn nested(r: &mut Rng) -> T {
    let n = r.range(3, 7);
    let plain = r.chance(1, 3);
    let mut e = var(r.below(n));
    if !plain && r.chance(1, 2) {
        e = cat(vec![literal(r, false), e]);
    }
    for i in (0..n).rev() {
        let l = literal(r, false);
        e = match if plain { 9 } else { r.below(12) } {
            0 => alt(vec![l, e]),
            1 => cat(vec![l, e]),
            2 => cat(vec![e, l]),
            3 => alt(vec![e, eps()]),
            4 => alt(vec![l, cat(vec![literal(r, false), e])]),
            5 if i > 0 => cat(vec![e, alt(vec![eps(), var(r.below(i))])]),
            6 if i > 0 => alt(vec![cat(vec![l, var(r.below(i))]), e]),
            _ => e,
        };
        e = fix(e);
    }
    e
}

/// A pool of grammars that satisfy `ok`, grown by mutation.
pub fn evolve(r: &mut Rng, count: usize, max: usize, odd: bool, ok: &mut impl FnMut(&T) -> bool) -> Vec<T> {
    let mut pool: Vec<T> = seeds().into_iter().filter(|t| ok(t)).collect();
    let mut seen: std::collections::HashSet<T> = pool.iter().cloned().collect();
    let mut tries = 0;
    while pool.len() < count && tries < 400 * count {
        tries += 1;
        let t = match r.below(6) {
            0 if r.chance(1, 6) => nested(r),
            0 => {
                let n = r.range(2, max);
                grammar(r, 0, n, odd)
            }
            _ => {
                let a = r.pick(&pool).clone();
                let b = r.pick(&pool).clone();
                mutate(r, a, b, odd)
            }
        };
        if t.size() <= max && !seen.contains(&t) && ok(&t) {
            seen.insert(t.clone());
            pool.push(t);
        }
    }
    pool
}

/// The subterms of `t` that are under binders, with how many.
fn open(t: &T) -> Vec<(T, usize)> {
    let mut depth = Vec::new();
    measure(t, 0, &mut depth);
    let mut out = Vec::new();
    let mut c = 0;
    walk(&mut t.clone(), &mut |u| {
        if depth[c] > 0 && u.size() > 2 && !matches!(u.k, K::Lam(..)) {
            out.push((u.clone(), depth[c]));
        }
        c += 1;
    });
    out
}

/// The same open term under different binders.
pub fn twins(r: &mut Rng, a: &T, odd: bool) -> Option<T> {
    let all = open(a);
    if all.is_empty() {
        return None;
    }
    let (e, d) = r.pick(&all).clone();
    let heads: Vec<[T; 2]> = (0..d).map(|_| [literal(r, odd), literal(r, odd)]).collect();
    let tail = r.below(d);
    let mut around = |tails: usize| {
        (0..d).fold(e.clone(), |e, i| {
            let mut es = vec![heads[i][1].clone(), e];
            if tails == i {
                es.push(literal(r, odd));
            }
            fix(alt(vec![heads[i][0].clone(), cat(es)]))
        })
    };
    let one = around(d);
    let other = around(tail);
    Some(cat(vec![one, literal(r, odd), other]))
}

fn mutate(r: &mut Rng, mut a: T, b: T, odd: bool) -> T {
    if r.chance(1, 12) {
        if let Some(t) = twins(r, &a, odd) {
            return t;
        }
    }
    match r.below(8) {
        0 => alt(vec![a, b]),
        1 => cat(vec![a, b]),
        2 => cat(vec![a, literal(r, odd), b]),
        3 => fix(alt(vec![shift(a), cat(vec![literal(r, odd), var(0)])])),
        4 => fix(cat(vec![shift(a), alt(vec![eps(), var(0)])])),
        _ => {
            // replace a random subterm
            let at = r.below(a.size());
            let mut c = 0;
            let mut depth = Vec::new();
            measure(&a, 0, &mut depth);
            let d = depth.get(at).copied().unwrap_or(0);
            let fuel = r.range(1, 6);
            let new = grammar(r, d, fuel, odd);
            walk(&mut a, &mut |u| {
                if c == at {
                    if !matches!(u.k, K::Lam(..)) {
                        *u = new.clone();
                    }
                }
                c += 1;
            });
            a
        }
    }
}

fn measure(t: &T, d: usize, out: &mut Vec<usize>) {
    out.push(d);
    match &t.k {
        K::Eps | K::Lit(_) | K::Var(_) => (),
        K::Cat(es, _) | K::Alt(es, _) => es.iter().for_each(|e| measure(e, d, out)),
        K::Fix(e) => measure(e, d, out),
        K::Lam(p, e) => measure(e, d + p.len(), out),
        K::Call(g, a) => {
            measure(g, d, out);
            a.iter().for_each(|e| measure(e, d, out))
        }
        K::Let(_, b, e) => {
            measure(b, d, out);
            measure(e, d + 1, out)
        }
    }
}

fn shift(mut t: T) -> T {
    shift_by(&mut t, 0, 1);
    t
}

pub fn shift_by(t: &mut T, d: usize, by: i64) {
    match &mut t.k {
        K::Eps | K::Lit(_) => (),
        K::Var(i) => {
            if *i >= d {
                *i = (*i as i64 + by) as usize
            }
        }
        K::Cat(es, _) | K::Alt(es, _) => es.iter_mut().for_each(|e| shift_by(e, d, by)),
        K::Fix(e) => shift_by(e, d, by),
        K::Lam(p, e) => shift_by(e, d + p.len(), by),
        K::Call(g, a) => {
            shift_by(g, d, by);
            a.iter_mut().for_each(|e| shift_by(e, d, by))
        }
        K::Let(_, b, e) => {
            shift_by(b, d, by);
            shift_by(e, d + 1, by)
        }
    }
}

/// Shapes worth always having: lists, separators, nesting, mutual nesting.
pub fn seeds() -> Vec<T> {
    let digit = || alt(vec![lit("0"), lit("1"), lit("2")]);
    let opt = |t: T| alt(vec![eps(), t]);
    let list = |t: T| fix(cat(vec![shift(t), alt(vec![eps(), var(0)])]));
    let star = |t: T| fix(alt(vec![eps(), cat(vec![shift(t), var(0)])]));
    vec![
        eps(),
        lit("a"),
        lit("abc"),
        lit(""),
        digit(),
        alt(vec![digit(), alt(vec![lit("a"), lit("é")])]),
        list(alt(vec![digit(), lit(":")])),
        alt(vec![digit(), lit("aa")]),
        list(digit()),
        star(lit("ab")),
        fix(alt(vec![eps(), cat(vec![lit("("), var(0), lit(")")])])),
        fix(alt(vec![lit("x"), cat(vec![lit("("), var(0), lit(")")])])),
        fix(alt(vec![cat(vec![lit("["), alt(vec![eps(), fix(cat(vec![var(1), alt(vec![eps(), cat(vec![lit(","), var(0)])])]))]), lit("]")]), digit()])),
        cat(vec![lit("a"), star(lit("b")), lit("c")]),
        cat(vec![digit(), opt(cat(vec![lit("."), list(digit())]))]),
        alt(vec![cat(vec![lit("a"), lit("b")]), cat(vec![lit("b"), lit("a")])]),
        fix(alt(vec![lit("a"), cat(vec![lit("b"), var(0)]), cat(vec![lit("c"), fix(alt(vec![lit("x"), cat(vec![lit("y"), var(1)]), cat(vec![lit("z"), var(0)])]))])])),
        // equal bodies under different fixed points
        cat(vec![
            fix(alt(vec![lit("a"), cat(vec![lit("b"), fix(alt(vec![lit("c"), cat(vec![lit("d"), var(1)])]))])])),
            lit("-"),
            fix(alt(vec![lit("a"), cat(vec![lit("b"), fix(alt(vec![lit("c"), cat(vec![lit("d"), var(1)])])), lit("e")])])),
        ]),
        // the same, two levels up
        {
            let deep = |i| fix(alt(vec![lit("x"), cat(vec![lit("y"), fix(alt(vec![lit("p"), cat(vec![lit("q"), var(i)])]))])]));
            cat(vec![
                fix(alt(vec![lit("a"), cat(vec![lit("b"), deep(2)])])),
                lit("-"),
                fix(alt(vec![lit("a"), cat(vec![lit("b"), deep(2), lit("e")])])),
            ])
        },
        cat(vec![list(lit("a")), lit("b"), list(lit("a"))]),
        alt(vec![lit("é"), lit("λλ"), cat(vec![lit("\u{1F600}"), opt(lit("\n"))])]),
        fix(cat(vec![lit("a"), var(0)])),
        fix(var(0)),
    ]
}

// ---------------------------------------------------------------------------
// Fuel-limited expansion, only to keep divergent or exploding programs away
// from the real code.

fn subst(t: &T, d: usize, args: &[T]) -> T {
    let m = args.len();
    let go = |e: &T| subst(e, d, args);
    let k = match &t.k {
        K::Eps | K::Lit(_) => t.k.clone(),
        K::Var(i) => {
            if *i < d {
                K::Var(*i)
            } else if *i >= d + m {
                K::Var(*i - m)
            } else {
                let mut a = args[m - 1 - (*i - d)].clone();
                shift_by(&mut a, 0, d as i64);
                return a;
            }
        }
        K::Cat(es, ps) => K::Cat(es.iter().map(go).collect(), ps.clone()),
        K::Alt(es, ps) => K::Alt(es.iter().map(go).collect(), ps.clone()),
        K::Fix(e) => K::Fix(Box::new(go(e))),
        K::Lam(p, e) => K::Lam(p.clone(), Box::new(subst(e, d + p.len(), args))),
        K::Call(f, a) => K::Call(Box::new(go(f)), a.iter().map(go).collect()),
        K::Let(x, b, e) => K::Let(x.clone(), Box::new(go(b)), Box::new(subst(e, d + 1, args))),
    };
    T { k, n: t.n.clone(), sp: t.sp }
}

/// Steps taken and largest term met, or None if limits are exceeded.
pub fn expansion_cost(t: &T, steps: &mut usize, size: usize) -> Option<Option<T>> {
    // Some(Some(t)): value; Some(None): error; None: too much
    if t.size() > size {
        return None;
    }
    match &t.k {
        K::Eps | K::Lit(_) | K::Var(_) | K::Lam(..) => Some(Some(t.clone())),
        K::Cat(es, ps) | K::Alt(es, ps) => {
            let mut out = Vec::new();
            for e in es {
                match expansion_cost(e, steps, size)? {
                    Some(e) => out.push(e),
                    None => return Some(None),
                }
            }
            let total: usize = out.iter().map(T::size).sum();
            if total > size {
                return None;
            }
            let k = if matches!(t.k, K::Cat(..)) { K::Cat(out, ps.clone()) } else { K::Alt(out, ps.clone()) };
            Some(Some(k.into()))
        }
        K::Fix(e) => match expansion_cost(e, steps, size)? {
            None => Some(None),
            Some(e) => {
                if let K::Lam(p, b) = e.k {
                    Some(expansion_cost(&b, steps, size)?.map(|b| K::Fix(Box::new(K::Lam(p, Box::new(b)).into())).into()))
                } else {
                    Some(Some(K::Fix(Box::new(e)).into()))
                }
            }
        },
        K::Call(f, a) => match expansion_cost(f, steps, size)? {
            None => Some(None),
            Some(f) => {
                if let K::Lam(p, b) = f.k {
                    if p.len() != a.len() {
                        return Some(None);
                    }
                    if *steps == 0 {
                        return None;
                    }
                    *steps -= 1;
                    expansion_cost(&subst(&b, 0, a), steps, size)
                } else {
                    Some(None)
                }
            }
        },
        K::Let(_, b, e) => {
            if *steps == 0 {
                return None;
            }
            *steps -= 1;
            expansion_cost(&subst(e, 0, std::slice::from_ref(b)), steps, size)
        }
    }
}

/// Does the expansion end within the limits?
pub fn terminates(t: &T, steps: usize, size: usize) -> bool {
    let mut s = steps;
    expansion_cost(t, &mut s, size).is_some()
}

/// Random one-place change of a grammar: usually makes it untypable.
pub fn perturb_grammar(t: &mut T, r: &mut Rng) {
    let n = t.size();
    let at = r.below(n);
    let mut c = 0;
    walk(t, &mut |u: &mut T| {
        if c == at && !matches!(u.k, K::Lam(..)) {
            let old = u.clone();
            *u = match r.below(9) {
                0 => eps(),
                1 => literal(r, false),
                2 => var(r.below(3)),
                3 => alt(vec![old, eps()]),
                4 => alt(vec![old.clone(), literal(r, false)]),
                5 => cat(vec![old, literal(r, false)]),
                6 => cat(vec![alt(vec![eps(), literal(r, false)]), old]),
                7 => match r.below(4) {
                    0 => K::Call(Box::new(old), vec![eps()]).into(),
                    1 => K::Let(nm("l", LET), Box::new(eps()), Box::new(old)).into(),
                    2 => K::Lam(vec![nm("x", VARIABLE)], Box::new(old)).into(),
                    _ => K::Fix(Box::new(old)).into(),
                },
                _ => {
                    if let K::Cat(es, ps) = old.k {
                        let mut es = es;
                        es.reverse();
                        K::Cat(es, ps).into()
                    } else if let K::Fix(mut e) = old.k {
                        if let K::Lam(p, _) = &mut e.k {
                            p.push(nm("y", VARIABLE));
                        }
                        K::Fix(e).into()
                    } else {
                        old
                    }
                }
            };
        }
        c += 1;
    });
}

/// One literal, often next to where another may end, made to start or go on
/// like another; or two characters of the grammar made one.
pub fn collide(t: &mut T, r: &mut Rng) {
    let mut lits: Vec<String> = Vec::new();
    walk(t, &mut |u| {
        if let K::Lit(s) = &u.k {
            if !s.is_empty() {
                lits.push(s.clone());
            }
        }
    });
    if lits.len() < 2 {
        return;
    }
    let first = |s: &String| s.chars().next().unwrap();
    let a = first(r.pick(&lits));
    let at = r.below(lits.len());
    let all = r.chance(1, 3);
    let b = first(&lits[at]);
    let mut c = 0;
    walk(t, &mut |u| {
        if let K::Lit(s) = &mut u.k {
            if !s.is_empty() {
                if all {
                    *s = s.chars().map(|x| if x == b { a } else { x }).collect();
                } else if c == at {
                    s.replace_range(0..b.len_utf8(), &a.to_string());
                }
                c += 1;
            }
        }
    });
}

/// A text that differs little from another.
fn nearly(s: &str, r: &mut Rng) -> String {
    let mut x: Vec<char> = s.chars().collect();
    let turn = |c: char| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let at = r.below(x.len());
    match r.below(9) {
        0 => x.iter_mut().for_each(|c| *c = turn(*c)),
        1 | 2 => x[at] = turn(x[at]),
        3 => x[at] = *r.pick(&CHARS),
        4 => {
            let last = x.len() - 1;
            x.swap(at, last)
        }
        5 => x.push(*r.pick(&CHARS)),
        6 => {
            x.pop();
        }
        // the same byte at the end
        7 => x[at] = char::from_u32(x[at] as u32 + 0x100).unwrap_or('?'),
        _ => x[at] = char::from_u32(x[at] as u32 + 0x10000).unwrap_or('?'),
    }
    x.into_iter().collect()
}

/// Two parts of one sequence or alternation change places, with their names
/// or without.
fn swap_parts(t: &mut T, r: &mut Rng) {
    let mut lists = 0;
    walk(t, &mut |u| lists += matches!(&u.k, K::Cat(es, _) | K::Alt(es, _) if es.len() > 1) as usize);
    if lists == 0 {
        return;
    }
    let at = r.below(lists);
    let names = r.chance(1, 2);
    let mut c = 0;
    walk(t, &mut |u| match &mut u.k {
        K::Cat(es, _) | K::Alt(es, _) if es.len() > 1 => {
            if c == at {
                let i = r.below(es.len());
                let j = (i + r.range(1, es.len() - 1)) % es.len();
                es.swap(i, j);
                if names {
                    let n = es[i].n.clone();
                    es[i].n = es[j].n.clone();
                    es[j].n = n;
                }
            }
            c += 1;
        }
        _ => (),
    });
}

/// A term with its like: one literal, or one place, is a little different.
pub fn near(r: &mut Rng, t: &T) -> T {
    let mut a = t.clone();
    let names = *r.pick(&[0, 0, 2, 6]);
    decorate(&mut a, r, names);
    let mut b = a.clone();
    let mut lits = 0;
    walk(&mut a, &mut |u| lits += matches!(&u.k, K::Lit(s) if !s.is_empty()) as usize);
    if r.chance(1, 3) {
        swap_parts(&mut b, r);
    } else if lits == 0 || r.chance(1, 4) {
        perturb_grammar(&mut b, r);
    } else {
        let at = r.below(lits);
        let mut x = String::new();
        for t in [&mut a, &mut b] {
            let mut c = 0;
            walk(t, &mut |u| {
                if let K::Lit(s) = &mut u.k {
                    if !s.is_empty() {
                        if c == at {
                            if x.is_empty() {
                                let more = *r.pick(&[0, 1, 2, 3, 4, 5, 12, 40, 90]);
                                s.extend((0..more).map(|_| *r.pick(&CHARS)));
                                x = s.clone();
                            } else {
                                *s = nearly(&x, r);
                            }
                        }
                        c += 1;
                    }
                }
            });
        }
    }
    if r.chance(1, 2) {
        std::mem::swap(&mut a, &mut b);
    }
    let mut t = if r.chance(1, 2) {
        cat(vec![a, lit("@"), b])
    } else {
        alt(vec![cat(vec![lit("@"), a]), cat(vec![lit("#"), b])])
    };
    t.sp = (1, 1);
    t
}

/// A long sequence or many branches.
pub fn wide(r: &mut Rng, pool: &[T]) -> T {
    let n = if r.chance(1, 4) { r.range(15, 40) } else { r.range(8, 14) };
    let mut firsts: Vec<char> = ('!'..='~').chain(ODD.iter().copied()).collect();
    r.shuffle(&mut firsts);
    let many = r.chance(1, 2);
    let es = (0..n)
        .map(|i| {
            let c = lit(&firsts[i].to_string());
            match r.below(12) {
                0 => cat(vec![c, r.pick(pool).clone(), lit("#")]),
                1 => fix(cat(vec![c, alt(vec![lit("."), var(0)])])),
                2 if !many => alt(vec![c, eps()]),
                3 | 4 if !many => lit("k"),
                5 => alt(vec![c, lit(&firsts[i + 50].to_string())]),
                _ => c,
            }
        })
        .collect();
    if many {
        alt(es)
    } else {
        cat(es)
    }
}
