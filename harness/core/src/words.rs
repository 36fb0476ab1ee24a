//! Inputs for generated parsers: strings a grammar denotes, damaged ones, and
//! short strings over its alphabet.  Nothing here is an oracle.
use crate::gen;
use crate::rng::Rng;
use crate::term::{K, T};
use std::collections::BTreeSet;
use std::rc::Rc;

const NEVER: u32 = 1 << 20;

struct Env<'a> {
    body: &'a T,
    cost: u32,
    up: Option<Rc<Env<'a>>>,
}

fn costs(e: &Option<Rc<Env>>) -> Vec<u32> {
    let mut v = Vec::new();
    let mut e = e.clone();
    while let Some(x) = e {
        v.push(x.cost);
        e = x.up.clone();
    }
    v
}

fn body(t: &T) -> &T {
    match &t.k {
        K::Lam(_, b) => b,
        _ => t,
    }
}

/// Height of the lowest derivation; env innermost first.
fn cost(t: &T, env: &[u32]) -> u32 {
    match &t.k {
        K::Eps | K::Lit(_) => 1,
        K::Cat(es, _) => (1 + es.iter().map(|e| cost(e, env)).max().unwrap_or(0)).min(NEVER),
        K::Alt(es, _) => (1 + es.iter().map(|e| cost(e, env)).min().unwrap_or(0)).min(NEVER),
        K::Var(i) => env.get(*i).map_or(NEVER, |c| (c + 1).min(NEVER)),
        K::Fix(e) => {
            let mut c = NEVER;
            loop {
                let mut env = env.to_vec();
                env.insert(0, c);
                let d = cost(body(e), &env);
                if d >= c {
                    return c;
                }
                c = d;
            }
        }
        _ => NEVER,
    }
}

/// Does a variable occur in it?
fn again(t: &T) -> bool {
    match &t.k {
        K::Var(_) => true,
        K::Cat(es, _) | K::Alt(es, _) => es.iter().any(again),
        K::Fix(e) => again(body(e)),
        _ => false,
    }
}

/// eager: go round as long as the fuel lasts.
fn go<'a>(
    t: &'a T,
    env: &Option<Rc<Env<'a>>>,
    r: &mut Rng,
    fuel: &mut i32,
    eager: bool,
    out: &mut String,
) -> bool {
    *fuel -= 1;
    if *fuel < -400 {
        return false;
    }
    match &t.k {
        K::Eps => true,
        K::Lit(s) => {
            out.push_str(s);
            true
        }
        K::Cat(es, _) => es.iter().all(|e| go(e, env, r, fuel, eager, out)),
        K::Alt(es, _) => {
            let cs = costs(env);
            let each: Vec<u32> = es.iter().map(|e| cost(e, &cs)).collect();
            let low = *each.iter().min().unwrap();
            let ok: Vec<usize> = (0..es.len())
                .filter(|&i| if *fuel > 0 { each[i] < NEVER } else { each[i] == low })
                .collect();
            !ok.is_empty() && low < NEVER && {
                let mut i = *r.pick(&ok);
                if eager && *fuel > 0 && r.chance(15, 16) {
                    i = ok.iter().copied().find(|&i| again(&es[i])).unwrap_or(i);
                }
                go(&es[i], env, r, fuel, eager, out)
            }
        }
        K::Var(i) => {
            let mut e = env.clone();
            for _ in 0..*i {
                e = e.and_then(|x| x.up.clone());
            }
            match &e {
                Some(x) => go(x.body, &e, r, fuel, eager, out),
                None => false,
            }
        }
        K::Fix(e) => {
            let c = cost(t, &costs(env));
            let env = Some(Rc::new(Env { body: body(e), cost: c, up: env.clone() }));
            go(body(e), &env, r, fuel, eager, out)
        }
        _ => false,
    }
}

/// A string of the language, if the grammar denotes any.
pub fn sample(t: &T, r: &mut Rng, fuel: i32, eager: bool) -> Option<String> {
    if cost(t, &[]) >= NEVER {
        return None;
    }
    let mut out = String::new();
    let mut fuel = fuel;
    if go(t, &None, r, &mut fuel, eager, &mut out) {
        Some(out)
    } else {
        None
    }
}

pub fn alphabet(t: &T) -> Vec<char> {
    let mut s = BTreeSet::new();
    let mut t = t.clone();
    gen::walk(&mut t, &mut |u| {
        if let K::Lit(l) = &u.k {
            s.extend(l.chars())
        }
    });
    s.into_iter().collect()
}

fn any_char(sigma: &[char], r: &mut Rng) -> char {
    if !sigma.is_empty() && r.chance(4, 5) {
        *r.pick(sigma)
    } else if r.chance(1, 2) {
        *r.pick(&['a', 'z', '\n', '\r', 'é', '\u{85}', '\u{1F600}'])
    } else {
        *r.pick(&gen::ODD)
    }
}

/// A character that is easily taken for c: other case, neighbour, same low
/// bits, a look-alike.
fn near(c: char, r: &mut Rng) -> char {
    let u = c as u32;
    let alike = |u: u32| std::char::from_u32(u).unwrap_or('\u{fffd}');
    match r.below(8) {
        0 => c.to_uppercase().next().unwrap(),
        1 => c.to_lowercase().next().unwrap(),
        2 => alike(u ^ 0x20),
        3 => alike(u.wrapping_sub(1)),
        4 => alike(u + 1),
        5 => alike(u + 0x100),
        6 => alike(u + 0x10000),
        _ => alike(u ^ 0x80),
    }
}

fn damage(w: &str, sigma: &[char], r: &mut Rng) -> String {
    let mut v: Vec<char> = w.chars().collect();
    let at = r.below(v.len() + 1);
    match r.below(12) {
        0 => v.truncate(at),
        8 | 9 | 10 if !v.is_empty() => {
            let at = at.min(v.len() - 1);
            v[at] = near(v[at], r);
        }
        11 => v.splice(0..0, Some(*r.pick(&['\n', ' ', '\u{feff}']))).for_each(drop),
        1 | 2 if !v.is_empty() => {
            let at = at.min(v.len() - 1);
            v[at] = any_char(sigma, r);
        }
        3 if !v.is_empty() => {
            let at = at.min(v.len() - 1);
            v.remove(at);
        }
        4 => v.push(any_char(sigma, r)),
        5 if v.len() > 1 => {
            let at = at.min(v.len() - 2);
            v.swap(at, at + 1);
        }
        6 => {
            v.splice(at..at, "\r\n".chars());
        }
        _ => v.insert(at, any_char(sigma, r)),
    }
    v.into_iter().collect()
}

/// About n inputs.
pub fn inputs(t: &T, r: &mut Rng, n: usize) -> Vec<String> {
    let mut sigma = alphabet(t);
    let mut out: Vec<String> = vec![String::new()];
    let mut seen: BTreeSet<String> = out.iter().cloned().collect();
    let add = |w: String, out: &mut Vec<String>, seen: &mut BTreeSet<String>| {
        if w.chars().count() <= 40 && seen.insert(w.clone()) {
            out.push(w)
        }
    };
    for _ in 0..n {
        let fuel = *r.pick(&[0, 4, 10, 25, 60]);
        if let Some(w) = sample(t, r, fuel, false) {
            add(w.clone(), &mut out, &mut seen);
            let mut d = damage(&w, &sigma, r);
            add(d.clone(), &mut out, &mut seen);
            if r.chance(1, 4) {
                d = damage(&d, &sigma, r);
                add(d, &mut out, &mut seen);
            }
        }
        if out.len() >= n {
            break;
        }
    }
    // one word of the language with each character in turn mistaken
    let fuel = *r.pick(&[4, 10, 25]);
    if let Some(w) = sample(t, r, fuel, false) {
        let v: Vec<char> = w.chars().collect();
        for at in 0..v.len().min(6) {
            let mut v = v.clone();
            v[at] = near(v[at], r);
            add(v.into_iter().collect(), &mut out, &mut seen);
        }
    }
    // a long one, and one that goes wrong late
    if r.chance(1, 3) {
        if let Some(w) = sample(t, r, 350, true) {
            let v: Vec<char> = w.chars().collect();
            if v.len() > 60 && v.len() <= 500 {
                let cut: String = v[v.len() - 8..].iter().collect();
                let head: String = v[..v.len() - 8].iter().collect();
                out.push(head + &damage(&cut, &sigma, r));
                out.push(w);
            }
        }
    }
    r.shuffle(&mut sigma);
    sigma.truncate(3);
    for a in &sigma {
        add(a.to_string(), &mut out, &mut seen);
        for b in &sigma {
            add(format!("{}{}", a, b), &mut out, &mut seen);
        }
    }
    add("\u{1F600}".to_owned(), &mut out, &mut seen);
    for _ in 0..n / 4 {
        let k = r.below(6);
        let w: String = (0..k).map(|_| any_char(&alphabet(t), r)).collect();
        add(w, &mut out, &mut seen);
    }
    out
}

/// Every word up to length k over the alphabet (and one stranger).
pub fn all_words(t: &T, k: usize) -> Vec<String> {
    let mut sigma = alphabet(t);
    sigma.push('z');
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..k {
        let mut next = Vec::new();
        for w in &last {
            for c in &sigma {
                next.push(format!("{}{}", w, c));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
