//! Arithmetic.
use crate::guard;
use crate::json::{codes, J};
use crate::rng::Rng;
use crate::Run;
use chewed::{IterWrapper, Parse};
use chomp_bench::arith::{lalr, nibble, parse_expr};

fn value(r: Option<Result<i64, ()>>) -> J {
    match r {
        None => obj! {st: "panic"},
        Some(Err(())) => obj! {st: "err"},
        Some(Ok(v)) => {
            let ds: Vec<J> = v.unsigned_abs().to_string().bytes().map(|b| J::Int((b - b'0') as i64)).collect();
            let ds = if v == 0 { vec![] } else { ds };
            obj! {st: "ok", neg: v < 0, ds: ds}
        }
    }
}

pub fn arith(run: &mut Run) {
    let mut r = run.rng(14);
    let n = run.num("n", 1000);
    let texts = run.given().unwrap_or_else(|| (0..n).map(|_| text(&mut r)).collect());
    let table = lalr::ExpressionParser::new();
    for w in texts {
        run.begin(&obj! {ev: "arith", w: codes(&w)});
        let nib = value(guard(|| nibble::Ast::parse_str(&w).map(i64::from).map_err(|_| ())));
        let hand = value(guard(|| parse_expr(&mut IterWrapper::new(w.chars())).map_err(|_| ())));
        let lalr = value(guard(|| table.parse(&w).map_err(|_| ())));
        run.emit(&obj! {ev: "arith", w: codes(&w), nibble: nib, hand: hand, lalr: lalr});
    }
}

fn number(r: &mut Rng) -> String {
    let n = match r.below(10) {
        0 => r.range(1, 18),
        1 | 2 => r.range(3, 7),
        _ => r.range(1, 2),
    };
    let lead = r.chance(1, 10);
    (0..n)
        .map(|i| char::from(b'0' + if i == 0 && !lead && n > 1 { r.range(1, 9) } else { r.below(10) } as u8))
        .collect()
}

fn gap(r: &mut Rng, style: usize) -> String {
    let n = match style {
        0 => 0,
        1 => 1,
        _ if r.chance(1, 400) => r.range(20, 300),
        _ => *r.pick(&[0, 0, 1, 2, 3]),
    };
    " ".repeat(n)
}

fn tokens(r: &mut Rng, fuel: usize, out: &mut Vec<String>) {
    if fuel <= 1 {
        if r.chance(1, 5) {
            out.push("-".to_owned());
        }
        out.push(number(r));
        return;
    }
    if r.chance(1, 5) {
        out.push("(".to_owned());
        tokens(r, fuel - 1, out);
        out.push(")".to_owned());
        return;
    }
    let k = r.range(2, 4.min(fuel));
    for i in 0..k {
        if i > 0 {
            out.push((*r.pick(&["+", "-", "*", "/"])).to_owned());
        }
        if r.chance(1, 3) {
            out.push("(".to_owned());
            tokens(r, fuel / k, out);
            out.push(")".to_owned());
        } else {
            tokens(r, fuel / k, out);
        }
    }
}

fn text(r: &mut Rng) -> String {
    let mut v = Vec::new();
    let fuel = if r.chance(1, 200) { r.range(60, 300) } else { r.range(1, 16) };
    let deep = if r.chance(1, 300) { r.range(10, 80) } else { 0 };
    v.extend((0..deep).map(|_| "(".to_owned()));
    tokens(r, fuel, &mut v);
    v.extend((0..deep).map(|_| ")".to_owned()));
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(v.len() + 1);
            let x = (*r.pick(&["+", "-", "*", "/", "(", ")", "1", "07"])).to_owned();
            match r.below(3) {
                0 => v.insert(i, x),
                1 if i < v.len() => v[i] = x,
                _ => {
                    if i < v.len() {
                        v.remove(i);
                    }
                }
            }
        }
    }
    let style = r.below(4);
    let mut s = gap(r, style);
    for x in v {
        s.push_str(&x);
        s.push_str(&gap(r, style));
    }
    s
}
