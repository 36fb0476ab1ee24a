//! JSON.
use crate::guard;
use crate::json::{codes, J};
use crate::rng::Rng;
use crate::Run;
use chewed::Parse;
use chomp_bench::json::{lalr, nibble, Value};
use std::collections::HashMap;

/// A number as sign, digits without zeros at either end, and exponent:
/// 0.d1d2d3.. * 10^e.
fn number(n: f64) -> J {
    if !n.is_finite() {
        return obj! {k: "odd"};
    }
    let t = format!("{:e}", n.abs());
    let (m, e) = t.split_once('e').unwrap();
    let mut ds: Vec<i64> = m.bytes().filter(|b| *b != b'.').map(|b| (b - b'0') as i64).collect();
    while ds.last() == Some(&0) {
        ds.pop();
    }
    let e: i64 = if ds.is_empty() { 0 } else { e.parse::<i64>().unwrap() + 1 };
    obj! {k: "num", neg: n.is_sign_negative(), ds: ds.into_iter().map(J::Int).collect::<Vec<_>>(), e: J::Int(e)}
}

fn tree(v: &Value) -> J {
    match v {
        Value::Null => obj! {k: "null"},
        Value::Bool(b) => obj! {k: "bool", b: *b},
        Value::Number(n) => number(*n),
        Value::String(s) => obj! {k: "str", c: codes(s)},
        Value::Array(a) => obj! {k: "arr", es: a.iter().map(tree).collect::<Vec<_>>()},
        Value::Object(o) => {
            let mut ms: Vec<(&String, &Value)> = o.iter().collect();
            ms.sort_by(|a, b| a.0.cmp(b.0));
            let ms: Vec<J> = ms.into_iter().map(|(k, v)| obj! {c: codes(k), v: tree(v)}).collect();
            obj! {k: "obj", ms: ms}
        }
    }
}

fn outcome(r: Option<Result<Value, ()>>) -> J {
    match r {
        None => obj! {st: "panic"},
        Some(Err(())) => obj! {st: "err"},
        Some(Ok(v)) => obj! {st: "ok", v: tree(&v)},
    }
}

fn hand(w: &str) -> J {
    outcome(guard(|| Value::parse_str(w).map_err(|_| ())))
}

pub fn json(run: &mut Run) {
    let mut r = run.rng(15);
    let n = run.num("n", 1000);
    let texts = run.given().unwrap_or_else(|| (0..n).map(|_| document(&mut r)).collect());
    let table = lalr::ValueParser::new();
    for w in texts {
        run.begin(&obj! {ev: "json", w: codes(&w)});
        let nib = outcome(guard(|| nibble::Ast::parse_str(&w).map(Value::from).map_err(|_| ())));
        let hand = hand(&w);
        let lalr = outcome(guard(|| table.parse(&w).map_err(|_| ())));
        run.emit(&obj! {ev: "json", w: codes(&w), nibble: nib, hand: hand, lalr: lalr});
    }
}

pub fn print(run: &mut Run) {
    let mut r = run.rng(151);
    let table = lalr::ValueParser::new();
    for _ in 0..run.num("n", 1000) {
        let fuel = if r.chance(1, 60) { r.range(60, 200) } else { r.range(1, 14) };
        let v = value(&mut r, fuel);
        let t = tree(&v);
        run.begin(&obj! {ev: "print", v: t.clone()});
        let mut line = obj! {ev: "print", v: t};
        match guard(|| v.to_string()) {
            None => line.set("text", obj! {st: "panic"}),
            Some(s) => {
                line.set("text", obj! {st: "ok", w: codes(&s)});
                line.set("hand", hand(&s));
                if s.chars().all(|c| c == '\n' || c == '\t' || c == '\r' || (' '..='~').contains(&c)) {
                    line.set("nibble", outcome(guard(|| nibble::Ast::parse_str(&s).map(Value::from).map_err(|_| ()))));
                    line.set("lalr", outcome(guard(|| table.parse(&s).map_err(|_| ()))));
                }
            }
        }
        run.emit(&line);
    }
}

// ---------------------------------------------------------------------------
// Random values and documents.

fn string(r: &mut Rng) -> String {
    let n = if r.chance(1, 250) { r.range(30, 300) } else { *r.pick(&[0, 1, 1, 2, 3, 5]) };
    (0..n)
        .map(|_| match r.below(8) {
            0 => *r.pick(&['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t']),
            1 => char::from(r.below(32) as u8),
            2 => *r.pick(&['é', 'ÿ', '\u{7f}', '\u{80}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{2028}']),
            3 => char::from_u32(r.below(0xd800) as u32).unwrap(),
            4 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
            _ => char::from(r.range(32, 126) as u8),
        })
        .collect()
}

fn float(r: &mut Rng) -> f64 {
    match r.below(5) {
        0 => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e-7, 123456789012345.0, f64::MAX, f64::MIN_POSITIVE, 1e300]),
        1 => r.below(100) as f64,
        _ => loop {
            let x = f64::from_bits(r.u64());
            if x.is_finite() {
                return x;
            }
        },
    }
}

fn value(r: &mut Rng, fuel: usize) -> Value {
    if fuel > 1 && r.chance(3, 4) {
        let most = if r.chance(1, 12) { fuel } else { fuel.min(5) };
        let k = r.below(most);
        if r.chance(1, 2) {
            Value::Array((0..k).map(|_| value(r, fuel / k)).collect())
        } else {
            let mut m = HashMap::new();
            for _ in 0..k {
                m.insert(string(r), value(r, fuel / k));
            }
            Value::Object(m)
        }
    } else {
        match r.below(6) {
            0 => Value::Null,
            1 => Value::Bool(r.chance(1, 2)),
            2 | 3 => Value::Number(float(r)),
            _ => Value::String(string(r)),
        }
    }
}

struct Doc<'a> {
    r: &'a mut Rng,
    style: usize,
    wide: bool,
    out: String,
}

impl Doc<'_> {
    fn gap(&mut self) {
        let n = match self.style {
            0 => 0,
            1 => self.r.below(2),
            _ if self.r.chance(1, 800) => self.r.range(20, 200),
            _ => self.r.below(4),
        };
        for _ in 0..n {
            let c = *self.r.pick(&[' ', ' ', '\t', '\n', '\r']);
            self.out.push(c);
        }
    }
    fn digits(&mut self, n: usize) {
        for _ in 0..n {
            let d = self.r.below(10) as u8;
            self.out.push(char::from(b'0' + d));
        }
    }
    fn number(&mut self) {
        if self.r.chance(1, 3) {
            self.out.push('-');
        }
        if self.r.chance(1, 4) {
            self.out.push('0');
        } else {
            let d = self.r.range(1, 9) as u8;
            self.out.push(char::from(b'0' + d));
            let n = *self.r.pick(&[0, 0, 1, 2, 6]);
            self.digits(n);
        }
        if self.r.chance(1, 3) {
            self.out.push('.');
            let n = self.r.range(1, 6);
            self.digits(n);
        }
        if self.r.chance(1, 3) {
            let e = *self.r.pick(&["e", "E", "e+", "E+", "e-", "E-"]);
            self.out.push_str(e);
            let n = self.r.range(1, 2);
            self.digits(n);
        }
    }
    fn hex(&mut self, u: u16) {
        for c in format!("{:04x}", u).chars() {
            let c = if self.r.chance(1, 2) { c.to_ascii_uppercase() } else { c };
            self.out.push(c);
        }
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '/' => "\\/",
                '\u{8}' => "\\b",
                '\u{c}' => "\\f",
                '\n' => "\\n",
                '\r' => "\\r",
                '\t' => "\\t",
                _ => "",
            };
            let must = !(' '..='~').contains(&c) || c == '"' || c == '\\';
            let raw = self.wide && c > '~' && self.r.chance(1, 2);
            if raw || (!must && self.r.chance(6, 7)) {
                self.out.push(c);
            } else if !short.is_empty() && self.r.chance(2, 3) {
                self.out.push_str(short);
            } else {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    self.out.push_str("\\u");
                    let u = *u;
                    self.hex(u);
                }
            }
            if self.r.chance(1, 250) {
                // Half a pair, astray.
                self.out.push_str("\\u");
                let u = 0xd800 + self.r.below(0x800) as u16;
                self.hex(u);
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, fuel: usize) {
        if fuel > 1 && self.r.chance(4, 5) {
            let most = if self.r.chance(1, 12) { fuel } else { fuel.min(5) };
            let k = self.r.below(most);
            let object = self.r.chance(1, 2);
            self.out.push(if object { '{' } else { '[' });
            self.gap();
            let mut keys: Vec<String> = Vec::new();
            for i in 0..k {
                if i > 0 {
                    self.out.push(',');
                    self.gap();
                }
                if object {
                    let key = if !keys.is_empty() && self.r.chance(1, 4) {
                        self.r.pick(&keys).clone()
                    } else {
                        string(self.r)
                    };
                    self.string(&key);
                    keys.push(key);
                    self.gap();
                    self.out.push(':');
                    self.gap();
                }
                self.value(fuel / k);
                self.gap();
            }
            self.out.push(if object { '}' } else { ']' });
        } else {
            match self.r.below(7) {
                0 => self.out.push_str("null"),
                1 => self.out.push_str("true"),
                2 => self.out.push_str("false"),
                3 | 4 => self.number(),
                _ => {
                    let s = string(self.r);
                    self.string(&s)
                }
            }
        }
    }
}

fn document(r: &mut Rng) -> String {
    let style = r.below(3);
    let fuel = if r.chance(1, 150) { 250 } else if r.chance(1, 20) { 60 } else { r.range(1, 16) };
    let deep = if r.chance(1, 200) { r.range(10, 80) } else { 0 };
    let wide = r.chance(1, 6);
    let open: Vec<bool> = (0..deep).map(|_| r.chance(1, 2)).collect();
    let mut d = Doc { r, style, wide, out: String::new() };
    d.gap();
    for o in &open {
        d.out.push_str(if *o { "{\"k\":" } else { "[" });
        d.gap();
    }
    d.value(fuel);
    d.gap();
    for o in open.iter().rev() {
        d.out.push(if *o { '}' } else { ']' });
        d.gap();
    }
    let mut w: Vec<char> = d.out.chars().collect();
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(w.len() + 1);
            let c = *r.pick(&['"', '\\', ',', ':', '[', ']', '{', '}', '0', '1', '.', '-', '+', 'e', 'u', 'n', ' ', 'A', 'd', '_', 'x']);
            match r.below(3) {
                0 => w.insert(i, c),
                1 if i < w.len() => w[i] = c,
                _ if i < w.len() => drop(w.remove(i)),
                _ => (),
            }
        }
    }
    w.into_iter().collect()
}
