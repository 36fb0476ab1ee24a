//! Histories of calls on the runtime library's input stream.
use crate::cmd::lines;
use crate::json::{codes, J};
use crate::pipe::guard;
use crate::rng::Rng;
use crate::Run;
use chewed::{IterWrapper, LineCol, Parser, TakeError};
use std::cell::Cell;
use std::rc::Rc;

struct Counted {
    v: std::vec::IntoIter<char>,
    n: Rc<Cell<usize>>,
}
impl Iterator for Counted {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.v.next();
        if c.is_some() {
            self.n.set(self.n.get() + 1);
        }
        c
    }
}

#[derive(Clone)]
enum Op {
    Next,
    Peek,
    Pos,
    Str(String),
    Skip(Vec<char>, usize),
    Chars(Vec<char>, usize),
    Items(Box<Op>, char, char, Vec<char>, Vec<char>),
}

fn set_j(s: &[char]) -> J {
    J::Arr(s.iter().map(|c| J::from(*c)).collect())
}
fn chars_of(j: &J) -> Vec<char> {
    j.text().chars().collect()
}
fn char_of(j: &J) -> char {
    std::char::from_u32(j.int() as u32).unwrap()
}

impl Op {
    fn to_j(&self) -> J {
        match self {
            Op::Next => obj! {op: "next"},
            Op::Peek => obj! {op: "peek"},
            Op::Pos => obj! {op: "pos"},
            Op::Str(s) => obj! {op: "str", s: codes(s)},
            Op::Skip(s, n) => obj! {op: "skip", set: set_j(s), n: *n},
            Op::Chars(s, n) => obj! {op: "chars", set: set_j(s), n: *n},
            Op::Items(i, sep, stop, follow, first) => obj! {op: "items", item: i.to_j(),
                sep: *sep, stop: *stop, follow: set_j(follow), first: set_j(first)},
        }
    }
    fn of_j(j: &J) -> Op {
        match j.get("op").str() {
            "next" => Op::Next,
            "peek" => Op::Peek,
            "pos" => Op::Pos,
            "str" => Op::Str(j.get("s").text()),
            "skip" => Op::Skip(chars_of(j.get("set")), j.get("n").us()),
            "chars" => Op::Chars(chars_of(j.get("set")), j.get("n").us()),
            "items" => Op::Items(
                Box::new(Op::of_j(j.get("item"))),
                char_of(j.get("sep")),
                char_of(j.get("stop")),
                chars_of(j.get("follow")),
                chars_of(j.get("first")),
            ),
            o => panic!("op {}", o),
        }
    }
}

fn leak_str(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}
fn leak(s: &[char]) -> &'static [char] {
    Box::leak(s.to_owned().into_boxed_slice())
}

fn error_j(e: &TakeError) -> J {
    let at = |k: &str, p: &LineCol, got: String, exp: String| {
        obj! {st: "err", e: k, line: p.line, col: p.col, got: codes(&got), exp: codes(&exp)}
    };
    match e {
        TakeError::BadBranch(p, c, set) => at("branch", p, c.to_string(), set.iter().collect()),
        TakeError::BadString(p, got, s) => at("string", p, got.clone(), (*s).to_owned()),
        TakeError::EndOfStream(p) => at("eof", p, String::new(), String::new()),
    }
}

fn result_j(r: Result<String, TakeError>) -> J {
    match r {
        Ok(x) => obj! {st: "ok", x: codes(&x)},
        Err(e) => error_j(&e),
    }
}

fn basic<P: Parser + ?Sized>(p: &mut P, op: &Op) -> Result<String, TakeError> {
    match op {
        Op::Str(s) => p.consume_str(leak_str(s)).map(|()| String::new()),
        Op::Chars(s, n) => {
            let mut buf = vec!['\0'; *n];
            p.take_chars_from(leak(s), &mut buf).map(|()| buf.into_iter().collect())
        }
        _ => panic!("no item"),
    }
}

fn opt_j(c: Option<char>) -> J {
    J::Arr(c.into_iter().map(J::from).collect())
}

fn apply<P: Parser + ?Sized>(p: &mut P, op: &Op) -> J {
    match op {
        Op::Next => opt_j(p.next()),
        Op::Peek => opt_j(p.peek()),
        Op::Pos => {
            p.pos();
            J::Arr(Vec::new())
        }
        Op::Skip(s, n) => {
            let mut asked = String::new();
            let mut left = *n;
            p.skip_while(|c| {
                asked.push(c);
                let yes = left > 0 && s.contains(&c);
                left = left.saturating_sub(1);
                yes
            });
            obj! {st: "ok", x: codes(&asked)}
        }
        Op::Items(item, sep, stop, follow, first) => {
            let mut out = Vec::new();
            let mut items = p.iter_strict(|p| basic(p, item), *sep, *stop, leak(follow), leak(first));
            // Once more after the last one: there are no others.
            let mut ended = 0;
            while ended < 2 {
                match items.next() {
                    None => ended += 1,
                    Some(r) => {
                        let bad = r.is_err();
                        out.push(result_j(r));
                        if bad {
                            break;
                        }
                    }
                }
            }
            J::Arr(out)
        }
        op => result_j(basic(p, op)),
    }
}

fn follow<P: Parser + ?Sized>(p: &mut P, ops: &[Op], n: &Cell<usize>) -> Vec<J> {
    let mut out = Vec::new();
    for op in ops {
        match guard(|| {
            let r = apply(p, op);
            let at = p.pos();
            obj! {st: "ran", r: r, line: at.line, col: at.col, pulled: n.get()}
        }) {
            Ok(j) => out.push(j),
            Err(_) => {
                out.push(obj! {st: "panic"});
                break;
            }
        }
    }
    out
}

fn history(run: &mut Run, w: &str, ops: &[Op], unsized_: bool) {
    let oj = J::Arr(ops.iter().map(Op::to_j).collect());
    let mut line = obj! {w: codes(w), ops: oj};
    run.begin(&line);
    let n = Rc::new(Cell::new(0));
    let v: Vec<char> = w.chars().collect();
    let mut p = IterWrapper::new(Counted { v: v.into_iter(), n: n.clone() });
    let obs = if unsized_ {
        let d: &mut IterWrapper<dyn Iterator<Item = char>> = &mut p;
        follow(d, ops, &n)
    } else {
        follow(&mut p, ops, &n)
    };
    line.set("obs", J::Arr(obs));
    run.emit(&line);
}

const SIGMA: [char; 12] = ['a', 'b', ',', ']', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', 'é'];

fn any(r: &mut Rng) -> char {
    if r.chance(1, 10) {
        *r.pick(&['\u{1F600}', '\0', 'λ', '\u{301}', ' ', '\u{10ffff}'])
    } else {
        *r.pick(&SIGMA)
    }
}
fn set(r: &mut Rng) -> Vec<char> {
    let n = if r.chance(1, 15) { r.range(10, 120) } else { r.below(5) };
    let mut v: Vec<char> = (0..n).map(|i| if i < 5 { any(r) } else { char::from_u32(r.range(0x2b, 0x180) as u32).unwrap_or('x') }).collect();
    v.sort_unstable();
    v.dedup();
    r.shuffle(&mut v);
    v
}

/// A call, and text that suits it (most of the time).
fn call(r: &mut Rng, w: &mut String) -> Op {
    let piece = |r: &mut Rng, w: &mut String, s: &str| {
        if r.chance(3, 4) {
            w.push_str(s)
        } else {
            let k = r.below(s.chars().count() + 1);
            w.extend(s.chars().take(k));
            if r.chance(1, 2) {
                w.push(any(r))
            }
        }
    };
    match r.below(12) {
        0 | 1 => {
            if r.chance(3, 4) {
                w.push(any(r))
            }
            Op::Next
        }
        2 => Op::Peek,
        3 => Op::Pos,
        4 | 5 => {
            let n = r.below(5);
            let s: String = (0..n).map(|_| any(r)).collect();
            piece(r, w, &s);
            Op::Str(s)
        }
        6 => {
            let s = set(r);
            for _ in 0..r.below(5) {
                if !s.is_empty() {
                    w.push(*r.pick(&s))
                }
            }
            let n = if r.chance(1, 4) { r.below(4) } else { 1000 };
            Op::Skip(s, n)
        }
        7 | 8 => {
            let s = set(r);
            let n = r.below(4);
            for _ in 0..n {
                if !s.is_empty() && r.chance(9, 10) {
                    w.push(*r.pick(&s))
                }
            }
            Op::Chars(s, n)
        }
        _ => {
            let (sep, stop) = (*r.pick(&[',', '\n', 'é', ';']), *r.pick(&[']', '}', '\u{2028}']));
            let mut first: Vec<char> = set(r).into_iter().filter(|c| *c != sep && *c != stop).collect();
            first.push('x');
            let item = if r.chance(1, 2) {
                Op::Chars(first.clone(), r.range(1, 2))
            } else {
                let mut s = first[0].to_string();
                if r.chance(1, 2) {
                    s.push(any(r))
                }
                first = vec![first[0]];
                Op::Str(s)
            };
            let n = r.below(5);
            if r.chance(1, 15) {
                w.push(sep)
            }
            for i in 0..n {
                if i > 0 && r.chance(14, 15) {
                    w.push(sep)
                }
                let s = match &item {
                    Op::Chars(s, n) => (0..*n).map(|_| *r.pick(s)).collect::<String>(),
                    Op::Str(s) => s.clone(),
                    _ => String::new(),
                };
                if r.chance(14, 15) {
                    w.push_str(&s)
                } else {
                    piece(r, w, &s)
                }
            }
            if r.chance(1, 10) {
                w.push(sep)
            }
            if r.chance(9, 10) {
                w.push(stop)
            }
            Op::Items(Box::new(item), sep, stop, vec![sep, stop], first)
        }
    }
}

/// A call that reads a lot.
fn long_call(r: &mut Rng, w: &mut String) -> Vec<Op> {
    let n = r.range(40, 400);
    let mut s = set(r);
    s.push('x');
    let text: String = (0..n).map(|_| if r.chance(1, 9) { *r.pick(&s) } else { 'x' }).collect();
    let mut read = text.clone();
    if r.chance(1, 4) {
        let at = r.below(n);
        read = read.chars().enumerate().map(|(i, c)| if i == at { any(r) } else { c }).collect();
    }
    w.push_str(&read);
    match r.below(5) {
        0 => vec![Op::Str(text)],
        1 => vec![Op::Skip(s, n)],
        2 => vec![Op::Chars(s, n)],
        3 => vec![Op::Next; n],
        _ => {
            for i in 0..n / 3 {
                if i > 0 {
                    w.push(',')
                }
                w.push_str("yé");
            }
            w.push(']');
            let item = Op::Str("yé".to_owned());
            vec![Op::Skip(s, n), Op::Items(Box::new(item), ',', ']', vec![',', ']'], vec!['y'])]
        }
    }
}

fn some_runs(r: &mut Rng) -> Vec<(char, usize)> {
    let mut runs: Vec<(char, usize)> = Vec::new();
    for _ in 0..r.range(1, 8) {
        let c = any(r);
        let n = match r.below(8) {
            0 | 1 => 1,
            2 => r.range(2, 9),
            3 => r.range(10, 300),
            4 => r.range(4000, 5000),
            5 => r.range(32000, 33000),
            6 => r.range(65000, 67000),
            _ => r.range(100_000, 140_000),
        };
        if runs.last().map_or(true, |l| l.0 != c) {
            runs.push((c, n));
        }
    }
    runs
}

fn runs_j(runs: &[(char, usize)]) -> J {
    J::Arr(runs.iter().map(|(c, n)| obj! {c: *c, n: *n}).collect())
}

/// Passes over everything it may.
struct Over;
impl std::fmt::Display for Over {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
thread_local! {
    static FAR: Cell<usize> = Cell::new(0);
}
impl chewed::Parse for Over {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        let mut left = FAR.with(|f| f.get());
        input.skip_while(|_| {
            left = left.wrapping_sub(1);
            left != usize::MAX
        });
        Ok(Over)
    }
}

/// Failures far along in the input, with many characters that could have
/// come, and how they are told.
pub fn faults(run: &mut Run) {
    let mut r = run.rng(32);
    for _ in 0..run.num("n", 100) {
        let mut runs = some_runs(&mut r);
        if r.chance(1, 2) {
            // not so far
            runs.iter_mut().for_each(|x| x.1 = x.1.min(r.range(1, 200)));
        }
        let far: usize = runs.iter().map(|x| x.1).sum();
        let kind = r.below(4);
        let mut bad = any(&mut r);
        while bad == runs[runs.len() - 1].0 {
            bad = any(&mut r);
        }
        // the part of a literal that matches
        let mut part: Vec<char> = Vec::new();
        if kind == 1 && r.chance(2, 3) {
            let most = if r.chance(1, 4) { 200 } else { 6 };
            for _ in 0..r.range(1, most) {
                let c = any(&mut r);
                if c != runs[runs.len() - 1].0 && c != bad {
                    runs.push((c, 1));
                    part.push(c);
                }
            }
        }
        if kind != 3 {
            runs.push((bad, 1));
        }
        let mut set: Vec<char> = Vec::new();
        let most = if r.chance(1, 3) { 150 } else { 12 };
        for _ in 0..r.range(1, most) {
            let c = if r.chance(1, 3) { any(&mut r) } else { (32 + r.below(200) as u8) as char };
            if c != bad && !set.contains(&c) {
                set.push(c);
            }
        }
        if set.is_empty() {
            set.push(if bad == 'k' { 'j' } else { 'k' });
        }
        let mut line = obj! {runs: runs_j(&runs), kind: ["branch", "string", "more", "eof"][kind],
            set: set_j(&set), part: set_j(&part), bad: J::Arr(if kind == 3 { vec![] } else { vec![J::from(bad)] })};
        run.begin(&line);
        let v: Vec<char> = runs.iter().flat_map(|(c, n)| std::iter::repeat(*c).take(*n)).collect();
        let told = guard(|| {
            FAR.with(|f| f.set(far));
            let mut p = IterWrapper::new(v.into_iter());
            if kind == 2 {
                return <Over as chewed::Parse>::parse(p).err();
            }
            let _ = <Over as chewed::Parse>::take(&mut p);
            let set = leak(&set);
            let e = match kind {
                0 => p.take_chars_from(set, &mut ['\0'; 1]),
                _ => p.consume_str(leak_str(&part.iter().chain(set.iter()).collect::<String>())),
            };
            e.err().map(chewed::ParseError::TakeError)
        });
        let told = match told {
            Err(m) => crate::pipe::panic_j(m),
            Ok(None) => obj! {st: "ok"},
            Ok(Some(e)) => {
                let quoted = |e: &[String]| J::Arr(e.iter().map(|s| codes(s)).collect());
                let (mut j, pos, q) = match &e {
                    chewed::ParseError::InputContinues(p) => (obj! {st: "err", e: "more"}, *p, vec![]),
                    chewed::ParseError::TakeError(t) => (
                        error_j(t),
                        match t {
                            TakeError::BadBranch(p, ..) | TakeError::BadString(p, ..) | TakeError::EndOfStream(p) => *p,
                        },
                        match t {
                            TakeError::BadBranch(_, c, s) => {
                                Some(c).into_iter().chain(s.iter()).map(|c| format!("{:?}", c)).collect()
                            }
                            TakeError::BadString(_, g, s) => vec![format!("{:?}", g), format!("{:?}", s)],
                            TakeError::EndOfStream(_) => vec![],
                        },
                    ),
                };
                j.set("line", J::from(pos.line));
                j.set("col", J::from(pos.col));
                j.set("at", codes(&pos.to_string()));
                j.set("msg", codes(&e.to_string()));
                j.set("q", quoted(&q));
                j
            }
        };
        line.set("told", told);
        run.emit(&line);
    }
}

/// Inputs of a great many characters.
pub fn runs(run: &mut Run) {
    let mut r = run.rng(31);
    for i in 0..run.num("n", 20) {
        let runs = some_runs(&mut r);
        let mut line = obj! {runs: runs_j(&runs)};
        run.begin(&line);
        let n = Rc::new(Cell::new(0));
        let v: Vec<char> = runs.iter().flat_map(|(c, n)| std::iter::repeat(*c).take(*n)).collect();
        let mut p = IterWrapper::new(Counted { v: v.into_iter(), n: n.clone() });
        let mut obs = Vec::new();
        for (k, (c, m)) in runs.iter().enumerate() {
            let read = guard(|| match (i + k) % 4 {
                0 => p.skip_while(|x| x == *c),
                1 if *m < 70_000 => drop(p.consume_str(leak_str(&c.to_string().repeat(*m)))),
                2 => drop(p.take_chars_from(leak(&[*c]), &mut vec!['\0'; *m])),
                _ => (0..*m).for_each(|_| drop(p.next())),
            });
            if read.is_err() {
                break;
            }
            let at = p.pos();
            obs.push(obj! {line: at.line, col: at.col, pulled: n.get()});
        }
        line.set("obs", J::Arr(obs));
        run.emit(&line);
    }
}

/// kind=plain: next, peek and position only; kind=all: every call.
pub fn runtime(run: &mut Run) {
    if !run.str("in").is_empty() {
        for (i, c) in lines(run.str("in")).iter().enumerate() {
            let ops: Vec<Op> = c.get("ops").arr().iter().map(Op::of_j).collect();
            history(run, &c.get("w").text(), &ops, i % 5 == 0);
        }
        return;
    }
    let plain = run.str("kind") == "plain";
    let mut r = run.rng(if plain { 9 } else { 13 });
    for i in 0..run.num("n", 100) {
        let mut w = String::new();
        let mut ops = Vec::new();
        if plain {
            let k = r.below(30);
            w = (0..k).map(|_| any(&mut r)).collect();
            if r.chance(1, 2) {
                w = w.replace('\r', "\r\n");
            }
            let lazy = r.range(1, 6);
            for _ in 0..r.range(1, 50) {
                ops.push(if r.chance(lazy, 8) { Op::Next } else if r.chance(2, 3) { Op::Peek } else { Op::Pos });
            }
        } else {
            if i == 11 || i == 12 {
                // lines and columns that a byte does not hold
                let c = if i == 11 { 'x' } else { '\n' };
                w.extend((0..r.range(256, 400)).map(|_| c));
                ops.push(Op::Skip(vec![c], 1000));
            }
            let long = i % 200 == 7;
            for _ in 0..r.range(1, 8) {
                if long && r.chance(1, 2) {
                    ops.extend(long_call(&mut r, &mut w));
                }
                let op = call(&mut r, &mut w);
                ops.push(op);
            }
            for _ in 0..r.below(6) {
                w.push(any(&mut r))
            }
            // what is left
            for _ in 0..r.range(2, 8) {
                ops.push(Op::Next);
            }
        }
        history(run, &w, &ops, i % 5 == 0);
    }
}
