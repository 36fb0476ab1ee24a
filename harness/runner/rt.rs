//! Runs generated parsers on request and says what they did.
//! Requests, one per line: ID TAB MODE TAB CODE POINTS; one JSON line each.
use chewed::{IterWrapper, Parse, ParseError, Parser, TakeError};
use std::fmt::{Debug, Write as _};
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn codes(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}

fn fail(kind: &str, pos: chewed::LineCol, got: &str, exp: &str, quoted: &[String], msg: &str) -> String {
    let q: Vec<String> = quoted.iter().map(|s| codes(s)).collect();
    let at = codes(&format!("{}", pos));
    format!(
        r#"{{"st":"err","e":"{}","line":{},"col":{},"at":{},"got":{},"exp":{},"q":[{}],"msg":{}}}"#,
        kind, pos.line, pos.col, at, codes(got), codes(exp), q.join(","), codes(msg)
    )
}

fn take_error(e: &TakeError, msg: String) -> String {
    match e {
        TakeError::BadBranch(p, c, set) => {
            let mut q = vec![format!("{:?}", c)];
            q.extend(set.iter().map(|c| format!("{:?}", c)));
            let exp: String = set.iter().collect();
            fail("branch", *p, &c.to_string(), &exp, &q, &msg)
        }
        TakeError::BadString(p, got, s) => {
            fail("string", *p, got, s, &[format!("{:?}", got), format!("{:?}", s)], &msg)
        }
        TakeError::EndOfStream(p) => fail("eof", *p, "", "", &[], &msg),
    }
}

fn parse_error(e: &ParseError) -> String {
    let msg = e.to_string();
    match e {
        ParseError::TakeError(t) => take_error(t, msg),
        ParseError::InputContinues(p) => fail("more", *p, "", "", &[], &msg),
    }
}

fn done<T: Debug + std::fmt::Display>(x: T, left: usize, to_char: Option<fn(T) -> char>) -> String {
    let mut s = String::new();
    write!(s, r#"{{"st":"ok","left":{},"show":{},"dbg":{}"#, left, codes(&x.to_string()), codes(&format!("{:?}", x))).unwrap();
    if let Some(f) = to_char {
        write!(s, r#","ch":{}"#, f(x) as u32).unwrap();
    }
    s.push('}');
    s
}

/// Reads each character of s as a T and back.
pub fn piece<T: Parse + Debug + std::fmt::Display>(s: &str, to_char: fn(T) -> char, out: &mut Vec<String>) {
    for c in s.chars() {
        let c = c.to_string();
        if let Ok(x) = T::parse_str(&c) {
            let show = x.to_string();
            out.push(format!(r#"{{"w":{},"show":{},"ch":{}}}"#, codes(&c), codes(&show), to_char(x) as u32));
        }
    }
}

fn rest<P: Parser + ?Sized>(p: &mut P) -> usize {
    let mut n = 0;
    while p.next().is_some() {
        n += 1
    }
    n
}

pub fn run<T: Parse + Debug>(mode: &str, s: &str, to_char: Option<fn(T) -> char>) -> String {
    let whole = |r: Result<T, ParseError>| match r {
        Ok(x) => done(x, 0, to_char),
        Err(e) => parse_error(&e),
    };
    let part = |r: Result<T, TakeError>, left: usize| match r {
        Ok(x) => done(x, left, to_char),
        Err(e) => take_error(&e, e.to_string()),
    };
    match mode {
        // whole input
        "str" => whole(T::parse_str(s)),
        "boxstr" => whole(Box::<T>::parse_str(s).map(|b| *b)),
        "iter" => whole(IterWrapper::new(s.chars()).parse::<T>()),
        "boxiter" => whole(IterWrapper::new(s.chars()).parse::<Box<T>>().map(|b| *b)),
        // a prefix
        "take" => {
            let mut w = IterWrapper::new(s.chars());
            let r = T::take(&mut w);
            let left = rest(&mut w);
            part(r, left)
        }
        "takebox" => {
            let mut w = IterWrapper::new(s.chars());
            let r = w.take::<Box<T>>().map(|b| *b);
            let left = rest(&mut w);
            part(r, left)
        }
        "takedyn" => {
            let chars: Vec<char> = s.chars().collect();
            let mut w = IterWrapper::new(chars.into_iter());
            let d: &mut IterWrapper<dyn Iterator<Item = char>> = &mut w;
            let r = T::take(d);
            let left = rest(d);
            part(r, left)
        }
        "takestr" => part(T::take_str(s), 0),
        m => panic!("mode {}", m),
    }
}

pub fn serve(table: fn(usize, &str, &str) -> String) {
    std::panic::set_hook(Box::new(|_| ()));
    let work = move || {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let mut f = line.split('\t');
            let id: usize = f.next().unwrap().parse().unwrap();
            let mode = f.next().unwrap();
            let text: String = f
                .next()
                .unwrap()
                .split(' ')
                .filter(|c| !c.is_empty())
                .map(|c| std::char::from_u32(c.parse().unwrap()).unwrap())
                .collect();
            let r = catch_unwind(AssertUnwindSafe(|| table(id, mode, &text)))
                .unwrap_or_else(|_| r#"{"st":"panic"}"#.to_owned());
            writeln!(out, "{}", r).unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(1 << 28).spawn(work).unwrap().join().unwrap();
}
