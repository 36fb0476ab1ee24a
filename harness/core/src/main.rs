//! Drives the real code and records what it does, one JSON line per case.
//!
//!   vh COMMAND key=value ...
//!
//! Common keys: out (trace file), seed, n (number of cases).  The input of the
//! case in progress is kept in OUT.begin, so that a crash can be attributed.
mod gen;
#[macro_use]
mod json;
mod api;
mod cmd;
mod pipe;
mod rng;
mod rt;
mod surf;
mod term;
mod words;

use json::J;
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicU64, Ordering};

/// Cases begun so far.
static BEGUN: AtomicU64 = AtomicU64::new(0);

/// End the process when one case takes longer than this many seconds.
const PATIENCE: u64 = 45;

fn watch() {
    let (mut last, mut idle) = (0, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = BEGUN.load(Ordering::Relaxed);
        idle = if now == last && now > 0 { idle + 1 } else { 0 };
        last = now;
        if idle >= PATIENCE {
            eprintln!("hang");
            std::process::exit(5);
        }
    }
}

pub struct Run {
    args: HashMap<String, String>,
    out: BufWriter<File>,
    begin: String,
    pub lines: usize,
}

impl Run {
    pub fn str(&self, k: &str) -> &str {
        self.args.get(k).map(String::as_str).unwrap_or("")
    }
    pub fn num(&self, k: &str, default: usize) -> usize {
        self.args.get(k).map(|v| v.parse().expect("number")).unwrap_or(default)
    }
    pub fn rng(&self, salt: u64) -> rng::Rng {
        rng::Rng::new(self.num("seed", 1) as u64 * 1_000_003 + salt)
    }
    /// Announce the case about to be run.
    pub fn begin(&mut self, case: &J) {
        std::fs::write(&self.begin, case.to_string()).unwrap();
        BEGUN.fetch_add(1, Ordering::Relaxed);
    }
    pub fn emit(&mut self, line: &J) {
        writeln!(self.out, "{}", line).unwrap();
        self.lines += 1;
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().expect("command");
    let args: HashMap<String, String> = args
        .map(|a| {
            let (k, v) = a.split_once('=').expect("key=value");
            (k.to_owned(), v.to_owned())
        })
        .collect();
    let out = args.get("out").expect("out=").clone();
    let run = Run {
        out: BufWriter::new(File::create(&out).unwrap()),
        begin: format!("{}.begin", out),
        args,
        lines: 0,
    };
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::spawn(watch);
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut run = run;
        cmd::dispatch(&cmd, &mut run);
        run.out.flush().unwrap();
        let _ = std::fs::remove_file(&run.begin);
        println!("{} lines", run.lines);
    });
    if t.unwrap().join().is_err() {
        eprintln!("harness error");
        std::process::exit(2);
    }
}
