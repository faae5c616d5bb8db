//! Executes scenarios read from a file, one per line, and prints what happened,
//! one JSON object per line.  Holds no oracle.
mod alloc;
mod args;
mod cause;
mod cursor;
mod drive;
mod encode;
mod json;
mod jsonin;
mod long;
mod parse;
mod reader;
mod twin;
mod views;

pub use args::Args;
use std::io::{BufRead, Write};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// formats everything that is logged, and forgets it
struct Sink;
struct Count(usize);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let mut c = Count(0);
        let _ = std::fmt::Write::write_fmt(&mut c, *r.args());
        std::hint::black_box(c.0);
    }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Sink).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    if std::env::args().nth(1).as_deref() == Some("--one") {
        let mut l = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut l).unwrap();
        let mut out = String::new();
        parse::run(&Args::parse(&l), &mut out);
        print!("{out}");
        return;
    }
    let path = std::env::args().nth(1).expect("scenario file");
    let skip: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    // only results are printed to the real stdout; each line is flushed before the
    // next scenario starts, so that a crash is attributed to its scenario
    let mut so = std::io::stdout();
    for line in f.lines().skip(skip) {
        let line = line.unwrap();
        let a = Args::parse(&line);
        log::set_max_level(if a.flag("log") == Some(true) { log::LevelFilter::Trace } else { log::LevelFilter::Off });
        let mut out = format!("{{\"id\":{},", a.get("id").unwrap_or("0"));
        match a.get("op").unwrap_or("parse") {
            "parse" => parse::run(&a, &mut out),
            "long" => long::run(&a, &mut out),
            "twin" => twin::run(&a, &mut out),
            "solo" => twin::solo(&a, &mut out),
            "encode" => encode::run(&a, &mut out),
            "relog" => encode::run_log(&a, &mut out),
            "buf" => cursor::run_buf(&a, &mut out),
            "stream" => cursor::run_stream(&a, &mut out),
            _ => panic!("unknown op"),
        }
        out.push_str("}\n");
        so.write_all(b"\x01").unwrap();
        so.write_all(out.as_bytes()).unwrap();
        so.flush().unwrap();
    }
}
