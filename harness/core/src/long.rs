//! A log of any length: a beginning, a cycle of records that comes again and
//! again, and what follows.  Recorded: what the parser holds on to, the most it
//! used, and whether every cycle gives the results of the third.
use crate::drive::drive;
use crate::reader::Vary;
use crate::{alloc, json, parse, Args};
use std::io::{Error, ErrorKind, Read, Result};

pub struct LReader {
    pre: Vec<u8>,
    cyc: Vec<u8>,
    tail: Vec<u8>,
    n: u64,
    pos: u64,
    fail: bool,
    round: u64,
    vary: Vary,
}
impl Read for LReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let (p, c) = (self.pre.len() as u64, self.cyc.len() as u64);
        let round = self.pos.saturating_sub(p) / c;
        if round != self.round && round < self.n {
            self.round = round;
            self.vary.fill(&mut self.cyc, round);
        }
        let src = if self.pos < p {
            &self.pre[self.pos as usize..]
        } else if self.pos - p < c * self.n {
            &self.cyc[((self.pos - p) % c) as usize..]
        } else {
            &self.tail[(self.pos - p - c * self.n) as usize..]
        };
        if src.is_empty() && !buf.is_empty() && self.fail {
            return Err(Error::new(ErrorKind::ConnectionReset, "scripted failure"));
        }
        let k = src.len().min(buf.len());
        buf[..k].copy_from_slice(&src[..k]);
        self.pos += k as u64;
        Ok(k)
    }
}
pub fn run(a: &Args, out: &mut String) {
    let n = a.num("n").unwrap() as u64;
    let rd = LReader { pre: a.hex("pre"), cyc: a.hex("cyc"), tail: a.hex("tail"), n, pos: 0, fail: a.get("fail").is_some(), round: 0, vary: a.vary() };
    let m0 = alloc::mark();
    let mut p = parse::build_any(a, rd);
    let live = alloc::level() as isize - m0 as isize;
    // the same cycle as the third of a log
    let fresh = |k: u64| {
        let mut cyc = a.hex("cyc");
        let mut file = [a.hex("pre"), cyc.clone(), cyc.clone()].concat();
        a.vary().fill(&mut cyc, k);
        file.append(&mut cyc);
        let mut q = parse::build_any(a, std::io::Cursor::new(file));
        std::iter::from_fn(move || q.next())
    };
    drive(a, live, || p.next(), fresh, json::item, out);
}
