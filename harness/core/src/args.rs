//! Scenario lines.
use crate::reader::{Script, Vary};
use std::collections::HashMap;

pub struct Args<'a>(HashMap<&'a str, &'a str>);
impl<'a> Args<'a> {
    pub fn parse(line: &'a str) -> Self {
        Args(line.split(' ').filter_map(|t| t.split_once('=')).collect())
    }
    pub fn get(&self, k: &str) -> Option<&'a str> {
        self.0.get(k).copied()
    }
    pub fn num(&self, k: &str) -> Option<usize> {
        self.get(k).and_then(|s| s.parse().ok())
    }
    pub fn flag(&self, k: &str) -> Option<bool> {
        self.get(k).map(|s| s == "1")
    }
    pub fn nums(&self, k: &str) -> Vec<usize> {
        self.get(k).unwrap_or("").split(',').filter_map(|s| s.parse().ok()).collect()
    }
    pub fn vary(&self) -> Vary {
        let n = self.nums("vary");
        Vary(n.chunks_exact(2).map(|c| (c[0], c[1])).collect())
    }
    pub fn hex(&self, k: &str) -> Vec<u8> {
        let s = self.get(k).unwrap_or("").as_bytes();
        let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        s.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()
    }
}

/// A name in an argument: %xx for a byte, % alone for nothing.
pub fn name(s: &str) -> String {
    let mut p = s.split('%');
    let mut out = p.next().unwrap_or("").as_bytes().to_vec();
    for x in p.filter(|x| x.len() >= 2) {
        out.push(u8::from_str_radix(&x[..2], 16).unwrap());
        out.extend(x[2..].as_bytes());
    }
    String::from_utf8(out).unwrap()
}

pub fn script(a: &Args) -> Script {
    use std::io::ErrorKind::*;
    Script {
        file: a.hex("file"),
        pos: 0,
        chunks: a.nums("chunks"),
        intr: a.num("intr").unwrap_or(0),
        burst: a.num("burst").unwrap_or(1),
        pending: 0,
        fail: match a.get("fail") {
            None | Some("") => None,
            Some("reset") => Some(ConnectionReset),
            Some("block") => Some(WouldBlock),
            Some("invalid") => Some(InvalidData),
            Some("timeout") => Some(TimedOut),
            Some("pipe") => Some(BrokenPipe),
            Some(_) => Some(Other),
        },
        gate: usize::MAX,
        over: 0,
        more: a.hex("more"),
        back: a.num("back").unwrap_or(0),
        again: a.num("again").unwrap_or(0),
        round: 0,
        vary: a.vary(),
        calls: 0,
        data_calls: 0,
    }
}
