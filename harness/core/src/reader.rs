//! A reader that follows a script: how much it delivers per call, when it is
//! interrupted, whether it fails at the end, and up to where bytes have been
//! released so far.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result};
use std::rc::Rc;

/// Ranges (start, length) of a cycle whose bytes are other letters in every
/// cycle from the fourth on.
#[derive(Clone, Default)]
pub struct Vary(pub Vec<(usize, usize)>);
impl Vary {
    pub fn fill(&self, cycle: &mut [u8], k: u64) {
        if k < 3 {
            return;
        }
        for (off, len) in &self.0 {
            let mut k = k;
            for b in &mut cycle[*off..off + len] {
                *b = b'a' + (k % 26) as u8;
                k /= 26;
            }
        }
    }
}

pub struct Script {
    pub file: Vec<u8>,
    pub pos: usize,
    pub chunks: Vec<usize>,
    pub intr: usize,
    /// interruptions in a row
    pub burst: usize,
    pub pending: usize,
    pub fail: Option<ErrorKind>,
    /// bytes released; usize::MAX when everything is
    pub gate: usize,
    /// reads that asked for more than was released
    pub over: usize,
    /// bytes that appear once the end, or a failure, was reported
    pub more: Vec<u8>,
    /// the bytes from here to the end come again so many times
    pub back: usize,
    pub again: usize,
    pub round: u64,
    pub vary: Vary,
    pub calls: usize,
    pub data_calls: usize,
}
#[derive(Clone)]
pub struct SReader(pub Rc<RefCell<Script>>);
impl Read for SReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let s = &mut *self.0.borrow_mut();
        if s.pending > 0 {
            s.pending -= 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        s.calls += 1;
        if s.intr > 0 && s.calls % s.intr == 0 {
            s.pending = s.burst.saturating_sub(1);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if s.pos >= s.gate && s.pos < s.file.len() {
            s.over += 1;
            s.gate = usize::MAX;
        }
        if s.pos == s.file.len() && s.again > 0 {
            s.again -= 1;
            s.pos = s.back;
            s.round += 1;
            let Script { vary, file, back, round, .. } = s;
            vary.fill(&mut file[*back..], *round);
        }
        if s.pos == s.file.len() {
            s.file.append(&mut s.more);
            return match s.fail {
                Some(k) => Err(Error::new(k, "scripted failure")),
                None => Ok(0),
            };
        }
        let c = if s.chunks.is_empty() { usize::MAX } else { s.chunks[s.data_calls % s.chunks.len()].max(1) };
        s.data_calls += 1;
        let n = buf.len().min(c).min(s.file.len() - s.pos).min(s.gate.max(s.pos) - s.pos);
        buf[..n].copy_from_slice(&s.file[s.pos..s.pos + n]);
        s.pos += n;
        Ok(n)
    }
}
