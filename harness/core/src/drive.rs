//! Drives an iterator over a log whose cycle of records comes again and again:
//! what it holds on to, the most it used, whether every cycle gives the results
//! of the third.  Where the bytes of a cycle vary: whether it gives the results
//! it gives as the third cycle of a log, read by a parser of its own.
use crate::{alloc, Args};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn drive<T, E, I>(a: &Args, mut live: isize, mut next: impl FnMut() -> Option<Result<T, E>>, fresh: impl Fn(u64) -> I, show: impl Fn(&T) -> String, out: &mut String)
where
    I: Iterator<Item = Result<T, E>>,
{
    let (p0, m, n) = (a.num("p0").unwrap() as u64, a.num("m").unwrap() as u64, a.num("n").unwrap() as u64);
    let every = a.num("cmp").unwrap_or(1) as u64;
    let mut peak = 0isize;
    let mut base: Vec<String> = vec![String::new(); m as usize];
    let mut same = 1;
    let mut ev: Vec<String> = vec![];
    let mut i = 0u64;
    let mut ends = 0;
    let (mut hl, mut hp) = (0, 0);
    let mut shot = 4;
    let vary = a.get("vary").is_some();
    let view = |r: &Option<Result<T, E>>| match r {
        None => "{\"t\":\"end\"}".to_string(),
        Some(Err(_)) => "{\"t\":\"err\"}".into(),
        Some(Ok(x)) => show(x),
    };
    loop {
        let q = if i < p0 { 0 } else if m == 0 { n } else { (i - p0) / m };
        let shown = i < p0 + 3 * m || q % every == 0 || q + 3 > n;
        if vary && shown && q >= 3 && q < n && (i - p0) % m == 0 {
            let mut it = fresh(q).skip((p0 + 2 * m) as usize);
            base = (0..m).map(|_| view(&it.next())).collect();
        }
        let m0 = alloc::mark();
        let r = catch_unwind(AssertUnwindSafe(&mut next));
        let pk = live + alloc::peak_since(m0) as isize;
        peak = peak.max(pk);
        // what is shown is not the parser's
        let m1 = alloc::level() as isize;
        let stop = matches!(r, Ok(None) | Err(_)) || q >= n;
        let text = if stop || shown {
            match &r {
                Err(_) => "{\"t\":\"panic\"}".to_string(),
                Ok(r) => view(r),
            }
        } else {
            String::new()
        };
        let m2 = alloc::level() as isize;
        drop(r);
        live += alloc::level() as isize - m0 as isize - (m2 - m1);
        let kind = text.find("\"t\":\"").map(|k| text[k + 5..].split('"').next().unwrap().to_string()).unwrap_or_default();
        if stop {
            let at = if m == 0 && i >= p0 { (n, 0) } else if i >= p0 { (q, (i - p0) % m) } else { (0, 0) };
            if q < n || ends == 0 {
                ev.push(format!("{{\"k\":\"s\",\"q\":{q},\"live\":{},\"peak\":{},\"same\":{same}}}", hl.max(live), hp.max(peak)));
            }
            ev.push(format!("{{\"k\":\"e\",\"q\":{},\"i\":{},\"x\":{{\"t\":\"{kind}\"}}}}", at.0.min(n), if at.0 >= n { 0 } else { at.1 }));
            ends += 1;
            // a failed reader may fail again before the end
            if ends >= 3 || kind == "panic" {
                break;
            }
            if q < n {
                // asked once more at the same place
                continue;
            }
        } else if i < p0 + 3 * m {
            ev.push(format!("{{\"k\":\"r\",\"x\":{{\"t\":\"{kind}\"}},\"live\":{live},\"peak\":{peak}}}"));
            if i >= p0 + 2 * m {
                base[((i - p0) % m) as usize] = text;
            }
            peak = 0;
        } else {
            if !text.is_empty() && base[((i - p0) % m) as usize] != text {
                same = 0;
            }
            hl = hl.max(live);
            hp = hp.max(peak);
            if (i - p0) % m == m - 1 && q + 1 == shot {
                ev.push(format!("{{\"k\":\"s\",\"q\":{shot},\"live\":{hl},\"peak\":{hp},\"same\":{same}}}"));
                shot *= 2;
                (hl, hp) = (0, 0);
            }
            peak = 0;
        }
        i += 1;
    }
    out.push_str("\"ev\":[");
    let _ = write!(out, "{}", ev.join(","));
    out.push(']');
}
