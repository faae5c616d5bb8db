//! Two parsers at work at the same time, on one thread by turns, on two threads
//! by turns, or on two threads freely.  All messages are kept to the end and
//! shown again.
use crate::{args::script, json, parse, reader::SReader, Args};
use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Barrier, Condvar, Mutex};
use yule_log::model::msg::UlogMessage;
use yule_log::parser::ULogParser;

struct One {
    p: Option<ULogParser<SReader>>,
    cap: usize,
    drop: bool,
    done: bool,
    seen: Vec<(usize, String, Option<UlogMessage>)>,
}
impl One {
    fn new(a: &Args) -> One {
        let s = script(a);
        let cap = (s.file.len() + s.more.len()) / 3 + 24;
        let p = parse::build(a, SReader(Rc::new(RefCell::new(s))));
        One { p: Some(p), cap, drop: a.flag("drop") == Some(true), done: false, seen: vec![] }
    }
    fn step(&mut self, turn: usize) {
        let p = self.p.as_mut().unwrap();
        let mut msg = None;
        let it = if self.seen.len() >= self.cap {
            self.done = true;
            "{\"t\":\"cap\"}".to_string()
        } else {
            match catch_unwind(AssertUnwindSafe(|| p.next())) {
                Err(_) => {
                    self.done = true;
                    "{\"t\":\"panic\"}".into()
                }
                Ok(None) => {
                    self.done = true;
                    "{\"t\":\"end\"}".into()
                }
                Ok(Some(Err(_))) => "{\"t\":\"err\"}".into(),
                Ok(Some(Ok(m))) => {
                    let s = json::item(&m);
                    msg = Some(m);
                    s
                }
            }
        };
        self.seen.push((turn, it, msg));
        if self.done && self.drop {
            self.p = None;
        }
    }
    /// shown again, from the last to the first, each dropped afterwards
    fn late(mut self) -> Vec<(usize, String, String)> {
        let mut v = vec![];
        while let Some((t, s, m)) = self.seen.pop() {
            let l = m.map_or_else(|| s.clone(), |m| json::item(&m));
            v.push((t, s, l));
        }
        v.reverse();
        v
    }
}
pub fn run(a: &Args, out: &mut String) {
    let lines: Vec<String> = ["p0", "p1"].iter().map(|k| a.get(k).unwrap().replace('&', " ")).collect();
    let sched: Vec<usize> = a.get("sched").unwrap_or("").bytes().map(|b| (b - b'0') as usize).collect();
    let mode = a.get("mode").unwrap_or("turns");
    let mut all: Vec<(usize, usize, String, String)> = vec![];
    if mode == "turns" {
        let mut o: Vec<Option<One>> = lines.iter().map(|l| Some(One::new(&Args::parse(l)))).collect();
        let mut turn = 0;
        for k in sched.iter().copied().chain((0..).map(|i| i % 2)) {
            let (x, y) = (o[0].as_ref().unwrap().done, o[1].as_ref().unwrap().done);
            if x && y {
                break;
            }
            let one = o[k].as_mut().unwrap();
            if !one.done {
                one.step(turn);
                turn += 1;
            }
        }
        let first = a.num("first").unwrap_or(0);
        for k in [first, 1 - first] {
            all.extend(o[k].take().unwrap().late().into_iter().map(|(t, s, l)| (t, k, s, l)));
        }
    } else {
        // (turn, finished)
        let state = Arc::new((Mutex::new((0usize, [false; 2])), Condvar::new()));
        let bar = Arc::new(Barrier::new(2));
        let hs: Vec<_> = lines
            .into_iter()
            .enumerate()
            .map(|(k, l)| {
                let (state, bar, sched, free) = (state.clone(), bar.clone(), sched.clone(), mode == "free");
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let a = Args::parse(&l);
                        let mut one = One::new(&a);
                        bar.wait();
                        let mut n = 0;
                        while !one.done {
                            if free {
                                one.step(n);
                                n += 1;
                                continue;
                            }
                            let (m, c) = &*state;
                            let mut g = m.lock().unwrap();
                            let whose = |g: &(usize, [bool; 2])| {
                                let w = sched.get(g.0).copied().unwrap_or(g.0 % 2);
                                if g.1[w] { 1 - w } else { w }
                            };
                            while whose(&g) != k {
                                g = c.wait(g).unwrap();
                            }
                            one.step(g.0);
                            g.0 += 1;
                            g.1[k] = one.done;
                            c.notify_all();
                        }
                        bar.wait();
                        one.late()
                    })
                    .unwrap()
            })
            .collect();
        for (k, h) in hs.into_iter().enumerate() {
            all.extend(h.join().unwrap().into_iter().map(|(t, s, l)| (t, k, s, l)));
        }
    }
    if mode != "free" {
        all.sort_by_key(|x| x.0);
    }
    out.push_str("\"ev\":[");
    for (i, (_, k, s, l)) in all.iter().enumerate() {
        let _ = write!(out, "{}{{\"p\":{k},\"x\":{s},\"late\":{l}}}", if i > 0 { "," } else { "" });
    }
    out.push(']');
}
/// the results of one parser in a process of its own
pub fn solo(a: &Args, out: &mut String) {
    use std::io::Write as _;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--one")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .unwrap();
    c.stdin.take().unwrap().write_all(a.get("p0").unwrap().replace('&', " ").as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if o.status.success() {
        out.push_str(&String::from_utf8(o.stdout).unwrap());
    } else {
        out.push_str("\"ev\":[{\"x\":{\"t\":\"abort\"}}]");
    }
}
