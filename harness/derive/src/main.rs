//! Runs streams derived for generated message sets.  Holds no oracle.
#[path = "../../core/src/alloc.rs"]
mod alloc;
#[allow(dead_code)]
#[path = "../../core/src/json.rs"]
mod json;
#[path = "../../core/src/args.rs"]
mod args;
#[path = "../../core/src/cause.rs"]
mod cause;
#[path = "../../core/src/drive.rs"]
mod drive;
#[path = "../../core/src/reader.rs"]
mod reader;
mod show;
#[allow(dead_code, clippy::all)]
mod sets {
    include!(env!("VH_SCHEMA"));
}

pub use args::Args;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn run(a: &Args, out: &mut String) {
    let sc = Rc::new(RefCell::new(args::script(a)));
    let cap = 2 * ((sc.borrow().file.len() + sc.borrow().more.len()) / 3) + 48;
    let rd = reader::SReader(sc.clone());
    let want = a.get("want").unwrap_or("");
    out.push_str("\"ev\":[");
    let opened = catch_unwind(AssertUnwindSafe(|| sets::dispatch(a.get("set").unwrap(), a, rd)));
    let mut next = match opened {
        Err(_) => {
            out.push_str("{\"x\":{\"t\":\"panic\"}}]");
            return;
        }
        Ok(show::Opened::Refused(n, e)) => {
            let _ = write!(out, "{{\"x\":{{\"t\":\"refused\",\"at\":{n}}}");
            if want.contains("err") {
                let _ = write!(out, ",\"err\":{e}");
            }
            out.push_str("}]");
            return;
        }
        Ok(show::Opened::Stream(s)) => s,
    };
    if a.get("op") == Some("long") {
        out.truncate(out.len() - 6);
        let fresh = |k: u64| {
            let mut sc = args::script(a);
            let mut cyc = sc.file[sc.back..].to_vec();
            sc.file.extend_from_slice(&cyc.clone());
            a.vary().fill(&mut cyc, k);
            sc.file.append(&mut cyc);
            sc.again = 0;
            let rd = reader::SReader(Rc::new(RefCell::new(sc)));
            match sets::dispatch(a.get("set").unwrap(), a, rd) {
                show::Opened::Stream(s) => std::iter::from_fn(s),
                _ => panic!("opened before"),
            }
        };
        return drive::drive(a, 0, next, fresh, |s: &String| s.clone(), out);
    }
    let mut extra = a.num("extra").unwrap_or(2);
    let mut i = 0;
    loop {
        if i > 0 {
            out.push(',');
        }
        if i >= cap {
            out.push_str("{\"x\":{\"t\":\"cap\"}}");
            break;
        }
        let m0 = alloc::mark();
        let r = catch_unwind(AssertUnwindSafe(&mut next));
        let peak = alloc::peak_since(m0);
        let mut why = None;
        let (it, end, dead) = match r {
            Err(_) => ("{\"t\":\"panic\"}".to_string(), false, true),
            Ok(None) => ("{\"t\":\"end\"}".to_string(), true, false),
            Ok(Some(Err(e))) => {
                why = Some(e);
                ("{\"t\":\"err\"}".to_string(), false, false)
            }
            Ok(Some(Ok(s))) => (if want.contains("light") { "{\"t\":\"msg\"}".to_string() } else { s }, false, false),
        };
        let _ = write!(out, "{{\"x\":{it}");
        if let (Some(e), true) = (why, want.contains("err")) {
            let _ = write!(out, ",\"err\":{e}");
        }
        if want.contains("mem") {
            let _ = write!(out, ",\"mem\":{peak}");
        }
        out.push('}');
        i += 1;
        if dead {
            break;
        }
        if end {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
    }
    out.push(']');
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let path = std::env::args().nth(1).expect("scenario file");
    let skip: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(0);
    let f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let mut so = std::io::stdout();
    for line in f.lines().skip(skip) {
        let line = line.unwrap();
        let a = Args::parse(&line);
        let mut out = format!("{{\"id\":{},", a.get("id").unwrap_or("0"));
        run(&a, &mut out);
        out.push_str("}\n");
        so.write_all(b"\x01").unwrap();
        so.write_all(out.as_bytes()).unwrap();
        so.flush().unwrap();
    }
}
