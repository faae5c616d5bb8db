//! Operation sequences on MessageBuf and DataStream.
use crate::{json, reader::SReader, Args};
use std::cell::RefCell;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use yule_log::datastream::DataStream;
use yule_log::message_buf::MessageBuf;

const SAT: usize = 2_000_000_000;
type R = Result<(Vec<u8>, i64), ()>;

fn event(out: &mut String, first: bool, op: &str, ty: &str, n: usize, r: Result<R, Box<dyn std::any::Any + Send>>) -> bool {
    let (op, dead) = match &r {
        Err(_) => ("panic", true),
        _ => (op, false),
    };
    let _ = write!(out, "{}{{\"op\":\"{op}\",\"ty\":\"{ty}\",\"n\":{},", if first { "" } else { "," }, n.min(SAT));
    match r {
        Ok(Ok((b, k))) => {
            out.push_str("\"ok\":true,\"b\":");
            json::bytes(out, &b);
            let _ = write!(out, ",\"ret\":{k}");
        }
        _ => out.push_str("\"ok\":false,\"b\":[],\"ret\":-1"),
    }
    dead
}
macro_rules! val {
    ($e:expr) => {
        $e.map(|v| (v.to_le_bytes().to_vec(), -1)).map_err(|_| ())
    };
}
fn boolean<E>(r: Result<bool, E>) -> R {
    r.map(|v| (vec![v as u8], -1)).map_err(|_| ())
}
fn buf_op(m: &mut MessageBuf, op: &str, ty: &str, n: usize) -> R {
    match (op, ty) {
        ("take", "u8") => val!(m.take_u8()),
        ("take", "u16") => val!(m.take_u16()),
        ("take", "u32") => val!(m.take_u32()),
        ("take", "u64") => val!(m.take_u64()),
        ("take", "i8") => val!(m.take_i8()),
        ("take", "i16") => val!(m.take_i16()),
        ("take", "i32") => val!(m.take_i32()),
        ("take", "i64") => val!(m.take_i64()),
        ("take", "f32") => val!(m.take_f32()),
        ("take", "f64") => val!(m.take_f64()),
        ("take", "bool") => boolean(m.take_bool()),
        ("adv", _) => m.advance(n).map(|b| (b.to_vec(), -1)).map_err(|_| ()),
        ("skip", _) => m.skip(n).map(|()| (vec![], -1)).map_err(|_| ()),
        _ => panic!("unknown operation"),
    }
}
fn stream_op(d: &mut DataStream<SReader>, op: &str, ty: &str, n: usize) -> R {
    match (op, ty) {
        ("take", "u8") => val!(d.read_u8()),
        ("take", "u16") => val!(d.read_u16()),
        ("take", "u32") => val!(d.read_u32()),
        ("take", "u64") => val!(d.read_u64()),
        ("take", "i8") => val!(d.read_i8()),
        ("take", "i16") => val!(d.read_i16()),
        ("take", "i32") => val!(d.read_i32()),
        ("take", "f32") => val!(d.read_f32()),
        ("take", "f64") => val!(d.read_f64()),
        ("take", "bool") => boolean(d.read_bool()),
        ("exact", _) => {
            let mut b = vec![0xA5; n];
            d.read_exact(&mut b).map(|k| (b, k as i64)).map_err(|_| ())
        }
        ("str", _) => d.read_string(n).map(|s| (s.into_bytes(), -1)).map_err(|_| ()),
        ("skip", _) => d.skip(n).map(|k| (vec![], k as i64)).map_err(|_| ()),
        _ => panic!("unknown operation"),
    }
}
/// (operation, type, size) of "u16", "adv:5"
fn ops(a: &Args) -> Vec<(String, String, usize)> {
    a.get("ops").unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| match s.split_once(':') {
        Some((o, n)) => (o.to_string(), String::new(), n.parse().unwrap()),
        None if s == "rest" => ("rest".into(), String::new(), 0),
        None => ("take".into(), s.to_string(), 0),
    }).collect()
}
pub fn run_buf(a: &Args, out: &mut String) {
    out.push_str("\"ev\":[");
    let data = a.hex("file");
    let mut m = Some(if a.flag("vec") == Some(true) { MessageBuf::from_vec(data) } else { MessageBuf::new(data) });
    for (i, (op, ty, n)) in ops(a).iter().enumerate() {
        let r = if op == "rest" {
            let b = m.take().unwrap();
            catch_unwind(AssertUnwindSafe(|| Ok((b.into_remaining_bytes(), -1))))
        } else {
            catch_unwind(AssertUnwindSafe(|| buf_op(m.as_mut().unwrap(), op, ty, *n)))
        };
        let dead = event(out, i == 0, op, ty, *n, r);
        let (l, e) = m.as_ref().map_or((0, true), |m| (m.len(), m.is_empty()));
        let _ = write!(out, ",\"len\":{},\"empty\":{e}}}", l.min(SAT));
        if dead || m.is_none() {
            break;
        }
    }
    out.push(']');
}
pub fn run_stream(a: &Args, out: &mut String) {
    out.push_str("\"ev\":[");
    let sc = Rc::new(RefCell::new(crate::args::script(a)));
    let mut d = DataStream::new(SReader(sc));
    for (i, (op, ty, n)) in ops(a).iter().enumerate() {
        let r = catch_unwind(AssertUnwindSafe(|| stream_op(&mut d, op, ty, *n)));
        let dead = event(out, i == 0, op, ty, *n, r);
        out.push('}');
        if dead {
            break;
        }
    }
    out.push(']');
}
