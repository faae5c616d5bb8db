//! Builds messages through the public API, encodes them, and parses the bytes back.
use crate::jsonin::{self, J};
use crate::{json, Args};
use std::fmt::Write as _;
use std::io::{Error, ErrorKind, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::model::msg::*;
use yule_log::model::{def, inst, CChar, Shared};

fn ty(j: &J) -> def::TypeExpr {
    let a = j.s("arr");
    def::TypeExpr {
        base_type: def::BaseType::from_string(&j.s("ty")),
        array_size: if a.is_empty() { None } else { Some(a.parse().unwrap()) },
    }
}
fn list<const N: usize, T>(b: &[u8], f: impl Fn([u8; N]) -> T) -> Vec<T> {
    b.chunks(N).map(|c| f(c.try_into().unwrap())).collect()
}
fn one<const N: usize, T>(b: &[u8], f: impl Fn([u8; N]) -> T) -> T {
    f(b.try_into().unwrap())
}
fn value(j: &J) -> inst::FieldValue {
    use inst::FieldValue::*;
    let b = j.at("b").bytes();
    let b = &b[..];
    let c: Vec<inst::Format> = j.at("c").arr().iter().map(instance).collect();
    match j.s("k").as_str() {
        "u8" => ScalarU8(b[0]),
        "u16" => ScalarU16(one(b, u16::from_le_bytes)),
        "u32" => ScalarU32(one(b, u32::from_le_bytes)),
        "u64" => ScalarU64(one(b, u64::from_le_bytes)),
        "i8" => ScalarI8(b[0] as i8),
        "i16" => ScalarI16(one(b, i16::from_le_bytes)),
        "i32" => ScalarI32(one(b, i32::from_le_bytes)),
        "i64" => ScalarI64(one(b, i64::from_le_bytes)),
        "f32" => ScalarF32(one(b, f32::from_le_bytes)),
        "f64" => ScalarF64(one(b, f64::from_le_bytes)),
        "bool" => ScalarBool(b[0] != 0),
        "char" => ScalarChar(CChar(b[0])),
        "other" => ScalarOther(Shared::new(c.into_iter().next().unwrap())),
        "au8" => ArrayU8(b.to_vec()),
        "au16" => ArrayU16(list(b, u16::from_le_bytes)),
        "au32" => ArrayU32(list(b, u32::from_le_bytes)),
        "au64" => ArrayU64(list(b, u64::from_le_bytes)),
        "ai8" => ArrayI8(list(b, i8::from_le_bytes)),
        "ai16" => ArrayI16(list(b, i16::from_le_bytes)),
        "ai32" => ArrayI32(list(b, i32::from_le_bytes)),
        "ai64" => ArrayI64(list(b, i64::from_le_bytes)),
        "af32" => ArrayF32(list(b, f32::from_le_bytes)),
        "af64" => ArrayF64(list(b, f64::from_le_bytes)),
        "abool" => ArrayBool(b.iter().map(|x| *x != 0).collect()),
        "achar" => ArrayChar(b.iter().map(|x| CChar(*x)).collect()),
        "aother" => ArrayOther(c),
        k => panic!("kind {k}"),
    }
}
fn def_fields(fs: &J) -> Vec<def::Field> {
    fs.arr().iter().map(|f| def::Field { name: Shared::from(f.s("n")), r#type: ty(f) }).collect()
}
fn format(j: &J, name: &str, ts: Option<u64>) -> inst::Format {
    let name: Shared<str> = Shared::from(name.to_string());
    inst::Format {
        timestamp: ts,
        name: name.clone(),
        fields: j.at("fs").arr().iter()
            .map(|f| inst::Field { name: Shared::from(f.s("n")), r#type: ty(f), value: value(f.at("v")) }).collect(),
        multi_id_index: u8::try_from(j.n("mi")).ok(),
        def_format: Shared::new(def::Format { name, fields: def_fields(j.at("fs")), padding: 0 }),
    }
}
fn instance(j: &J) -> inst::Format {
    let t = j.at("ts").bytes();
    format(j, &j.s("n"), t.try_into().ok().map(u64::from_le_bytes))
}
fn param(j: &J) -> inst::ParameterValue {
    let v = j.at("v");
    let b = v.at("b").bytes();
    match v.s("k").as_str() {
        "i32" => inst::ParameterValue::INT32(one(&b, i32::from_le_bytes)),
        _ => inst::ParameterValue::FLOAT(one(&b, f32::from_le_bytes)),
    }
}
fn logged(j: &J, tag: Option<u16>) -> LoggedString {
    LoggedString {
        level: LogLevel::try_from(j.n("lvl") as u8).unwrap(),
        tag,
        timestamp: j.u64("ts"),
        msg: String::from_utf8(j.at("msg").bytes()).unwrap(),
    }
}
fn message(j: &J) -> UlogMessage {
    let arr8 = |k: &str| -> [u8; 8] { j.at(k).bytes().try_into().unwrap() };
    match j.s("t").as_str() {
        "hdr" => UlogMessage::Header(FileHeader { version: j.n("ver") as u8, timestamp: j.u64("ts") }),
        "flags" => {
            let o: Vec<u64> = j.at("offs").arr().iter().map(|x| u64::from_le_bytes(x.bytes().try_into().unwrap())).collect();
            UlogMessage::FlagBits(FlagBits {
                compat_flags: arr8("compat"),
                incompat_flags: arr8("incompat"),
                appended_data_offsets: o.try_into().unwrap(),
            })
        }
        "fmt" => UlogMessage::FormatDefinition(def::Format {
            name: Shared::from(j.s("name")),
            fields: def_fields(j.at("fields")),
            padding: j.get("padding").map_or(0, |_| j.n("padding") as usize),
        }),
        "sub" => UlogMessage::AddSubscription(Subscription {
            multi_id: j.n("multi") as u8,
            msg_id: j.n("id") as u16,
            message_name: j.s("name"),
        }),
        "data" => {
            let ts = j.u64("ts");
            UlogMessage::LoggedData(LoggedData { timestamp: ts, msg_id: j.n("id") as u16, data: format(j, &j.s("name"), Some(ts)) })
        }
        "info" => UlogMessage::Info(Info { key: j.s("key"), r#type: ty(j), value: value(j.at("v")) }),
        "minfo" => UlogMessage::MultiInfo(MultiInfo { is_continued: j.n("cont") != 0, key: j.s("key"), r#type: ty(j), value: value(j.at("v")) }),
        "param" => UlogMessage::Parameter(Parameter { key: j.s("key"), r#type: ty(j), value: param(j) }),
        "dparam" => UlogMessage::DefaultParameter(DefaultParameter {
            key: j.s("key"),
            default_types: j.n("dt") as u8,
            r#type: ty(j),
            value: param(j),
        }),
        "log" => UlogMessage::LoggedString(logged(j, None)),
        "tlog" => UlogMessage::TaggedLoggedString(logged(j, Some(j.n("tag") as u16))),
        "drop" => {
            // cannot be built outside the library: parsed from a record
            let mut f = b"ULog\x01\x12\x35\x01".to_vec();
            f.extend_from_slice(&[0; 8]);
            f.extend_from_slice(b"\x02\x00Fa:\x04\x00A\x00\x00\x00a\x02\x00O");
            f.extend_from_slice(&(j.n("dur") as u16).to_le_bytes());
            ULogParserBuilder::new(std::io::Cursor::new(f)).build().unwrap().nth(2).unwrap().unwrap()
        }
        "unh" => UlogMessage::Unhandled { msg_type: j.n("mt") as u8, message_contents: j.at("b").bytes() },
        "ign" => UlogMessage::Ignored { msg_type: j.n("mt") as u8 },
        t => panic!("message {t}"),
    }
}
struct Slow {
    out: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.room == 0 && !b.is_empty() {
            return Err(Error::new(ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.step).min(self.room);
        self.out.extend_from_slice(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn results(file: &[u8], skip: usize, out: &mut String) {
    let mut p = ULogParserBuilder::new(std::io::Cursor::new(file.to_vec()))
        .include_header(true).include_timestamp(true).include_padding(true).build().unwrap();
    out.push('[');
    for i in 0..file.len() / 3 + 24 {
        let it = match catch_unwind(AssertUnwindSafe(|| p.next())) {
            Err(_) => "{\"t\":\"panic\"}".to_string(),
            Ok(None) => "{\"t\":\"end\"}".to_string(),
            Ok(Some(Err(_))) => "{\"t\":\"err\"}".to_string(),
            Ok(Some(Ok(m))) => json::item(&m),
        };
        if i >= skip {
            if i > skip {
                out.push(',');
            }
            out.push_str(&it);
        }
        if it.contains("\"t\":\"end\"") || it.contains("\"t\":\"panic\"") {
            break;
        }
    }
    out.push(']');
}
pub fn run(a: &Args, out: &mut String) {
    let js = jsonin::parse(a.get("items").unwrap());
    let (step, room) = (a.num("step").unwrap_or(usize::MAX), a.num("room"));
    let mut file = vec![];
    let mut count = 0;
    out.push_str("\"ev\":[");
    let n = js.arr().len();
    let quiet = a.num("quiet").unwrap_or(0); // messages before this one are not parsed back
    for (i, j) in js.arr().iter().enumerate() {
        // what cannot be built is left out
        let Ok(m) = catch_unwind(AssertUnwindSafe(|| message(j))) else { continue };
        let c = if out.ends_with('[') { "" } else { "," };
        let _ = write!(out, "{c}{{\"i\":{i},\"wfail\":{},\"x\":{},\"enc\":", i + 1 == n && room.is_some(), json::item(&m));
        let mut w = Slow { out: vec![], step, room: if i + 1 == n { room.unwrap_or(usize::MAX) } else { usize::MAX } };
        let r = catch_unwind(AssertUnwindSafe(|| m.encode(&mut w)));
        match r {
            Ok(Ok(())) => {
                json::bytes(out, &w.out);
                let before = count;
                file.extend_from_slice(&w.out);
                if !matches!(m, UlogMessage::Ignored { .. }) {
                    count += 1;
                }
                out.push_str(",\"re\":");
                if i >= quiet {
                    results(&file, before, out);
                } else {
                    out.push_str("[]");
                }
            }
            Ok(Err(_)) => out.push_str("[-1],\"re\":[]"),
            Err(_) => out.push_str("[-2],\"re\":[]"),
        }
        out.push('}');
    }
    out.push(']');
}
/// parses a log, encodes every result, parses what was written
pub fn run_log(a: &Args, out: &mut String) {
    let mut p = ULogParserBuilder::new(std::io::Cursor::new(a.hex("file")))
        .include_header(true).include_timestamp(true).include_padding(true).build().unwrap();
    let mut file = vec![];
    out.push_str("\"ev\":[");
    let mut first = true;
    loop {
        let r = catch_unwind(AssertUnwindSafe(|| p.next()));
        if !first {
            out.push(',');
        }
        first = false;
        match r {
            Err(_) => {
                out.push_str("{\"x\":{\"t\":\"panic\"},\"enc\":[]}");
                break;
            }
            Ok(None) => {
                out.push_str("{\"x\":{\"t\":\"end\"},\"enc\":[]}");
                break;
            }
            Ok(Some(Err(_))) => out.push_str("{\"x\":{\"t\":\"err\"},\"enc\":[]}"),
            Ok(Some(Ok(m))) => {
                let _ = write!(out, "{{\"x\":{},\"enc\":", json::item(&m));
                let mut b = vec![];
                match catch_unwind(AssertUnwindSafe(|| m.encode(&mut b))) {
                    Ok(Ok(())) => json::bytes(out, &b),
                    Ok(Err(_)) => out.push_str("[-1]"),
                    Err(_) => out.push_str("[-2]"),
                }
                file.extend_from_slice(&b);
                out.push('}');
            }
        }
    }
    out.push_str("],\"re\":");
    results(&file, 0, out);
}
