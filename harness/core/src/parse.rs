//! One run of the parser over scripted input, every result recorded.
use crate::{alloc, args::script, cause::cause, json, reader::*, Args};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use yule_log::builder::ULogParserBuilder;
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;
use yule_log::parser::ULogParser;

pub fn build(a: &Args, rd: SReader) -> ULogParser<SReader> {
    build_any(a, rd)
}
pub fn build_any<R: std::io::Read>(a: &Args, rd: R) -> ULogParser<R> {
    let names: Option<Vec<String>> = a.get("allow").map(|s| {
        s.split(',').filter(|x| !x.is_empty()).map(crate::args::name).collect()
    });
    match a.get("api").unwrap_or("builder") {
        "new" => ULogParser::new(rd).unwrap(),
        "depr" => {
            let mut p = mk(a, rd).build().unwrap();
            if let Some(n) = names {
                #[allow(deprecated)]
                p.set_subscription_allow_list(n.into_iter().collect::<HashSet<_>>());
            }
            p
        }
        // the list first, the options afterwards, set twice
        "rev" => {
            let mut b = ULogParserBuilder::new(rd);
            if let Some(n) = names {
                b = b.set_subscription_allow_list(["zzz"]).set_subscription_allow_list(n);
            }
            if let Some(x) = a.flag("pad") {
                b = b.include_padding(!x).include_padding(x);
            }
            if let Some(x) = a.flag("ts") {
                b = b.include_timestamp(!x).include_timestamp(x);
            }
            if let Some(x) = a.flag("hdr") {
                b = b.include_header(!x).include_header(x);
            }
            b.build().unwrap()
        }
        _ => {
            let mut b = mk(a, rd);
            if let Some(n) = names {
                b = b.set_subscription_allow_list(n);
            }
            b.build().unwrap()
        }
    }
}
fn mk<R: std::io::Read>(a: &Args, rd: R) -> ULogParserBuilder<R> {
    let mut b = ULogParserBuilder::new(rd);
    if let Some(x) = a.flag("hdr") {
        b = b.include_header(x);
    }
    if let Some(x) = a.flag("ts") {
        b = b.include_timestamp(x);
    }
    if let Some(x) = a.flag("pad") {
        b = b.include_padding(x);
    }
    b
}
pub fn encoded(m: &UlogMessage) -> Option<Vec<u8>> {
    let mut v = vec![];
    m.encode(&mut v).ok().map(|()| v)
}
/// the first result of a parser given a header and this record
fn reparse(rec: &[u8]) -> String {
    let mut f = b"ULog\x01\x12\x35\x01".to_vec();
    f.extend_from_slice(&[0; 8]);
    f.extend_from_slice(rec);
    let mut p = ULogParserBuilder::new(std::io::Cursor::new(f)).include_padding(true).include_timestamp(true).build().unwrap();
    match p.next() {
        None => "{\"t\":\"end\"}".into(),
        Some(Err(_)) => "{\"t\":\"err\"}".into(),
        Some(Ok(m)) => json::item(&m),
    }
}
#[cfg(feature = "ts")]
fn far(m: UlogMessage) -> String {
    // moved to another thread, shared by two more, dropped on a third
    std::thread::spawn(move || {
        let m = std::sync::Arc::new(m);
        let (a, b) = (m.clone(), m.clone());
        let ta = std::thread::spawn(move || json::item(&a));
        let tb = std::thread::spawn(move || {
            let r = json::item(&b);
            drop(b);
            r
        });
        drop(m);
        let (x, y) = (ta.join().unwrap(), tb.join().unwrap());
        if x == y { x } else { "{\"t\":\"differ\"}".into() }
    })
    .join()
    .unwrap_or_else(|_| "{\"t\":\"panic\"}".into())
}
pub fn run(a: &Args, out: &mut String) {
    let sc = Rc::new(RefCell::new(script(a)));
    let rd = SReader(sc.clone());
    let n = sc.borrow().file.len() + sc.borrow().more.len();
    let want: HashSet<&str> = a.get("want").unwrap_or("").split(',').collect();
    let gates: Vec<usize> = a.nums("gates");
    let ids: Vec<usize> = a.nums("ids");
    let fmts: Vec<String> = a.get("fmts").unwrap_or("").split(',').filter(|s| !s.is_empty()).map(crate::args::name).collect();
    // allow lists set on the parser in use: before the call with this number
    let lists: Vec<(usize, HashSet<String>)> = a.get("lists").unwrap_or("").split(';').filter(|s| !s.is_empty()).map(|s| {
        let (k, ns) = s.split_once(':').unwrap();
        (k.parse().unwrap(), ns.split('+').filter(|x| !x.is_empty()).map(crate::args::name).collect())
    }).collect();
    let cap = n / 3 + 24;
    let mut extra = a.num("extra").unwrap_or(2);
    out.push_str("\"ev\":[");
    let mut p = match catch_unwind(AssertUnwindSafe(|| build(a, rd))) {
        Ok(p) => p,
        Err(_) => {
            out.push_str("{\"x\":{\"t\":\"panic\"}}]");
            return;
        }
    };
    let mut i = 0;
    loop {
        if i > 0 {
            out.push(',');
        }
        if i >= cap {
            out.push_str("{\"x\":{\"t\":\"cap\"}}");
            break;
        }
        if want.contains("over") {
            let mut s = sc.borrow_mut();
            s.over = 0;
            s.gate = gates.get(i).copied().unwrap_or(usize::MAX);
        }
        for (_, ns) in lists.iter().filter(|(k, _)| *k == i) {
            #[allow(deprecated)]
            p.set_subscription_allow_list(ns.clone());
        }
        let m0 = alloc::mark();
        let r = catch_unwind(AssertUnwindSafe(|| p.next()));
        let peak = alloc::peak_since(m0);
        let mut end = false;
        let mut dead = r.is_err();
        let mut msg = None;
        // looking at a result must not fail either
        let mut seen = String::new();
        let mut failed = None;
        let looked = catch_unwind(AssertUnwindSafe(|| {
        let out = &mut seen;
        let it = match r {
            Err(_) => "{\"t\":\"panic\"}".to_string(),
            Ok(None) => {
                end = true;
                "{\"t\":\"end\"}".to_string()
            }
            Ok(Some(Err(e))) => {
                // an error can always be shown
                let _ = format!("{e} {e:?}");
                failed = Some(e);
                "{\"t\":\"err\"}".to_string()
            }
            Ok(Some(Ok(m))) => {
                let s = if want.contains("light") { format!("{{\"t\":\"{}\"}}", kind(&m)) } else { json::item(&m) };
                msg = Some(m);
                s
            }
        };
        let _ = write!(out, "{{\"x\":{it}");
        if want.contains("mem") {
            let _ = write!(out, ",\"mem\":{peak}");
        }
        if want.contains("over") {
            let _ = write!(out, ",\"over\":{}", sc.borrow().over);
        }
        if want.contains("err") {
            if let Some(e) = &failed {
                let _ = write!(out, ",\"err\":{}", cause(e));
            }
            out.push_str(",\"qi\":[");
            for (j, id) in ids.iter().enumerate() {
                let c = if j > 0 { "," } else { "" };
                let _ = write!(out, "{c}{{\"id\":{id},\"err\":{}}}", p.get_subscription(*id as u16).map_or_else(|e| cause(&e), |_| NONE.into()));
            }
            out.push_str("],\"qf\":[");
            for (j, n) in fmts.iter().enumerate() {
                let c = if j > 0 { "," } else { "" };
                let mut q = String::new();
                json::string(&mut q, n);
                q.push_str(",\"b\":");
                json::bytes(&mut q, n.as_bytes());
                let _ = write!(out, "{c}{{\"n\":{q},\"err\":{}}}", p.get_format(n).map_or_else(|e| cause(&e), |_| NONE.into()));
            }
            out.push(']');
        }
        if let Some(m) = msg {
            if want.contains("enc") {
                out.push_str(",\"enc\":");
                match encoded(&m) {
                    Some(b) => json::bytes(out, &b),
                    None => out.push_str("[-1]"),
                }
            }
            if want.contains("re") {
                if let UlogMessage::FormatDefinition(_) = m {
                    let _ = write!(out, ",\"re\":{}", encoded(&m).map_or("{\"t\":\"noenc\"}".to_string(), |b| reparse(&b)));
                }
            }
            if want.contains("flat") {
                if let UlogMessage::LoggedData(d) = &m {
                    flat(out, d);
                }
            }
            if want.contains("vw") {
                crate::views::put(out, &m);
            }
            #[cfg(feature = "ts")]
            if want.contains("far") {
                let _ = write!(out, ",\"far\":{}", far(m));
            }
        }
        if !ids.is_empty() && !want.contains("err") {
            out.push_str(",\"ids\":[");
            for (j, id) in ids.iter().enumerate() {
                let c = if j > 0 { "," } else { "" };
                let _ = match p.get_subscription(*id as u16) {
                    Ok(s) => {
                        let _ = write!(out, "{c}[{},1,{},", s.msg_id, s.multi_id);
                        json::string(out, &s.message_name);
                        write!(out, "]")
                    }
                    Err(_) => write!(out, "{c}[{id},0]"),
                };
            }
            out.push(']');
        }
        if !fmts.is_empty() && !want.contains("err") {
            out.push_str(",\"fmts\":[");
            for (j, n) in fmts.iter().enumerate() {
                let mut q = String::new();
                json::string(&mut q, n);
                let _ = write!(out, "{}{{\"n\":{q},\"has\":", if j > 0 { "," } else { "" });
                match p.get_format(n) {
                    Ok(f) => {
                        out.push_str("1,\"fields\":");
                        json::def_fields(out, &f);
                    }
                    Err(_) => out.push_str("0,\"fields\":[]"),
                }
                out.push('}');
            }
            out.push(']');
        }
        }));
        if looked.is_err() {
            seen = "{\"x\":{\"t\":\"panic\"}".to_string();
            dead = true;
        }
        out.push_str(&seen);
        out.push('}');
        i += 1;
        if dead {
            break;
        }
        if end {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
    }
    out.push(']');
}
const NONE: &str = "{\"k\":\"\",\"b\":[],\"nums\":[],\"names\":[]}";
pub fn kind(m: &UlogMessage) -> &'static str {
    match m {
        UlogMessage::Header(_) => "hdr",
        UlogMessage::FlagBits(_) => "flags",
        UlogMessage::FormatDefinition(_) => "fmt",
        UlogMessage::LoggedData(_) => "data",
        UlogMessage::AddSubscription(_) => "sub",
        UlogMessage::Info(_) => "info",
        UlogMessage::MultiInfo(_) => "minfo",
        UlogMessage::Parameter(_) => "param",
        UlogMessage::DefaultParameter(_) => "dparam",
        UlogMessage::LoggedString(_) => "log",
        UlogMessage::TaggedLoggedString(_) => "tlog",
        UlogMessage::DropoutMark(_) => "drop",
        UlogMessage::Unhandled { .. } => "unh",
        UlogMessage::Ignored { .. } => "ign",
    }
}

fn flat(out: &mut String, d: &yule_log::model::msg::LoggedData) {
    use yule_log::model::inst::{FieldValue, Format};
    #[allow(deprecated)]
    let r = catch_unwind(AssertUnwindSafe(|| d.data.flatten()));
    match r {
        Err(_) => out.push_str(",\"flat\":[\"panic\"]"),
        Ok(v) => {
            out.push_str(",\"flat\":[");
            for (i, (p, x)) in v.iter().enumerate() {
                out.push_str(if i > 0 { ",{\"p\":" } else { "{\"p\":" });
                json::string(out, p);
                let mut s = String::new();
                json::value(&mut s, x);
                // {"k":..,"b":..,"c":[]}: the first two
                let s = s.strip_suffix(",\"c\":[]}").map_or(s.clone(), |y| format!("{y}}}"));
                out.push(',');
                out.push_str(&s[1..]);
            }
            out.push(']');
        }
    }
    out.push_str(",\"sc\":[");
    fn walk(out: &mut String, f: &Format, first: &mut bool) {
        for x in &f.fields {
            if !*first {
                out.push(',');
            }
            *first = false;
            match x.value.to_scalars() {
                None => out.push_str("{\"none\":true,\"s\":[]}"),
                Some(v) => {
                    out.push_str("{\"none\":false,\"s\":[");
                    for (i, y) in v.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        json::value(out, y);
                    }
                    out.push_str("]}");
                }
            }
            match &x.value {
                FieldValue::ScalarOther(f) => walk(out, f, first),
                FieldValue::ArrayOther(v) => v.iter().for_each(|f| walk(out, f, first)),
                _ => {}
            }
        }
    }
    walk(out, &d.data, &mut true);
    out.push(']');
}
