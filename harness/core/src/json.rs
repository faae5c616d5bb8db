//! Projection of yule_log results to the items of the specification, as JSON.
//! No judgement is made here.
use std::fmt::Write;
use yule_log::encode::Encode;
use yule_log::model::def::{BaseType, Field as DefField, Format as DefFormat, TypeExpr};
use yule_log::model::inst::{Field, FieldValue, Format, ParameterValue};
use yule_log::model::msg::UlogMessage;

pub fn bytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let _ = write!(out, "{x}");
    }
    out.push(']');
}
pub fn string(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(out, "\\u{u:04x}");
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn key_bytes(out: &mut String, k: &str, b: &[u8]) {
    let _ = write!(out, ",\"{k}\":");
    bytes(out, b);
}
fn key_str(out: &mut String, k: &str, s: &str) {
    let _ = write!(out, ",\"{k}\":");
    string(out, s);
}
pub fn base_name(t: &BaseType) -> String {
    match t {
        BaseType::UINT8 => "uint8_t".into(),
        BaseType::UINT16 => "uint16_t".into(),
        BaseType::UINT32 => "uint32_t".into(),
        BaseType::UINT64 => "uint64_t".into(),
        BaseType::INT8 => "int8_t".into(),
        BaseType::INT16 => "int16_t".into(),
        BaseType::INT32 => "int32_t".into(),
        BaseType::INT64 => "int64_t".into(),
        BaseType::FLOAT => "float".into(),
        BaseType::DOUBLE => "double".into(),
        BaseType::BOOL => "bool".into(),
        BaseType::CHAR => "char".into(),
        BaseType::OTHER(s) => s.clone(),
    }
}
fn type_keys(out: &mut String, t: &TypeExpr) {
    key_str(out, "ty", &base_name(&t.base_type));
    key_str(out, "arr", &t.array_size.map(|n| n.to_string()).unwrap_or_default());
}
fn def_field(out: &mut String, f: &DefField) {
    out.push_str("{\"n\":");
    string(out, &f.name);
    type_keys(out, &f.r#type);
    out.push('}');
}
pub fn def_fields(out: &mut String, f: &DefFormat) {
    out.push('[');
    for (i, x) in f.fields.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        def_field(out, x);
    }
    out.push(']');
}
fn val(out: &mut String, k: &str, b: &[u8], c: &[&Format]) {
    let _ = write!(out, "{{\"k\":\"{k}\",\"b\":");
    bytes(out, b);
    out.push_str(",\"c\":[");
    for (i, f) in c.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        inst(out, f);
    }
    out.push_str("]}");
}
fn flat<T: Copy, const N: usize>(v: &[T], f: impl Fn(T) -> [u8; N]) -> Vec<u8> {
    v.iter().flat_map(|x| f(*x)).collect()
}
pub fn value(out: &mut String, v: &FieldValue) {
    use FieldValue::*;
    match v {
        ScalarU8(x) => val(out, "u8", &[*x], &[]),
        ScalarU16(x) => val(out, "u16", &x.to_le_bytes(), &[]),
        ScalarU32(x) => val(out, "u32", &x.to_le_bytes(), &[]),
        ScalarU64(x) => val(out, "u64", &x.to_le_bytes(), &[]),
        ScalarI8(x) => val(out, "i8", &x.to_le_bytes(), &[]),
        ScalarI16(x) => val(out, "i16", &x.to_le_bytes(), &[]),
        ScalarI32(x) => val(out, "i32", &x.to_le_bytes(), &[]),
        ScalarI64(x) => val(out, "i64", &x.to_le_bytes(), &[]),
        ScalarF32(x) => val(out, "f32", &x.to_bits().to_le_bytes(), &[]),
        ScalarF64(x) => val(out, "f64", &x.to_bits().to_le_bytes(), &[]),
        ScalarBool(x) => val(out, "bool", &[*x as u8], &[]),
        ScalarChar(x) => val(out, "char", &[x.0], &[]),
        ScalarOther(f) => val(out, "other", &[], &[f]),
        ArrayU8(v) => val(out, "au8", v, &[]),
        ArrayU16(v) => val(out, "au16", &flat(v, u16::to_le_bytes), &[]),
        ArrayU32(v) => val(out, "au32", &flat(v, u32::to_le_bytes), &[]),
        ArrayU64(v) => val(out, "au64", &flat(v, u64::to_le_bytes), &[]),
        ArrayI8(v) => val(out, "ai8", &flat(v, i8::to_le_bytes), &[]),
        ArrayI16(v) => val(out, "ai16", &flat(v, i16::to_le_bytes), &[]),
        ArrayI32(v) => val(out, "ai32", &flat(v, i32::to_le_bytes), &[]),
        ArrayI64(v) => val(out, "ai64", &flat(v, i64::to_le_bytes), &[]),
        ArrayF32(v) => val(out, "af32", &flat(v, |x: f32| x.to_bits().to_le_bytes()), &[]),
        ArrayF64(v) => val(out, "af64", &flat(v, |x: f64| x.to_bits().to_le_bytes()), &[]),
        ArrayBool(v) => val(out, "abool", &flat(v, |x: bool| [x as u8]), &[]),
        ArrayChar(v) => val(out, "achar", &v.iter().map(|c| c.0).collect::<Vec<_>>(), &[]),
        ArrayOther(v) => val(out, "aother", &[], &v.iter().collect::<Vec<_>>()),
    }
}
pub fn param_value(out: &mut String, v: &ParameterValue) {
    match v {
        ParameterValue::INT32(x) => val(out, "i32", &x.to_le_bytes(), &[]),
        ParameterValue::FLOAT(x) => val(out, "f32", &x.to_bits().to_le_bytes(), &[]),
    }
}
fn inst_field(out: &mut String, f: &Field) {
    out.push_str("{\"n\":");
    string(out, &f.name);
    type_keys(out, &f.r#type);
    out.push_str(",\"v\":");
    value(out, &f.value);
    out.push('}');
}
fn inst_fields(out: &mut String, f: &Format) {
    out.push('[');
    for (i, x) in f.fields.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        inst_field(out, x);
    }
    out.push(']');
}
fn mi(f: &Format) -> i32 {
    f.multi_id_index.map_or(-1, i32::from)
}
/// nested instance
pub fn inst(out: &mut String, f: &Format) {
    out.push_str("{\"n\":");
    string(out, &f.name);
    match f.timestamp {
        Some(t) => key_bytes(out, "ts", &t.to_le_bytes()),
        None => out.push_str(",\"ts\":[]"),
    }
    let _ = write!(out, ",\"mi\":{},\"fs\":", mi(f));
    inst_fields(out, f);
    out.push('}');
}
pub fn item(m: &UlogMessage) -> String {
    let mut s = String::new();
    let o = &mut s;
    match m {
        UlogMessage::Header(h) => {
            let _ = write!(o, "{{\"t\":\"hdr\",\"ver\":{}", h.version);
            key_bytes(o, "ts", &h.timestamp.to_le_bytes());
        }
        UlogMessage::FlagBits(f) => {
            o.push_str("{\"t\":\"flags\"");
            key_bytes(o, "compat", &f.compat_flags);
            key_bytes(o, "incompat", &f.incompat_flags);
            o.push_str(",\"offs\":[");
            for (i, x) in f.appended_data_offsets.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                bytes(o, &x.to_le_bytes());
            }
            o.push(']');
        }
        UlogMessage::FormatDefinition(f) => {
            o.push_str("{\"t\":\"fmt\"");
            key_str(o, "name", &f.name);
            o.push_str(",\"fields\":");
            def_fields(o, f);
        }
        UlogMessage::LoggedData(d) => {
            let _ = write!(o, "{{\"t\":\"data\",\"id\":{}", d.msg_id);
            key_bytes(o, "ts", &d.timestamp.to_le_bytes());
            key_str(o, "name", &d.data.name);
            let _ = write!(o, ",\"mi\":{},\"fs\":", mi(&d.data));
            inst_fields(o, &d.data);
        }
        UlogMessage::AddSubscription(x) => {
            let _ = write!(o, "{{\"t\":\"sub\",\"multi\":{},\"id\":{}", x.multi_id, x.msg_id);
            key_str(o, "name", &x.message_name);
        }
        UlogMessage::Info(i) => {
            o.push_str("{\"t\":\"info\"");
            key_str(o, "key", &i.key);
            type_keys(o, &i.r#type);
            o.push_str(",\"v\":");
            value(o, &i.value);
        }
        UlogMessage::MultiInfo(i) => {
            let _ = write!(o, "{{\"t\":\"minfo\",\"cont\":{}", i.is_continued as u8);
            key_str(o, "key", &i.key);
            type_keys(o, &i.r#type);
            o.push_str(",\"v\":");
            value(o, &i.value);
        }
        UlogMessage::Parameter(p) => {
            o.push_str("{\"t\":\"param\"");
            key_str(o, "key", &p.key);
            type_keys(o, &p.r#type);
            o.push_str(",\"v\":");
            param_value(o, &p.value);
        }
        UlogMessage::DefaultParameter(p) => {
            let _ = write!(o, "{{\"t\":\"dparam\",\"dt\":{}", p.default_types);
            key_str(o, "key", &p.key);
            type_keys(o, &p.r#type);
            o.push_str(",\"v\":");
            param_value(o, &p.value);
        }
        UlogMessage::LoggedString(x) => {
            let _ = write!(o, "{{\"t\":\"log\",\"lvl\":{}", x.level as u8);
            key_bytes(o, "ts", &x.timestamp.to_le_bytes());
            key_bytes(o, "msg", x.msg.as_bytes());
            if let Some(t) = x.tag {
                let _ = write!(o, ",\"tag\":{t}");
            }
        }
        UlogMessage::TaggedLoggedString(x) => {
            let _ = write!(o, "{{\"t\":\"tlog\",\"lvl\":{}", x.level as u8);
            if let Some(t) = x.tag {
                let _ = write!(o, ",\"tag\":{t}");
            }
            key_bytes(o, "ts", &x.timestamp.to_le_bytes());
            key_bytes(o, "msg", x.msg.as_bytes());
        }
        UlogMessage::DropoutMark(d) => {
            // the duration is only visible through encoding
            let mut b = vec![];
            d.encode(&mut b).unwrap();
            if b.len() == 2 {
                let _ = write!(o, "{{\"t\":\"drop\",\"dur\":{}", u16::from_le_bytes([b[0], b[1]]));
            } else {
                o.push_str("{\"t\":\"drop\",\"dur\":-1");
            }
        }
        UlogMessage::Unhandled { msg_type, message_contents } => {
            let _ = write!(o, "{{\"t\":\"unh\",\"mt\":{msg_type}");
            key_bytes(o, "b", message_contents);
        }
        UlogMessage::Ignored { msg_type } => {
            let _ = write!(o, "{{\"t\":\"ign\",\"mt\":{msg_type}");
        }
    }
    s.push('}');
    s
}
