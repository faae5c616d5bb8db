//! Texts and accessors of a message, as they are.
use crate::json;
use std::fmt::Write;
use yule_log::model::def::TypeExpr;
use yule_log::model::inst::{FieldValue, Format, ParameterValue};
use yule_log::model::msg::UlogMessage;
use yule_log::model::CCharSlice;

fn text(out: &mut String, d: &dyn std::fmt::Display) {
    json::bytes(out, d.to_string().as_bytes());
}
fn ty(out: &mut String, t: &TypeExpr) {
    out.push_str(",\"ty\":");
    text(out, t);
    out.push_str(",\"base\":");
    text(out, &t.base_type);
    let _ = write!(out, ",\"sc\":{},\"ar\":{}", t.is_scalar(), t.is_array());
}
fn chars(out: &mut String, v: &FieldValue) {
    out.push_str(",\"ch\":[");
    match v {
        FieldValue::ScalarChar(c) => {
            json::bytes(out, &[c.as_u8(), u8::from(*c)]);
            out.push(',');
            json::bytes(out, c.as_char().to_string().as_bytes());
            out.push(',');
            text(out, c);
        }
        FieldValue::ArrayChar(a) => {
            json::bytes(out, a.to_string_lossy().as_bytes());
            out.push(',');
            json::bytes(out, a.to_string_lossy_trimmed().as_bytes());
            out.push(',');
            json::bytes(out, a.trim_end_nul().as_bytes());
            out.push(',');
            json::bytes(out, a.as_bytes());
        }
        _ => {}
    }
    out.push(']');
}
/// what the standard library shows for a floating point number with these bits
fn floats(fl: &mut Vec<(Vec<u8>, String)>, v: &FieldValue) {
    let mut f4 = |x: &f32| fl.push((x.to_bits().to_le_bytes().to_vec(), format!("{x}")));
    match v {
        FieldValue::ScalarF32(x) => f4(x),
        FieldValue::ArrayF32(v) => v.iter().for_each(f4),
        FieldValue::ScalarF64(x) => fl.push((x.to_bits().to_le_bytes().to_vec(), format!("{x}"))),
        FieldValue::ArrayF64(v) => v.iter().for_each(|x| fl.push((x.to_bits().to_le_bytes().to_vec(), format!("{x}")))),
        _ => {}
    }
}
type Fl = Vec<(Vec<u8>, String)>;
fn val(out: &mut String, fl: &mut Fl, t: &TypeExpr, v: &FieldValue, first: &mut bool) {
    if !*first {
        out.push(',');
    }
    *first = false;
    out.push_str("{\"txt\":");
    text(out, v);
    ty(out, t);
    chars(out, v);
    out.push('}');
    floats(fl, v);
    match v {
        FieldValue::ScalarOther(f) => inst(out, fl, f, first),
        FieldValue::ArrayOther(a) => a.iter().for_each(|f| inst(out, fl, f, first)),
        _ => {}
    }
}
fn inst(out: &mut String, fl: &mut Fl, f: &Format, first: &mut bool) {
    for x in &f.fields {
        val(out, fl, &x.r#type, &x.value, first);
    }
}
fn defs(out: &mut String, f: &Format, first: &mut bool) {
    if !*first {
        out.push(',');
    }
    *first = false;
    out.push_str("{\"n\":");
    json::string(out, &f.name);
    out.push_str(",\"dn\":");
    json::string(out, &f.def_format.name);
    out.push_str(",\"txt\":");
    text(out, f);
    out.push_str(",\"df\":");
    json::def_fields(out, &f.def_format);
    out.push('}');
    for x in &f.fields {
        match &x.value {
            FieldValue::ScalarOther(f) => defs(out, f, first),
            FieldValue::ArrayOther(a) => a.iter().for_each(|f| defs(out, f, first)),
            _ => {}
        }
    }
}
fn pval(v: &ParameterValue) -> FieldValue {
    match v {
        ParameterValue::INT32(x) => FieldValue::ScalarI32(*x),
        ParameterValue::FLOAT(x) => FieldValue::ScalarF32(*x),
    }
}
/// ,"vw":{..}
pub fn put(out: &mut String, m: &UlogMessage) {
    let mut fl: Fl = vec![];
    let (mut txt, mut acc, mut vals, mut ds) = (String::from("[]"), String::new(), String::new(), String::new());
    let mut t = |d: &dyn std::fmt::Display| {
        txt.clear();
        text(&mut txt, d);
    };
    match m {
        UlogMessage::Header(h) => json::bytes(&mut acc, &h.to_bytes()),
        UlogMessage::FlagBits(f) => {
            let _ = write!(acc, "[{},{}]", f.has_default_parameters() as u8, f.has_data_appended() as u8);
        }
        UlogMessage::FormatDefinition(f) => {
            t(f);
            for (i, x) in f.fields.iter().enumerate() {
                vals.push_str(if i > 0 { ",{\"txt\":" } else { "{\"txt\":" });
                text(&mut vals, x);
                ty(&mut vals, &x.r#type);
                vals.push('}');
            }
        }
        UlogMessage::LoggedData(d) => {
            t(&d.data);
            inst(&mut vals, &mut fl, &d.data, &mut true);
            defs(&mut ds, &d.data, &mut true);
        }
        UlogMessage::AddSubscription(s) => t(s),
        UlogMessage::Info(i) => {
            t(i);
            val(&mut vals, &mut fl, &i.r#type, &i.value, &mut true);
        }
        UlogMessage::MultiInfo(i) => {
            t(i);
            val(&mut vals, &mut fl, &i.r#type, &i.value, &mut true);
        }
        UlogMessage::Parameter(p) => {
            t(p);
            vals.push_str("{\"txt\":");
            text(&mut vals, &p.value);
            ty(&mut vals, &p.r#type);
            vals.push('}');
            floats(&mut fl, &pval(&p.value));
        }
        UlogMessage::DefaultParameter(p) => {
            t(p);
            let d = p.get_default_type();
            let _ = write!(acc, "[{},{}]", d.system_wide as u8, d.configuration as u8);
            vals.push_str("{\"txt\":");
            text(&mut vals, &p.value);
            ty(&mut vals, &p.r#type);
            vals.push('}');
            floats(&mut fl, &pval(&p.value));
        }
        UlogMessage::LoggedString(s) | UlogMessage::TaggedLoggedString(s) => {
            t(s);
            text(&mut acc, &s.level);
        }
        UlogMessage::DropoutMark(d) => t(d),
        UlogMessage::Unhandled { .. } | UlogMessage::Ignored { .. } => {}
    }
    if acc.is_empty() {
        acc.push_str("[]");
    }
    fl.sort();
    fl.dedup();
    let _ = write!(out, ",\"vw\":{{\"txt\":{txt},\"acc\":{acc},\"vals\":[{vals}],\"defs\":[{ds}]}},\"fl\":[");
    for (i, (b, s)) in fl.iter().enumerate() {
        out.push_str(if i > 0 { ",{\"b\":" } else { "{\"b\":" });
        json::bytes(out, b);
        out.push_str(",\"t\":");
        json::bytes(out, s.as_bytes());
        out.push('}');
    }
    out.push(']');
}
