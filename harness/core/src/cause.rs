//! An error as it is.  No judgement is made here.
use crate::json;
use std::fmt::Write;

/// the variant, what it carries, the numbers its text speaks of, and the words in it
pub fn cause(e: &yule_log::errors::ULogError) -> String {
    use yule_log::errors::ULogError::*;
    let (k, b): (&str, Vec<u8>) = match e {
        Io(e) => ("Io", format!("{:?} {e}", e.kind()).into_bytes()),
        Utf8(e) => ("Utf8", e.as_bytes().to_vec()),
        UnknownParameterType(_) => ("UnknownParameterType", vec![]),
        InvalidMagicBits => ("InvalidMagicBits", vec![]),
        InvalidHeader => ("InvalidHeader", vec![]),
        UnexpectedEndOfFile => ("UnexpectedEndOfFile", vec![]),
        ParseError(_) => ("ParseError", vec![]),
        UndefinedFormat(n) => ("UndefinedFormat", n.clone().into_bytes()),
        UndefinedSubscription(id) => ("UndefinedSubscription", id.to_le_bytes().to_vec()),
        UnknownIncompatBits => ("UnknownIncompatBits", vec![]),
        MissingTimestamp => ("MissingTimestamp", vec![]),
        InvalidFieldName(_) => ("InvalidFieldName", vec![]),
        TypeMismatch(_) => ("TypeMismatch", vec![]),
        InvalidConfiguration(_) => ("InvalidConfiguration", vec![]),
        _ => ("Other", vec![]),
    };
    let text = e.to_string();
    let mut nums: Vec<u32> = text.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).filter(|n| *n < 65536).collect();
    nums.truncate(40);
    let mut names: Vec<&str> = Vec::new();
    if let InvalidFieldName(t) = e {
        names = t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|s| !s.is_empty()).collect();
    }
    let mut o = format!("{{\"k\":\"{k}\",\"b\":");
    json::bytes(&mut o, &b);
    let _ = write!(o, ",\"nums\":{nums:?},\"names\":{names:?}}}");
    o
}
