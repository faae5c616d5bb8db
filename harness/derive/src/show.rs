//! Projection of derived values to JSON.  No judgement is made here.
use std::fmt::Write;
use yule_log::model::msg::UlogMessage;
use yule_log::model::CChar;

pub type Item = Option<Result<String, String>>;
pub enum Opened {
    Stream(Box<dyn FnMut() -> Item>),
    /// number of the builder call that was refused (0: the stream was), and the error
    Refused(usize, String),
}

/// Goes through the builder calls of the scenario, then opens the stream.
#[macro_export]
macro_rules! open {
    ($e:ident, $a:expr, $rd:expr) => {{
        use $crate::show::{En, Opened};
        fn boxed<I>(mut it: I) -> Opened
        where
            I: Iterator<Item = Result<$e, yule_log::errors::ULogError>> + 'static,
        {
            Opened::Stream(Box::new(move || {
                it.next().map(|r| match r {
                    Ok(v) => {
                        let mut s = String::new();
                        // in the thread-safe build what comes out is looked at and dropped elsewhere
                        #[cfg(feature = "ts")]
                        std::thread::scope(|t| t.spawn(|| v.show(&mut s)).join().unwrap());
                        #[cfg(not(feature = "ts"))]
                        v.show(&mut s);
                        Ok(s)
                    }
                    Err(e) => {
                        std::hint::black_box(format!("{e:?}"));
                        Err($crate::cause::cause(&e))
                    }
                })
            }))
        }
        if $a.get("mode") == Some("stream") {
            match $e::stream($rd) {
                Ok(s) => boxed(s),
                Err(e) => Opened::Refused(0, $crate::cause::cause(&e)),
            }
        } else {
            let mut b = $e::builder($rd);
            for (i, op) in $a.get("ops").unwrap_or("").split(',').filter(|s| !s.is_empty()).enumerate() {
                let (k, v) = op.split_once(':').unwrap();
                let names = v.split('+').filter(|s| !s.is_empty()).map(|s| s.to_string());
                let r = match k {
                    "add" => b.add_subscription(v),
                    "ext" => b.extend_subscriptions(names.collect::<Vec<_>>()),
                    _ => b.forward_subscriptions(v == "1"),
                };
                match r {
                    Ok(x) => b = x,
                    Err(e) => return Opened::Refused(i + 1, $crate::cause::cause(&e)),
                }
            }
            match b.stream() {
                Ok(s) => boxed(s),
                Err(e) => Opened::Refused(0, $crate::cause::cause(&e)),
            }
        }
    }};
}

pub trait En {
    fn show(self, o: &mut String);
}
pub trait St {
    fn show(&self, o: &mut String);
}
pub trait Val {
    fn val(&self, o: &mut String);
}
pub struct Fields(bool);
impl Fields {
    pub fn start(o: &mut String) -> Self {
        o.push('[');
        Fields(true)
    }
    pub fn field<T: Val>(&mut self, o: &mut String, name: &str, v: Option<&T>) {
        if !self.0 {
            o.push(',');
        }
        self.0 = false;
        let _ = write!(o, "{{\"f\":\"{name}\",\"p\":{},\"v\":", v.is_some() as u8);
        match v {
            Some(v) => v.val(o),
            None => leaf(o, "", &[]),
        }
        o.push('}');
    }
    pub fn end(self, o: &mut String) {
        o.push(']');
    }
}
fn leaf(o: &mut String, k: &str, b: &[u8]) {
    let _ = write!(o, "{{\"k\":\"{k}\",\"b\":");
    crate::json::bytes(o, b);
    o.push_str(",\"c\":[]}");
}
fn nested<T: St>(o: &mut String, k: &str, c: &[&T]) {
    let _ = write!(o, "{{\"k\":\"{k}\",\"b\":[],\"c\":[");
    for (i, s) in c.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        s.show(o);
    }
    o.push_str("]}");
}
macro_rules! prim {
    ($($t:ty, $k:expr, $f:expr;)*) => { $(
        impl Val for $t {
            fn val(&self, o: &mut String) {
                let f: fn(&$t) -> Vec<u8> = $f;
                leaf(o, $k, &f(self));
            }
        }
        impl Val for Vec<$t> {
            fn val(&self, o: &mut String) {
                let f: fn(&$t) -> Vec<u8> = $f;
                leaf(o, concat!("a", $k), &self.iter().flat_map(|x| f(x)).collect::<Vec<u8>>());
            }
        }
    )* };
}
prim! {
    u8, "u8", |x| x.to_le_bytes().to_vec();
    u16, "u16", |x| x.to_le_bytes().to_vec();
    u32, "u32", |x| x.to_le_bytes().to_vec();
    u64, "u64", |x| x.to_le_bytes().to_vec();
    i8, "i8", |x| x.to_le_bytes().to_vec();
    i16, "i16", |x| x.to_le_bytes().to_vec();
    i32, "i32", |x| x.to_le_bytes().to_vec();
    i64, "i64", |x| x.to_le_bytes().to_vec();
    f32, "f32", |x| x.to_bits().to_le_bytes().to_vec();
    f64, "f64", |x| x.to_bits().to_le_bytes().to_vec();
    bool, "bool", |x| vec![*x as u8];
    CChar, "char", |x| vec![x.0];
}
impl<T: St> Val for T {
    fn val(&self, o: &mut String) {
        nested(o, "s", &[self]);
    }
}
impl<T: St> Val for Vec<T> {
    fn val(&self, o: &mut String) {
        nested(o, "as", &self.iter().collect::<Vec<_>>());
    }
}
pub fn mapped<T: St>(o: &mut String, var: &str, s: &T) {
    let _ = write!(o, "{{\"t\":\"map\",\"var\":\"{var}\",\"v\":");
    s.show(o);
    o.push('}');
}
pub fn forwarded(o: &mut String, var: &str, m: &UlogMessage) {
    let _ = write!(o, "{{\"t\":\"fwd\",\"var\":\"{var}\",\"x\":{}}}", crate::json::item(m));
}
