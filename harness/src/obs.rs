//! Observations of real parses, projected to the model's terms.
use crate::ast::{from_byte, model_str, to_model};
use combine::{
    error::ParseResult,
    stream::easy::{Error, Errors, Info},
};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static IN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

/// Runs code under test; a panic is an observation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN.with(|x| x.set(false));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }
    })
}
pub fn quiet_panics() {
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN.with(|x| x.get()) {
            h(i)
        }
    }));
}

pub trait Show {
    fn show(&self) -> String;
}
impl Show for char {
    fn show(&self) -> String {
        to_model(*self).to_string()
    }
}
impl Show for &char {
    fn show(&self) -> String {
        (**self).show()
    }
}
impl Show for u8 {
    fn show(&self) -> String {
        from_byte(*self).to_string()
    }
}
impl Show for &str {
    fn show(&self) -> String {
        self.chars().map(to_model).collect()
    }
}
impl Show for &[u8] {
    fn show(&self) -> String {
        self.iter().map(|b| from_byte(*b)).collect()
    }
}
impl<T: Show> Show for &[T] where T: NotByte {
    fn show(&self) -> String {
        self.iter().map(|b| b.show()).collect()
    }
}
pub trait NotByte {}
impl NotByte for char {}
impl NotByte for &char {}

fn info<T: Show, R: Show>(k: &str, i: &Info<T, R>) -> Vec<String> {
    let (t, s) = match i {
        Info::Token(t) => ("t", t.show()),
        Info::Range(r) => ("r", r.show()),
        Info::Owned(s) => ("s", model_str(s)),
        Info::Static(s) => ("s", model_str(s)),
    };
    vec![k.into(), t.into(), s]
}
pub fn item<T: Show, R: Show>(e: &Error<T, R>) -> Vec<String> {
    match e {
        Error::Unexpected(i) => info("U", i),
        Error::Expected(i) => info("E", i),
        Error::Message(i) => info("M", i),
        Error::Other(o) => vec!["O".into(), "s".into(), o.to_string()],
    }
}
pub fn items<T: Show, R: Show, P>(e: &Errors<T, R, P>) -> Vec<Vec<String>> {
    let mut v: Vec<_> = e.errors.iter().map(item).collect();
    v.sort();
    v
}

/// A result in the model's form.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub r: &'static str,
    pub v: Vec<String>,
    pub p: i64,
    pub ep: i64,
    pub es: Vec<Vec<String>>,
}
impl Obs {
    pub fn panic(msg: String) -> Obs {
        Obs { r: "PANIC", v: vec![msg], p: 0, ep: 0, es: vec![] }
    }
    pub fn json(&self, mut o: Value) -> Value {
        let m = o.as_object_mut().unwrap();
        m.insert("r".into(), json!(self.r));
        m.insert("v".into(), json!(self.v));
        m.insert("p".into(), json!(self.p));
        m.insert("ep".into(), json!(self.ep));
        m.insert("es".into(), json!(self.es));
        o
    }
}
pub fn obs<T: Show, R: Show, P>(
    r: ParseResult<crate::val::Val, Errors<T, R, P>>,
    at: i64,
    pos: impl Fn(&P) -> i64,
) -> Obs {
    let ok = |r, v: crate::val::Val| Obs { r, v: v.ser(), p: at, ep: 0, es: vec![] };
    let er = |r, e: Errors<T, R, P>| Obs { r, v: vec![], p: 0, ep: pos(&e.position), es: items(&e) };
    match r {
        ParseResult::CommitOk(v) => ok("CO", v),
        ParseResult::PeekOk(v) => ok("PO", v),
        ParseResult::CommitErr(e) => er("CE", e),
        ParseResult::PeekErr(e) => er("PE", e.error),
    }
}
