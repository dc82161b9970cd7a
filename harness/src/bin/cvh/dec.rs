//! Decoders on readers which deliver their input in pieces, fail and block.
use crate::rec::*;
use cvlib::{ast::*, build::*, obs::*, rng::Rng, watch, Args};
use combine::{
    stream::{
        buf_reader::BufReader,
        decoder::{Decoder, Error},
        easy, position,
        position::{Positioner, RangePositioner},
        MaybePartialStream, Positioned,
    },
    StreamOnce,
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    future::Future,
    io,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
};

/// Lines and columns, also of ranges of bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct LineCol {
    pub line: u32,
    pub column: u32,
}
impl PosShow for LineCol {
    fn show(&self) -> String {
        format!("{}:{}", self.line, self.column)
    }
}
impl Default for LineCol {
    fn default() -> Self {
        LineCol { line: 1, column: 1 }
    }
}
impl Positioner<u8> for LineCol {
    type Position = Self;
    type Checkpoint = Self;
    fn position(&self) -> Self {
        *self
    }
    fn update(&mut self, t: &u8) {
        *self = if *t == b'\n' {
            LineCol { line: self.line + 1, column: 1 }
        } else {
            LineCol { line: self.line, column: self.column + 1 }
        }
    }
    fn checkpoint(&self) -> Self {
        *self
    }
    fn reset(&mut self, c: Self) {
        *self = c
    }
}
impl RangePositioner<u8, &'_ [u8]> for LineCol {
    fn update_range(&mut self, r: &&[u8]) {
        r.iter().for_each(|t| self.update(t))
    }
}

pub type D<'a> = easy::Stream<position::Stream<MaybePartialStream<&'a [u8]>, LineCol>>;

#[derive(Clone, Debug)]
pub enum Ev {
    Read(usize),
    Fail,
    Pending,
}
/// What the reader did, and what it will do.
pub struct Script {
    pub data: Vec<u8>,
    pub at: usize,
    pub evs: std::collections::VecDeque<Ev>,
    pub log: Rc<RefCell<Vec<Value>>>,
    pub cancel: Rc<RefCell<bool>>,
    pub wrote: usize,
}
enum Did {
    Got(usize),
    Failed,
    Blocked,
}
impl Script {
    fn go(&mut self, buf: &mut [u8], can_block: bool) -> Did {
        let e = loop {
            match self.evs.pop_front() {
                Some(Ev::Pending) if !can_block => continue,
                Some(e) => break e,
                None => break Ev::Read(usize::MAX),
            }
        };
        let mut log = self.log.borrow_mut();
        match e {
            Ev::Read(n) => {
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.at);
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                log.push(json!({"a": "read", "n": n, "room": buf.len() > 0}));
                Did::Got(n)
            }
            Ev::Fail => {
                log.push(json!({"a": "fail"}));
                Did::Failed
            }
            Ev::Pending => {
                log.push(json!({"a": "pending"}));
                *self.cancel.borrow_mut() = true;
                Did::Blocked
            }
        }
    }
}
fn oops() -> io::Error {
    io::Error::new(io::ErrorKind::Interrupted, "oops")
}
impl io::Read for Script {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.go(buf, false) {
            Did::Got(n) => Ok(n),
            _ => Err(oops()),
        }
    }
}
macro_rules! poll_len {
    ($t: path) => {
        impl $t for Script {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                match self.go(buf, true) {
                    Did::Got(n) => Poll::Ready(Ok(n)),
                    Did::Failed => Poll::Ready(Err(oops())),
                    Did::Blocked => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                }
            }
        }
    };
}
poll_len!(futures::io::AsyncRead);
poll_len!(tokio_02::io::AsyncRead);
macro_rules! poll_buf {
    ($t: path, $b: ty) => {
        impl $t for Script {
            fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut $b) -> Poll<io::Result<()>> {
                match self.go(buf.initialize_unfilled(), true) {
                    Did::Got(n) => {
                        buf.advance(n);
                        Poll::Ready(Ok(()))
                    }
                    Did::Failed => Poll::Ready(Err(oops())),
                    Did::Blocked => {
                        cx.waker().wake_by_ref();
                        Poll::Pending
                    }
                }
            }
        }
    };
}
poll_buf!(tokio_03::io::AsyncRead, tokio_03::io::ReadBuf<'_>);
poll_buf!(tokio::io::AsyncRead, tokio::io::ReadBuf<'_>);

pub fn waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &V)
    }
    fn nop(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}
/// Polls to the end, or gives up (dropping the future) where it blocks.
pub fn run<F: Future>(f: F, give_up: &mut dyn FnMut() -> bool) -> Option<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending => {
                if give_up() {
                    return None;
                }
            }
        }
    }
}

enum Ret {
    Ok(Vec<String>),
    Err,
    Io,
    Cancel,
    Panic(String),
}
pub const APIS: &[&str] = &["sync", "futures", "tokio02", "tokio03", "tokio"];

type R = Result<cvlib::val::Val, Error<(), LineCol>>;
fn fix<E>(r: Result<cvlib::val::Val, Error<E, LineCol>>) -> R {
    r.map_err(|e| match e {
        Error::Parse(_) => Error::Parse(()),
        Error::Io { position, error } => Error::Io { position, error },
    })
}
macro_rules! parser {
    ($g: expr) => {
        build::<D<'_>, RangeExt>($g)
    };
}
macro_rules! input {
    () => {
        |input, position| easy::Stream(position::Stream::with_positioner(input, position))
    };
}
macro_rules! session {
    (@ no $($r: tt)*) => {
        panic!("no such decoder")
    };
    (@ all $api: expr, $decoder: ident, $reader: ident, $g: ident, $give_up: ident) => {
        if $api == "sync" {
            Some(fix(combine::decode!($decoder, $reader, parser!($g), input!()).map_err(|e| lose(e))))
        } else {
            run(
                async { fix(combine::decode_futures_03!($decoder, $reader, parser!($g), input!()).map_err(|e| lose(e))) },
                &mut $give_up,
            )
        }
    };
    ($name: ident, $reader: ty, $dec: ty, $newr: expr, $newd: expr, $buf: expr, $($more: tt)*) => {
        fn $name(g: &G, api: &str, script: Script, r: &mut Rng, most: usize) -> Vec<Value> {
            let log = script.log.clone();
            let cancel = script.cancel.clone();
            let mut reader: $reader = $newr(script);
            let mut decoder: $dec = $newd();
            let give = r.chance(1, 2);
            let mut rr = Rng(r.next());
            for _ in 0..most {
                let ret = guard(|| {
                    let mut give_up = || {
                        *cancel.borrow_mut() = false;
                        give && rr.chance(1, 2)
                    };
                    let x: Option<R> = match api {
                        "sync" | "futures" => session!(@ $($more)* api, decoder, reader, g, give_up),
                        "tokio02" => run(
                            async { fix(combine::decode_tokio_02!(decoder, reader, parser!(g), input!()).map_err(|e| lose(e))) },
                            &mut give_up,
                        ),
                        "tokio03" => run(
                            async { fix(combine::decode_tokio_03!(decoder, reader, parser!(g), input!()).map_err(|e| lose(e))) },
                            &mut give_up,
                        ),
                        _ => run(
                            async { fix(combine::decode_tokio!(decoder, reader, parser!(g), input!()).map_err(|e| lose(e))) },
                            &mut give_up,
                        ),
                    };
                    match x {
                        None => Ret::Cancel,
                        Some(Ok(v)) => Ret::Ok(v.ser()),
                        Some(Err(Error::Parse(()))) => Ret::Err,
                        Some(Err(Error::Io { .. })) => Ret::Io,
                    }
                })
                .unwrap_or_else(Ret::Panic);
                let (a, v) = match ret {
                    Ret::Ok(v) => ("ok", v),
                    Ret::Err => ("err", vec![]),
                    Ret::Io => ("io", vec![]),
                    Ret::Cancel => ("cancel", vec![]),
                    Ret::Panic(m) => ("PANIC", vec![m]),
                };
                let b: &[u8] = $buf(&decoder, &reader);
                let b: Vec<String> = b.iter().map(|c| from_byte(*c).to_string()).collect();
                let p = *decoder.position();
                log.borrow_mut().push(json!({"a": a, "v": v, "buf": b, "line": p.line, "col": p.column}));
                if a == "err" || a == "PANIC" {
                    break;
                }
            }
            let l = log.borrow().clone();
            l
        }
    };
}
/// Drops what borrows the buffer.
fn lose<E>(e: Error<E, LineCol>) -> Error<(), LineCol> {
    match e {
        Error::Parse(_) => Error::Parse(()),
        Error::Io { position, error } => Error::Io { position, error },
    }
}
type Db = Decoder<DynState, LineCol>;
type Dl = Decoder<DynState, LineCol, combine::stream::buf_reader::Bufferless>;
session!(buffered, Script, Db, |s| s, || Decoder::new_buffer(), |d, _| bufd(d), all);
session!(bufferless, BufReader<Script>, Dl, newr, || Decoder::new_bufferless(), |_, r| bufr(r), no);
fn bufd(d: &Db) -> &[u8] {
    d.buffer()
}
fn bufr(r: &BufReader<Script>) -> &[u8] {
    r.buffer()
}
thread_local!(static CAP: RefCell<usize> = const { RefCell::new(0) });
fn newr(s: Script) -> BufReader<Script> {
    match CAP.with(|c| *c.borrow()) {
        0 => BufReader::new(s),
        n => BufReader::with_capacity(n, s),
    }
}

pub fn record(a: &Args) {
    let (mut r, pr) = setup(a);
    let n = a.num("n", 1000);
    let max = a.num("max", 7) as usize;
    let faults = a.num("faults", 1) == 1;
    let long = a.num("long", 0) as usize;
    let mut out = a.out();
    for k in 0..n {
        let g = grammar(&mut r, &pr, max, &["eof"]);
        let mut input: Vec<char> = vec![];
        for _ in 0..r.range(1, 3) {
            input.extend(pr.input(&mut r, &g, 6));
        }
        // now and then a newline, which positions count
        if r.chance(1, 3) && !input.is_empty() {
            let i = r.below(input.len());
            input[i] = '\n';
        }
        if long > 0 && r.chance(1, 3) {
            let c = pr.ch(&mut r);
            let at = r.below(input.len() + 1);
            for _ in 0..r.range(long / 2, long) {
                input.insert(at, c);
            }
        }
        let mut evs = std::collections::VecDeque::new();
        for _ in 0..r.range(0, 8) {
            evs.push_back(match r.below(if faults { 5 } else { 3 }) {
                3 => Ev::Fail,
                4 => Ev::Pending,
                0 => Ev::Read(r.range(1, 4)),
                _ => Ev::Read(1),
            });
        }
        let api = APIS[k as usize % APIS.len()];
        let bl = api.starts_with("tokio") && r.chance(1, 2);
        CAP.with(|c| *c.borrow_mut() = *[0usize, 1, 3, 16].get(r.below(4)).unwrap());
        watch::case(|| json!({"g": g, "i": input, "api": api, "bufferless": bl, "reader": format!("{:?}", evs)}).to_string());
        let s = Script {
            data: real_bytes(&input),
            at: 0,
            evs,
            log: Default::default(),
            cancel: Default::default(),
            wrote: 0,
        };
        let most = 8;
        let st = if bl { bufferless(&g, api, s, &mut r, most) } else { buffered(&g, api, s, &mut r, most) };
        out.line(json!({"ev": "dec", "api": api, "bufferless": bl, "g": g, "b": true, "i": input, "st": st}));
    }
    watch::done();
    let _ = |d: D<'_>| (d.position(), d.is_partial());
}
