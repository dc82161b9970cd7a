//! The buffered reader on readers which deliver in pieces, fail and block.
use crate::dec::*;
use cvlib::{obs::*, rng::Rng, watch, Args};
use combine::stream::{
    buf_reader::BufReader,
    decoder::{Decoder, Error},
};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{self, BufRead, Read},
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};

/// A script that can also be written to, in pieces.
macro_rules! writer {
    ($($t: tt)*) => {
        impl $($t)*::AsyncWrite for Script {
            fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                self.put(b)
            }
            fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.note("flush")
            }
            fn poll_shutdown(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.note("shutdown")
            }
        }
    };
}
writer!(tokio_02::io);
writer!(tokio_03::io);
writer!(tokio::io);
impl Script {
    fn put(&mut self, b: &[u8]) -> Poll<io::Result<usize>> {
        // a third of the writes block or fail, others take a part
        let k = (self.data.len() * 7 + self.at * 5 + b.len() * 3 + self.log.borrow().len() + self.wrote) % 9;
        self.wrote += 1;
        match k {
            0 => {
                self.log.borrow_mut().push(json!({"a": "wpend"}));
                Poll::Pending
            }
            1 => {
                self.log.borrow_mut().push(json!({"a": "wfail"}));
                Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "no")))
            }
            k => {
                let n = b.len().min(k);
                self.log.borrow_mut().push(json!({"a": "wrote", "v": &b[..n]}));
                Poll::Ready(Ok(n))
            }
        }
    }
    fn note(&mut self, what: &str) -> Poll<io::Result<()>> {
        self.wrote += 1;
        let k = self.wrote % 4;
        self.log.borrow_mut().push(json!({"a": what, "k": k}));
        match k {
            0 => Poll::Pending,
            1 => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "no"))),
            _ => Poll::Ready(Ok(())),
        }
    }
}

/// What an operation gave.
enum A {
    Ok(Vec<u8>),
    N(usize),
    Err,
    Pend,
}
fn bytes(p: Poll<io::Result<Vec<u8>>>) -> A {
    match p {
        Poll::Ready(Ok(v)) => A::Ok(v),
        Poll::Ready(Err(_)) => A::Err,
        Poll::Pending => A::Pend,
    }
}
fn count(p: Poll<io::Result<usize>>) -> A {
    match p {
        Poll::Ready(Ok(n)) => A::N(n),
        Poll::Ready(Err(_)) => A::Err,
        Poll::Pending => A::Pend,
    }
}
type B = BufReader<Script>;
trait Api {
    fn read(&self, b: &mut B, n: usize) -> A;
    fn fill(&self, b: &mut B) -> A;
    fn consume(&self, b: &mut B, n: usize);
    fn write(&self, _: &mut B, _: &[u8], _buf: bool) -> A {
        A::Err
    }
    fn flush(&self, _: &mut B, _shutdown: bool) -> A {
        A::Err
    }
    fn decode(&self, _: &mut B, _: usize) -> A {
        A::Err
    }
}
struct Sync;
impl Api for Sync {
    fn read(&self, b: &mut B, n: usize) -> A {
        let mut v = vec![0xAA; n];
        bytes(Poll::Ready(Read::read(b, &mut v).map(|k| {
            v.truncate(k);
            v
        })))
    }
    fn fill(&self, b: &mut B) -> A {
        bytes(Poll::Ready(b.fill_buf().map(|x| x.to_vec())))
    }
    fn consume(&self, b: &mut B, n: usize) {
        BufRead::consume(b, n)
    }
}
macro_rules! api {
    ($name: ident, $($m: ident)::*, $decode: ident, $read: expr, $wbuf: expr) => {
        struct $name;
        impl Api for $name {
            fn read(&self, b: &mut B, n: usize) -> A {
                let w = waker();
                bytes($read(Pin::new(b), &mut Context::from_waker(&w), n))
            }
            fn fill(&self, b: &mut B) -> A {
                let w = waker();
                bytes($($m)::*::AsyncBufRead::poll_fill_buf(Pin::new(b), &mut Context::from_waker(&w)).map(|r| r.map(|x| x.to_vec())))
            }
            fn consume(&self, b: &mut B, n: usize) {
                $($m)::*::AsyncBufRead::consume(Pin::new(b), n)
            }
            fn write(&self, b: &mut B, v: &[u8], buf: bool) -> A {
                let w = waker();
                let cx = &mut Context::from_waker(&w);
                if buf {
                    count($wbuf(Pin::new(b), cx, v))
                } else {
                    count($($m)::*::AsyncWrite::poll_write(Pin::new(b), cx, v))
                }
            }
            fn flush(&self, b: &mut B, shutdown: bool) -> A {
                let w = waker();
                let cx = &mut Context::from_waker(&w);
                let r = if shutdown {
                    $($m)::*::AsyncWrite::poll_shutdown(Pin::new(b), cx)
                } else {
                    $($m)::*::AsyncWrite::poll_flush(Pin::new(b), cx)
                };
                count(r.map(|r| r.map(|_| 0)))
            }
            fn decode(&self, b: &mut B, n: usize) -> A {
                let mut d: Decoder<(), LineCol, combine::stream::buf_reader::Bufferless> = Decoder::new_bufferless();
                let r = run(
                    async {
                        combine::$decode!(d, *b, combine::parser::range::take::<D<'_>>(n).map(|x: &[u8]| x.to_vec()), |input, position| {
                            combine::easy::Stream(combine::stream::position::Stream::with_positioner(input, position))
                        })
                        .map_err(|e| match e {
                            Error::Parse(_) => false,
                            Error::Io { .. } => true,
                        })
                    },
                    &mut || true,
                );
                match r {
                    None => A::Pend,
                    Some(Ok(v)) => A::Ok(v),
                    Some(Err(true)) => A::Err,
                    Some(Err(false)) => A::N(0),
                }
            }
        }
    };
}
use combine::Parser;
api!(T02, tokio_02::io, decode_tokio_02,
    |b: Pin<&mut B>, cx: &mut Context<'_>, n: usize| {
        let mut v = vec![0xAA; n];
        tokio_02::io::AsyncRead::poll_read(b, cx, &mut v).map(|r| r.map(|k| { v.truncate(k); v }))
    },
    |b: Pin<&mut B>, cx: &mut Context<'_>, v: &[u8]| tokio_02::io::AsyncWrite::poll_write_buf(b, cx, &mut &v[..]));
macro_rules! read_buf {
    ($m: ident) => {
        |b: Pin<&mut B>, cx: &mut Context<'_>, n: usize| {
            // a buffer that already has something in it
            let mut v = vec![0xAA; n + 2];
            let mut rb = $m::io::ReadBuf::new(&mut v);
            rb.put_slice(&[1, 2]);
            $m::io::AsyncRead::poll_read(b, cx, &mut rb).map(|r| r.map(|_| rb.filled()[2..].to_vec()))
        }
    };
}
api!(T03, tokio_03::io, decode_tokio_03, read_buf!(tokio_03),
    |b: Pin<&mut B>, cx: &mut Context<'_>, v: &[u8]| tokio_03::io::AsyncWrite::poll_write(b, cx, v));
api!(T1, tokio::io, decode_tokio, read_buf!(tokio),
    |b: Pin<&mut B>, cx: &mut Context<'_>, v: &[u8]| tokio::io::AsyncWrite::poll_write_vectored(b, cx, &[io::IoSlice::new(v)]));

fn session(api: &dyn Api, sync: bool, r: &mut Rng, long: usize) -> Value {
    let len = if r.chance(1, 6) { r.below(long) } else { r.below(20) };
    let src: Vec<u8> = (0..len).map(|_| r.below(256) as u8).collect();
    let most = if long > 0 && r.chance(1, 4) { 40 } else { 5 };
    let evs = (0..r.range(2, 24))
        .map(|_| match r.below(8) {
            0 => Ev::Fail,
            1 | 2 => Ev::Pending,
            _ => Ev::Read(r.range(1, most)),
        })
        .collect();
    let log = Rc::new(RefCell::new(vec![]));
    let script = Script { data: src.clone(), at: 0, evs, log: log.clone(), cancel: Rc::new(RefCell::new(false)), wrote: r.below(9) };
    let cap = *r.pick(&[0, 1, 2, 3, 8, 64, 65, 8096]);
    let mut b = if cap == 8096 { BufReader::new(script) } else { BufReader::with_capacity(cap, script) };
    let mut st = vec![];
    for _ in 0..r.range(4, 24) {
        log.borrow_mut().clear();
        let (op, n, ans) = match r.below(if sync { 10 } else { 16 }) {
            0..=3 => {
                let n = *r.pick(&[0, 1, 2, 3, 5, 8, 40, 100]);
                ("read", n, api.read(&mut b, n))
            }
            4..=6 => ("fill", 0, api.fill(&mut b)),
            7 | 8 => {
                let k = r.range(0, b.buffer().len());
                api.consume(&mut b, k);
                ("consume", k, A::N(k))
            }
            9 => ("buffer", 0, A::Ok(b.buffer().to_vec())),
            10 | 11 => {
                let n = *r.pick(&[0, 1, 2, 4, 9, 70]);
                ("decode", n, api.decode(&mut b, n))
            }
            12 | 13 => {
                let n = r.below(12);
                let v: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
                let a = api.write(&mut b, &v, r.chance(1, 2));
                let (x, k) = match a {
                    A::N(k) => ("n", k),
                    A::Err => ("err", 0),
                    A::Pend => ("pend", 0),
                    A::Ok(_) => ("?", 0),
                };
                let ev = log.borrow().clone();
                st.push(json!({"op": "write", "n": n, "v": v, "r": x, "k": k, "in": ev, "at": b.get_ref().at, "buf": b.buffer()}));
                continue;
            }
            14 => ("flush", 0, api.flush(&mut b, false)),
            _ => ("shutdown", 0, api.flush(&mut b, true)),
        };
        let (x, v, k) = match ans {
            A::Ok(v) => ("ok", v, 0),
            A::N(k) => ("n", vec![], k),
            A::Err => ("err", vec![], 0),
            A::Pend => ("pend", vec![], 0),
        };
        let ev = log.borrow().clone();
        st.push(json!({"op": op, "n": n, "r": x, "v": v, "k": k, "in": ev, "at": b.get_ref().at, "buf": b.buffer()}));
    }
    // the reader that comes out is the one that went in
    let at = if r.chance(1, 2) { b.get_mut().at } else { b.into_inner().at };
    json!({"src": src, "cap": cap, "st": st, "end": at})
}

pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xB0F5);
    let n = a.num("n", 1000);
    let long = a.num("long", 300) as usize;
    let mut out = a.out();
    let apis: [(&str, &dyn Api); 4] = [("sync", &Sync), ("tokio02", &T02), ("tokio03", &T03), ("tokio", &T1)];
    for k in 0..n {
        let (name, api) = apis[k as usize % 4];
        watch::case(|| json!({"api": name, "case": k}).to_string());
        let mut v = guard(|| session(api, name == "sync", &mut r, long))
            .unwrap_or_else(|m| json!({"src": [], "cap": 0, "st": [{"op": "PANIC", "n": 0, "r": m, "v": [], "k": k, "in": [], "at": 0, "buf": []}], "end": 0}));
        v["api"] = json!(name);
        out.line(v);
    }
    watch::done();
}
