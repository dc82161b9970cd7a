//! Decoders on long inputs: messages and reads of thousands of bytes, observed by offsets.
use crate::dec::*;
use cvlib::{obs::*, rng::Rng, watch, Args};
use combine::{
    any,
    parser::{
        byte::{byte, num::be_u16, take_until_byte},
        combinator::{any_send_sync_partial_state, recognize, AnySendSyncPartialState},
        range::{take, take_until_range, take_while1},
        repeat::{count_min_max, many1, repeat_until, skip_many1},
        token::satisfy,
    },
    stream::{
        buf_reader::{BufReader, Bufferless},
        decoder::{Decoder, Error},
        easy, position,
    },
    Parser,
};
use serde_json::{json, Value};

const KINDS: &[&str] = &["until", "many", "recognize", "prefix", "while", "range", "repeat", "count"];
type State = AnySendSyncPartialState;
type P<'a> = Box<dyn Parser<D<'a>, Output = Vec<u8>, PartialState = State> + 'a>;

/// Messages are lines, ended by a newline (or by "\r\n"), or have their length in front.
fn message<'a>(kind: &str) -> P<'a> {
    let no = |b: u8| b != b'\n';
    macro_rules! p {
        ($p: expr) => {
            Box::new(any_send_sync_partial_state($p))
        };
    }
    match kind {
        "until" => p!(take_until_byte(b'\n').map(|x: &[u8]| x.to_vec()).skip(byte(b'\n'))),
        "many" => p!(many1::<Vec<u8>, _, _>(satisfy(no)).skip(byte(b'\n'))),
        "recognize" => p!(recognize((skip_many1(satisfy(no)), byte(b'\n'))).map(|mut x: Vec<u8>| {
            x.pop();
            x
        })),
        "prefix" => p!(be_u16().then_partial(|n| take(*n as usize)).map(|x: &[u8]| x.to_vec())),
        "while" => p!(take_while1(no).map(|x: &[u8]| x.to_vec()).skip(byte(b'\n'))),
        "range" => p!(take_until_range(&b"\r\n"[..]).map(|x: &[u8]| x.to_vec()).skip((byte(b'\r'), byte(b'\n')))),
        "repeat" => p!(repeat_until::<Vec<u8>, _, _, _>(any(), byte(b'\n')).skip(byte(b'\n'))),
        "count" => p!(count_min_max::<Vec<u8>, _, _>(1, 100_000, satisfy(no)).skip(any())),
        x => panic!("kind {}", x),
    }
}

enum Ret {
    Ok(Vec<u8>),
    Err,
    Io,
    Cancel,
    Panic(String),
}
type R = Result<Vec<u8>, Error<(), LineCol>>;
fn lose<T, E>(r: Result<T, Error<E, LineCol>>) -> Result<T, Error<(), LineCol>> {
    r.map_err(|e| match e {
        Error::Parse(_) => Error::Parse(()),
        Error::Io { position, error } => Error::Io { position, error },
    })
}
macro_rules! input {
    () => {
        |input, position| easy::Stream(position::Stream::with_positioner(input, position))
    };
}
macro_rules! session {
    (@ no $($r: tt)*) => {
        panic!("no such decoder")
    };
    (@ all $api: expr, $decoder: ident, $reader: ident, $k: ident, $give_up: ident) => {
        if $api == "sync" {
            Some(lose(combine::decode!($decoder, $reader, message($k), input!())))
        } else {
            run(async { lose(combine::decode_futures_03!($decoder, $reader, message($k), input!())) }, &mut $give_up)
        }
    };
    ($name: ident, $reader: ty, $dec: ty, $newr: expr, $newd: expr, $buf: expr, $more: tt) => {
        fn $name(k: &str, api: &str, script: Script, r: &mut Rng, most: usize, starts: &[usize], cap: usize) -> Vec<Value> {
            let log = script.log.clone();
            let cancel = script.cancel.clone();
            let data = script.data.clone();
            let mut reader: $reader = $newr(script, cap);
            let mut decoder: $dec = $newd();
            let give = r.chance(1, 2);
            let mut rr = Rng(r.next());
            let mut msg = 0;
            for _ in 0..most {
                let ret = guard(|| {
                    let mut give_up = || {
                        *cancel.borrow_mut() = false;
                        give && rr.chance(1, 2)
                    };
                    let x: Option<R> = match api {
                        "sync" | "futures" => session!(@ $more api, decoder, reader, k, give_up),
                        "tokio02" => run(async { lose(combine::decode_tokio_02!(decoder, reader, message(k), input!())) }, &mut give_up),
                        "tokio03" => run(async { lose(combine::decode_tokio_03!(decoder, reader, message(k), input!())) }, &mut give_up),
                        _ => run(async { lose(combine::decode_tokio!(decoder, reader, message(k), input!())) }, &mut give_up),
                    };
                    match x {
                        None => Ret::Cancel,
                        Some(Ok(v)) => Ret::Ok(v),
                        Some(Err(Error::Parse(()))) => Ret::Err,
                        Some(Err(Error::Io { .. })) => Ret::Io,
                    }
                })
                .unwrap_or_else(Ret::Panic);
                // where in the data the message is: the place it should have, else where else it is found
                let mut off = 0;
                let mut len = 0;
                let a = match ret {
                    Ret::Ok(v) => {
                        len = v.len();
                        let s = starts.get(msg).copied().unwrap_or(data.len());
                        msg += 1;
                        if data[s..].starts_with(&v) {
                            off = s as i64;
                        } else {
                            off = data.windows(v.len().max(1)).position(|w| w == &v[..]).map_or(-1, |x| x as i64);
                        }
                        "ok".to_string()
                    }
                    Ret::Err => "err".into(),
                    Ret::Io => "io".into(),
                    Ret::Cancel => "cancel".into(),
                    Ret::Panic(m) => format!("PANIC {}", m),
                };
                let b: &[u8] = $buf(&decoder, &reader);
                let read: usize = log.borrow().iter().filter(|x| x["a"] == "read").map(|x| x["n"].as_u64().unwrap() as usize).sum();
                let held = b.len() <= read && b == &data[read - b.len()..read];
                let p = *decoder.position();
                let stop = a == "err" || a.starts_with("PANIC");
                log.borrow_mut().push(json!({"a": a, "off": off, "len": len, "buf": b.len(), "held": held, "line": p.line, "col": p.column}));
                if stop {
                    break;
                }
            }
            let l = log.borrow().clone();
            l
        }
    };
}
type Db = Decoder<State, LineCol>;
type Dl = Decoder<State, LineCol, Bufferless>;
session!(buffered, Script, Db, |s, _| s, || Decoder::new_buffer(), |d, _| bufd(d), all);
session!(bufferless, BufReader<Script>, Dl, newr, || Decoder::new_bufferless(), |_, r| bufr(r), no);
fn bufd(d: &Db) -> &[u8] {
    d.buffer()
}
fn bufr(r: &BufReader<Script>) -> &[u8] {
    r.buffer()
}
fn newr(s: Script, cap: usize) -> BufReader<Script> {
    match cap {
        0 => BufReader::new(s),
        n => BufReader::with_capacity(n, s),
    }
}
/// Sizes around those at which buffers are filled or grow.
fn size(r: &mut Rng, most: usize) -> usize {
    let s = match r.below(6) {
        0 => r.range(1, 3),
        1 => r.range(1, 70),
        2 => *r.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 8095, 8096, 8097, 8191, 8192, 8193]),
        3 => r.range(200, 3000),
        4 => r.range(3000, 9000),
        _ => r.range(8000, 20000),
    };
    s.min(most)
}
pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let n = a.num("n", 100);
    let faults = a.num("faults", 1) == 1;
    let mut out = a.out();
    for k in 0..n {
        let kind = *r.pick(KINDS);
        let most = if r.chance(1, 3) { 20000 } else { 300 };
        let mut data = vec![];
        let (mut starts, mut ms) = (vec![], vec![]);
        let mut x = r.next() | 1;
        let mut fill = |data: &mut Vec<u8>, n: usize| {
            for _ in 0..n {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                data.push(b'A' + ((x >> 40) % 58) as u8);
            }
        };
        let total = r.range(1, 6);
        for m in 0..total {
            let len = size(&mut r, most);
            let len = if len == 1 && r.chance(1, 2) && ["until", "prefix", "range", "repeat"].contains(&kind) { 0 } else { len };
            if kind == "prefix" {
                data.extend((len as u16).to_be_bytes());
            }
            starts.push(data.len());
            fill(&mut data, len);
            // the last may be cut short
            if m + 1 == total && r.chance(1, 3) {
                let start = starts.pop().unwrap();
                if kind == "prefix" {
                    data.truncate(start.max(1) - 1 + r.below(data.len() - start + 1));
                }
                break;
            }
            match kind {
                "prefix" => (),
                "range" => data.extend(b"\r\n"),
                _ => data.push(b'\n'),
            }
            ms.push(json!({"off": starts[m], "len": len, "end": data.len()}));
        }
        let nl: Vec<usize> = data.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
        let mut evs = std::collections::VecDeque::new();
        for _ in 0..r.range(0, 20) {
            evs.push_back(match r.below(if faults { 6 } else { 4 }) {
                4 => Ev::Fail,
                5 => Ev::Pending,
                0 => Ev::Read(r.range(1, 4)),
                1 => Ev::Read(1),
                _ => Ev::Read(size(&mut r, 20000)),
            });
        }
        let api = APIS[k as usize % APIS.len()];
        let bl = api.starts_with("tokio") && r.chance(1, 2);
        let cap = *r.pick(&[0usize, 1, 3, 16, 64, 1000, 8192, 10000]);
        watch::case(|| json!({"kind": kind, "ms": ms, "total": data.len(), "api": api, "bufferless": bl, "cap": cap, "reader": format!("{:?}", evs)}).to_string());
        let total = data.len();
        let s = Script { data, at: 0, evs, log: Default::default(), cancel: Default::default(), wrote: 0 };
        let most = 40;
        let st = if bl { bufferless(kind, api, s, &mut r, most, &starts, cap) } else { buffered(kind, api, s, &mut r, most, &starts, cap) };
        out.line(json!({"ev": "big", "kind": kind, "api": api, "bufferless": bl, "ms": ms, "total": total, "nl": nl, "st": st}));
    }
    watch::done();
}
