//! Parsers of one token on every token there is, and the fixed size numbers on arbitrary bytes.
use combine::{
    error::{ParseResult, StringStreamError},
    parser::{byte, char as chr, token as tk},
    stream::PartialStream,
    Parser, RangeStream, Stream,
};
use cvlib::{obs::guard, rng::Rng, Args};
use serde_json::{json, Value};

type Class = (&'static str, fn(&[char], &str, &[char]) -> Got);
/// Ok(true): takes the token and yields it; Ok(false): refuses it, leaving the input as it was.
type Got = Result<bool, String>;

/// What a parser of one token does with `t` at the front of a stream.
fn look<I, P>(mut p: P, mut input: I, t: I::Token) -> Got
where
    I: Stream,
    I::Token: PartialEq + Clone + std::fmt::Debug,
    P: Parser<I, Output = I::Token>,
{
    let before = input.checkpoint();
    let r = p.parse_first(&mut input, &mut Default::default());
    judge(r.map(Some), input, before, Some(t))
}
fn unit<I, P>(mut p: P, mut input: I) -> Got
where
    I: Stream,
    I::Token: PartialEq + Clone + std::fmt::Debug,
    P: Parser<I, Output = ()>,
{
    let before = input.checkpoint();
    let r = p.parse_first(&mut input, &mut Default::default());
    judge(r.map(|_| None), input, before, None)
}
fn judge<I>(r: ParseResult<Option<I::Token>, I::Error>, mut input: I, before: I::Checkpoint, t: Option<I::Token>) -> Got
where
    I: Stream,
    I::Token: PartialEq + Clone + std::fmt::Debug,
{
    let mut left = 0;
    let mut shape = "";
    let ok = match r {
        ParseResult::CommitOk(v) | ParseResult::PeekOk(v) => {
            if t.is_some() && v != t {
                return Err(format!("{:?} for {:?}", v, t));
            }
            true
        }
        ParseResult::CommitErr(_) => {
            shape = "committed";
            false
        }
        ParseResult::PeekErr(_) => {
            // a failed parser leaves the stream wherever; its caller resets
            let _ = input.reset(before);
            false
        }
    };
    while input.uncons().is_ok() {
        left += 1;
    }
    match (ok, left, shape) {
        (true, 1, "") => Ok(true),
        (true, 2, "") if t.is_none() => Ok(false),
        (false, 2, "") => Ok(false),
        x => Err(format!("{:?}", x)),
    }
}

macro_rules! chars {
    ($s: ident, $c: ident, $($n: expr => $p: expr,)*) => {
        match $s {
            $($n => {
                let st: String = [$c, '~'].iter().collect();
                let a = look($p, &st[..], $c);
                let b = look_entry($p, &st[..], $c);
                if a == b { a } else { Err(format!("{:?} but by parse() {:?}", a, b)) }
            })*
            x => panic!("class {}", x),
        }
    };
}
/// the same through the usual entry point
fn look_entry<'a>(mut p: impl Parser<&'a str, Output = char>, st: &'a str, t: char) -> Got {
    match p.parse(st) {
        Ok((x, "~")) if x == t => Ok(true),
        Ok(x) => Err(format!("{:?}", x)),
        Err(StringStreamError::UnexpectedParse) => Ok(false),
        Err(e) => Err(format!("{:?}", e)),
    }
}
fn char_class(name: &str, c: char, a: &[char]) -> Got {
    let lo = a.first().copied().unwrap_or('a');
    let hi = a.last().copied().unwrap_or('a');
    match name {
        "spaces" => {
            let st: String = [c, '~'].iter().collect();
            return unit(chr::spaces(), &st[..]);
        }
        "crlf" => {
            let mut hits = vec![];
            for st in [format!("\r{}", c), format!("{}\n", c)] {
                let mut i = &st[..];
                match chr::crlf().parse_first(&mut i, &mut ()) {
                    ParseResult::CommitOk('\n') if i.is_empty() => hits.push(true),
                    ParseResult::CommitErr(_) | ParseResult::PeekErr(_) => hits.push(false),
                    x => return Err(format!("{:?} {:?}", x, i)),
                }
            }
            return match &hits[..] {
                [true, false] if c == '\n' => Ok(true),
                [false, true] if c == '\r' => Ok(true),
                [false, false] => Ok(false),
                x => Err(format!("{:?}", x)),
            };
        }
        _ => (),
    }
    chars!(name, c,
        "digit" => chr::digit(),
        "space" => chr::space(),
        "newline" => chr::newline(),
        "tab" => chr::tab(),
        "upper" => chr::upper(),
        "lower" => chr::lower(),
        "alpha_num" => chr::alpha_num(),
        "letter" => chr::letter(),
        "oct_digit" => chr::oct_digit(),
        "hex_digit" => chr::hex_digit(),
        "char" => chr::char(lo),
        "token" => tk::token(lo),
        "any" => tk::any(),
        "one_of" => tk::one_of(a.iter().copied()),
        "one_of3" => tk::one_of([lo, a.get(1).copied().unwrap_or(lo), hi]),
        "none_of" => tk::none_of(a.iter().copied()),
        "satisfy" => tk::satisfy(move |x: char| lo <= x && x <= hi),
        "satisfy_map" => tk::satisfy_map(move |x: char| if lo <= x && x <= hi { Some(x) } else { None }),
    )
}
macro_rules! bytesm {
    ($s: ident, $c: ident, $($n: expr => $p: expr,)*) => {
        match $s {
            $($n => {
                let v = [$c, b'~'];
                let a = look($p, &v[..], $c);
                let b = look($p, PartialStream(&v[..]), $c);
                if a == b { a } else { Err(format!("{:?} but on a partial stream {:?}", a, b)) }
            })*
            x => panic!("class {}", x),
        }
    };
}
fn byte_class(name: &str, c: u8, a: &[u8]) -> Got {
    let lo = a.first().copied().unwrap_or(b'a');
    let hi = a.last().copied().unwrap_or(b'a');
    match name {
        "spaces" => return unit(byte::spaces(), &[c, b'~'][..]),
        "crlf" => {
            let mut hits = vec![];
            for st in [[b'\r', c], [c, b'\n']] {
                let mut i = &st[..];
                match byte::crlf().parse_first(&mut i, &mut ()) {
                    ParseResult::CommitOk(b'\n') if i.is_empty() => hits.push(true),
                    ParseResult::CommitErr(_) | ParseResult::PeekErr(_) => hits.push(false),
                    x => return Err(format!("{:?} {:?}", x, i)),
                }
            }
            return match &hits[..] {
                [true, false] if c == b'\n' => Ok(true),
                [false, true] if c == b'\r' => Ok(true),
                [false, false] => Ok(false),
                x => Err(format!("{:?}", x)),
            };
        }
        _ => (),
    }
    bytesm!(name, c,
        "digit" => byte::digit(),
        "space" => byte::space(),
        "newline" => byte::newline(),
        "tab" => byte::tab(),
        "upper" => byte::upper(),
        "lower" => byte::lower(),
        "alpha_num" => byte::alpha_num(),
        "letter" => byte::letter(),
        "oct_digit" => byte::oct_digit(),
        "hex_digit" => byte::hex_digit(),
        "char" => byte::byte(lo),
        "token" => tk::token(lo),
        "any" => tk::any(),
        "one_of" => tk::one_of(a.iter().copied()),
        "one_of3" => tk::one_of([lo, a.get(1).copied().unwrap_or(lo), hi]),
        "none_of" => tk::none_of(a.iter().copied()),
        "satisfy" => tk::satisfy(move |x: u8| lo <= x && x <= hi),
        "satisfy_map" => tk::satisfy_map(move |x: u8| if lo <= x && x <= hi { Some(x) } else { None }),
    )
}
const CLASSES: &[&str] = &[
    "digit", "space", "spaces", "newline", "crlf", "tab", "upper", "lower", "alpha_num", "letter", "oct_digit",
    "hex_digit", "any",
];
const GIVEN: &[&str] = &["char", "token", "one_of", "one_of3", "none_of", "satisfy", "satisfy_map"];

/// Maximal ranges of the accepted tokens; surrogates, which are no `char`, count as the one before.
fn ranges(top: u32, f: impl Fn(u32) -> Option<Got>) -> (Vec<[u32; 2]>, Vec<Value>) {
    let mut rs: Vec<[u32; 2]> = vec![];
    let mut odd = vec![];
    let mut open = false;
    for c in 0..=top {
        match f(c) {
            None => {
                if open {
                    rs.last_mut().unwrap()[1] = c;
                }
            }
            Some(Ok(true)) => {
                if open {
                    rs.last_mut().unwrap()[1] = c;
                } else {
                    rs.push([c, c]);
                }
                open = true;
            }
            Some(Ok(false)) => open = false,
            Some(Err(e)) => {
                open = false;
                if odd.len() < 5 {
                    odd.push(json!([c, e]));
                }
            }
        }
    }
    (rs, odd)
}
fn line(kind: &str, name: &str, top: u32, a: &[u32]) -> Value {
    let run = || {
        if kind == "byte" {
            let a: Vec<u8> = a.iter().map(|x| *x as u8).collect();
            ranges(top, |c| Some(byte_class(name, c as u8, &a)))
        } else {
            let a: Vec<char> = a.iter().map(|x| char::from_u32(*x).unwrap()).collect();
            ranges(top, |c| char::from_u32(c).map(|c| char_class(name, c, &a)))
        }
    };
    let (rs, odd) = match guard(run) {
        Ok(x) => x,
        Err(e) => (vec![], vec![json!([0, format!("{:?}", e)])]),
    };
    // what the tables of the standard library say, where the parser is defined by them
    let std = |f: fn(char) -> bool| ranges(top, |c| char::from_u32(c).map(|c| Ok(f(c)))).0;
    let by = match (kind, name) {
        ("char", "upper") => std(char::is_uppercase),
        ("char", "lower") => std(char::is_lowercase),
        ("char", "letter") => std(char::is_alphabetic),
        ("char", "alpha_num") => std(char::is_alphanumeric),
        _ => vec![],
    };
    json!({"u": "class", "k": kind, "c": name, "top": top, "a": a, "rs": rs, "odd": odd, "std": by})
}

macro_rules! nums {
    ($name: ident, $bs: ident, $part: ident, $($t: ident $($f: ident)*,)*) => {
        match $name {
            $($(stringify!($f) => {
                let mut i = &$bs[..];
                let got = if $part {
                    let mut s = PartialStream(i);
                    let r = number_of(byte::num::$f(), &mut s);
                    i = s.0;
                    r
                } else {
                    number_of(byte::num::$f(), &mut i)
                };
                let (ok, v) = match got { Ok(v) => ("ok", v.to_be_bytes().to_vec()), Err(e) => (e, vec![]) };
                (ok, v, i.len(), std::mem::size_of::<$t>())
            })*)*
            x => panic!("number {}", x),
        }
    };
}
fn number_of<'a, I, P>(mut p: P, i: &mut I) -> Result<P::Output, &'static str>
where
    I: RangeStream<Token = u8, Range = &'a [u8]>,
    P: Parser<I>,
{
    match p.parse_first(i, &mut Default::default()) {
        ParseResult::CommitOk(v) => Ok(v),
        ParseResult::PeekOk(_) => Err("peekok"),
        ParseResult::CommitErr(_) => Err("committed"),
        ParseResult::PeekErr(_) => Err("err"),
    }
}
fn number(r: &mut Rng) -> Value {
    let (name, size) = *r.pick(cvlib::gen::NUMS);
    let n = if r.chance(1, 3) { r.below(size + 1) } else { size + r.below(3) };
    let bs: Vec<u8> = (0..n)
        .map(|_| match r.below(4) {
            0 => *r.pick(&[0u8, 0xff, 0x80, 0x7f, 1, 0xfe]),
            _ => r.below(256) as u8,
        })
        .collect();
    let part = r.chance(1, 2);
    let run = || {
        nums!(name, bs, part, u16 be_u16 le_u16, u32 be_u32 le_u32, u64 be_u64 le_u64, i16 be_i16 le_i16,
              i32 be_i32 le_i32, i64 be_i64 le_i64, f32 be_f32 le_f32, f64 be_f64 le_f64,)
    };
    let (ok, v, left, size) = guard(run).unwrap_or(("PANIC", vec![], 0, 0));
    json!({"u": "num", "big": name.starts_with("be"), "c": name, "bs": bs, "part": part, "r": ok, "v": v, "left": left, "size": size})
}

pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let n = a.num("n", 100);
    let mut out = a.out();
    let mut put = |v: Value| out.line(v);
    if a.str("what", "class") == "num" {
        for _ in 0..n {
            put(number(&mut r));
        }
        return;
    }
    // every class on every token, once
    let jobs: Vec<_> = CLASSES
        .iter()
        .flat_map(|c| {
            vec![
                std::thread::spawn(move || line("byte", c, 255, &[])),
                std::thread::spawn(move || line("char", c, 0x10ffff, &[])),
            ]
        })
        .collect();
    let mut lines = 0;
    for j in jobs {
        put(j.join().unwrap());
        lines += 1;
    }
    // the parsers which are given the tokens, with random ones
    while lines < n {
        let kind = *r.pick(&["byte", "char"]);
        let name = *r.pick(GIVEN);
        let top = if kind == "byte" { 255 } else { 0x7ff };
        let k = match name {
            "char" | "token" => 1,
            "satisfy" | "satisfy_map" => 2,
            "one_of3" => 3,
            _ => r.below(6),
        };
        let mut v: Vec<u32> = (0..k)
            .map(|_| if r.chance(1, 4) { *r.pick(&[0, 0x7f, 0x80, 0xff]) } else { r.below(top as usize + 1) as u32 })
            .collect();
        if k > 1 && r.chance(1, 4) {
            v[1] = (v[0] + 1).min(top);
        }
        if name.starts_with("satisfy") {
            v.sort();
        }
        put(line(kind, name, top, &v));
        lines += 1;
    }
}
