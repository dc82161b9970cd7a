//! Parses of one grammar and input on many kinds of stream.
use combine::{
    error::{ParseResult, StringStreamError, UnexpectedParse},
    stream::{
        buffered, easy,
        position::{self, SourcePosition},
        read, span, state, IteratorStream, MaybePartialStream, PartialStream, SliceStream,
    },
    Parser, Stream,
};
use cvlib::{
    ast::*,
    build::*,
    gen::Prof,
    obs::*,
    prof::{focus, prof},
    rng::Rng,
    watch, Args,
};
use serde_json::json;

/// What can be told of an error.
pub trait ErrObs {
    fn at(&self) -> String;
    fn items(&self) -> Vec<Vec<String>>;
}
impl<T: Show, R: Show, P: PosShow> ErrObs for easy::Errors<T, R, P> {
    fn at(&self) -> String {
        self.position.show()
    }
    fn items(&self) -> Vec<Vec<String>> {
        items(self)
    }
}
macro_rules! plain {
    ($($t: ty),*) => { $(impl ErrObs for $t {
        fn at(&self) -> String {
            "none".into()
        }
        fn items(&self) -> Vec<Vec<String>> {
            vec![]
        }
    })* };
}
plain!(UnexpectedParse, StringStreamError, read::Error);

fn go<I, X>(g: &'static G, partial: bool, mut s: I) -> serde_json::Value
where
    I: Stream + 'static,
    I::Token: Tok,
    I::Position: PosShow,
    I::Error: ErrObs,
    X: Ext<'static, I> + 'static,
{
    let r = guard(|| {
        let mut p = build::<I, X>(g);
        let r = if partial {
            let mut st = DynState::default();
            p.parse_stream_partial(&mut s, &mut st)
        } else {
            p.parse_stream(&mut s)
        };
        (r, s.position().show())
    });
    let ok = |r, v: cvlib::val::Val, q| json!({"r": r, "v": v.ser(), "q": q, "ep": "", "es": []});
    let err = |r, e: I::Error| json!({"r": r, "v": [], "q": "", "ep": e.at(), "es": e.items()});
    match r {
        Err(m) => json!({"r": "PANIC", "v": [m], "q": "", "ep": "", "es": []}),
        Ok((ParseResult::CommitOk(v), q)) => ok("CO", v, q),
        Ok((ParseResult::PeekOk(v), q)) => ok("PO", v, q),
        Ok((ParseResult::CommitErr(e), _)) => err("CE", e),
        Ok((ParseResult::PeekErr(e), _)) => err("PE", e.error),
    }
}
type Es<P> = easy::Errors<char, &'static str, P>;
type Eb<P> = easy::Errors<u8, &'static [u8], P>;

/// A reader which gives a few bytes at a time, and is interrupted now and then.
pub struct Slow(pub &'static [u8], pub Rng);
impl std::io::Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1.chance(1, 4) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.0.len()).min(self.1.range(1, 3));
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// name, ranges, partial input possible, how positions are written
pub const TEXT: &[(&str, bool, bool, &str)] = &[
    ("str", true, false, "off"),
    ("easy str", true, true, "off"),
    ("pos str", true, true, "lc"),
    ("easy pos str", true, true, "lc"),
    ("state easy pos str", true, true, "lc"),
    ("mut easy pos str", true, true, "lc"),
    ("span easy pos str", true, true, "slc"),
    ("span easy str, UnexpectedParse", true, true, "soff"),
    ("span easy str, StringStreamError", true, true, "soff"),
    ("easy complete str", true, false, "off"),
    ("easy partial str", true, true, "off"),
    ("buffered easy pos iter", false, false, "lc"),
    ("easy chars", true, true, "off4"),
    ("easy pos chars", true, true, "idx"),
    ("chars", true, false, "off4"),
    ("easy slice", true, false, "off4"),
    ("easy pos slice", true, false, "idx"),
];
pub const BYTES: &[(&str, bool, bool, &str)] = &[
    ("bytes", true, false, "off1"),
    ("easy bytes", true, true, "off1"),
    ("easy pos bytes", true, true, "idx"),
    ("pos bytes", true, true, "idx"),
    ("state easy pos bytes", true, true, "idx"),
    ("span easy pos bytes", true, true, "sidx"),
    ("buffered easy pos read", false, false, "idx"),
    ("buffered pos read", false, false, "idx"),
    ("buffered easy lc read", false, false, "lc"),
];
fn text(kind: &str, g: &'static G, i: &[char], p: bool) -> serde_json::Value {
    // just enough to go back to the start
    let look = i.len();
    let s: &'static str = Box::leak(real_str(i).into_boxed_str());
    let m = MaybePartialStream(s, p);
    let at = SourcePosition::default;
    let lc = || position::Stream::with_positioner(m, at());
    set_base(s.as_ptr() as usize);
    let chars: &'static [char] = Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice());
    match kind {
        "str" => go::<_, RangeExt>(g, p, s),
        "easy str" => go::<_, RangeExt>(g, p, easy::Stream(m)),
        "pos str" => go::<_, RangeExt>(g, p, lc()),
        "easy pos str" => go::<_, RangeExt>(g, p, easy::Stream(lc())),
        "state easy pos str" => go::<_, RangeExt>(g, p, state::Stream { stream: easy::Stream(lc()), state: 7u8 }),
        "mut easy pos str" => {
            let s: &'static mut _ = Box::leak(Box::new(easy::Stream(lc())));
            go::<_, RangeExt>(g, p, s)
        }
        "span easy pos str" => {
            go::<span::Stream<_, Es<span::Span<SourcePosition>>>, RangeExt>(g, p, easy::Stream(lc()).into())
        }
        "span easy str, UnexpectedParse" => {
            go::<span::Stream<_, UnexpectedParse>, RangeExt>(g, p, easy::Stream(m).into())
        }
        "span easy str, StringStreamError" => {
            go::<span::Stream<_, StringStreamError>, RangeExt>(g, p, easy::Stream(m).into())
        }
        "easy complete str" => {
            go::<_, RangeExt>(g, p, easy::Stream(combine::stream::CompleteStream(MaybePartialStream(s, true))))
        }
        "easy partial str" => go::<_, RangeExt>(g, p, {
            // the other one of these is complete
            easy::Stream(PartialStream(MaybePartialStream(s, false)))
        }),
        "buffered easy pos iter" => {
            let i = IteratorStream::new(s.chars());
            let q = position::Stream::with_positioner(i, at());
            go::<_, NoExt>(g, p, buffered::Stream::new(easy::Stream(q), look))
        }
        "easy chars" | "easy pos chars" | "chars" => {
            set_base(chars.as_ptr() as usize);
            let m = MaybePartialStream(chars, p);
            match kind {
                "easy chars" => go::<_, RangeExt>(g, p, easy::Stream(m)),
                "chars" => go::<_, RangeExt>(g, p, chars),
                _ => go::<_, RangeExt>(
                    g,
                    p,
                    easy::Stream(position::Stream::with_positioner(m, position::IndexPositioner::new())),
                ),
            }
        }
        "easy slice" => {
            set_base(chars.as_ptr() as usize);
            go::<_, RangeExt>(g, p, easy::Stream(SliceStream(chars)))
        }
        "easy pos slice" => go::<_, RangeExt>(g, p, easy::Stream(position::Stream::new(SliceStream(chars)))),
        x => panic!("kind {}", x),
    }
}
fn bytes(kind: &str, g: &'static G, i: &[char], p: bool, r: &mut Rng) -> serde_json::Value {
    let look = i.len();
    let s: &'static [u8] = Box::leak(real_bytes(i).into_boxed_slice());
    set_base(s.as_ptr() as usize);
    let m = MaybePartialStream(s, p);
    let idx = || position::Stream::with_positioner(m, position::IndexPositioner::new());
    let slow = Slow(s, Rng(r.next()));
    match kind {
        "bytes" => go::<_, RangeExt>(g, p, s),
        "easy bytes" => go::<_, RangeExt>(g, p, easy::Stream(m)),
        "pos bytes" => go::<_, RangeExt>(g, p, idx()),
        "easy pos bytes" => go::<_, RangeExt>(g, p, easy::Stream(idx())),
        "state easy pos bytes" => {
            go::<_, RangeExt>(g, p, state::Stream { stream: easy::Stream(idx()), state: () })
        }
        "span easy pos bytes" => {
            go::<span::Stream<_, Eb<span::Span<usize>>>, RangeExt>(g, p, easy::Stream(idx()).into())
        }
        "buffered easy pos read" => {
            let q = position::Stream::new(read::Stream::new(slow));
            go::<_, NoExt>(g, p, buffered::Stream::new(easy::Stream(q), look))
        }
        "buffered pos read" => {
            let q = position::Stream::new(read::Stream::new(slow));
            go::<_, NoExt>(g, p, buffered::Stream::new(q, look))
        }
        "buffered easy lc read" => {
            let q = position::Stream::with_positioner(read::Stream::new(slow), SourcePosition::default());
            go::<_, NoExt>(g, p, buffered::Stream::new(easy::Stream(q), look))
        }
        x => panic!("kind {}", x),
    }
}

const RANGE: &[&str] = &[
    "range", "take", "take_while", "take_while1", "take_until_range", "take_fn", "take_fn2", "rrec", "rrecv",
    "length_prefix", "bytes", "bytescmp", "tub", "tubs", "num", "rx_match", "rx_find", "rx_find_many", "rx_captures",
    "rx_captures_many",
];
/// Tokens of one kind come in runs whose lengths straddle the unrolled loops' strides.
pub fn runs(r: &mut Rng, pr: &Prof) -> Vec<char> {
    let mut v = vec![];
    while v.len() < 20 {
        let c = pr.ch(r);
        let n = *r.pick(&[1, 2, 6, 7, 8, 9, 10, 15, 16, 17, 18, 24]);
        v.extend(std::iter::repeat(c).take(n));
    }
    v.truncate(r.range(16, 36));
    v
}
pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x1234_5678_9abc_def1));
    r.next();
    let mut pr = prof(a.str("profile", "all"));
    if a.get("stream") == Some("bytes") && matches!(a.str("profile", "all"), "all" | "range") {
        pr.add_bytes();
    }
    if let Some(al) = a.get("alpha") {
        pr.alpha = al.chars().map(|c| if c == 'n' { '\n' } else { c }).collect();
    }
    pr.without(&["factory"]);
    if a.get("posn").is_some() {
        for _ in 0..4 {
            pr.leaves.push("posn");
        }
    }
    let foc: Option<Vec<&'static str>> =
        a.get("focus").map(|f| focus(f).into_iter().filter(|k| *k != "factory").collect());
    let from = a.num("seed", 1).wrapping_mul(0x9e37_79b9) >> 8;
    let n = a.num("n", 1000);
    let per = a.num("per", 6) as usize;
    let long = a.get("long").is_some();
    let only = a.str("kind", "");
    let byt = a.get("stream") == Some("bytes");
    let mut out = a.out();
    for j in 0..n {
        let g = match &foc {
            Some(f) => pr.cover(&mut r, from + j, f),
            None => loop {
                let d = r.range(1, 3);
                let g = pr.gen(&mut r, d, false);
                if g.size() <= 9 {
                    break g;
                }
            },
        };
        let g: &'static G = Box::leak(Box::new(g));
        let ranges = g.any(&mut |x| RANGE.contains(&x.k.as_str()));
        // the widths of tokens differ between streams
        let width = g.any(&mut |x| x.k == "take" || x.k == "length_prefix");
        let input = if long && r.chance(4, 5) { runs(&mut r, &pr) } else { pr.input(&mut r, g, 10) };
        let is_wide = |c: char| real_str(&[c]).len() > 1;
        let wide = input.iter().any(|c| is_wide(*c)) || g.any(&mut |x| x.s.iter().flatten().any(|c| is_wide(*c)) || x.c.is_some_and(is_wide));
        let kinds: Vec<_> = if byt { BYTES } else { TEXT }.iter().filter(|k| (k.1 || !ranges) && k.0.contains(only)).collect();
        let rx = g.any(&mut |x| x.x.is_some());
        let class = g.any(&mut |x| matches!(x.t.as_deref(), Some("newline" | "tab" | "crlf" | "space" | "spaces" | "oct_digit")));
        let kinds: Vec<_> = kinds
            .into_iter()
            .filter(|k| !(rx && (k.0.contains("chars") || k.0.contains("slice")) || class && k.0.contains("slice")))
            .collect();
        let mut rs = vec![];
        if kinds.is_empty() {
            continue;
        }
        let start = r.below(kinds.len());
        for x in 0..per.min(kinds.len()) {
            let (kind, _, partial, pt) = *kinds[(start + x) % kinds.len()];
            let p = (partial && r.chance(1, 4)) || kind == "easy partial str";
            if wide && !byt && (width || ranges && (kind.contains("chars") || kind.contains("slice"))) {
                continue;
            }
            watch::case(|| json!({"g": g, "i": input, "P": p, "kind": kind}).to_string());
            let mut o = if byt { bytes(kind, g, &input, p, &mut r) } else { text(kind, g, &input, p) };
            o["P"] = json!(p);
            o["kind"] = json!(kind);
            o["pt"] = json!(pt);
            // the parsers of characters of a `SliceStream` are not the library's
            o["e"] = json!(o["ep"] != "" && o["ep"] != "none" && !kind.contains("slice"));
            rs.push(o);
        }
        if !rs.is_empty() {
            out.line(json!({"g": g, "i": input, "b": byt, "rs": rs}));
        }
    }
    watch::done();
}
