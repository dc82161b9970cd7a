//! Records what the real parsers do, for validation against the specification.
use cvlib::{ast::*, build::*, obs::*};
use combine::{
    error::ParseResult,
    stream::{easy, MaybePartialStream},
    Parser,
};

pub type S<'a> = easy::Stream<MaybePartialStream<&'a str>>;
pub type B<'a> = easy::Stream<MaybePartialStream<&'a [u8]>>;

/// byte offset -> token index (1-based), or -1 inside a character
pub fn token_index(s: &str, off: usize) -> i64 {
    if off == s.len() {
        return s.chars().count() as i64 + 1;
    }
    match s.char_indices().position(|(i, _)| i == off) {
        Some(i) => i as i64 + 1,
        None => -1,
    }
}
pub fn parse_str(g: &G, input: &str, partial: bool) -> Obs {
    guard(|| {
        let mut p = build::<S, crate::TheExt>(g);
        let mut s = easy::Stream(MaybePartialStream(input, partial));
        let r = if partial {
            let mut st = DynState::default();
            p.parse_stream_partial(&mut s, &mut st)
        } else {
            p.parse_stream(&mut s)
        };
        let at = token_index(input, input.len() - s.0 .0.len());
        let start = input.as_ptr() as usize;
        obs(r, at, |q| {
            let o = q.0.wrapping_sub(start);
            if o > input.len() { -2 } else { token_index(input, o) }
        })
    })
    .unwrap_or_else(Obs::panic)
}
/// The entry points that tell success from failure only.
pub const ENTRIES: &[&str] = &["parse", "state", "easy"];
pub fn enter(g: &G, input: &str, en: &str) -> Obs {
    guard(|| {
        let s = MaybePartialStream(input, false);
        let start = input.as_ptr() as usize;
        let rest = |r: &str| token_index(input, input.len() - r.len());
        let ok = |v: cvlib::val::Val, at| Obs { r: "OK", v: v.ser(), p: at, ep: 0, es: vec![] };
        let off = |o: usize| if o > input.len() { -2 } else { token_index(input, o) };
        let ptr = |q: combine::stream::PointerOffset<str>| off(q.0.wrapping_sub(start));
        let bad = |ep, es| Obs { r: "ERR", v: vec![], p: 0, ep, es };
        match en {
            "parse" => match build::<S, crate::TheExt>(g).parse(easy::Stream(s)) {
                Ok((v, q)) => ok(v, rest(q.0 .0)),
                Err(e) => bad(ptr(e.position), items(&e)),
            },
            "state" => {
                let mut s = easy::Stream(s);
                match build::<S, crate::TheExt>(g).parse_with_state(&mut s, &mut DynState::default()) {
                    Ok(v) => ok(v, rest(s.0 .0)),
                    Err(e) => bad(ptr(e.position), items(&e)),
                }
            }
            "easy" => {
                use combine::EasyParser;
                match build::<S, crate::TheExt>(g).easy_parse(s) {
                    Ok((v, q)) => ok(v, rest(q.0)),
                    Err(e) => bad(ptr(e.position), items(&e)),
                }
            }
            x => panic!("entry {}", x),
        }
    })
    .unwrap_or_else(Obs::panic)
}
pub fn parse_bytes(g: &G, input: &[u8], partial: bool) -> Obs {
    guard(|| {
        let mut p = build::<B, RangeExt>(g);
        let mut s = easy::Stream(MaybePartialStream(input, partial));
        let r = if partial {
            let mut st = DynState::default();
            p.parse_stream_partial(&mut s, &mut st)
        } else {
            p.parse_stream(&mut s)
        };
        let at = (input.len() - s.0 .0.len()) as i64 + 1;
        let start = input.as_ptr() as usize;
        obs(r, at, |q| q.0.wrapping_sub(start) as i64 + 1)
    })
    .unwrap_or_else(Obs::panic)
}

use cvlib::{gen::Prof, prof::{focus, prof}, rng::Rng, watch, Args};
use serde_json::json;
use std::collections::HashSet;

pub fn has_kind(g: &G, ks: &[&str]) -> bool {
    g.any(&mut |x| ks.contains(&x.k.as_str()))
}
/// Is the content of errors compared?  A `factory` which was not asked for its parser has no errors to add.
fn errors(a: &Args) -> bool {
    a.get("errors") == Some("yes")
}
fn the_focus(a: &Args) -> Option<Vec<&'static str>> {
    let f = focus(a.get("focus")?);
    Some(f.into_iter().filter(|k| *k != "factory" || !errors(a)).collect())
}
pub fn setup(a: &Args) -> (Rng, Prof) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x1234_5678_9abc_def1));
    r.next();
    let mut pr = prof(a.str("profile", "all"));
    if a.get("stream") == Some("bytes") && matches!(a.str("profile", "all"), "all" | "range") {
        pr.add_bytes();
    }
    if let Some(al) = a.get("alpha") {
        pr.alpha = al.chars().collect();
    }
    pr.long = a.num("stretch", 0) as usize;
    if errors(a) {
        pr.without(&["factory"]);
    }
    (r, pr)
}
/// The terms of an enumeration, made by the specification.
fn terms(a: &Args, f: &str) -> Vec<G> {
    let mut r = Rng(a.num("seed", 1));
    let all = std::fs::read_to_string(f).expect("terms");
    let part = all.lines().skip(a.num("from", 0) as usize).step_by(a.num("step", 1) as usize).take(a.num("n", 1000) as usize);
    part.map(|l| serde_json::from_str::<G>(l).expect("term"))
        .map(|mut g| {
            crate::prepare(&mut g, &mut r);
            g
        })
        .collect()
}
/// All inputs up to a length.
fn inputs(a: &Args) -> Vec<Vec<char>> {
    let mut all = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..a.num("upto", 3) {
        last = last.iter().flat_map(|i| "ab".chars().map(|c| i.iter().copied().chain([c]).collect())).collect();
        all.extend(last.clone());
    }
    all
}
/// Every small input of every term.
fn parse_all(a: &Args, f: &str) {
    let mut out = a.out();
    let bytes = a.get("stream") == Some("bytes");
    for g in terms(a, f) {
        if errors(a) && has_kind(&g, &["factory"]) {
            continue;
        }
        let mut rs = vec![];
        for input in inputs(a) {
            for partial in [false, true] {
                watch::case(|| json!({"g": g, "i": input, "P": partial}).to_string());
                let o = if bytes { parse_bytes(&g, &real_bytes(&input), partial) } else { parse_str(&g, &real_str(&input), partial) };
                rs.push(o.json(json!({"i": input, "P": partial})));
            }
        }
        out.line(json!({"ev": "parse", "g": g, "b": bytes, "rs": rs}));
    }
    watch::done();
}
/// Every small input of every term, delivered in pieces.
fn resume_all(a: &Args, f: &str) {
    let mut out = a.out();
    let bytes = a.get("stream") == Some("bytes");
    let how = How { bytes, plain: a.get("err") == Some("plain"), tokio: a.get("how") == Some("tokio") };
    let most = a.num("msgs", 1) as usize;
    for g in terms(a, f) {
        if has_kind(&g, &["eof"]) {
            continue;
        }
        for input in inputs(a) {
            let n = input.len();
            let mut seen = HashSet::new();
            for cuts in 0..1usize << n.saturating_sub(1) {
                for known in [false, true] {
                    let mut s: Vec<_> = (1..n).filter(|i| cuts >> (i - 1) & 1 == 1).map(|i| (i, true)).collect();
                    if !known {
                        s.push((n, true));
                    }
                    s.push((n, false));
                    watch::case(|| json!({"g": g, "i": input, "schedule": s}).to_string());
                    let h = history(&g, &input, how, &s, most);
                    if most > 1 && !(h.len() > 2 && h[..h.len() - 1].iter().any(|c| c.r == "ok" && c.p > 1)) {
                        continue;
                    }
                    let st: Vec<_> = h.iter().map(|c| c.json()).collect();
                    // what did not ask for more is a parse, and is seen by `parse_all`
                    if st.len() > 1 && seen.insert(json!(st).to_string()) {
                        out.line(json!({"ev": "resume", "g": g, "b": bytes, "t": how.tokio, "pl": how.plain, "i": input, "st": st}));
                    }
                }
            }
        }
    }
    watch::done();
}
/// `parse` events: one grammar, some inputs, complete and partial.
pub fn parse(a: &Args) {
    if let Some(f) = a.get("terms") {
        return parse_all(a, f);
    }
    let (mut r, pr) = setup(a);
    let n = a.num("n", 1000);
    let max = a.num("max", 9) as usize;
    let mut out = a.out();
    let bytes = a.get("stream") == Some("bytes");
    let focus = the_focus(a);
    let from = a.num("seed", 1).wrapping_mul(0x9e37_79b9) >> 8;
    for j in 0..n {
        let mut g = match &focus {
            Some(f) => pr.cover(&mut r, from + j, f),
            None => grammar(&mut r, &pr, max, &[]),
        };
        crate::prepare(&mut g, &mut r);
        // of a number of inputs those whose outcomes differ most
        let mut rs = vec![];
        let mut seen = HashSet::new();
        for k in 0..14 {
            let input = pr.input(&mut r, &g, 8);
            let partial = r.chance(1, 3);
            watch::case(|| json!({"g": g, "i": input, "P": partial}).to_string());
            let en = (a.get("entry").is_some() && !partial && !bytes).then(|| *r.pick(ENTRIES));
            let o = if let Some(en) = en {
                enter(&g, &real_str(&input), en)
            } else if bytes {
                let s = real_bytes(&input);
                parse_bytes(&g, &s, partial)
            } else {
                parse_str(&g, &real_str(&input), partial)
            };
            let end = o.p.max(o.ep) > input.len() as i64;
            if seen.insert((o.r, o.p, o.ep, o.es.len(), end, o.v.len())) || k == 13 && rs.is_empty() {
                rs.push(o.json(match en {
                    Some(en) => json!({"i": input, "P": partial, "en": en}),
                    None => json!({"i": input, "P": partial}),
                }));
                if rs.len() >= 5 {
                    break;
                }
            }
        }
        out.line(json!({"ev": "parse", "g": g, "b": bytes, "rs": rs}));
    }
    watch::done();
}
pub fn grammar(r: &mut Rng, pr: &Prof, max: usize, without: &[&str]) -> G {
    loop {
        let d = r.range(1, 3);
        let g = pr.gen(r, d, false);
        if g.size() <= max && !has_kind(&g, without) {
            return g;
        }
    }
}

/// One call of `decode` as part of a history: answer, value, tokens consumed so far + 1.
pub struct Call {
    pub n: usize,
    pub partial: bool,
    pub r: &'static str,
    pub v: Vec<String>,
    pub p: i64,
    /// how the parser itself ended
    pub k: &'static str,
}
impl Call {
    pub fn json(&self) -> serde_json::Value {
        json!({"n": self.n, "P": self.partial, "r": self.r, "v": self.v, "p": self.p, "k": self.k})
    }
}
/// Notes how the parser's call ended.
struct Spy<'p, P>(&'p mut P, &'p mut &'static str);
impl<I: combine::Stream, P: Parser<I>> Parser<I> for Spy<'_, P> {
    type Output = P::Output;
    type PartialState = P::PartialState;
    fn parse_first(&mut self, input: &mut I, state: &mut P::PartialState) -> ParseResult<P::Output, I::Error> {
        let r = self.0.parse_first(input, state);
        self.note(&r);
        r
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut P::PartialState) -> ParseResult<P::Output, I::Error> {
        let r = self.0.parse_partial(input, state);
        self.note(&r);
        r
    }
    fn add_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut combine::error::Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> combine::ErrorOffset {
        self.0.parser_count()
    }
}
impl<P> Spy<'_, P> {
    fn note<T, E>(&mut self, r: &ParseResult<T, E>) {
        *self.1 = match r {
            ParseResult::CommitOk(_) => "CO",
            ParseResult::PeekOk(_) => "PO",
            ParseResult::CommitErr(_) => "CE",
            ParseResult::PeekErr(_) => "PE",
        }
    }
}
type Decoded = Result<(Option<cvlib::val::Val>, usize), ()>;
/// Decodes with the plain error type of the stream, or through `decode_tokio`.
#[derive(Clone, Copy)]
pub struct How {
    pub bytes: bool,
    pub plain: bool,
    pub tokio: bool,
}
macro_rules! run {
    ($p: expr, $t: ty, $s: expr, $st: expr, $how: expr, $h: expr) => {{
        let mut s = $s;
        // the parser was built for a shorter lifetime of the input
        let p: &mut BP<'_, $t> = unsafe { std::mem::transmute($p) };
        let spy = Spy(p, $how);
        if $h.tokio { combine::stream::decode_tokio(spy, &mut s, $st) } else { combine::stream::decode(spy, &mut s, $st) }
            .map_err(|_| ())
    }};
}
/// One of the parsers that a history may use.
enum Ps<'g> {
    S(BP<'g, S<'g>>),
    B(BP<'g, B<'g>>),
    PS(BP<'g, MaybePartialStream<&'g str>>),
    PB(BP<'g, MaybePartialStream<&'g [u8]>>),
}
impl<'g> Ps<'g> {
    fn new(g: &'g G, h: How) -> Self {
        match (h.bytes, h.plain) {
            (false, false) => Ps::S(build::<S, crate::TheExt>(g)),
            (true, false) => Ps::B(build::<B, RangeExt>(g)),
            (false, true) => Ps::PS(build::<MaybePartialStream<&'g str>, RangeExt>(g)),
            (true, true) => Ps::PB(build::<MaybePartialStream<&'g [u8]>, RangeExt>(g)),
        }
    }
    fn go(&mut self, st: &mut DynState, buf: &'static str, raw: &'static [u8], partial: bool, how: &mut &'static str, h: How) -> Decoded {
        let b = MaybePartialStream(raw, partial);
        let s = MaybePartialStream(buf, partial);
        match self {
            Ps::S(p) => run!(p, S<'static>, easy::Stream(s), st, how, h),
            Ps::B(p) => run!(p, B<'static>, easy::Stream(b), st, how, h),
            Ps::PS(p) => run!(p, MaybePartialStream<&'static str>, s, st, how, h),
            Ps::PB(p) => run!(p, MaybePartialStream<&'static [u8]>, b, st, how, h),
        }
    }
}
/// Runs a schedule of deliveries; every buffer is a fresh copy, as in a real decoder.
pub fn history(g: &G, input: &[char], h: How, sched: &[(usize, bool)], most: usize) -> Vec<Call> {
    let bytes = h.bytes;
    let mut ps = Ps::new(g, h);
    let mut st = DynState::default();
    let mut at = 0; // tokens dropped
    let mut msgs = 0;
    let mut out = vec![];
    let mut k = 0;
    while k < sched.len() {
        let (n, partial) = sched[k];
        let part = &input[at..n];
        let buf = real_str(part).into_boxed_str();
        let raw = real_bytes(part).into_boxed_slice();
        let rw: &'static [u8] = unsafe { &*(&*raw as *const [u8]) };
        let b: &'static str = unsafe { &*(&*buf as *const str) };
        let mut how = "";
        let r = guard(|| ps.go(&mut st, b, rw, partial, &mut how, h));
        let mut c = Call { n, partial, r: "PANIC", v: vec![], p: at as i64 + 1, k: how };
        let mut eat = |removed: usize| {
            let t = match bytes {
                true if removed <= rw.len() => removed as i64 + 1,
                false if removed <= b.len() => token_index(b, removed),
                _ => -1,
            };
            if t > 0 {
                at += t as usize - 1;
                at as i64 + 1
            } else {
                -9
            }
        };
        match r {
            Err(m) => c.v = vec![m],
            Ok(Err(())) => c.r = "err",
            Ok(Ok((None, removed))) => {
                c.r = "need";
                c.p = eat(removed);
                k += 1;
            }
            Ok(Ok((Some(v), removed))) => {
                c.r = "ok";
                c.v = v.ser();
                c.p = eat(removed);
                msgs += 1;
            }
        }
        let stop = c.r == "PANIC" || c.r == "err" || c.p < 0 || msgs >= most;
        out.push(c);
        drop((buf, raw));
        if stop {
            break;
        }
    }
    out
}
/// How an input of `len` tokens is delivered: tokens delivered by each call and whether more may come.
pub fn schedule(r: &mut Rng, len: usize) -> Vec<(usize, bool)> {
    let mut v = vec![];
    let mut n = 0;
    let style = r.below(4);
    loop {
        n = match style {
            0 => n + 1,
            1 => len,
            _ => n + r.range(0, 3),
        }
        .min(len);
        if style == 2 && r.chance(1, 6) && v.is_empty() {
            v.push((0, true));
        }
        v.push((n, true));
        if n == len {
            break;
        }
    }
    if r.chance(2, 3) {
        if r.chance(1, 2) {
            v.pop(); // the end is known when the last piece arrives
        }
        v.push((len, false));
    }
    v
}
pub fn resume(a: &Args) {
    if let Some(f) = a.get("terms") {
        return resume_all(a, f);
    }
    let (mut r, mut pr) = setup(a);
    // the end of the input delivered so far satisfies `eof`
    pr.without(&["eof"]);
    let n = a.num("n", 1000);
    let max = a.num("max", 9) as usize;
    let most = a.num("msgs", 1) as usize;
    let mut out = a.out();
    let bytes = a.get("stream") == Some("bytes");
    let how = How { bytes, plain: a.get("err") == Some("plain"), tokio: a.get("how") == Some("tokio") };
    let focus = the_focus(a).map(|f| f.into_iter().filter(|k| *k != "eof").collect::<Vec<_>>());
    let from = a.num("seed", 1).wrapping_mul(0x9e37_79b9) >> 8;
    for j in 0..n {
        let mut g = match &focus {
            Some(f) => pr.cover(&mut r, from + j, f),
            None => grammar(&mut r, &pr, max, &[]),
        };
        crate::prepare(&mut g, &mut r);
        let mut best = (-1, vec![], vec![]);
        for _ in 0..4 {
            let mut input = pr.input(&mut r, &g, 8);
            for _ in 1..most {
                input.extend(pr.input(&mut r, &g, 5));
            }
            let s = schedule(&mut r, input.len());
            watch::case(|| json!({"g": g, "i": input, "schedule": s}).to_string());
            let h = history(&g, &input, how, &s, most);
            // calls which were resumed with something consumed, and then more happened
            let mut score = 0;
            for w in h.windows(2) {
                if w[0].r == "need" {
                    score += 1 + (w[0].p > 1) as i64 + 2 * (w[1].r == "ok") as i64 + (w[1].p > w[0].p) as i64;
                }
                if w[0].r == "ok" {
                    score += 2;
                }
            }
            if score > best.0 {
                let st: Vec<_> = h.iter().map(|c| c.json()).collect();
                best = (score, input, st);
            }
        }
        out.line(json!({"ev": "resume", "g": g, "b": bytes, "t": how.tokio, "pl": how.plain, "i": best.1, "st": best.2}));
    }
    watch::done();
}
