//! Sequences of operations directly on streams.
use crate::streams::{runs, Slow};
use combine::{
    error::{ParseResult, StreamError, StringStreamError, UnexpectedParse},
    stream::{
        buffered, easy, position, read, span, state, CompleteStream, IteratorStream, MaybePartialStream,
        PartialStream, Positioned, RangeStreamOnce, ResetStream, SliceStream, StreamErrorFor, StreamOnce,
    },
};
use cvlib::{ast::*, build::*, obs::guard, prof::prof, rng::Rng, watch, Args};
use serde_json::{json, Value};

/// A reader which fails before some bytes.
struct Faulty(Slow, usize, Vec<usize>);
impl std::io::Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let at = self.1 - self.0 .0.len();
        match self.2.first() {
            Some(&f) if f == at => {
                self.2.remove(0);
                Err(std::io::Error::new(std::io::ErrorKind::Other, "connection lost"))
            }
            Some(&f) if f - at < b.len() => self.0.read(&mut b[..f - at]),
            _ => self.0.read(b),
        }
    }
}
#[derive(Clone, Debug)]
enum Op {
    Uncons,
    Range(usize),
    While(Vec<char>),
    While1(Vec<char>),
    Save,
    Reset(usize),
    Dist(usize),
    Rest,
    Pos,
    Partial,
}
/// Where a range lies in the input, in bytes.
trait At {
    fn at(&self) -> usize;
    fn toks(&self) -> Vec<String>;
}
impl At for &str {
    fn at(&self) -> usize {
        self.as_ptr() as usize
    }
    fn toks(&self) -> Vec<String> {
        self.chars().map(|c| to_model(c).to_string()).collect()
    }
}
impl At for &[u8] {
    fn at(&self) -> usize {
        self.as_ptr() as usize
    }
    fn toks(&self) -> Vec<String> {
        self.iter().map(|c| (*c as char).to_string()).collect()
    }
}
impl At for &[char] {
    fn at(&self) -> usize {
        self.as_ptr() as usize
    }
    fn toks(&self) -> Vec<String> {
        self.iter().map(|c| to_model(*c).to_string()).collect()
    }
}
fn class<T, R, E: StreamError<T, R> + std::fmt::Debug>(e: &E) -> &'static str {
    if e.is_unexpected_end_of_input() {
        "eoi"
    } else if format!("{:?}", e).contains("connection lost") {
        "io"
    } else {
        "err"
    }
}
fn simple<S>(s: &mut S, saved: &mut Vec<S::Checkpoint>, op: &Op) -> Option<Value>
where
    S: ResetStream + Positioned,
    S::Token: Tok,
    S::Position: PosShow,
    StreamErrorFor<S>: std::fmt::Debug,
{
    Some(match op {
        Op::Uncons => match s.uncons() {
            Ok(t) => json!({"op": "uncons", "r": "ok", "v": [t.ch().to_string()]}),
            Err(e) => json!({"op": "uncons", "r": class::<S::Token, S::Range, StreamErrorFor<S>>(&e), "v": []}),
        },
        Op::Save => {
            saved.push(s.checkpoint());
            json!({"op": "save", "r": "ok", "v": []})
        }
        Op::Reset(k) => {
            let r = s.reset(saved[*k].clone()).is_ok();
            json!({"op": "reset", "k": k + 1, "r": if r { "ok" } else { "err" }, "v": []})
        }
        Op::Pos => json!({"op": "pos", "r": "ok", "v": [s.position().show()]}),
        Op::Partial => json!({"op": "partial", "r": if s.is_partial() { "yes" } else { "no" }, "v": []}),
        _ => return None,
    })
}
fn ranged<S>(s: &mut S, saved: &mut Vec<S::Checkpoint>, op: &Op, base: usize) -> Value
where
    S: RangeStreamOnce + Positioned,
    S::Token: Tok,
    S::Range: At,
    S::Position: PosShow,
    StreamErrorFor<S>: std::fmt::Debug,
{
    if let Some(v) = simple(s, saved, op) {
        return v;
    }
    let mut asked = 0;
    let mut j = match op {
        Op::Range(n) => match s.uncons_range(*n) {
            Ok(r) => json!({"op": "range", "r": "ok", "v": r.toks(), "o": r.at().wrapping_sub(base) as i64}),
            Err(e) => json!({"op": "range", "r": class::<S::Token, S::Range, StreamErrorFor<S>>(&e), "v": [], "o": 0}),
        },
        Op::While(set) => match s.uncons_while(|t| {
            asked += 1;
            set.contains(&t.ch())
        }) {
            Ok(r) => json!({"op": "while", "r": "ok", "v": r.toks(), "o": r.at().wrapping_sub(base) as i64}),
            Err(e) => json!({"op": "while", "r": class::<S::Token, S::Range, StreamErrorFor<S>>(&e), "v": [], "o": 0}),
        },
        Op::While1(set) => match s.uncons_while1(|t| {
            asked += 1;
            set.contains(&t.ch())
        }) {
            ParseResult::CommitOk(r) => {
                json!({"op": "while1", "r": "CO", "v": r.toks(), "o": r.at().wrapping_sub(base) as i64})
            }
            ParseResult::PeekOk(_) => json!({"op": "while1", "r": "PO", "v": [], "o": 0}),
            ParseResult::CommitErr(_) => json!({"op": "while1", "r": "CE", "v": [], "o": 0}),
            ParseResult::PeekErr(_) => json!({"op": "while1", "r": "PE", "v": [], "o": 0}),
        },
        Op::Dist(k) => json!({"op": "dist", "k": k + 1, "r": "ok", "v": [], "n": s.distance(&saved[*k])}),
        Op::Rest => {
            let r = s.range();
            json!({"op": "rest", "r": "ok", "v": r.toks(), "o": r.at().wrapping_sub(base) as i64})
        }
        _ => unreachable!(),
    };
    match op {
        Op::Range(n) => j["n"] = json!(n),
        Op::While(s) | Op::While1(s) => j["s"] = json!(s),
        _ => {}
    }
    j["asked"] = json!(asked);
    j
}
fn script(r: &mut Rng, ranges: bool, input: &[char]) -> Vec<Op> {
    let mut saved = 1;
    let mut v = vec![Op::Save];
    for _ in 0..r.range(4, 14) {
        let set = |r: &mut Rng| (0..r.range(1, 3)).filter_map(|_| (!input.is_empty()).then(|| input[r.below(input.len())])).collect();
        let o = match r.below(if ranges { 13 } else { 7 }) {
            0 | 1 | 2 => Op::Uncons,
            3 => {
                saved += 1;
                Op::Save
            }
            4 => Op::Reset(r.below(saved)),
            5 => Op::Pos,
            6 => {
                if r.chance(1, 4) {
                    Op::Partial
                } else {
                    Op::Reset(r.below(saved))
                }
            }
            7 => Op::Range(r.below(5)),
            8 | 9 => Op::While(set(r)),
            10 => Op::While1(set(r)),
            11 => Op::Dist(r.below(saved)),
            _ => Op::Rest,
        };
        v.push(o);
        if !ranges && r.chance(1, 3) {
            // a longer way, so that windows are left
            for _ in 0..r.below(6) {
                v.push(Op::Uncons)
            }
        }
    }
    v
}
fn drive<S>(mut s: S, base: usize, ops: &[Op]) -> Vec<Value>
where
    S: RangeStreamOnce + Positioned,
    S::Token: Tok,
    S::Range: At,
    S::Position: PosShow,
    StreamErrorFor<S>: std::fmt::Debug,
{
    set_base(base);
    let mut saved = vec![];
    let mut cps = vec![];
    for op in ops {
        match guard(|| ranged(&mut s, &mut saved, op, base)) {
            Ok(v) => cps.push(v),
            Err(_) if matches!(op, Op::Dist(_)) => {
                // only checkpoints which were passed may be asked about
                let Op::Dist(k) = op else { unreachable!() };
                cps.push(json!({"op": "dist", "k": k + 1, "r": "PANIC", "v": [], "n": -1}));
            }
            Err(m) => {
                cps.push(json!({"op": "PANIC", "r": m, "v": [format!("{:?}", op)]}));
                break;
            }
        }
    }
    cps
}
fn drive_once<S>(mut s: S, ops: &[Op]) -> Vec<Value>
where
    S: ResetStream + Positioned,
    S::Token: Tok,
    S::Position: PosShow,
    StreamErrorFor<S>: std::fmt::Debug,
{
    let mut saved = vec![];
    let mut out = vec![];
    for op in ops {
        match guard(|| simple(&mut s, &mut saved, op).unwrap()) {
            Ok(v) => {
                // what a stream does after a reset that failed is not specified
                let stop = v["r"] == "err";
                out.push(v);
                if stop {
                    break;
                }
            }
            Err(m) => {
                out.push(json!({"op": "PANIC", "r": m, "v": [format!("{:?}", op)]}));
                break;
            }
        }
    }
    out
}
/// name, how positions are written, unit of sizes: "width" (bytes of text) or "one"
const KINDS: &[(&str, &str, &str)] = &[
    ("str", "off", "width"),
    ("easy str", "off", "width"),
    ("pos str", "lc", "width"),
    ("easy pos str", "lc", "width"),
    ("state pos str", "lc", "width"),
    ("span easy pos str", "slc", "width"),
    ("span easy str unexpected", "soff", "width"),
    ("span easy str string", "soff", "width"),
    ("partial str", "off", "width"),
    ("complete str", "off", "width"),
    ("mut str", "off", "width"),
    ("chars", "off4", "one"),
    ("pos chars", "idx", "one"),
    ("easy pos chars", "idx", "one"),
    ("slice", "off4", "one"),
    ("pos slice", "idx", "one"),
    ("bytes", "off1", "one"),
    ("easy pos bytes", "idx", "one"),
];
const ONCE: &[(&str, &str)] = &[
    ("buffered easy pos iter", "lc"),
    ("buffered pos iter", "idx"),
    ("buffered easy pos read", "idx"),
    ("buffered pos read", "idx"),
    ("buffered pos str", "lc"),
];
fn source() -> position::SourcePosition {
    position::SourcePosition::new()
}
pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x1234_5678_9abc_def1));
    r.next();
    let mut pr = prof("all");
    if let Some(al) = a.get("alpha") {
        pr.alpha = al.chars().map(|c| if c == 'n' { '\n' } else { c }).collect();
    }
    let n = a.num("n", 1000);
    let once = a.get("kind") == Some("buffered");
    let mut out = a.out();
    for _ in 0..n {
        let mut input = match r.below(3) {
            0 => runs(&mut r, &pr),
            1 => pr.word(&mut r, 0, 20).chars().collect(),
            _ => pr.word(&mut r, 0, 8).chars().collect::<Vec<_>>(),
        };
        let p = r.chance(1, 2);
        let ops = script(&mut r, !once, &input);
        let line = if once {
            let (kind, pt) = *r.pick(ONCE);
            if kind.contains("read") {
                input.retain(|c| real_str(&[*c]).len() == 1);
            }
            let look = r.range(0, 7);
            let s: &'static str = Box::leak(real_str(&input).into_boxed_str());
            watch::case(|| json!({"kind": kind, "i": input, "lookahead": look, "ops": format!("{:?}", ops)}).to_string());
            let it = || IteratorStream::new(s.chars());
            // where the reader fails; it then goes on
            let mut faults: Vec<usize> = vec![];
            if kind.contains("read") && r.chance(1, 2) {
                faults = (0..r.range(1, 3)).map(|_| r.below(input.len() + 1)).collect();
                faults.sort();
            }
            let f: Vec<usize> = faults.iter().map(|x| x + 1).collect();
            let slow = Faulty(Slow(s.as_bytes(), Rng(r.next())), s.len(), faults);
            let st = match kind {
                "buffered easy pos iter" => drive_once(
                    buffered::Stream::new(easy::Stream(position::Stream::with_positioner(it(), source())), look),
                    &ops,
                ),
                "buffered pos iter" => drive_once(buffered::Stream::new(position::Stream::new(it()), look), &ops),
                "buffered easy pos read" => drive_once(
                    buffered::Stream::new(easy::Stream(position::Stream::new(read::Stream::new(slow))), look),
                    &ops,
                ),
                "buffered pos read" => {
                    drive_once(buffered::Stream::new(position::Stream::new(read::Stream::new(slow)), look), &ops)
                }
                _ => drive_once(buffered::Stream::new(position::Stream::new(s), look), &ops),
            };
            json!({"i": input, "kind": kind, "pt": pt, "u": "one", "look": look, "f": f, "P": false, "st": st})
        } else {
            let (kind, pt, unit) = *r.pick(KINDS);
            watch::case(|| json!({"kind": kind, "i": input, "P": p, "ops": format!("{:?}", ops)}).to_string());
            if kind.contains("bytes") {
                input.retain(|c| real_str(&[*c]).len() == 1);
            }
            let s: &'static str = Box::leak(real_str(&input).into_boxed_str());
            let c: &'static [char] = Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice());
            let (b, cb) = (s.as_ptr() as usize, c.as_ptr() as usize);
            let m = MaybePartialStream(s, p);
            let mc = MaybePartialStream(c, p);
            let mb = MaybePartialStream(s.as_bytes(), p);
            let lc = || position::Stream::with_positioner(m, source());
            let mut q = p;
            let st = match kind {
                "str" => drive(m, b, &ops),
                "easy str" => drive(easy::Stream(m), b, &ops),
                "pos str" => drive(lc(), b, &ops),
                "easy pos str" => drive(easy::Stream(lc()), b, &ops),
                "state pos str" => drive(state::Stream { stream: lc(), state: 1 }, b, &ops),
                "span easy pos str" => drive(
                    span::Stream::<_, easy::Errors<char, &'static str, span::Span<position::SourcePosition>>>::from(
                        easy::Stream(lc()),
                    ),
                    b,
                    &ops,
                ),
                "span easy str unexpected" => {
                    drive(span::Stream::<_, UnexpectedParse>::from(easy::Stream(m)), b, &ops)
                }
                "span easy str string" => {
                    drive(span::Stream::<_, StringStreamError>::from(easy::Stream(m)), b, &ops)
                }
                "partial str" => {
                    q = true;
                    drive(PartialStream(m), b, &ops)
                }
                "complete str" => {
                    q = false;
                    drive(CompleteStream(m), b, &ops)
                }
                "mut str" => {
                    let s: &'static mut _ = Box::leak(Box::new(m));
                    drive(s, b, &ops)
                }
                "chars" => drive(mc, cb, &ops),
                "pos chars" => drive(position::Stream::with_positioner(mc, position::IndexPositioner::new()), cb, &ops),
                "easy pos chars" => drive(
                    easy::Stream(position::Stream::with_positioner(mc, position::IndexPositioner::new())),
                    cb,
                    &ops,
                ),
                "slice" => {
                    q = false;
                    drive(SliceStream(c), cb, &ops)
                }
                "pos slice" => {
                    q = false;
                    drive(position::Stream::new(SliceStream(c)), cb, &ops)
                }
                "bytes" => drive(mb, b, &ops),
                "easy pos bytes" => drive(
                    easy::Stream(position::Stream::with_positioner(mb, position::IndexPositioner::new())),
                    b,
                    &ops,
                ),
                x => panic!("kind {}", x),
            };
            let sz = if kind.contains("chars") || kind.contains("slice") { 4 } else { 1 };
            json!({"i": input, "kind": kind, "pt": pt, "u": unit, "sz": sz, "look": 1000, "P": q, "st": st})
        };
        out.line(line);
    }
    watch::done();
}
