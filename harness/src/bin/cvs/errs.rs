//! Sequences of operations on error values, and the algebra of results.
use combine::{
    error::{
        Commit, Format, ParseError, ParseErrorInto, ParseResult, Range, StreamError, StringStreamError, Token, Tracked,
        UnexpectedParse,
    },
    stream::{easy, read},
};
use cvlib::{
    obs::{guard, item as seen},
    rng::Rng,
    watch, Args,
};
use serde_json::{json, Value};

type R = &'static str;
/// kind U, E, M, O or "end", type of content, content
type Item = (&'static str, &'static str, &'static str);
const BOUNDARY: &str = "unexpected slice on character boundary";

#[derive(Debug)]
struct Boom;
impl std::fmt::Display for Boom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "boom")
    }
}
impl std::error::Error for Boom {}

fn tok(x: R) -> char {
    x.chars().next().unwrap()
}
fn make<E: StreamError<char, R>>(i: Item, direct: bool) -> E {
    match i {
        ("end", _, _) => E::end_of_input(),
        ("O", _, _) => E::other(Boom),
        ("U", "t", x) if direct => E::unexpected_token(tok(x)),
        ("U", "r", x) if direct => E::unexpected_range(x),
        ("U", "s", x) if direct => E::unexpected_static_message(x),
        ("U", "f", x) if direct => E::unexpected_format(x),
        ("E", "t", x) if direct => E::expected_token(tok(x)),
        ("E", "r", x) if direct => E::expected_range(x),
        ("E", "s", x) if direct => E::expected_static_message(x),
        ("E", "f", x) if direct => E::expected_format(x),
        ("M", "t", x) if direct => E::message_token(tok(x)),
        ("M", "r", x) if direct => E::message_range(x),
        ("M", "s", x) if direct => E::message_static_message(x),
        ("M", "f", x) if direct => E::message_format(x),
        ("U", "t", x) => E::unexpected(tok(x)),
        ("U", "r", x) => E::unexpected(Range(x)),
        ("U", "s", x) => E::unexpected(x),
        ("U", "f", x) => E::unexpected(Format(x)),
        ("E", "t", x) => E::expected(Token(tok(x))),
        ("E", "r", x) => E::expected(Range(x)),
        ("E", "s", x) => E::expected(x),
        ("E", "f", x) => E::expected(Format(x)),
        ("M", "t", x) => E::message(Token(tok(x))),
        ("M", "r", x) => E::message(Range(x)),
        ("M", "s", x) => E::message(x),
        ("M", "f", x) => E::message(Format(x)),
        x => panic!("item {:?}", x),
    }
}
fn add<P: ParseError<char, R, usize>>(e: &mut P, i: Item, how: usize) {
    match (i, how) {
        (("U", "t", x), 2) => e.add_unexpected(tok(x)),
        (("U", "r", x), 2) => e.add_unexpected(Range(x)),
        (("U", "s", x), 2) => e.add_unexpected(x),
        (("U", "f", x), 2) => e.add_unexpected(Format(x)),
        (("E", "t", x), 2) => e.add_expected(tok(x)),
        (("E", "r", x), 2) => e.add_expected(Range(x)),
        (("E", "s", x), 2) => e.add_expected(x),
        (("E", "f", x), 2) => e.add_expected(Format(x)),
        (("M", "t", x), 2) => e.add_message(tok(x)),
        (("M", "r", x), 2) => e.add_message(Range(x)),
        (("M", "s", x), 2) => e.add_message(x),
        (("M", "f", x), 2) => e.add_message(Format(x)),
        (i, how) => e.add(make(i, how == 1)),
    }
}
/// What can be seen of an error.
trait See: ParseError<char, R, usize> {
    fn see(&self) -> Value;
    fn look(&self) -> Value {
        let mut v = self.see();
        v["eoi"] = json!(self.is_unexpected_end_of_input());
        v
    }
    fn at(&self) -> usize;
    fn other_all<T: ParseError<char, R, usize>>(self) -> Option<T> {
        None
    }
    fn list(_: usize, _: Vec<Item>) -> Option<Self> {
        None
    }
    fn remap(self) -> Self {
        self
    }
}
fn upper(c: char) -> char {
    c.to_ascii_uppercase()
}
fn longer(r: R) -> R {
    match r {
        "a" => "aa",
        "xy" => "a",
        x => x,
    }
}
type Errors = easy::Errors<char, R, usize>;
impl See for Errors {
    fn see(&self) -> Value {
        json!({"s": self.errors.iter().map(seen).collect::<Vec<_>>(), "c": "", "p": self.position, "d": self.to_string()})
    }
    fn at(&self) -> usize {
        ParseError::position(self)
    }
    fn other_all<T: ParseError<char, R, usize>>(self) -> Option<T> {
        Some(self.into_other_error::<T, char, R, usize>())
    }
    fn list(p: usize, v: Vec<Item>) -> Option<Self> {
        Some(easy::Errors::from_errors(p, v.into_iter().map(|i| make(i, true)).collect()))
    }
    fn remap(self) -> Self {
        self.map_token(upper).map_range(longer).map_position(|p| p + 10)
    }
}
type Error = easy::Error<char, R>;
impl See for Error {
    fn see(&self) -> Value {
        let x = easy::Errors { position: 0, errors: vec![] };
        let mut x: easy::Errors<char, R, usize> = x;
        // an equal value: it can not be cloned
        x.errors.push(match self {
            easy::Error::Unexpected(i) => easy::Error::Unexpected(i.clone()),
            easy::Error::Expected(i) => easy::Error::Expected(i.clone()),
            easy::Error::Message(i) => easy::Error::Message(i.clone()),
            easy::Error::Other(_) => easy::Error::Other(Box::new(Boom)),
        });
        json!({"s": x.errors.iter().map(seen).collect::<Vec<_>>(), "c": "", "p": 0, "d": self.to_string()})
    }
    fn at(&self) -> usize {
        ParseError::<char, R, usize>::position(self)
    }
    fn remap(self) -> Self {
        self.map_token(upper).map_range(longer)
    }
}
impl See for UnexpectedParse {
    fn see(&self) -> Value {
        let c = match self {
            UnexpectedParse::Eoi => "eoi",
            UnexpectedParse::Unexpected => "unexpected",
        };
        json!({"s": [], "c": c, "p": 0, "d": self.to_string()})
    }
    fn at(&self) -> usize {
        ParseError::<char, R, usize>::position(self)
    }
    fn other_all<T: ParseError<char, R, usize>>(self) -> Option<T> {
        Some(ParseErrorInto::<char, R, usize>::into_other_error::<T, char, R, usize>(self))
    }
}
impl See for StringStreamError {
    fn see(&self) -> Value {
        let c = match self {
            StringStreamError::Eoi => "eoi",
            StringStreamError::UnexpectedParse => "unexpected",
            StringStreamError::CharacterBoundary => "boundary",
        };
        json!({"s": [], "c": c, "p": 0, "d": self.to_string()})
    }
    fn at(&self) -> usize {
        ParseError::<char, R, usize>::position(self)
    }
    fn other_all<T: ParseError<char, R, usize>>(self) -> Option<T> {
        Some(ParseErrorInto::<char, R, usize>::into_other_error::<T, char, R, usize>(self))
    }
}
impl See for read::Error {
    fn see(&self) -> Value {
        let c = match self {
            read::Error::EndOfInput => "eoi",
            read::Error::Unexpected => "unexpected",
            read::Error::Io(_) => "io",
        };
        json!({"s": [], "c": c, "p": 0, "d": self.to_string()})
    }
    fn at(&self) -> usize {
        0
    }
}
const TYPES: &[&str] = &["errors", "error", "unexpected", "string", "read"];
#[derive(Debug, Clone)]
enum Op {
    New(usize, usize),
    From(usize, usize, Item, bool),
    Add(usize, Item, usize),
    SetPos(usize, usize),
    Merge(usize, usize),
    SetExpected(usize, Item, Vec<Item>),
    Clear(usize),
    Into(usize, bool, &'static str),
    /// methods of the collecting type itself
    Own(usize, Item),
    /// an error of given items, which may repeat themselves
    List(usize, usize, Vec<Item>),
    /// tokens, ranges and positions become others
    Map(usize),
    Eq(usize, usize),
}
fn into<E: See>(e: E, all: bool, ty: &str) -> Option<Value> {
    macro_rules! to {
        ($t: ty) => {
            if all {
                e.other_all::<$t>()?.look()
            } else {
                e.into_other::<$t>().look()
            }
        };
    }
    Some(match ty {
        "errors" => to!(Errors),
        "error" => to!(Error),
        "unexpected" => to!(UnexpectedParse),
        "string" => to!(StringStreamError),
        _ => to!(read::Error),
    })
}
fn item_json(i: &Item) -> Value {
    json!([i.0, i.1, i.2])
}
fn drive<E: See + PartialEq>(ops: &[Op], own: fn(&mut E, Item, bool) -> bool) -> Vec<Value> {
    let mut regs: Vec<E> = (0..3).map(|_| E::empty(0)).collect();
    let mut out = vec![];
    for op in ops {
        let r = guard(|| {
            let (reg, mut j) = match op.clone() {
                Op::New(r, p) => {
                    regs[r] = E::empty(p);
                    (r, json!({"op": "new", "p": p}))
                }
                Op::From(r, p, i, direct) => {
                    regs[r] = E::from_error(p, make(i, direct));
                    (r, json!({"op": "from", "p": p, "i": item_json(&i)}))
                }
                Op::Add(r, i, how) => {
                    add(&mut regs[r], i, how);
                    (r, json!({"op": "add", "i": item_json(&i)}))
                }
                Op::SetPos(r, p) => {
                    regs[r].set_position(p);
                    (r, json!({"op": "setpos", "p": p}))
                }
                Op::Merge(r, q) => {
                    let a = std::mem::replace(&mut regs[r], E::empty(0));
                    let b = std::mem::replace(&mut regs[q], E::empty(0));
                    regs[r] = a.merge(b);
                    (r, json!({"op": "merge", "q": q + 1}))
                }
                Op::SetExpected(r, i, adds) => {
                    let mut t = Tracked::from(std::mem::replace(&mut regs[r], E::empty(0)));
                    E::set_expected(&mut t, make(i, false), |t| {
                        for i in &adds {
                            t.error.add(make(*i, true))
                        }
                    });
                    regs[r] = t.error;
                    let adds: Vec<_> = adds.iter().map(item_json).collect();
                    (r, json!({"op": "setexpected", "i": item_json(&i), "a": adds}))
                }
                Op::Clear(r) => {
                    regs[r].clear_expected();
                    (r, json!({"op": "clear"}))
                }
                Op::Into(r, all, ty) => {
                    let a = std::mem::replace(&mut regs[r], E::empty(0));
                    match into(a, all, ty) {
                        Some(v) => (r, json!({"op": "into", "all": all, "ty": ty, "got": v})),
                        None => (r, json!({"op": "lost"})),
                    }
                }
                Op::List(r, p, v) => {
                    let i: Vec<_> = v.iter().map(item_json).collect();
                    match E::list(p, v) {
                        Some(e) => {
                            regs[r] = e;
                            (r, json!({"op": "list", "p": p, "a": i}))
                        }
                        None => (r, json!({"op": "none"})),
                    }
                }
                Op::Map(r) => {
                    let e = std::mem::replace(&mut regs[r], E::empty(0));
                    regs[r] = e.remap();
                    (r, json!({"op": "map"}))
                }
                Op::Eq(r, q) => {
                    let eq = regs[r] == regs[q];
                    assert!(eq == (regs[q] == regs[r]) && eq != (regs[r] != regs[q]));
                    (r, json!({"op": "eq", "q": q + 1, "eq": eq}))
                }
                Op::Own(r, i) => {
                    if own(&mut regs[r], i, i.0 == "E") {
                        (r, json!({"op": "own", "i": item_json(&i)}))
                    } else {
                        (r, json!({"op": "none"}))
                    }
                }
            };
            j["r"] = json!(reg + 1);
            j["see"] = regs[reg].look();
            j["at"] = json!(regs[reg].at());
            j
        });
        match r {
            Ok(v) => out.push(v),
            Err(m) => {
                out.push(json!({"op": "PANIC", "m": m}));
                break;
            }
        }
    }
    out
}
fn item(r: &mut Rng) -> Item {
    match r.below(8) {
        0 => ("end", "", ""),
        1 => ("O", "", ""),
        _ => {
            let k = *r.pick(&["U", "E", "E", "M"]);
            let t = *r.pick(&["t", "r", "s", "f"]);
            let x = match t {
                "t" => *r.pick(&["a", "a", "b", "b", "A"]),
                "s" if k == "M" && r.chance(1, 2) => BOUNDARY,
                "s" if k != "M" && r.chance(1, 5) => "end of input",
                _ => *r.pick(&["a", "a", "b", "xy", "xy", "A", "xY"]),
            };
            (k, t, x)
        }
    }
}
fn expected(r: &mut Rng) -> Item {
    loop {
        let i = item(r);
        if i.0 == "E" {
            return i;
        }
    }
}
fn script(r: &mut Rng) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..r.range(4, 16) {
        let a = r.below(3);
        let op = match r.below(21) {
            0 => Op::New(a, r.below(3)),
            1 | 2 => Op::From(a, r.below(3), item(r), r.chance(1, 2)),
            3 | 4 | 5 | 6 | 7 => Op::Add(a, item(r), r.below(3)),
            8 => Op::SetPos(a, r.below(3)),
            9 | 10 | 11 => Op::Merge(a, (a + r.range(1, 2)) % 3),
            12 => Op::SetExpected(a, expected(r), (0..r.below(4)).map(|_| item(r)).collect()),
            13 => Op::Clear(a),
            16 => Op::List(a, r.below(3), (0..r.below(6)).map(|_| item(r)).collect()),
            17 => Op::Map(a),
            18 | 19 => Op::Eq(a, r.below(3)),
            14 | 15 => Op::Into(a, r.chance(1, 2), r.pick(TYPES)),
            _ => Op::Own(a, item(r)),
        };
        v.push(op);
    }
    v
}
/// the four results, with a value or an error
fn results(v: i32, e: &str) -> Vec<ParseResult<i32, String>> {
    vec![
        ParseResult::CommitOk(v),
        ParseResult::PeekOk(v),
        ParseResult::CommitErr(e.into()),
        ParseResult::PeekErr(e.to_string().into()),
    ]
}
fn show(r: &ParseResult<i32, String>) -> Value {
    match r {
        ParseResult::CommitOk(v) => json!(["CO", v.to_string()]),
        ParseResult::PeekOk(v) => json!(["PO", v.to_string()]),
        ParseResult::CommitErr(e) => json!(["CE", e]),
        ParseResult::PeekErr(e) => json!(["PE", e.error]),
    }
}
fn commits() -> Vec<Commit<i32>> {
    vec![Commit::Commit(1), Commit::Peek(1)]
}
fn com<T: ToString>(c: &Commit<T>) -> Value {
    match c {
        Commit::Commit(v) => json!(["CO", v.to_string()]),
        Commit::Peek(v) => json!(["PO", v.to_string()]),
    }
}
/// Every combination of the results and commitments.
fn algebra() -> Vec<Value> {
    let mut out = vec![];
    let mut put = |op: &str, a: Value, b: Value, got: Value| out.push(json!({"op": op, "a": a, "b": b, "got": got}));
    let none = || json!(["", ""]);
    for a in results(1, "x") {
        for b in results(2, "y") {
            put("and_then", show(&a), show(&b), show(&a.clone().and_then(|_| b.clone())));
        }
        put("map", show(&a), none(), show(&a.clone().map(|x| x + 10)));
        put("map_err", show(&a), none(), show(&a.clone().map_err(|e| e + "!")));
        put("is_ok", show(&a), none(), json!(["", if a.is_ok() { "yes" } else { "no" }]));
        put("is_err", show(&a), none(), json!(["", if a.is_err() { "yes" } else { "no" }]));
        let back: ParseResult<i32, String> = a.clone().into_result().into();
        put("same", show(&a), none(), show(&back));
        let other: Result<Commit<i32>, Commit<Tracked<String>>> = a.clone().into();
        let back = match other {
            Ok(Commit::Commit(v)) => ParseResult::CommitOk(v),
            Ok(Commit::Peek(v)) => ParseResult::PeekOk(v),
            Err(Commit::Commit(e)) => ParseResult::CommitErr(e.error),
            Err(Commit::Peek(e)) => ParseResult::PeekErr(e),
        };
        put("same", show(&a), none(), show(&back));
        let back = match a.as_ref() {
            ParseResult::CommitOk(v) => ParseResult::CommitOk(*v),
            ParseResult::PeekOk(v) => ParseResult::PeekOk(*v),
            ParseResult::CommitErr(e) => ParseResult::CommitErr(e.clone()),
            ParseResult::PeekErr(e) => ParseResult::PeekErr(e.error.clone().into()),
        };
        put("same", show(&a), none(), show(&back));
        for c in commits() {
            put("combine", com(&c), show(&a), show(&c.combine_commit(|_| a.clone())));
            let r: ParseResult<i32, String> = c.combine(|_| a.clone().into_result()).into();
            put("combine", com(&c), show(&a), show(&r));
        }
    }
    for a in commits() {
        for b in [Commit::Commit(2), Commit::Peek(2)] {
            put("merge", com(&a), com(&b), com(&a.merge(b)));
        }
        put("map", com(&a), none(), com(&a.map(|x| x + 10)));
        put("into_commit", com(&a), none(), com(&a.into_commit()));
        put("into_peek", com(&a), none(), com(&a.into_peek()));
        put("is_peek", com(&a), none(), json!(["", if a.is_peek() { "yes" } else { "no" }]));
        put("inner", com(&a), none(), json!(["", a.into_inner().to_string()]));
        put("inner", com(&a), none(), json!(["", a.as_ref().to_string()]));
        let mut m = a;
        put("inner", com(&a), none(), json!(["", m.as_mut().to_string()]));
    }
    out
}
pub fn record(a: &Args) {
    let mut r = Rng(a.num("seed", 1).wrapping_mul(0x1234_5678_9abc_def1));
    r.next();
    let mut out = a.out();
    out.line(json!({"ty": "result", "os": algebra()}));
    for _ in 0..a.num("n", 1000) {
        let ty = *r.pick(&["errors", "errors", "errors", "error", "unexpected", "string", "read"]);
        let ops = script(&mut r);
        watch::case(|| json!({"type": ty, "ops": format!("{:?}", ops)}).to_string());
        let os = match ty {
            "errors" => drive::<Errors>(&ops, |e, i, set| {
                if set {
                    let info = match i {
                        (_, "t", x) => easy::Info::Token(tok(x)),
                        (_, "r", x) => easy::Info::Range(x),
                        (_, "s", x) => easy::Info::Static(x),
                        (_, _, x) => easy::Info::Owned(x.into()),
                    };
                    e.set_expected(info);
                } else {
                    e.add_error(make(i, true));
                }
                true
            }),
            "error" => drive::<Error>(&ops, |_, _, _| false),
            "unexpected" => drive::<UnexpectedParse>(&ops, |_, _, _| false),
            "string" => drive::<StringStreamError>(&ops, |_, _, _| false),
            _ => drive::<read::Error>(&ops, |_, _, _| false),
        };
        out.line(json!({"ty": ty, "os": os}));
    }
    watch::done();
}
