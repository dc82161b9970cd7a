//! Builds real combine parsers from grammar terms.
use crate::{
    ast::{from_byte, real_bytes, to_byte, to_model, to_real, G},
    val::Val,
};
use combine::{
    error::{ParseResult, Tracked},
    parser::{
        choice::or,
        combinator::{
            any_partial_state, any_send_partial_state, any_send_sync_partial_state, factory, lazy,
            no_partial,
        },
        range,
        repeat::{
            chainl1, chainr1, count, count_min_max, escaped, iterate, many, many1, repeat_skip_until,
            repeat_until, sep_by, sep_by1, sep_end_by, sep_end_by1, skip_count, skip_count_min_max,
            skip_many, skip_many1, skip_until, take_until,
        },
        token::{any, eof, none_of, one_of, produce, satisfy, satisfy_map, token, tokens, tokens_cmp, value},
    },
    stream::{RangeStream, StreamErrorFor},
    ErrorOffset, Parser, Stream, StreamOnce,
};
use combine::{choice, error::StreamError};
use std::{any::TypeId, cell::RefCell, collections::HashMap, marker::PhantomData, mem};

/// `TypeId` of a type that need not be `'static`.
fn tid<T: ?Sized>() -> TypeId {
    trait NonStatic {
        fn get(&self) -> TypeId
        where
            Self: 'static;
    }
    impl<T: ?Sized> NonStatic for PhantomData<T> {
        fn get(&self) -> TypeId
        where
            Self: 'static,
        {
            TypeId::of::<T>()
        }
    }
    let p = PhantomData::<T>;
    NonStatic::get(unsafe { mem::transmute::<&dyn NonStatic, &(dyn NonStatic + 'static)>(&p) })
}

trait Any0 {}
impl<T> Any0 for T {}

/// A type-erased partial state which behaves exactly as the wrapped one: created by
/// `Default::default()` and kept until the owner replaces it.
#[derive(Default)]
pub struct DynState(Option<(TypeId, *mut (dyn Any0 + 'static))>);
unsafe impl Send for DynState {}
unsafe impl Sync for DynState {}
impl Drop for DynState {
    fn drop(&mut self) {
        if let Some((_, p)) = self.0.take() {
            unsafe { drop(Box::from_raw(p)) }
        }
    }
}
impl DynState {
    pub fn get<T: Default>(&mut self) -> &mut T {
        let id = tid::<T>();
        if self.0.as_ref().map(|x| x.0) != Some(id) {
            *self = DynState::default();
            let b: Box<dyn Any0 + '_> = Box::new(T::default());
            let p: *mut (dyn Any0 + '_) = Box::into_raw(b);
            self.0 = Some((id, unsafe { mem::transmute(p) }));
        }
        unsafe { &mut *(self.0.as_ref().unwrap().1 as *mut T) }
    }
}

pub struct Dyn<P>(pub P);
impl<I: Stream, P: Parser<I>> Parser<I> for Dyn<P> {
    type Output = P::Output;
    type PartialState = DynState;
    fn parse_stream(&mut self, input: &mut I) -> ParseResult<P::Output, <I as StreamOnce>::Error> {
        self.0.parse_stream(input)
    }
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<P::Output, <I as StreamOnce>::Error> {
        self.0.parse_lazy(input)
    }
    fn parse_first(
        &mut self,
        input: &mut I,
        state: &mut DynState,
    ) -> ParseResult<P::Output, <I as StreamOnce>::Error> {
        self.0.parse_first(input, state.get())
    }
    fn parse_partial(
        &mut self,
        input: &mut I,
        state: &mut DynState,
    ) -> ParseResult<P::Output, <I as StreamOnce>::Error> {
        self.0.parse_partial(input, state.get())
    }
    fn add_error(&mut self, e: &mut Tracked<<I as StreamOnce>::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<<I as StreamOnce>::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}
pub type BP<'a, I> = Box<dyn Parser<I, Output = Val, PartialState = DynState> + 'a>;
pub fn bx<'a, I: Stream + 'a, P: Parser<I, Output = Val> + 'a>(p: P) -> BP<'a, I> {
    Box::new(Dyn(p))
}

pub struct SliceChoice<'a, I>(pub Vec<BP<'a, I>>);
impl<'a, I: Stream> Parser<I> for SliceChoice<'a, I> {
    type Output = Val;
    type PartialState = (usize, DynState);
    fn parse_first(&mut self, i: &mut I, s: &mut (usize, DynState)) -> ParseResult<Val, I::Error> {
        choice(&mut self.0[..]).parse_first(i, s)
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut (usize, DynState)) -> ParseResult<Val, I::Error> {
        choice(&mut self.0[..]).parse_partial(i, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        choice(&mut self.0[..]).add_error(e)
    }
}

fn leak_str(s: &str) -> &'static str {
    thread_local!(static C: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    C.with(|c| {
        *c.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str()))
    })
}

pub fn leak_chars(s: &str) -> &'static [char] {
    thread_local!(static C: RefCell<HashMap<String, &'static [char]>> = RefCell::new(HashMap::new()));
    C.with(|c| {
        *c.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice()))
    })
}

pub fn leak_bytes(s: &[char]) -> &'static [u8] {
    thread_local!(static C: RefCell<HashMap<Vec<char>, &'static [u8]>> = RefCell::new(HashMap::new()));
    C.with(|c| *c.borrow_mut().entry(s.to_vec()).or_insert_with(|| Box::leak(real_bytes(s).into_boxed_slice())))
}

/// How a position is written down; the specification knows what each kind of stream should say.
pub trait PosShow {
    fn show(&self) -> String;
}
thread_local!(static BASE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// Where the input begins in memory.
pub fn set_base(p: usize) {
    BASE.with(|b| b.set(p))
}
impl<T: ?Sized> PosShow for combine::stream::PointerOffset<T> {
    fn show(&self) -> String {
        (self.0 as i64).wrapping_sub(BASE.with(|b| b.get()) as i64).to_string()
    }
}
impl PosShow for usize {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl PosShow for combine::stream::position::SourcePosition {
    fn show(&self) -> String {
        format!("{}:{}", self.line, self.column)
    }
}
impl<P: PosShow> PosShow for combine::stream::span::Span<P> {
    fn show(&self) -> String {
        format!("{}-{}", self.start.show(), self.end.show())
    }
}

/// Tokens that stand for model characters.
pub trait Tok: Copy + PartialEq + 'static {
    fn of(c: char) -> Self;
    fn ch(self) -> char;
    fn classes<'a, I>(g: &'a G) -> BP<'a, I>
    where
        I: Stream<Token = Self> + 'a,
        I::Error: 'a;
    /// `string`, `string_cmp` or `bytes`, `bytes_cmp`
    fn strs<'a, I>(g: &'a G, icase: bool) -> BP<'a, I>
    where
        I: Stream<Token = Self> + 'a;
}
macro_rules! classes {
    ($g: ident, $m: ident) => {{
        use combine::parser::$m as m;
        match $g.t.as_deref().unwrap() {
            "digit" => bx(m::digit().map(cv)),
            "letter" => bx(m::letter().map(cv)),
            "alpha_num" => bx(m::alpha_num().map(cv)),
            "space" => bx(m::space().map(cv)),
            "newline" => bx(m::newline().map(cv)),
            "tab" => bx(m::tab().map(cv)),
            "upper" => bx(m::upper().map(cv)),
            "lower" => bx(m::lower().map(cv)),
            "hex_digit" => bx(m::hex_digit().map(cv)),
            "oct_digit" => bx(m::oct_digit().map(cv)),
            "spaces" => bx(m::spaces().map(|_| Val::U)),
            "crlf" => bx(m::crlf().map(cv)),
            x => panic!("class {}", x),
        }
    }};
}
impl Tok for char {
    fn of(c: char) -> char {
        to_real(c)
    }
    fn ch(self) -> char {
        to_model(self)
    }
    fn classes<'a, I>(g: &'a G) -> BP<'a, I>
    where
        I: Stream<Token = char> + 'a,
    {
        classes!(g, char)
    }
    fn strs<'a, I>(g: &'a G, icase: bool) -> BP<'a, I>
    where
        I: Stream<Token = char> + 'a,
    {
        let s = leak_str(&g.s.as_ref().unwrap().iter().map(|c| to_real(*c)).collect::<String>());
        let f = |s: &str| Val::L(s.chars().map(|c| Val::C(to_model(c))).collect());
        if icase {
            bx(combine::parser::char::string_cmp(s, |a: char, b: char| a.eq_ignore_ascii_case(&b)).map(f))
        } else {
            bx(combine::parser::char::string(s).map(f))
        }
    }
}
impl Tok for u8 {
    fn of(c: char) -> u8 {
        to_byte(c)
    }
    fn ch(self) -> char {
        from_byte(self)
    }
    fn classes<'a, I>(g: &'a G) -> BP<'a, I>
    where
        I: Stream<Token = u8> + 'a,
    {
        classes!(g, byte)
    }
    fn strs<'a, I>(g: &'a G, icase: bool) -> BP<'a, I>
    where
        I: Stream<Token = u8> + 'a,
    {
        let s = leak_bytes(g.s.as_ref().unwrap());
        // `bytes` needs a stream whose ranges are byte slices; the generic form is `tokens`
        let f = |s: &[u8]| s.val();
        if icase {
            bx(tokens_cmp(s, |a: &u8, b: u8| a.eq_ignore_ascii_case(&b)).map(f))
        } else {
            bx(tokens(|a: &u8, b: u8| *a == b, leak_str(g.t.as_deref().unwrap()), s).map(f))
        }
    }
}
/// The tokens of `SliceStream`.
impl Tok for &'static char {
    fn of(c: char) -> Self {
        &leak_chars(&to_real(c).to_string())[0]
    }
    fn ch(self) -> char {
        to_model(*self)
    }
    fn classes<'a, I>(g: &'a G) -> BP<'a, I>
    where
        I: Stream<Token = &'static char> + 'a,
    {
        // `parser::char` is only for streams of `char`
        bx(satisfy(move |c: &'static char| match g.t.as_deref().unwrap() {
            "digit" => c.is_ascii_digit(),
            "letter" => c.is_alphabetic(),
            "alpha_num" => c.is_alphanumeric(),
            "upper" => c.is_uppercase(),
            "lower" => c.is_lowercase(),
            "hex_digit" => c.is_ascii_hexdigit(),
            x => panic!("class {}", x),
        })
        .map(cv))
    }
    fn strs<'a, I>(g: &'a G, icase: bool) -> BP<'a, I>
    where
        I: Stream<Token = &'static char> + 'a,
    {
        let s = leak_chars(&g.s.as_ref().unwrap().iter().map(|c| to_real(*c)).collect::<String>());
        bx(tokens_cmp(s.iter(), move |a: &'static char, b: &'static char| {
            if icase { a.eq_ignore_ascii_case(b) } else { a == b }
        })
        .map(|s: std::slice::Iter<'_, char>| Val::L(s.map(|c| Val::C(to_model(*c))).collect())))
    }
}
pub fn cv<T: Tok>(t: T) -> Val {
    Val::C(t.ch())
}
pub fn lv<T: Tok>(v: Vec<T>) -> Val {
    Val::L(v.into_iter().map(cv).collect())
}
pub fn opv(o: Option<Val>) -> Val {
    match o {
        None => Val::N,
        Some(v) => Val::S(Box::new(v)),
    }
}

/// Parsers which need more of the input type than `Stream`.
pub trait Ext<'a, I: Stream> {
    fn ext(g: &'a G) -> BP<'a, I>;
    /// A parser of which some children are not behind a pointer.
    fn stat(g: &'a G) -> BP<'a, I> {
        panic!("static children of {}", g.k)
    }
}
pub struct NoExt;
impl<'a, I: Stream> Ext<'a, I> for NoExt {
    fn ext(g: &'a G) -> BP<'a, I> {
        panic!("unknown node {}", g.k)
    }
}
pub trait RangeVal<T: Tok>: Clone + PartialEq + combine::stream::Range {
    fn of(s: &[char]) -> Self;
    fn val(self) -> Val;
    fn find(self, c: char) -> Option<usize>;
    fn size(self) -> usize;
    /// Parsers for this type of range only.
    fn more<'p, I>(g: &'p G) -> BP<'p, I>
    where
        I: RangeStream<Token = T, Range = Self> + 'p,
        Self: 'p,
    {
        panic!("unknown node {}", g.k)
    }
}
/// The text of a regular expression.
pub fn rx_text(x: &G) -> String {
    let p = |i: usize| {
        let q = &x.ps[i];
        let s = rx_text(q);
        match &*q.k {
            "chr" | "set" | "nset" | "grp" | "bol" | "eol" => s,
            _ => format!("(?:{})", s),
        }
    };
    let all = |sep: &str| (0..x.ps.len()).map(p).collect::<Vec<_>>().join(sep);
    let set = || x.s.as_ref().unwrap().iter().collect::<String>();
    let lazy = if x.m == Some(1) { "?" } else { "" };
    match &*x.k {
        "chr" => x.c.unwrap().to_string(),
        "set" => format!("[{}]", set()),
        "nset" => format!("[^{}]", set()),
        "cat" => all(""),
        "alt" => all("|"),
        "star" => format!("{}*{}", p(0), lazy),
        "plus" => format!("{}+{}", p(0), lazy),
        "opt" => format!("{}?{}", p(0), lazy),
        "grp" => format!("({})", rx_text(&x.ps[0])),
        "bol" => "^".into(),
        "eol" => "$".into(),
        k => panic!("regex {}", k),
    }
}
macro_rules! regexes {
    ($g: ident, $rx: expr) => {{
        use combine::parser::regex as rx;
        let re = $rx;
        let vals = |v: Vec<Self>| Val::L(v.into_iter().map(|r| r.val()).collect());
        match &*$g.k {
            "rx_match" => bx(rx::match_(re).map(|r: Self| r.val())),
            "rx_find" => bx(rx::find(re).map(|r: Self| r.val())),
            "rx_find_many" => bx(rx::find_many::<Vec<Self>, _, _>(re.clone()).map(vals)),
            "rx_captures" => bx(rx::captures::<Vec<Self>, _, _>(re.clone()).map(vals)),
            "rx_captures_many" => bx(rx::captures_many::<Vec<Self>, Vec<Vec<Self>>, _, _>(re)
                .map(move |v| Val::L(v.into_iter().map(vals).collect()))),
            k => panic!("unknown node {}", k),
        }
    }};
}
thread_local! {
    static RXS: RefCell<HashMap<String, &'static regex::Regex>> = RefCell::new(HashMap::new());
    static RXB: RefCell<HashMap<String, &'static regex::bytes::Regex>> = RefCell::new(HashMap::new());
}
fn rx_str(x: &G) -> &'static regex::Regex {
    let t: String = rx_text(x).chars().map(to_real).collect();
    RXS.with(|m| {
        *m.borrow_mut()
            .entry(t.clone())
            .or_insert_with(|| Box::leak(Box::new(regex::Regex::new(&t).unwrap())))
    })
}
fn rx_bytes(x: &G) -> &'static regex::bytes::Regex {
    let t = rx_text(x);
    RXB.with(|m| {
        *m.borrow_mut().entry(t.clone()).or_insert_with(|| {
            Box::leak(Box::new(regex::bytes::RegexBuilder::new(&t).unicode(false).build().unwrap()))
        })
    })
}
impl<'a> RangeVal<char> for &'a str {
    fn of(s: &[char]) -> Self {
        leak_str(&s.iter().map(|c| to_real(*c)).collect::<String>())
    }
    fn val(self) -> Val {
        Val::L(self.chars().map(|c| Val::C(to_model(c))).collect())
    }
    fn find(self, c: char) -> Option<usize> {
        str::find(self, to_real(c))
    }
    fn size(self) -> usize {
        self.len()
    }
    fn more<'p, I>(g: &'p G) -> BP<'p, I>
    where
        I: RangeStream<Token = char, Range = Self> + 'p,
        Self: 'p,
    {
        regexes!(g, rx_str(g.x.as_ref().unwrap()))
    }
}
impl<'a> RangeVal<u8> for &'a [u8] {
    fn of(s: &[char]) -> Self {
        leak_bytes(s)
    }
    fn val(self) -> Val {
        Val::L(self.iter().map(|c| Val::C(from_byte(*c))).collect())
    }
    fn find(self, c: char) -> Option<usize> {
        self.iter().position(|x| *x == to_byte(c))
    }
    fn size(self) -> usize {
        self.len()
    }
    fn more<'p, I>(g: &'p G) -> BP<'p, I>
    where
        I: RangeStream<Token = u8, Range = Self> + 'p,
        Self: 'p,
    {
        use combine::parser::byte;
        let s = || leak_bytes(g.s.as_ref().unwrap());
        macro_rules! num {
            ($($t: ident $be: ident $le: ident),*) => {
                match g.t.as_deref().unwrap() {
                    $(stringify!($be) => bx(byte::num::$be().map(|x: $t| x.to_be_bytes()[..].val())),
                    stringify!($le) => bx(byte::num::$le().map(|x: $t| x.to_be_bytes()[..].val())),)*
                    t => panic!("number {}", t),
                }
            };
        }
        match &*g.k {
            "bytes" => bx(byte::bytes(s()).map(|s: &[u8]| s.val())),
            "bytescmp" => {
                bx(byte::bytes_cmp(s(), |a: u8, b: u8| a.eq_ignore_ascii_case(&b)).map(|s: &[u8]| s.val()))
            }
            "tub" => match *s() {
                [a] => bx(byte::take_until_byte(a).map(|r: Self| r.val())),
                [a, b] => bx(byte::take_until_byte2(a, b).map(|r: Self| r.val())),
                [a, b, c] => bx(byte::take_until_byte3(a, b, c).map(|r: Self| r.val())),
                _ => panic!("tub"),
            },
            "tubs" => bx(byte::take_until_bytes(s()).map(|r: Self| r.val())),
            "num" => num!(u16 be_u16 le_u16, u32 be_u32 le_u32, u64 be_u64 le_u64, i16 be_i16 le_i16,
                          i32 be_i32 le_i32, i64 be_i64 le_i64, f32 be_f32 le_f32, f64 be_f64 le_f64),
            _ => regexes!(g, rx_bytes(g.x.as_ref().unwrap())),
        }
    }
}
impl<'a, T> RangeVal<T> for &'a [char]
where
    T: Tok,
{
    fn of(s: &[char]) -> Self {
        leak_chars(&s.iter().map(|c| to_real(*c)).collect::<String>())
    }
    fn val(self) -> Val {
        Val::L(self.iter().map(|c| Val::C(to_model(*c))).collect())
    }
    fn find(self, c: char) -> Option<usize> {
        self.iter().position(|x| *x == to_real(c))
    }
    fn size(self) -> usize {
        self.len()
    }
}
pub struct RangeExt;
impl<'a, I> Ext<'a, I> for RangeExt
where
    I: RangeStream + 'a,
    I::Range: RangeVal<I::Token> + 'a,
    I::Token: Tok,
    I::Position: PosShow,
{
    fn ext(g: &'a G) -> BP<'a, I> {
        range_ext::<I, RangeExt>(g)
    }
}
pub fn range_ext<'a, I, X>(g: &'a G) -> BP<'a, I>
where
    I: RangeStream + 'a,
    I::Range: RangeVal<I::Token> + 'a,
    I::Token: Tok,
    I::Position: PosShow,
    X: Ext<'a, I> + 'a,
{
    let v = |r: I::Range| r.val();
    let p = |i: usize| build::<I, X>(&g.ps[i]);
    match g.k.as_str() {
        "range" => bx(range::range(I::Range::of(g.s.as_ref().unwrap())).map(v)),
        "take" => {
            // in the model `n` counts tokens; in `&str` input the parser counts bytes, so
            // the generator only emits `take` for inputs made of one-byte characters
            bx(range::take(g.n.unwrap()).map(v))
        }
        "take_while" => bx(range::take_while(move |t: I::Token| has(g, t)).map(v)),
        "take_while1" => bx(range::take_while1(move |t: I::Token| has(g, t)).map(v)),
        "take_until_range" => bx(range::take_until_range(I::Range::of(g.s.as_ref().unwrap())).map(v)),
        "take_fn" => {
            let c = g.c.unwrap();
            bx(range::take_fn(move |r: I::Range| r.find(c)).map(v))
        }
        // a searcher that reports how much of the input it need not see again
        "take_fn2" => {
            let c = g.c.unwrap();
            bx(range::take_fn(move |r: I::Range| match r.clone().find(c) {
                Some(i) => range::TakeRange::Found(i),
                None => range::TakeRange::NotFound(r.size()),
            })
            .map(v))
        }
        "rrec" => bx(range::recognize(p(0)).map(v)),
        "rrecv" => {
            bx(range::recognize_with_value(p(0)).map(|(r, x): (I::Range, Val)| Val::T(vec![r.val(), x])))
        }
        "length_prefix" => {
            bx(range::length_prefix(p(0).map(|x| match x {
                Val::C(c) => c.to_digit(10).unwrap_or(0) as u32,
                _ => 0,
            }))
            .map(v))
        }
        _ => I::Range::more::<I>(g),
    }
}
pub fn has<T: Tok>(g: &G, t: T) -> bool {
    g.s.as_ref().unwrap().contains(&t.ch())
}

/// An error type that `and_then` closures may return.
#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bad")
    }
}
impl std::error::Error for Bad {}

pub fn build<'a, I, X>(g: &'a G) -> BP<'a, I>
where
    I: Stream + 'a,
    I::Token: Tok,
    I::Position: PosShow,
    X: Ext<'a, I> + 'a,
{
    if g.ps.iter().any(|p| p.st) {
        return X::stat(g);
    }
    let p = |i: usize| build::<I, X>(&g.ps[i]);
    let chars = || -> Vec<I::Token> { g.s.as_ref().unwrap().iter().map(|c| I::Token::of(*c)).collect() };
    let label = || leak_str(g.t.as_deref().unwrap());
    match g.k.as_str() {
        // ---- leaves
        "any" => bx(any().map(cv)),
        "tok" => bx(token(I::Token::of(g.c.unwrap())).map(cv)),
        "sat" => bx(satisfy(move |t: I::Token| has(g, t)).map(cv)),
        "satmap" => bx(satisfy_map(move |t: I::Token| if has(g, t) { Some(Val::M(Box::new(cv(t)))) } else { None })),
        "oneof" => bx(one_of(chars()).map(cv)),
        "noneof" => bx(none_of(chars()).map(cv)),
        "class" => I::Token::classes(g),
        "str" => I::Token::strs(g, false),
        "strcmp" => I::Token::strs(g, true),
        "toks" => bx(tokens(|a: I::Token, b: I::Token| a == b, label(), chars()).map(lv)),
        "tokscmp" => bx(tokens_cmp(chars(), |a: I::Token, b: I::Token| a == b).map(lv)),
        "eof" => bx(eof().map(|_| Val::U)),
        "value" => bx(value(Val::K("v"))),
        "produce" => bx(produce(|| Val::K("p"))),
        "posn" => bx(combine::position().map(|p: I::Position| Val::P(p.show()))),
        "unexpected" => bx(combine::unexpected_any::<I, _, Val>(label())),
        // ---- sequencing
        "seq1" => bx((p(0),).map(|(a,)| Val::T(vec![a]))),
        "seq2" => bx((p(0), p(1)).map(|(a, b)| Val::T(vec![a, b]))),
        "seq3" => bx((p(0), p(1), p(2)).map(|(a, b, c)| Val::T(vec![a, b, c]))),
        "seq4" => bx((p(0), p(1), p(2), p(3)).map(|(a, b, c, d)| Val::T(vec![a, b, c, d]))),
        "struct3" => {
            struct S {
                a: Val,
                b: Val,
            }
            bx(combine::struct_parser! { S { a: p(0), _: p(1), b: p(2) } }
                .map(|s: S| Val::T(vec![s.a, s.b])))
        }
        "and" => bx(p(0).and(p(1)).map(|(a, b)| Val::T(vec![a, b]))),
        "with" => bx(p(0).with(p(1))),
        "skip" => bx(p(0).skip(p(1))),
        "between" => bx(combine::between(p(0), p(1), p(2))),
        "then" => bx(p(0).then(move |v| build::<I, X>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }]))),
        "then_partial" => bx(
            p(0).then_partial(move |v| build::<I, X>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }]))
        ),
        "then_ref" => bx(p(0)
            .then_ref(move |v| build::<I, X>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }]))
            .map(|(a, b)| Val::T(vec![a, b]))),
        "dispatch" => bx(p(0).then(move |v| {
            combine::dispatch!(v;
                Val::C('a') | Val::C('1') => build::<I, X>(&g.ps[1]),
                x if x.contains(g.c.unwrap()) => build::<I, X>(&g.ps[2]),
                _ => value(Val::K("d")))
        })),
        // ---- choice
        "or" => bx(or(p(0), p(1))),
        "choice2" => bx(choice((p(0), p(1)))),
        "choice3" => bx(choice((p(0), p(1), p(2)))),
        "choice4" => bx(choice((p(0), p(1), p(2), p(3)))),
        "choicem" => bx(choice!(p(0), p(1), p(2))),
        "arr2" => bx(choice([p(0), p(1)])),
        "arr3" => bx(choice([p(0), p(1), p(2)])),
        "slice" => bx(SliceChoice((0..g.ps.len()).map(p).collect())),
        "optional" => bx(combine::optional(p(0)).map(opv)),
        // ---- lookahead
        "attempt" => bx(combine::attempt(p(0))),
        "look_ahead" => bx(combine::look_ahead(p(0))),
        "nfb" => bx(combine::not_followed_by(p(0).map(|_| "value")).map(|_| Val::U)),
        // ---- mapping
        "map" => bx(p(0).map(|v| Val::M(Box::new(v)))),
        "map_input" => bx(p(0).map_input(|v, _: &mut I| Val::M(Box::new(v)))),
        "and_then" => bx(p(0).and_then(move |v| {
            if v.contains(g.c.unwrap()) {
                Err(StreamErrorFor::<I>::message_static_message("bad"))
            } else {
                Ok(v)
            }
        })),
        "flat_map" => bx(p(0).map_input(|v, i: &mut I| (v, i.position())).flat_map(move |(v, pos)| {
            if v.contains(g.c.unwrap()) {
                Err(<I::Error as combine::error::ParseError<_, _, _>>::from_error(
                    pos,
                    StreamErrorFor::<I>::message_static_message("bad"),
                ))
            } else {
                Ok(v)
            }
        })),
        "recognize" => bx(combine::parser::combinator::recognize::<Vec<I::Token>, _, _>(p(0)).map(lv)),
        // ---- labels
        "expected" => bx(p(0).expected(label())),
        "message" => bx(p(0).message(label())),
        "silent" => bx(p(0).silent()),
        // ---- repetition
        "count" => bx(count::<Vec<Val>, _, _>(g.n.unwrap(), p(0)).map(Val::L)),
        "cmm" => bx(count_min_max::<Vec<Val>, _, _>(g.n.unwrap(), g.m.unwrap(), p(0)).map(Val::L)),
        "skip_count" => bx(skip_count(g.n.unwrap(), p(0)).map(|_| Val::U)),
        "skip_cmm" => bx(skip_count_min_max(g.n.unwrap(), g.m.unwrap(), p(0)).map(|_| Val::U)),
        "many" => bx(many::<Vec<Val>, _, _>(p(0)).map(Val::L)),
        "many1" => bx(many1::<Vec<Val>, _, _>(p(0)).map(Val::L)),
        "skip_many" => bx(skip_many(p(0)).map(|_| Val::U)),
        "skip_many1" => bx(skip_many1(p(0)).map(|_| Val::U)),
        "sep_by" => bx(sep_by::<Vec<Val>, _, _, _>(p(0), p(1)).map(Val::L)),
        "sep_by1" => bx(sep_by1::<Vec<Val>, _, _, _>(p(0), p(1)).map(Val::L)),
        "sep_end_by" => bx(sep_end_by::<Vec<Val>, _, _, _>(p(0), p(1)).map(Val::L)),
        "sep_end_by1" => bx(sep_end_by1::<Vec<Val>, _, _, _>(p(0), p(1)).map(Val::L)),
        "chainl1" => bx(chainl1(
            p(0),
            p(1).map(|o| move |l: Val, r: Val| Val::B(Box::new(l), Box::new(o), Box::new(r))),
        )),
        "chainr1" => bx(chainr1(
            p(0),
            p(1).map(|o| move |l: Val, r: Val| Val::B(Box::new(l), Box::new(o), Box::new(r))),
        )),
        "take_until" => bx(take_until::<Vec<I::Token>, _, _>(p(0)).map(lv)),
        "skip_until" => bx(skip_until(p(0)).map(|_| Val::U)),
        "repeat_until" => bx(repeat_until::<Vec<Val>, _, _, _>(p(0), p(1)).map(Val::L)),
        "repeat_skip_until" => bx(repeat_skip_until(p(0), p(1)).map(|_| Val::U)),
        "escaped" => bx(escaped(p(0), I::Token::of(g.c.unwrap()), p(1)).map(|_| Val::U)),
        "iterate" => bx(iterate::<Vec<Val>, _, _, _, _>(0..g.ps.len(), move |i: &usize, _: &mut I| {
            build::<I, X>(&g.ps[*i])
        })
        .map(Val::L)),
        "iter" => bx(combine::parser(move |input: &mut I| {
            let mut vs = vec![];
            let mut it = build::<I, X>(&g.ps[0]).iter(input);
            vs.extend(it.by_ref().take(g.n.unwrap()));
            it.into_result(Val::L(vs))
        })),
        "fromstr" => bx(combine::parser::combinator::from_str(p(0).map(|v| v.text())).map(|n: u8| Val::I(n as i64))),
        // ---- transparent wrappers
        "fnp" => bx(combine::parser(move |input: &mut I| build::<I, X>(&g.ps[0]).parse_stream(input).into_result())),
        "lazy" => bx(lazy(move || build::<I, X>(&g.ps[0]))),
        "factory" => bx(factory(move |_: &mut I| build::<I, X>(&g.ps[0]))),
        "opaque" => bx({ let p = combine::opaque!(build::<I, X>(&g.ps[0])); p }),
        "no_partial" => bx(no_partial(p(0))),
        "aps" => bx(any_partial_state(p(0))),
        "asps" => bx(any_send_partial_state(p(0))),
        "assps" => bx(any_send_sync_partial_state(p(0))),
        "boxed" => Box::new(Dyn(Box::new(p(0)))),
        "left" => bx(p(0).left::<BP<'a, I>>()),
        "right" => bx(p(0).right::<BP<'a, I>>()),
        "spanned" => bx(p(0)),
        "byref" => bx(ByRef(p(0))),
        "pmacro" => bx(pmacro(Wrap(p(0)))),
        _ => X::ext(g),
    }
}

/// Every call through `&mut P`.
pub struct ByRef<P>(P);
impl<I: Stream, P: Parser<I>> Parser<I> for ByRef<P> {
    type Output = P::Output;
    type PartialState = P::PartialState;
    fn parse_stream(&mut self, i: &mut I) -> ParseResult<P::Output, I::Error> {
        self.0.by_ref().parse_stream(i)
    }
    fn parse_lazy(&mut self, i: &mut I) -> ParseResult<P::Output, I::Error> {
        self.0.by_ref().parse_lazy(i)
    }
    fn parse_first(&mut self, i: &mut I, s: &mut P::PartialState) -> ParseResult<P::Output, I::Error> {
        self.0.by_ref().parse_first(i, s)
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut P::PartialState) -> ParseResult<P::Output, I::Error> {
        self.0.by_ref().parse_partial(i, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        Parser::<I>::add_error(&mut self.0.by_ref(), e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        Parser::<I>::add_committed_expected_error(&mut self.0.by_ref(), e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}
pub struct Wrap<'a, I>(BP<'a, I>);
impl<'a, I: Stream> Parser<I> for Wrap<'a, I> {
    type Output = Val;
    type PartialState = DynState;
    fn parse_lazy(&mut self, i: &mut I) -> ParseResult<Val, I::Error> {
        self.0.parse_lazy(i)
    }
    fn parse_first(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.parse_first(i, s)
    }
    fn parse_partial(&mut self, i: &mut I, s: &mut DynState) -> ParseResult<Val, I::Error> {
        self.0.parse_partial(i, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}
combine::parser! {
    type PartialState = P::PartialState;
    fn pmacro[Input, P](p: P)(Input) -> Val
    where [Input: Stream, P: Parser<Input, Output = Val>]
    {
        p.map(|v| v)
    }
}

