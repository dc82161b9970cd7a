//! Parents with one child of a concrete type.
use cvlib::{ast::G, build::*, val::Val};
use combine::{
    error::StreamError,
    parser::{
        choice::or,
        combinator::{any_partial_state, any_send_partial_state, any_send_sync_partial_state, lazy, no_partial},
        range,
        repeat::{
            chainl1, chainr1, count, count_min_max, escaped, many, many1, repeat_skip_until, repeat_until, sep_by,
            sep_by1, sep_end_by, sep_end_by1, skip_count, skip_count_min_max, skip_many, skip_many1, skip_until,
            take_until,
        },
        token::{satisfy, token},
    },
    choice, Parser, RangeStream, StreamOnce,
};

pub const KIDS: &[&str] = &[
    "attempt", "lazy", "opaque", "look_ahead", "left", "aps", "no_partial", "with", "seq2", "or", "choice2", "optional",
    "many1", "tok", "sat", "expected", "then", "fnp", "recognize", "sep_by1", "and_then", "nfb", "boxed", "escaped",
];
pub const THEN_KIDS: &[&str] = &["attempt", "lazy", "opaque", "seq2", "or", "tok", "many1", "expected", "look_ahead"];

pub fn slot(k: &str, i: usize) -> bool {
    match k {
        "seq1" | "optional" | "attempt" | "look_ahead" | "nfb" | "map" | "map_input" | "and_then" | "flat_map"
        | "recognize" | "expected" | "message" | "silent" | "count" | "cmm" | "skip_count" | "skip_cmm" | "many"
        | "many1" | "skip_many" | "skip_many1" | "take_until" | "skip_until" | "fnp" | "opaque"
        | "no_partial" | "aps" | "asps" | "assps" | "boxed" | "left" | "right" | "rrec" | "rrecv" | "then"
        | "then_partial" | "then_ref" => i == 0,
        "seq2" | "seq3" | "and" | "with" | "skip" | "or" | "choice2" | "choice3" | "sep_by" | "sep_by1"
        | "sep_end_by" | "sep_end_by1" | "chainl1" | "chainr1" | "repeat_until" | "repeat_skip_until" | "escaped" => {
            i < 2
        }
        "between" => i == 2,
        _ => false,
    }
}

/// `$b` with `$p` as the child which `$g` describes.
macro_rules! kid {
    ($I: ident, $X: ident, $g: expr, $p: ident => $b: expr) => {{
        let h = $g;
        let k = |i: usize| build::<$I, $X>(&h.ps[i]);
        match h.k.as_str() {
            "attempt" => { let $p = combine::attempt(k(0)); $b }
            "lazy" => { let $p = lazy(move || build::<$I, $X>(&h.ps[0])); $b }
            "opaque" => { let $p = combine::opaque!(build::<$I, $X>(&h.ps[0])); $b }
            "look_ahead" => { let $p = combine::look_ahead(k(0)); $b }
            "left" => { let $p = k(0).left::<BP<'a, $I>>(); $b }
            "aps" => { let $p = any_partial_state(k(0)); $b }
            "no_partial" => { let $p = no_partial(k(0)); $b }
            "with" => { let $p = k(0).with(k(1)); $b }
            "seq2" => { let $p = (k(0), k(1)).map(|(a, b)| Val::T(vec![a, b])); $b }
            "or" => { let $p = or(k(0), k(1)); $b }
            "choice2" => { let $p = choice((k(0), k(1))); $b }
            "optional" => { let $p = combine::optional(k(0)).map(opv); $b }
            "many1" => { let $p = many1::<Vec<Val>, _, _>(k(0)).map(Val::L); $b }
            "sep_by1" => { let $p = sep_by1::<Vec<Val>, _, _, _>(k(0), k(1)).map(Val::L); $b }
            "tok" => { let $p = token(<$I::Token as Tok>::of(h.c.unwrap())).map(cv); $b }
            "sat" => { let $p = satisfy(move |t: $I::Token| has(h, t)).map(cv); $b }
            "expected" => { let $p = k(0).expected(label(h)); $b }
            "then" => { let $p = k(0).then(move |v| build::<$I, $X>(&h.ps[if v.contains(h.c.unwrap()) { 1 } else { 2 }])); $b }
            "fnp" => { let $p = combine::parser(move |input: &mut $I| build::<$I, $X>(&h.ps[0]).parse_stream(input).into_result()); $b }
            "recognize" => { let $p = combine::parser::combinator::recognize::<Vec<$I::Token>, _, _>(k(0)).map(lv); $b }
            "and_then" => { let $p = k(0).and_then(bad::<$I>(h)); $b }
            "nfb" => { let $p = combine::not_followed_by(k(0).map(|_| "value")).map(|_| Val::U); $b }
            "boxed" => { let $p = Box::new(k(0)); $b }
            "escaped" => { let $p = escaped(k(0), <$I::Token as Tok>::of(h.c.unwrap()), k(1)).map(|_| Val::U); $b }
            x => panic!("child {}", x),
        }
    }};
}
macro_rules! then_kid {
    ($I: ident, $X: ident, $g: expr, $b: ident, $w: ident) => {{
        let h = $g;
        macro_rules! go {
            (|$k: ident, $y: ident| $e: expr) => {
                $b!(build::<$I, $X>(&h.ps[0]).$w(move |v: $b!(@ty)| {
                    let $y = &h.ps[if v.contains(h.c.unwrap()) { 1 } else { 2 }];
                    let $k = |i: usize| build::<$I, $X>(&$y.ps[i]);
                    let _ = &$k;
                    $e
                }))
            };
        }
        match h.ps[1].k.as_str() {
            "attempt" => go!(|k, y| combine::attempt(k(0))),
            "lazy" => go!(|k, y| lazy(move || build::<$I, $X>(&y.ps[0]))),
            "opaque" => go!(|k, y| combine::opaque!(build::<$I, $X>(&y.ps[0]))),
            "seq2" => go!(|k, y| (k(0), k(1)).map(|(a, b)| Val::T(vec![a, b]))),
            "or" => go!(|k, y| or(k(0), k(1))),
            "tok" => go!(|k, y| token(<$I::Token as Tok>::of(y.c.unwrap())).map(cv)),
            "many1" => go!(|k, y| many1::<Vec<Val>, _, _>(k(0)).map(Val::L)),
            "expected" => go!(|k, y| k(0).expected(label(y))),
            "look_ahead" => go!(|k, y| combine::look_ahead(k(0))),
            x => panic!("child {}", x),
        }
    }};
}
macro_rules! few_kids {
    ($I: ident, $X: ident, $g: expr, $w: ident) => {{
        let y = &$g.ps[0];
        let k = move |i: usize| build::<$I, $X>(&y.ps[i]);
        match y.k.as_str() {
            "attempt" => bx($w!(combine::attempt(k(0)))),
            "lazy" => bx($w!(lazy(move || k(0)))),
            "opaque" => bx($w!(combine::opaque!(k(0)))),
            "seq2" => bx($w!((k(0), k(1)).map(|(a, b)| Val::T(vec![a, b])))),
            "or" => bx($w!(or(k(0), k(1)))),
            "tok" => bx($w!(token(<$I::Token as Tok>::of(y.c.unwrap())).map(cv))),
            "many1" => bx($w!(many1::<Vec<Val>, _, _>(k(0)).map(Val::L))),
            "expected" => bx($w!(k(0).expected(label(y)))),
            "look_ahead" => bx($w!(combine::look_ahead(k(0)))),
            x => panic!("child {}", x),
        }
    }};
}
macro_rules! in_lazy { ($e: expr) => { lazy(move || $e) }; }
macro_rules! in_aps { ($e: expr) => { any_partial_state($e) }; }
macro_rules! in_asps { ($e: expr) => { any_send_partial_state($e) }; }
macro_rules! in_assps { ($e: expr) => { any_send_sync_partial_state($e) }; }
macro_rules! plain {
    (@ty) => { Val };
    ($e: expr) => { bx($e) };
}
macro_rules! by_mut {
    (@ty) => { &mut Val };
    ($e: expr) => { bx($e) };
}
macro_rules! by_ref {
    (@ty) => { &Val };
    ($e: expr) => { bx($e.map(|(a, b)| Val::T(vec![a, b]))) };
}
fn label(g: &G) -> &'static str {
    match g.t.as_deref().unwrap() {
        "l" => "l",
        "exp1" => "exp1",
        "exp2" => "exp2",
        "msg1" => "msg1",
        "msg2" => "msg2",
        x => panic!("label {}", x),
    }
}
fn bad<I: combine::Stream>(g: &G) -> impl FnMut(Val) -> Result<Val, combine::stream::StreamErrorFor<I>> + '_ {
    move |v| {
        if v.contains(g.c.unwrap()) {
            Err(combine::stream::StreamErrorFor::<I>::message_static_message("bad"))
        } else {
            Ok(v)
        }
    }
}

pub struct StatExt;
impl<'a, I> Ext<'a, I> for StatExt
where
    I: RangeStream + 'a,
    I::Range: RangeVal<I::Token> + 'a,
    I::Token: Tok,
    I::Position: PosShow,
{
    fn ext(g: &'a G) -> BP<'a, I> {
        let q = |i: usize| build::<I, StatExt>(&g.ps[i]);
        match (&*g.k, g.ps.len()) {
            ("tup", n) => match n {
                5 => bx((q(0), q(1), q(2), q(3), q(4)).map(|(x0, x1, x2, x3, x4)| Val::T(vec![x0, x1, x2, x3, x4]))),
                6 => bx((q(0), q(1), q(2), q(3), q(4), q(5)).map(|(x0, x1, x2, x3, x4, x5)| Val::T(vec![x0, x1, x2, x3, x4, x5]))),
                7 => bx((q(0), q(1), q(2), q(3), q(4), q(5), q(6)).map(|(x0, x1, x2, x3, x4, x5, x6)| Val::T(vec![x0, x1, x2, x3, x4, x5, x6]))),
                8 => bx((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7)).map(|(x0, x1, x2, x3, x4, x5, x6, x7)| Val::T(vec![x0, x1, x2, x3, x4, x5, x6, x7]))),
                12 => bx((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11)).map(|(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11)| Val::T(vec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11]))),
                20 => bx((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11), q(12), q(13), q(14), q(15), q(16), q(17), q(18), q(19)).map(|(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19)| Val::T(vec![x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15, x16, x17, x18, x19]))),
                n => panic!("tuple of {}", n),
            },
            ("chs", n) => match n {
                5 => bx(choice((q(0), q(1), q(2), q(3), q(4)))),
                6 => bx(choice((q(0), q(1), q(2), q(3), q(4), q(5)))),
                8 => bx(choice((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7)))),
                15 => bx(choice((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11), q(12), q(13), q(14)))),
                25 => bx(choice((q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11), q(12), q(13), q(14), q(15), q(16), q(17), q(18), q(19), q(20), q(21), q(22), q(23), q(24)))),
                n => panic!("choice of {}", n),
            },
            ("arr", n) => match n {
                1 => bx(choice([q(0)])),
                5 => bx(choice([q(0), q(1), q(2), q(3), q(4)])),
                8 => bx(choice([q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7)])),
                16 => bx(choice([q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11), q(12), q(13), q(14), q(15)])),
                32 => bx(choice([q(0), q(1), q(2), q(3), q(4), q(5), q(6), q(7), q(8), q(9), q(10), q(11), q(12), q(13), q(14), q(15), q(16), q(17), q(18), q(19), q(20), q(21), q(22), q(23), q(24), q(25), q(26), q(27), q(28), q(29), q(30), q(31)])),
                n => panic!("array of {}", n),
            },
            _ => range_ext::<I, StatExt>(g),
        }
    }
    fn stat(g: &'a G) -> BP<'a, I> {
        let q = |i: usize| build::<I, StatExt>(&g.ps[i]);
        let n = || g.n.unwrap();
        let at = g.ps.iter().position(|p| p.st).unwrap();
        macro_rules! k {
            ($p: ident => $b: expr) => { kid!(I, StatExt, &g.ps[at], $p => $b) };
        }
        let t1 = |v| Val::T(vec![v]);
        let t2 = |(a, b)| Val::T(vec![a, b]);
        let t3 = |(a, b, c)| Val::T(vec![a, b, c]);
        let op = |o| move |l: Val, r: Val| Val::B(Box::new(l), Box::new(o), Box::new(r));
        let other = |v: Val| Val::M(Box::new(v));
        match (g.k.as_str(), at) {
            ("seq1", 0) => k!(p => bx((p,).map(move |(a,)| t1(a)))),
            ("seq2", 0) => k!(p => bx((p, q(1)).map(t2))),
            ("seq2", 1) => k!(p => bx((q(0), p).map(t2))),
            ("seq3", 0) => k!(p => bx((p, q(1), q(2)).map(t3))),
            ("seq3", 1) => k!(p => bx((q(0), p, q(2)).map(t3))),
            ("and", 0) => k!(p => bx(p.and(q(1)).map(t2))),
            ("and", 1) => k!(p => bx(q(0).and(p).map(t2))),
            ("with", 0) => k!(p => bx(p.with(q(1)))),
            ("with", 1) => k!(p => bx(q(0).with(p))),
            ("skip", 0) => k!(p => bx(p.skip(q(1)))),
            ("skip", 1) => k!(p => bx(q(0).skip(p))),
            ("between", 2) => k!(p => bx(combine::between(q(0), q(1), p))),
            ("then", 0) => k!(p => bx(p.then(move |v| build::<I, StatExt>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }])))),
            ("then_partial", 0) => k!(p => bx(p.then_partial(move |v| build::<I, StatExt>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }])))),
            ("then_ref", 0) => k!(p => bx(p.then_ref(move |v| build::<I, StatExt>(&g.ps[if v.contains(g.c.unwrap()) { 1 } else { 2 }])).map(t2))),
            ("then", _) => then_kid!(I, StatExt, g, plain, then),
            ("then_partial", _) => then_kid!(I, StatExt, g, by_mut, then_partial),
            ("then_ref", _) => then_kid!(I, StatExt, g, by_ref, then_ref),
            ("or", 0) => k!(p => bx(or(p, q(1)))),
            ("or", 1) => k!(p => bx(or(q(0), p))),
            ("choice2", 0) => k!(p => bx(choice((p, q(1))))),
            ("choice2", 1) => k!(p => bx(choice((q(0), p)))),
            ("choice3", 0) => k!(p => bx(choice((p, q(1), q(2))))),
            ("choice3", 1) => k!(p => bx(choice((q(0), p, q(2))))),
            ("optional", 0) => k!(p => bx(combine::optional(p).map(opv))),
            ("attempt", 0) => k!(p => bx(combine::attempt(p))),
            ("look_ahead", 0) => k!(p => bx(combine::look_ahead(p))),
            ("nfb", 0) => k!(p => bx(combine::not_followed_by(p.map(|_| "value")).map(|_| Val::U))),
            ("map", 0) => k!(p => bx(p.map(other))),
            ("map_input", 0) => k!(p => bx(p.map_input(move |v, _: &mut I| other(v)))),
            ("and_then", 0) => k!(p => bx(p.and_then(bad::<I>(g)))),
            ("flat_map", 0) => k!(p => bx(p.map_input(|v, i: &mut I| (v, i.position())).flat_map(move |(v, pos)| {
                if v.contains(g.c.unwrap()) {
                    Err(<<I as StreamOnce>::Error as combine::error::ParseError<_, _, _>>::from_error(
                        pos,
                        combine::stream::StreamErrorFor::<I>::message_static_message("bad"),
                    ))
                } else {
                    Ok(v)
                }
            }))),
            ("recognize", 0) => k!(p => bx(combine::parser::combinator::recognize::<Vec<I::Token>, _, _>(p).map(lv))),
            ("expected", 0) => k!(p => bx(p.expected(label(g)))),
            ("message", 0) => k!(p => bx(p.message(label(g)))),
            ("silent", 0) => k!(p => bx(p.silent())),
            ("count", 0) => k!(p => bx(count::<Vec<Val>, _, _>(n(), p).map(Val::L))),
            ("cmm", 0) => k!(p => bx(count_min_max::<Vec<Val>, _, _>(n(), g.m.unwrap(), p).map(Val::L))),
            ("skip_count", 0) => k!(p => bx(skip_count(n(), p).map(|_| Val::U))),
            ("skip_cmm", 0) => k!(p => bx(skip_count_min_max(n(), g.m.unwrap(), p).map(|_| Val::U))),
            ("many", 0) => k!(p => bx(many::<Vec<Val>, _, _>(p).map(Val::L))),
            ("many1", 0) => k!(p => bx(many1::<Vec<Val>, _, _>(p).map(Val::L))),
            ("skip_many", 0) => k!(p => bx(skip_many(p).map(|_| Val::U))),
            ("skip_many1", 0) => k!(p => bx(skip_many1(p).map(|_| Val::U))),
            ("sep_by", 0) => k!(p => bx(sep_by::<Vec<Val>, _, _, _>(p, q(1)).map(Val::L))),
            ("sep_by", 1) => k!(p => bx(sep_by::<Vec<Val>, _, _, _>(q(0), p).map(Val::L))),
            ("sep_by1", 0) => k!(p => bx(sep_by1::<Vec<Val>, _, _, _>(p, q(1)).map(Val::L))),
            ("sep_by1", 1) => k!(p => bx(sep_by1::<Vec<Val>, _, _, _>(q(0), p).map(Val::L))),
            ("sep_end_by", 0) => k!(p => bx(sep_end_by::<Vec<Val>, _, _, _>(p, q(1)).map(Val::L))),
            ("sep_end_by", 1) => k!(p => bx(sep_end_by::<Vec<Val>, _, _, _>(q(0), p).map(Val::L))),
            ("sep_end_by1", 0) => k!(p => bx(sep_end_by1::<Vec<Val>, _, _, _>(p, q(1)).map(Val::L))),
            ("sep_end_by1", 1) => k!(p => bx(sep_end_by1::<Vec<Val>, _, _, _>(q(0), p).map(Val::L))),
            ("chainl1", 0) => k!(p => bx(chainl1(p, q(1).map(op)))),
            ("chainl1", 1) => k!(p => bx(chainl1(q(0), p.map(op)))),
            ("chainr1", 0) => k!(p => bx(chainr1(p, q(1).map(op)))),
            ("chainr1", 1) => k!(p => bx(chainr1(q(0), p.map(op)))),
            ("take_until", 0) => k!(p => bx(take_until::<Vec<I::Token>, _, _>(p).map(lv))),
            ("skip_until", 0) => k!(p => bx(skip_until(p).map(|_| Val::U))),
            ("repeat_until", 0) => k!(p => bx(repeat_until::<Vec<Val>, _, _, _>(p, q(1)).map(Val::L))),
            ("repeat_until", 1) => k!(p => bx(repeat_until::<Vec<Val>, _, _, _>(q(0), p).map(Val::L))),
            ("repeat_skip_until", 0) => k!(p => bx(repeat_skip_until(p, q(1)).map(|_| Val::U))),
            ("repeat_skip_until", 1) => k!(p => bx(repeat_skip_until(q(0), p).map(|_| Val::U))),
            ("escaped", 0) => k!(p => bx(escaped(p, I::Token::of(g.c.unwrap()), q(1)).map(|_| Val::U))),
            ("escaped", 1) => k!(p => bx(escaped(q(0), I::Token::of(g.c.unwrap()), p).map(|_| Val::U))),
            ("fnp", 0) => bx(combine::parser(move |input: &mut I| kid!(I, StatExt, &g.ps[0], p => { let mut p = p; p.parse_stream(input).into_result() }))),
            ("lazy", 0) => few_kids!(I, StatExt, g, in_lazy),
            ("opaque", 0) => k!(p => bx({
                let mut p = p;
                combine::parser::combinator::opaque(
                    move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = Val, PartialState = _>)| f(&mut p),
                )
            })),
            ("no_partial", 0) => k!(p => bx(no_partial(p))),
            ("aps", 0) => few_kids!(I, StatExt, g, in_aps),
            ("asps", 0) => few_kids!(I, StatExt, g, in_asps),
            ("assps", 0) => few_kids!(I, StatExt, g, in_assps),
            ("boxed", 0) => k!(p => bx(Box::new(p))),
            ("left", 0) => k!(p => bx(p.left::<BP<'a, I>>())),
            ("right", 0) => k!(p => bx(p.right::<BP<'a, I>>())),
            ("rrec", 0) => k!(p => bx(range::recognize(p).map(|r: I::Range| r.val()))),
            ("rrecv", 0) => k!(p => bx(range::recognize_with_value(p).map(|(r, x): (I::Range, Val)| Val::T(vec![r.val(), x])))),
            (k, i) => panic!("static child {} of {}", i, k),
        }
    }
}
