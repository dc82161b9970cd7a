//! Which parsers and inputs a property's driver concentrates on.
use crate::gen::Prof;

const TOKENS: &[&str] = &["any", "tok", "tok", "sat", "satmap", "oneof", "noneof", "class", "str", "strcmp", "toks", "tokscmp"];
const EMPTY: &[&str] = &["value", "produce", "unexpected"];
const RANGES: &[&str] = &["range", "take_while", "take_while1", "take_until_range", "take_fn", "take_fn2"];
const SEQ: &[&str] = &["seq1", "seq2", "seq3", "seq4", "struct3", "and", "with", "skip", "between"];
const THEN: &[&str] = &["then", "then_partial", "then_ref", "dispatch"];
const CHOICE: &[&str] = &["or", "choice2", "choice3", "choice4", "choicem", "arr2", "arr3", "slice", "slices", "optional"];
const LOOK: &[&str] = &["attempt", "look_ahead", "nfb"];
const MAP: &[&str] = &["map", "map_input", "and_then", "flat_map", "recognize", "fromstr"];
const LABEL: &[&str] = &["expected", "message", "silent"];
const REPEAT: &[&str] = &[
    "count", "cmm", "skip_count", "skip_cmm", "many", "many1", "skip_many", "skip_many1", "sep_by", "sep_by1",
    "sep_end_by", "sep_end_by1", "chainl1", "chainr1", "take_until", "skip_until", "repeat_until",
    "repeat_skip_until", "escaped", "iterate", "iter",
];
const WRAP: &[&str] = &[
    "fnp", "lazy", "factory", "opaque", "no_partial", "aps", "asps", "assps", "boxed", "left", "right", "pmacro",
    "byref",
];
pub const BYTES: &[&str] = &["bytes", "bytescmp", "tub", "tubs", "num"];
pub const REGEX: &[&str] = &["rx_match", "rx_find", "rx_find_many", "rx_captures", "rx_captures_many"];
const RREC: &[&str] = &["rrec", "rrecv"];

fn cat(l: &[&[&'static str]]) -> Vec<&'static str> {
    l.iter().flat_map(|x| x.iter().copied()).collect()
}
/// The parsers which a property is about.
pub fn focus(name: &str) -> Vec<&'static str> {
    match name {
        "all" => cat(&[TOKENS, EMPTY, RANGES, &["eof", "length_prefix"], SEQ, THEN, CHOICE, LOOK, MAP, LABEL, REPEAT, WRAP, RREC]),
        "choice" => cat(&[CHOICE]),
        "look" => cat(&[LOOK]),
        "seq" => cat(&[SEQ, THEN, MAP]),
        "repeat" => cat(&[REPEAT]),
        "label" => cat(&[LABEL]),
        "bytes" => cat(&[BYTES, BYTES, &["num", "num", "length_prefix", "fromstr"]]),
        "regex" => cat(&[REGEX]),
        "tokens" => cat(&[TOKENS, &["classx", "classx", "classx", "classx"], EMPTY, &["eof", "str0"]]),
        "iter" => vec!["iter", "iterate", "fromstr"],
        "big" => vec!["tup", "chs", "arr"],
        "wrap" => cat(&[WRAP]),
        "range" => cat(&[RANGES, RREC, &["length_prefix"]]),
        "stateful" => cat(&[SEQ, THEN, CHOICE, LOOK, REPEAT, &["recognize", "rrec", "rrecv"], WRAP]),
        x => panic!("focus {}", x),
    }
}
pub fn prof(name: &str) -> Prof {
    let (leaves, nodes): (Vec<_>, Vec<_>) = match name {
        "all" => (
            cat(&[TOKENS, EMPTY, RANGES, &["eof", "length_prefix", "str0"]]),
            cat(&[SEQ, THEN, CHOICE, LOOK, MAP, LABEL, REPEAT, WRAP, RREC]),
        ),
        "choice" => (cat(&[TOKENS, EMPTY]), cat(&[CHOICE, CHOICE, SEQ, &["attempt", "map", "many", "then"]])),
        "look" => (cat(&[TOKENS, &["eof"]]), cat(&[LOOK, LOOK, LOOK, SEQ, CHOICE, &["many", "take_until"]])),
        "seq" => (cat(&[TOKENS, EMPTY]), cat(&[SEQ, SEQ, THEN, MAP, &["optional", "attempt", "or", "many"]])),
        "repeat" => (cat(&[TOKENS]), cat(&[REPEAT, REPEAT, &["seq2", "or", "attempt", "optional", "with", "skip"]])),
        "error" => (
            cat(&[&["tok", "tok", "tok", "any", "oneof", "class", "str", "toks"], EMPTY]),
            cat(&[SEQ, CHOICE, &["optional", "many", "many1", "sep_by", "attempt", "expected", "sep_by1"]]),
        ),
        "label" => (
            cat(&[&["tok", "tok", "class", "str", "toks", "sat"], EMPTY]),
            cat(&[LABEL, LABEL, LABEL, &["seq2", "seq3", "or", "choice2", "attempt", "many", "optional", "with"]]),
        ),
        "range" => (
            cat(&[RANGES, RANGES, &["tok", "any", "str"]]),
            cat(&[RREC, &["seq2", "seq3", "or", "many", "many1", "sep_by", "attempt", "optional", "with", "skip", "look_ahead", "repeat_until", "then_partial", "take_until"]]),
        ),
        "wrap" => (
            cat(&[TOKENS, EMPTY]),
            cat(&[WRAP, WRAP, &["seq2", "seq3", "or", "choice3", "many", "attempt", "optional", "sep_by1", "then", "expected"]]),
        ),
        "tokens" => (
            cat(&[TOKENS, &["classx", "classx", "classx", "eof", "str0"]]),
            cat(&[&["seq2", "or", "many", "with", "skip", "attempt"]]),
        ),
        "bytes" => (
            cat(&[BYTES, BYTES, &["num", "num", "num", "tok", "any", "take", "range", "length_prefix", "fromstr"]]),
            cat(&[&["seq2", "seq3", "or", "many", "many1", "sep_by", "attempt", "optional", "with", "skip", "look_ahead",
                    "then_partial", "choice3", "recognize", "expected"]]),
        ),
        "regex" => (
            cat(&[REGEX, REGEX, &["tok", "any", "str", "take_while", "eof"]]),
            cat(&[&["seq2", "seq3", "or", "optional", "attempt", "with", "skip", "look_ahead", "then", "choice3", "rrec",
                    "expected", "map", "nfb", "count"]]),
        ),
        x => panic!("profile {}", x),
    };
    let mut p = Prof::new(&leaves, &nodes);
    p.alpha = "ab1;".chars().collect();
    p
}
