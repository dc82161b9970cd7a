//! Random grammars and inputs for them.
use crate::{
    ast::{g, G},
    rng::Rng,
};

/// The parsers without children which are of interest by themselves.
const LEAF: &[&str] = &[
    "any", "tok", "sat", "satmap", "oneof", "noneof", "class", "str", "strcmp", "toks", "tokscmp", "value", "produce",
    "unexpected", "range", "take", "take_while", "take_while1", "take_until_range", "take_fn", "take_fn2", "eof",
    "length_prefix", "fromstr", "bytes", "bytescmp", "tub", "tubs", "num", "rx_match", "rx_find", "rx_find_many",
    "rx_captures", "rx_captures_many",
];
pub const NUMS: &[(&str, usize)] = &[
    ("be_u16", 2), ("le_u16", 2), ("be_i16", 2), ("le_i16", 2), ("be_u32", 4), ("le_u32", 4), ("be_i32", 4),
    ("le_i32", 4), ("be_f32", 4), ("le_f32", 4), ("be_u64", 8), ("le_u64", 8), ("be_i64", 8), ("le_i64", 8),
    ("be_f64", 8), ("le_f64", 8),
];
pub const ALPHA: &[char] = &['a', 'b', 'c', '1', '2', ';', ','];

/// May the parser succeed without consuming? (conservative: true when unsure)
pub fn nullable(p: &G) -> bool {
    let n = |i: usize| nullable(&p.ps[i]);
    match p.k.as_str() {
        "any" | "tok" | "sat" | "satmap" | "oneof" | "noneof" => false,
        "class" => p.t.as_deref() == Some("spaces"),
        "str" | "strcmp" | "toks" | "tokscmp" | "range" | "bytes" | "bytescmp" => p.s.as_ref().unwrap().is_empty(),
        "tub" | "tubs" | "rx_match" | "rx_find" | "rx_find_many" | "rx_captures" | "rx_captures_many" | "iter" => true,
        "num" => false,
        "eof" | "value" | "produce" | "posn" => true,
        "unexpected" => false,
        "take" => p.n == Some(0),
        "take_while" | "take_until_range" | "take_fn" | "take_fn2" => true,
        "take_while1" => false,
        "length_prefix" => n(0),
        "seq1" | "seq2" | "seq3" | "seq4" | "tup" | "struct3" | "and" | "with" | "skip" | "between" | "iterate" => {
            (0..p.ps.len()).all(n)
        }
        "then" | "then_partial" | "then_ref" => n(0) && (n(1) || n(2)),
        "dispatch" => n(0),
        "or" | "choice2" | "choice3" | "choice4" | "choicem" | "arr2" | "arr3" | "slice" | "chs" | "arr" => {
            (0..p.ps.len()).any(n)
        }
        "optional" | "look_ahead" | "nfb" => true,
        "attempt" | "map" | "map_input" | "and_then" | "flat_map" | "recognize" | "expected" | "message"
        | "silent" | "rrec" | "rrecv" => n(0),
        "count" | "skip_count" => true,
        "cmm" | "skip_cmm" => p.n == Some(0) || n(0),
        "many" | "skip_many" | "sep_by" | "sep_end_by" => true,
        "many1" | "skip_many1" | "sep_by1" | "sep_end_by1" | "chainl1" | "chainr1" => n(0),
        "take_until" | "skip_until" | "repeat_until" | "repeat_skip_until" | "escaped" => true,
        "fnp" | "lazy" | "factory" | "opaque" | "no_partial" | "aps" | "asps" | "assps" | "boxed" | "left"
        | "right" | "spanned" | "pmacro" | "byref" | "fromstr" => n(0),
        k => panic!("nullable {}", k),
    }
}

pub fn rx_nullable(x: &G) -> bool {
    match &*x.k {
        "chr" | "set" | "nset" => false,
        "cat" => x.ps.iter().all(rx_nullable),
        "alt" => x.ps.iter().any(rx_nullable),
        "grp" | "plus" => rx_nullable(&x.ps[0]),
        _ => true,
    }
}
#[derive(Clone)]
pub struct Prof {
    pub leaves: Vec<&'static str>,
    pub nodes: Vec<&'static str>,
    pub alpha: Vec<char>,
    /// now and then inputs and counts up to this
    pub long: usize,
}
impl Prof {
    pub fn new(leaves: &[&'static str], nodes: &[&'static str]) -> Prof {
        Prof { leaves: leaves.to_vec(), nodes: nodes.to_vec(), alpha: ALPHA.to_vec(), long: 0 }
    }
    pub fn ch(&self, r: &mut Rng) -> char {
        *r.pick(&self.alpha)
    }
    pub fn set(&self, r: &mut Rng, max: usize) -> String {
        let n = r.range(1, max);
        let mut s = String::new();
        for _ in 0..n {
            let c = self.ch(r);
            if !s.contains(c) {
                s.push(c)
            }
        }
        s
    }
    pub fn word(&self, r: &mut Rng, min: usize, max: usize) -> String {
        (0..r.range(min, max)).map(|_| self.ch(r)).collect()
    }
    pub fn leaf(&self, r: &mut Rng) -> G {
        let k = *r.pick(&self.leaves);
        match k {
            "tok" | "take_fn" | "take_fn2" => g(k).c(self.ch(r)),
            "sat" | "satmap" | "oneof" | "noneof" | "take_while" | "take_while1" => g(k).s(&self.set(r, 3)),
            "class" => g(k).t(*r.pick(&["digit", "letter", "alpha_num", "upper", "lower", "hex_digit"])),
            "classx" => g("class").t(*r.pick(&[
                "digit", "letter", "alpha_num", "upper", "lower", "hex_digit", "oct_digit", "space",
                "newline", "tab", "spaces", "crlf",
            ])),
            "str" | "strcmp" | "toks" | "tokscmp" | "range" | "bytes" | "bytescmp" => g(k).s(&self.word(r, 1, 3)),
            "tub" => g(k).s(&self.set(r, 3)),
            "tubs" => g(k).s(&self.word(r, 0, 3)),
            "num" => {
                let (t, n) = *r.pick(NUMS);
                g(k).t(t).n(n)
            }
            "rx_match" | "rx_find" | "rx_find_many" | "rx_captures" | "rx_captures_many" => {
                let mut groups = 0;
                let d = r.range(1, 3);
                let mut x = self.regex(r, d, &mut groups);
                if r.chance(1, 2) {
                    x = G { ps: vec![g("bol"), x], ..g("cat") };
                }
                let t = format!("/{}/", crate::build::rx_text(&x));
                let mut p = g(k).t(&t).n(groups);
                p.x = Some(Box::new(x));
                p
            }
            "fromstr" => g(k).p(match r.below(4) {
                0 => g("many").p(g("class").t("digit")),
                1 => g("many1").p(g("any")),
                2 => g("cmm").n(1).m(3).p(g("any")),
                _ => g("many1").p(g("class").t("digit")),
            }),
            "str0" => g("str").s(""),
            "take" => g(k).n(self.times(r, 3)),
            "take_until_range" => g(k).s(&self.word(r, 1, 2)),
            "unexpected" => g(k).t("boo"),
            "length_prefix" => g(k).p(g("class").t("digit")),
            _ => g(k),
        }
    }
    /// A regular expression; what is repeated must not be empty.
    fn regex(&self, r: &mut Rng, d: usize, groups: &mut usize) -> G {
        if d == 0 || r.chance(1, 4) {
            return match r.below(8) {
                0 => g("bol"),
                1 => g("eol"),
                2 | 3 => g("set").s(&self.set(r, 2)),
                4 => g("nset").s(&self.set(r, 2)),
                _ => g("chr").c(self.ch(r)),
            };
        }
        let lazy = |r: &mut Rng| r.chance(1, 3) as usize;
        match r.below(8) {
            0 | 1 => {
                let a = self.regex(r, d - 1, groups);
                let b = self.regex(r, d - 1, groups);
                g("cat").p(a).p(b)
            }
            2 | 3 => {
                let a = self.regex(r, d - 1, groups);
                let b = self.regex(r, d - 1, groups);
                g("alt").p(a).p(b)
            }
            4 => {
                *groups += 1;
                let n = *groups;
                let a = self.regex(r, d - 1, groups);
                g("grp").n(n).p(a)
            }
            5 => {
                let a = self.regex(r, d - 1, groups);
                g("opt").m(lazy(r)).p(a)
            }
            k => {
                let before = *groups;
                for _ in 0..10 {
                    *groups = before;
                    let a = self.regex(r, d - 1, groups);
                    if !rx_nullable(&a) {
                        return g(if k == 6 { "star" } else { "plus" }).m(lazy(r)).p(a);
                    }
                }
                *groups = before;
                g("star").m(lazy(r)).p(g("chr").c(self.ch(r)))
            }
        }
    }
    /// A string that it may match.
    fn rx_sample(&self, r: &mut Rng, x: &G, out: &mut String) {
        if out.len() > 24 {
            return;
        }
        match &*x.k {
            "chr" => out.push(x.c.unwrap()),
            "set" => out.push(*r.pick(&x.s.as_ref().unwrap()[..])),
            "nset" => out.push(self.ch(r)),
            "cat" | "grp" => x.ps.iter().for_each(|p| self.rx_sample(r, p, out)),
            "alt" => {
                let i = r.below(x.ps.len());
                self.rx_sample(r, &x.ps[i], out)
            }
            "opt" => {
                if r.chance(1, 2) {
                    self.rx_sample(r, &x.ps[0], out)
                }
            }
            "star" | "plus" => {
                for _ in 0..r.range((x.k == "plus") as usize, 3) {
                    self.rx_sample(r, &x.ps[0], out)
                }
            }
            _ => {}
        }
    }
    /// Without these parsers.
    pub fn without(&mut self, ks: &[&str]) {
        self.leaves.retain(|k| !ks.contains(k));
        self.nodes.retain(|k| !ks.contains(k));
    }
    /// Parsers of bytes only.
    pub fn add_bytes(&mut self) {
        self.leaves.extend(crate::prof::BYTES);
    }
    /// `nn`: the result must not be nullable
    pub fn gen(&self, r: &mut Rng, depth: usize, nn: bool) -> G {
        for _ in 0..40 {
            let p = if depth == 0 || r.chance(1, 5) { self.leaf(r) } else { self.node(r, depth - 1) };
            if !nn || !nullable(&p) {
                return p;
            }
        }
        g("tok").c(self.ch(r))
    }
    fn node(&self, r: &mut Rng, d: usize) -> G {
        let k = *r.pick(&self.nodes);
        self.node_of(k, r, d)
    }
    /// Slots of a node whose parser must consume when it succeeds.
    fn must_consume(k: &str, slot: usize) -> bool {
        match k {
            "many" | "many1" | "skip_many" | "skip_many1" | "repeat_until" | "repeat_skip_until" | "escaped" | "iter" => slot == 0,
            "sep_by" | "sep_by1" | "sep_end_by" | "sep_end_by1" | "chainl1" | "chainr1" => slot == 1,
            _ => false,
        }
    }
    /// A leaf or a node of this kind.
    fn of_kind(&self, k: &'static str, r: &mut Rng, d: usize) -> G {
        if LEAF.contains(&k) || k == "classx" || k == "str0" || self.leaves.contains(&k) {
            let mut p = self.clone();
            p.leaves = vec![k];
            p.leaf(r)
        } else {
            self.node_of(k, r, d)
        }
    }
    /// A leaf that is often nullable.
    fn small(&self, r: &mut Rng) -> G {
        let l = self.leaf(r);
        match r.below(6) {
            0 => g("optional").p(l),
            1 if !nullable(&l) => g("many").p(l),
            _ => l,
        }
    }
    /// Where the effects of a parser show.
    pub const CONTEXTS: usize = 18;
    fn context(&self, r: &mut Rng, x: usize, h: G) -> G {
        let mut l = || self.small(r);
        match x {
            0 => h,
            1 => g("seq2").p(h).p(l()),
            2 => g("seq2").p(l()).p(h),
            3 => g("seq3").p(l()).p(h).p(l()),
            4 => g("or").p(h).p(l()),
            5 => g("choice2").p(l()).p(h),
            6 => g("choice2").p(g("seq2").p(h).p(l())).p(g("many").p(g("any"))),
            7 if !nullable(&h) => g("many").p(h),
            8 if !nullable(&h) => g("seq2").p(g("many").p(h)).p(l()),
            9 => g("seq2").p(g("many").p(g("seq2").p(h).p(g("tok").c(self.ch(r))))).p(g("any")),
            10 => g("or").p(g("attempt").p(g("seq2").p(h).p(l()))).p(l()),
            11 => g("seq2").p(g("seq2").p(l()).p(h)).p(l()),
            12 => g("seq2").p(g("optional").p(h)).p(l()),
            13 => g("sep_by").p(h).p(g("tok").c(self.ch(r))),
            14 if !nullable(&h) => g("sep_end_by1").p(l()).p(h),
            15 => {
                let a = l();
                let b = l();
                g("then").p(a).p(h).p(b).c(self.ch(r))
            }
            16 => g("slice").p(g("seq2").p(l()).p(h)).p(l()),
            17 => g("choice3").p(l()).p(g("seq2").p(h).p(l())).p(l()),
            _ => g("with").p(l()).p(h),
        }
    }
    /// The `j`th of the systematic combinations of context, parser of interest and its child.
    pub fn cover(&self, r: &mut Rng, j: u64, focus: &[&'static str]) -> G {
        let kids: Vec<&'static str> = self.leaves.iter().chain(&self.nodes).copied().collect();
        let (a, b, c) = (Prof::CONTEXTS as u64, focus.len() as u64, kids.len() as u64);
        let total = a * b * c;
        // a step which shares no factor with the number of combinations visits them all
        let mut step = total * 5 / 8 + 1;
        let gcd = |mut x: u64, mut y: u64| {
            while y > 0 {
                (x, y) = (y, x % y)
            }
            x
        };
        while gcd(step, total) != 1 {
            step += 1
        }
        let i = j.wrapping_mul(step) % total;
        let (x, f, k) = ((i % a) as usize, focus[(i / a % b) as usize], kids[(i / a / b) as usize]);
        for _ in 0..30 {
            let d = r.below(2);
            let mut h = self.of_kind(f, r, d);
            if !h.ps.is_empty() && h.k != "fromstr" {
                let d = r.below(2);
                let kid = self.of_kind(k, r, d);
                let slot = r.below(h.ps.len());
                if nullable(&kid) && Prof::must_consume(&h.k, slot) {
                    continue;
                }
                h.ps[slot] = kid;
            }
            let p = self.context(r, x, h);
            if p.size() <= if p.any(&mut |x: &G| x.ps.len() > 4) { 110 } else { 16 } {
                return p;
            }
        }
        self.gen(r, 2, false)
    }
    fn node_of(&self, k: &'static str, r: &mut Rng, d: usize) -> G {
        let mut b = |nn: bool| self.gen(r, d, nn);
        match k {
            "seq1" | "optional" | "attempt" | "look_ahead" | "nfb" | "map" | "map_input" | "recognize"
            | "silent" | "fnp" | "lazy" | "factory" | "opaque" | "no_partial" | "aps" | "asps" | "assps"
            | "boxed" | "left" | "right" | "spanned" | "pmacro" | "byref" | "take_until" | "skip_until" | "rrec"
            | "rrecv" => g(k).p(b(false)),
            "fromstr" => {
                let mut p = self.clone();
                p.leaves = vec!["fromstr"];
                p.leaf(r)
            }
            "iter" => {
                let x = g(k).p(b(true));
                x.n(*r.pick(&[0, 1, 2, 9]))
            }
            "seq2" | "and" | "with" | "skip" | "or" | "choice2" | "arr2" => g(k).p(b(false)).p(b(false)),
            "seq3" | "struct3" | "between" | "choice3" | "choicem" | "arr3" => {
                g(k).p(b(false)).p(b(false)).p(b(false))
            }
            "seq4" | "choice4" => g(k).p(b(false)).p(b(false)).p(b(false)).p(b(false)),
            "slice" => {
                let n = if r.chance(1, 24) { 0 } else { r.range(1, 4) };
                let mut x = g(k);
                for _ in 0..n {
                    x = x.p(self.gen(r, d, false));
                }
                x
            }
            "tup" | "chs" | "arr" => {
                let n = *r.pick(match k {
                    "tup" => &[5, 6, 7, 8, 12, 20][..],
                    "chs" => &[5, 6, 8, 15, 25],
                    _ => &[1, 5, 8, 16, 32],
                });
                let mut x = g(k);
                for _ in 0..n {
                    let p = if k != "tup" && r.chance(1, 3) { g("seq2").p(self.leaf(r)).p(self.leaf(r)) } else { self.small(r) };
                    x = x.p(p);
                }
                x
            }
            // alternatives of one shape, which share the type of their partial state
            "slices" => {
                let n = r.range(2, 3);
                let shape = self.gen(r, d, false);
                let mut x = g("slice");
                for _ in 0..n {
                    x = x.p(self.vary(r, &shape));
                }
                x
            }
            "iterate" => {
                let n = r.range(1, 3);
                let mut x = g(k);
                for _ in 0..n {
                    x = x.p(self.gen(r, d, false));
                }
                x
            }
            "then" | "then_partial" | "then_ref" | "dispatch" => {
                let x = g(k).p(b(false)).p(b(false)).p(b(false));
                x.c(self.ch(r))
            }
            "and_then" | "flat_map" => {
                let x = g(k).p(b(false));
                x.c(self.ch(r))
            }
            "expected" => {
                let x = g(k).p(b(false));
                x.t(*r.pick(&["exp1", "exp2"]))
            }
            "message" => {
                let x = g(k).p(b(false));
                x.t(*r.pick(&["msg1", "msg2"]))
            }
            "count" | "skip_count" => {
                let x = g(k).p(b(false));
                x.n(self.times(r, 3))
            }
            "cmm" | "skip_cmm" => {
                let x = g(k).p(b(false));
                let n = r.range(0, 2);
                x.n(n).m(n + self.times(r, 2))
            }
            "many" | "many1" | "skip_many" | "skip_many1" => g(k).p(b(true)),
            "sep_by" | "sep_by1" | "sep_end_by" | "sep_end_by1" | "chainl1" | "chainr1" => {
                let p = b(false);
                let s = b(true);
                g(k).p(p).p(s)
            }
            "repeat_until" | "repeat_skip_until" => g(k).p(b(true)).p(b(false)),
            "escaped" => {
                let x = g(k).p(b(true)).p(b(false));
                x.c(self.ch(r))
            }
            k => panic!("node {}", k),
        }
    }
    /// The same shape with other leaves.
    fn vary(&self, r: &mut Rng, p: &G) -> G {
        let mut q = p.clone();
        match p.k.as_str() {
            "tok" | "take_fn" | "take_fn2" => q.c = Some(self.ch(r)),
            "sat" | "oneof" | "noneof" | "satmap" | "take_while" | "take_while1" => q = g(&p.k).s(&self.set(r, 3)),
            "fromstr" | "num" => {}
            "str" | "toks" | "range" | "strcmp" | "tokscmp" | "bytes" | "bytescmp" => q = g(&p.k).s(&self.word(r, 1, 3)),
            "take_until_range" => q = g(&p.k).s(&self.word(r, 1, 2)),
            _ => {}
        }
        if p.k != "fromstr" {
            q.ps = p.ps.iter().map(|x| self.vary(r, x)).collect();
        }
        q
    }
    /// A string which the grammar has a good chance of accepting.
    pub fn sample(&self, r: &mut Rng, p: &G, out: &mut String) {
        if out.len() > 24 {
            return;
        }
        let ps = &p.ps;
        let some = |r: &mut Rng, s: &Vec<char>| -> Option<char> {
            if s.is_empty() {
                None
            } else {
                Some(*r.pick(&s[..]))
            }
        };
        match p.k.as_str() {
            "any" => out.push(self.ch(r)),
            "tok" => out.push(p.c.unwrap()),
            "sat" | "satmap" | "oneof" => out.extend(some(r, p.s.as_ref().unwrap())),
            "noneof" => {
                for _ in 0..10 {
                    let c = self.ch(r);
                    if !p.s.as_ref().unwrap().contains(&c) {
                        out.push(c);
                        break;
                    }
                }
            }
            "class" => match p.t.as_deref().unwrap() {
                "digit" => out.push(*r.pick(&['1', '2', '9', '0'])),
                "oct_digit" => out.push(*r.pick(&['1', '2', '7', '8'])),
                "letter" | "lower" | "alpha_num" => out.push(*r.pick(&['a', 'b', 'c', 'z'])),
                "hex_digit" => out.push(*r.pick(&['a', 'F', '1', 'g'])),
                "upper" => out.push(*r.pick(&['A', 'Z'])),
                "space" => out.push(*r.pick(&[' ', '\n', '\t'])),
                "spaces" => out.push_str(*r.pick(&["", " ", " \n", "  "])),
                "newline" => out.push('\n'),
                "tab" => out.push('\t'),
                "crlf" => out.push_str("\r\n"),
                _ => {}
            },
            "str" | "toks" | "tokscmp" | "range" | "bytes" => out.extend(p.s.as_ref().unwrap().iter()),
            "num" => {
                for _ in 0..p.n.unwrap() {
                    out.push(self.ch(r))
                }
            }
            "tub" => {
                out.push_str(&self.word(r, 0, 3));
                out.extend(some(r, p.s.as_ref().unwrap()))
            }
            "rx_match" | "rx_find" | "rx_find_many" | "rx_captures" | "rx_captures_many" => {
                if r.chance(1, 3) {
                    out.push_str(&self.word(r, 0, 2))
                }
                for _ in 0..r.range(1, 2) {
                    self.rx_sample(r, p.x.as_ref().unwrap(), out)
                }
            }
            "fromstr" => {
                for _ in 0..r.range(0, 4) {
                    out.push(*r.pick(&['1', '2', '5', '0']))
                }
            }
            "strcmp" | "bytescmp" => {
                for c in p.s.as_ref().unwrap() {
                    out.push(if r.chance(1, 2) { c.to_ascii_uppercase() } else { *c })
                }
            }
            "take" => {
                for _ in 0..p.n.unwrap() {
                    out.push(self.ch(r))
                }
            }
            "take_while" | "take_while1" => {
                for _ in 0..r.range(0, 3) {
                    out.extend(some(r, p.s.as_ref().unwrap()))
                }
            }
            "take_until_range" | "tubs" => {
                out.push_str(&self.word(r, 0, 3));
                out.extend(p.s.as_ref().unwrap().iter())
            }
            "take_fn" | "take_fn2" => {
                out.push_str(&self.word(r, 0, 3));
                out.push(p.c.unwrap())
            }
            "length_prefix" => {
                let n = r.below(4);
                out.push_str(&n.to_string());
                for _ in 0..n {
                    out.push(self.ch(r))
                }
            }
            "between" => {
                self.sample(r, &ps[0], out);
                self.sample(r, &ps[2], out);
                self.sample(r, &ps[1], out);
            }
            "then" | "then_partial" | "then_ref" | "dispatch" => {
                self.sample(r, &ps[0], out);
                let i = r.range(1, 2);
                self.sample(r, &ps[i], out);
            }
            "or" | "choice2" | "choice3" | "choice4" | "choicem" | "arr2" | "arr3" | "slice" | "chs" | "arr" => {
                if !ps.is_empty() {
                    let i = r.below(ps.len());
                    self.sample(r, &ps[i], out)
                }
            }
            "optional" => {
                if r.chance(2, 3) {
                    self.sample(r, &ps[0], out)
                }
            }
            "nfb" | "look_ahead" | "posn" => {}
            "count" | "skip_count" => {
                for _ in 0..r.range(0, p.n.unwrap()) {
                    self.sample(r, &ps[0], out)
                }
            }
            "cmm" | "skip_cmm" => {
                for _ in 0..r.range(p.n.unwrap(), p.m.unwrap()) {
                    self.sample(r, &ps[0], out)
                }
            }
            "many" | "many1" | "skip_many" | "skip_many1" | "iter" => {
                for _ in 0..r.range(0, 3) {
                    self.sample(r, &ps[0], out)
                }
            }
            "sep_by" | "sep_by1" | "sep_end_by" | "sep_end_by1" | "chainl1" | "chainr1" => {
                for i in 0..r.range(0, 3) {
                    if i > 0 {
                        self.sample(r, &ps[1], out)
                    }
                    self.sample(r, &ps[0], out)
                }
                if r.chance(1, 4) {
                    self.sample(r, &ps[1], out)
                }
            }
            "take_until" | "skip_until" => {
                out.push_str(&self.word(r, 0, 3));
                self.sample(r, &ps[0], out)
            }
            "repeat_until" | "repeat_skip_until" => {
                for _ in 0..r.range(0, 3) {
                    self.sample(r, &ps[0], out)
                }
                self.sample(r, &ps[1], out)
            }
            "escaped" => {
                for _ in 0..r.range(0, 3) {
                    if r.chance(1, 2) {
                        self.sample(r, &ps[0], out)
                    } else {
                        out.push(p.c.unwrap());
                        self.sample(r, &ps[1], out)
                    }
                }
            }
            _ => {
                for q in ps {
                    self.sample(r, q, out)
                }
            }
        }
    }
    /// A small number, or a large one.
    fn times(&self, r: &mut Rng, most: usize) -> usize {
        if self.long > 0 && r.chance(1, 2) {
            return r.below(self.long);
        }
        r.range(0, most)
    }
    /// Repeats a part of `v`.
    fn stretch(&self, r: &mut Rng, v: &mut Vec<char>) {
        if v.is_empty() {
            return;
        }
        let a = r.below(v.len());
        let b = r.range(a + 1, (a + 4).min(v.len()));
        let part = v[a..b].to_vec();
        let to = r.range(self.long / 4, self.long);
        while v.len() < to {
            for (i, c) in part.iter().enumerate() {
                v.insert(a + i, *c);
            }
        }
    }
    pub fn input(&self, r: &mut Rng, p: &G, max: usize) -> Vec<char> {
        let mut s = String::new();
        if !r.chance(1, 8) {
            self.sample(r, p, &mut s);
        }
        let mut v: Vec<char> = s.chars().collect();
        v.truncate(max);
        let max = if self.long > 0 && r.chance(1, 2) {
            self.stretch(r, &mut v);
            self.long + 9
        } else {
            max
        };
        let muts = *r.pick(&[0, 0, 0, 1, 1, 2]);
        for _ in 0..muts {
            match r.below(4) {
                0 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v[i] = self.ch(r)
                }
                1 if !v.is_empty() => {
                    let i = r.below(v.len());
                    v.remove(i);
                }
                2 if !v.is_empty() => {
                    let n = r.below(v.len() + 1);
                    v.truncate(n)
                }
                _ => {
                    let i = r.below(v.len() + 1);
                    v.insert(i, self.ch(r))
                }
            }
        }
        if r.chance(1, 2) && v.len() < max {
            v.push(self.ch(r))
        }
        v.truncate(max);
        v
    }
}
