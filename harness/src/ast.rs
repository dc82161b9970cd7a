//! Grammar terms, shared with the TLA+ specification through JSON.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct G {
    pub k: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub c: Option<char>,
    /// sequence of characters
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub s: Option<Vec<char>>,
    /// the same characters (or a label) as one string
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub t: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub n: Option<usize>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub m: Option<usize>,
    /// built into its parent without a pointer between them
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub st: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ps: Vec<G>,
    /// a regular expression
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub x: Option<Box<G>>,
}
pub fn g(k: &str) -> G {
    G { k: k.into(), ..G::default() }
}
impl G {
    pub fn c(mut self, c: char) -> G {
        self.c = Some(c);
        self
    }
    pub fn s(mut self, s: &str) -> G {
        self.s = Some(s.chars().collect());
        self.t = Some(s.into());
        self
    }
    pub fn t(mut self, s: &str) -> G {
        self.t = Some(s.into());
        self
    }
    pub fn n(mut self, n: usize) -> G {
        self.n = Some(n);
        self
    }
    pub fn m(mut self, n: usize) -> G {
        self.m = Some(n);
        self
    }
    pub fn p(mut self, p: G) -> G {
        self.ps.push(p);
        self
    }
    pub fn size(&self) -> usize {
        1 + self.ps.iter().map(|p| p.size()).sum::<usize>()
    }
    pub fn any(&self, f: &mut dyn FnMut(&G) -> bool) -> bool {
        f(self) || self.ps.iter().any(|p| p.any(f))
    }
}

/// The model's alphabet is ASCII; these letters stand for multi-byte characters in `&str` input.
pub fn to_real(c: char) -> char {
    match c {
        'E' => 'é',
        'K' => '€',
        'G' => '𝄞',
        c => c,
    }
}
pub fn to_model(c: char) -> char {
    match c {
        'é' => 'E',
        '€' => 'K',
        '𝄞' => 'G',
        c => c,
    }
}
/// In byte input the same letters stand for bytes outside of ASCII.
pub fn to_byte(c: char) -> u8 {
    match c {
        'E' => 0xe9,
        'K' => 0xff,
        'G' => 0x80,
        c => c as u8,
    }
}
pub fn from_byte(b: u8) -> char {
    match b {
        0xe9 => 'E',
        0xff => 'K',
        0x80 => 'G',
        b => b as char,
    }
}
pub fn real_bytes(s: &[char]) -> Vec<u8> {
    s.iter().map(|c| to_byte(*c)).collect()
}
pub fn real_str(s: &[char]) -> String {
    s.iter().map(|c| to_real(*c)).collect()
}
pub fn model_str(s: &str) -> String {
    s.chars().map(to_model).collect()
}
