use std::{collections::HashMap, io::Write};

/// `--name value` arguments.
pub struct Args(pub HashMap<String, String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| &s[..])
    }
    pub fn str<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.get(k).unwrap_or(d)
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().expect("number"))
    }
    pub fn out(&self) -> Out {
        Out(std::io::BufWriter::new(std::fs::File::create(self.str("out", "/dev/stdout")).expect("out")), 0)
    }
}
pub struct Out(std::io::BufWriter<std::fs::File>, pub usize);
impl Out {
    pub fn line(&mut self, v: serde_json::Value) {
        writeln!(self.0, "{}", v).expect("write");
        self.1 += 1;
    }
}
pub fn start() -> (String, Args, Vec<String>) {
    let a: Vec<String> = std::env::args().collect();
    let mut m = HashMap::new();
    let mut i = 2;
    while i + 1 < a.len() && a[i].starts_with("--") {
        m.insert(a[i][2..].to_string(), a[i + 1].clone());
        i += 2;
    }
    crate::obs::quiet_panics();
    crate::watch::start();
    (a[1].clone(), Args(m), a)
}
