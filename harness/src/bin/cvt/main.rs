//! Grammars in which parsers are built into one another, as in a statically typed grammar, and
//! the larger sizes of tuples, choices and arrays.
#![allow(unused_variables, unused_mut)]
#[path = "../cvh/rec.rs"]
mod rec;
mod stat;
pub type TheExt = stat::StatExt;

/// Some children are built in.
pub fn prepare(g: &mut cvlib::ast::G, r: &mut cvlib::rng::Rng) {
    for p in g.ps.iter_mut() {
        prepare(p, r)
    }
    if g.ps.is_empty() || r.chance(1, 4) {
        return;
    }
    if matches!(&*g.k, "then" | "then_partial" | "then_ref") && r.chance(2, 3) {
        if g.ps[1].k == g.ps[2].k && stat::THEN_KIDS.contains(&&*g.ps[1].k) {
            g.ps[1].st = true;
            g.ps[2].st = true;
        }
        return;
    }
    if matches!(&*g.k, "lazy" | "aps" | "asps" | "assps") {
        g.ps[0].st = stat::THEN_KIDS.contains(&&*g.ps[0].k);
        return;
    }
    let (a, n) = (r.below(g.ps.len()), g.ps.len());
    for i in 0..n {
        let i = (a + i) % n;
        if stat::slot(&g.k, i) && stat::KIDS.contains(&&*g.ps[i].k) {
            g.ps[i].st = true;
            return;
        }
    }
}
fn main() {
    let (cmd, args, _) = cvlib::args::start();
    match cmd.as_str() {
        "parse" => rec::parse(&args),
        "resume" => rec::resume(&args),
        x => panic!("command {}", x),
    }
}
