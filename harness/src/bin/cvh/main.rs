//! Parses, resumed parses and decoders.
mod big;
mod bufs;
mod dec;
mod rec;
pub type TheExt = cvlib::build::RangeExt;
/// Last changes to a grammar.
pub fn prepare(_: &mut cvlib::ast::G, _: &mut cvlib::rng::Rng) {}
fn main() {
    let (cmd, args, _) = cvlib::args::start();
    match cmd.as_str() {
        "parse" => rec::parse(&args),
        "resume" => rec::resume(&args),
        "dec" => dec::record(&args),
        "big" => big::record(&args),
        "bufs" => bufs::record(&args),
        x => panic!("command {}", x),
    }
}
