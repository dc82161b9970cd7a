//! The same grammars on every kind of stream.
mod errs;
mod ops;
mod streams;
mod units;
fn main() {
    let (cmd, args, _) = cvlib::args::start();
    match cmd.as_str() {
        "streams" => streams::record(&args),
        "ops" => ops::record(&args),
        "errs" => errs::record(&args),
        "units" => units::record(&args),
        x => panic!("command {}", x),
    }
}
