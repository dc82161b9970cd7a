//! Tells which case was running when the code under test did not come back.
use std::{
    io::Write,
    sync::Mutex,
    time::{Duration, Instant},
};

static CASE: Mutex<Option<(Instant, String)>> = Mutex::new(None);
static LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);
/// Far beyond what any case takes, so that a busy machine raises no alarm.
const LIMIT: Duration = Duration::from_secs(40);

pub fn start() {
    if let Ok(f) = std::env::var("CVH_CASES") {
        *LOG.lock().unwrap() = Some(std::fs::File::create(f).expect("CVH_CASES"));
    }
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, c)) = &*CASE.lock().unwrap() {
            if t.elapsed() > LIMIT {
                eprintln!("CVH-HANG {}", c);
                std::process::exit(70);
            }
        }
    });
}
/// A case begins.
pub fn case(c: impl FnOnce() -> String) {
    let c = c();
    if let Some(f) = &mut *LOG.lock().unwrap() {
        writeln!(f, "{}", c).unwrap();
        f.flush().unwrap();
    }
    *CASE.lock().unwrap() = Some((Instant::now(), c));
}
pub fn done() {
    *CASE.lock().unwrap() = None;
}
