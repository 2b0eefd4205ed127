//! Ends the process when a single operation takes too long.
use crate::json::J;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
static BEAT: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<Option<(String, J)>> = Mutex::new(None);
static SESS: Mutex<String> = Mutex::new(String::new());
/// A new session begins; `text` describes it.
pub fn session(text: String) { *SESS.lock().unwrap() = text; BEAT.fetch_add(1, Relaxed); }
pub fn at(op: &J) { BEAT.fetch_add(1, Relaxed); *CUR.lock().unwrap() = Some((String::new(), op.clone())); }
pub fn beat() { BEAT.fetch_add(1, Relaxed); }
pub fn start(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0; let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Relaxed);
            if b == last { same += 1; } else { same = 0; last = b; }
            if same >= 2 * secs {
                let c = CUR.lock().unwrap().as_ref().map(|c| c.1.text()).unwrap_or_default();
                println!("HANG session={} op={}", SESS.lock().unwrap(), c);
                std::process::exit(9);
            }
        }
    });
}
/// A single huge allocation was asked for: report it and stop.
pub fn huge(n: usize) -> ! {
    let s = SESS.try_lock().map(|s| s.clone()).unwrap_or_default();
    let c = CUR.try_lock().ok().and_then(|c| c.as_ref().map(|c| c.1.text())).unwrap_or_default();
    println!("ALLOC bytes={} session={} op={}", n, s, c);
    std::process::exit(8);
}
