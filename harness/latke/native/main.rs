use std::panic::{catch_unwind, set_hook};
use std::time::{Duration, Instant};
fn main() {
    set_hook(Box::new(|i| unsafe { LAST = format!("{}", i) }));
    let a: Vec<String> = std::env::args().collect();
    let secs: u64 = a[1].parse().unwrap();
    let mut bad = 0;
    for n in &a[2..] {
        let f: fn() = match n.as_str() { TABLE _ => { println!("unknown {}", n); continue } };
        let (t, mut i, mut ok) = (Instant::now(), 0u64, 0);
        while t.elapsed() < Duration::from_secs(secs) && i < 200_000 {
            i += 1;
            vfsys::start(i);
            if let Err(e) = catch_unwind(f) {
                if e.is::<vfsys::Skip>() { continue }
                if let Some(m) = e.downcast_ref::<String>() {
                    if m.starts_with("failed: ") { println!("NATIVE-FAIL {} random seed {}: {}", n, i, m); bad += 1; break }
                }
                if !vfsys::panics_allowed() { println!("NATIVE-FAIL {} random seed {}: {}", n, i, unsafe { &*std::ptr::addr_of!(LAST) }); bad += 1; break }
            }
            ok += 1;
        }
        println!("{}: {} runs, {} completed", n, i, ok);
    }
    if bad > 0 { std::process::exit(7) }
}
static mut LAST: String = String::new();
