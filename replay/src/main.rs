//! gxreplay: searches for, and replays, inputs on which the real code breaks a property.
//!   gxreplay run PROP SEED SECONDS CURFILE    exit 0: none found; 10: prints the case and why
//!   gxreplay case 'TEXT'                      exit 0: holds; 10: prints why not
mod alloc;
#[allow(dead_code, unused_imports)]
#[path = "/repo/graphrox-c/src/lib.rs"]
mod capi;
mod capi_check;
mod case;
mod check;
mod gen;
mod model;

use case::Case;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Checked = alloc::Checked;
static LAST: Mutex<String> = Mutex::new(String::new());

fn run(c: &Case) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| check::check(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", LAST.lock().unwrap())),
    }
}
fn leak(c: &Case) -> Result<(), String> {
    // the C interface gives back everything it took
    if c.prop == "C19" {
        let _ = run(c);
        let a = alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        run(c)?;
        let b = alloc::LIVE.load(std::sync::atomic::Ordering::Relaxed);
        if a != b {
            return Err(format!("{} blocks of memory leaked", b - a));
        }
    }
    Ok(())
}
fn whole(c: &Case) -> Result<(), String> {
    run(c)?;
    leak(c)
}
/// drops operations and shrinks numbers while the case still fails
fn shrink(mut c: Case, mut why: String) -> (Case, String) {
    let end = Instant::now() + Duration::from_secs(5);
    let mut changed = true;
    while changed && Instant::now() < end {
        changed = false;
        let mut step = (c.ops.len() / 2).max(1);
        while step > 0 && Instant::now() < end {
            let mut i = 0;
            while i < c.ops.len() && Instant::now() < end {
                let mut d = c.clone();
                d.ops.drain(i..(i + step).min(d.ops.len()));
                if let Err(w) = whole(&d) {
                    c = d;
                    why = w;
                    changed = true;
                } else {
                    i += step;
                }
            }
            step /= 2;
        }
    }
    (c, why)
}
fn main() {
    std::panic::set_hook(Box::new(|i| *LAST.lock().unwrap() = i.to_string()));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "case" => {
            let c = Case::parse(&a[2]).expect("bad case");
            if let Err(w) = whole(&c) {
                println!("{w}");
                std::process::exit(10);
            }
        }
        "run" => {
            let (prop, seed, secs) = (&a[2], a[3].parse().unwrap(), a[4].parse::<f64>().unwrap());
            let mut cur = std::fs::File::create(&a[5]).expect("current-case file");
            let t = Instant::now();
            let mut k = 0;
            while t.elapsed().as_secs_f64() < secs {
                let c = gen::case(prop, k, seed);
                let s = c.text();
                let _ = cur.rewind();
                let _ = cur.write_all(format!("{:>10}{}", s.len(), s).as_bytes());
                if let Err(w) = whole(&c) {
                    let (c, w) = shrink(c, w);
                    println!("CASE {}", c.text());
                    println!("WHY {}", w.replace('\n', " "));
                    println!("TRIED {}", k + 1);
                    std::process::exit(10);
                }
                k += 1;
            }
            println!("TRIED {k}");
        }
        _ => std::process::exit(2),
    }
}
