//! Command line of a property binary:
//!   run --seed S --cases N [--only SUBSTR] [--dump FILE]   -> JSON report on stdout
//!   replay --check NAME (--tape a,b,c | --seed S --case N)
//!   list
use crate::engine::*;
use std::sync::atomic::Ordering;

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
extern "C" fn on_crash(sig: i32) {
    // async-signal-safe: format numbers by hand
    fn num(mut v: u64, buf: &mut [u8; 160], n: &mut usize) {
        let mut d = [0u8; 20];
        let mut k = 0;
        loop {
            d[k] = b'0' + (v % 10) as u8;
            v /= 10;
            k += 1;
            if v == 0 {
                break;
            }
        }
        while k > 0 {
            k -= 1;
            buf[*n] = d[k];
            *n += 1;
        }
    }
    let mut b = [0u8; 160];
    let mut n = 0;
    for c in b"\nCRASH " {
        b[n] = *c;
        n += 1;
    }
    for v in [
        sig as u64,
        CUR_CHECK.load(Ordering::Relaxed),
        CUR_CASE.load(Ordering::Relaxed),
        CUR_SHRINK.load(Ordering::Relaxed),
    ] {
        num(v, &mut b, &mut n);
        b[n] = b' ';
        n += 1;
    }
    b[n] = b'\n';
    n += 1;
    unsafe {
        write(1, b.as_ptr(), n);
        _exit(77);
    }
}

pub fn main(prop: &str, checks: Vec<Check>) {
    install_panic_hook();
    unsafe {
        for s in [11, 7, 4, 8] {
            signal(s, on_crash as usize);
        }
    }
    std::thread::spawn(|| {
        // A case that makes no progress for 30 s is a hang of the library.
        let (mut last, mut still) = (u64::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            still = if now == last { still + 1 } else { 0 };
            last = now;
            if still >= 30 {
                println!(
                    "\nHANG 0 {} {} {}",
                    CUR_CHECK.load(Ordering::Relaxed),
                    CUR_CASE.load(Ordering::Relaxed),
                    CUR_SHRINK.load(Ordering::Relaxed)
                );
                std::process::exit(78);
            }
        }
    });
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{}", c.name);
            }
        }
        Some("replay") => {
            let name = opt("--check").expect("--check");
            let c = checks.iter().find(|c| c.name == name).expect("no such check");
            let tape: Vec<u64> = match opt("--tape") {
                Some(t) => t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                None => {
                    let seed: u64 = opt("--seed").unwrap().parse().unwrap();
                    let case: u64 = opt("--case").unwrap().parse().unwrap();
                    let mut s = Src::new(0);
                    s.reset(case_seed(c, seed, case));
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.f)(&mut s)));
                    s.tape.clone()
                }
            };
            let (r, notes) = replay(c, &tape);
            for n in notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => println!("PASS {}", name),
                Err(m) => {
                    println!("FAIL {}: {}", name, m);
                    std::process::exit(1)
                }
            }
        }
        Some("run") => {
            let seed: u64 = opt("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
            let cases: u64 = opt("--cases").map(|s| s.parse().unwrap()).unwrap_or(1000);
            let only = opt("--only");
            let keep_going = a.iter().any(|x| x == "--keep-going");
            let mut dump: Option<Vec<u8>> = opt("--dump").map(|_| Vec::new());
            let mut o = String::from("{");
            o.push_str(&format!("\"prop\":{},\"checks\":[", js(prop)));
            let mut first = true;
            let mut failed = false;
            for (i, c) in checks.iter().enumerate() {
                if let Some(f) = &only {
                    if !c.name.contains(f.as_str()) {
                        continue;
                    }
                }
                let n = (cases * c.weight as u64 / 100).max(1);
                let rep = run(i, c, seed, n, dump.as_mut());
                if !first {
                    o.push(',');
                }
                first = false;
                let labels: Vec<String> = rep.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
                let samples: Vec<String> = rep.samples.iter().map(|s| js(s)).collect();
                o.push_str(&format!(
                    "{{\"name\":{},\"evaluations\":{},\"discards\":{},\"trivial\":{},\"distinct\":{},\"labels\":{{{}}},\"samples\":[{}]",
                    js(&c.name),
                    rep.evaluations,
                    rep.discards,
                    rep.trivial,
                    rep.distinct,
                    labels.join(","),
                    samples.join(",")
                ));
                if let Some(f) = rep.failure {
                    let tape: Vec<String> = f.tape.iter().map(|x| x.to_string()).collect();
                    let notes: Vec<String> = f.notes.iter().map(|s| js(s)).collect();
                    o.push_str(&format!(
                        ",\"failure\":{{\"msg\":{},\"case\":{},\"tape\":[{}],\"notes\":[{}]}}",
                        js(&f.msg),
                        f.case,
                        tape.join(","),
                        notes.join(",")
                    ));
                    failed = true;
                }
                o.push('}');
                if failed && !keep_going {
                    break;
                }
            }
            o.push_str("]}");
            println!("{}", o);
            crate::rf::dump_track();
            if let (Some(p), Some(d)) = (opt("--dump"), dump) {
                std::fs::write(p, d).unwrap();
            }
            std::process::exit(if failed { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: run|replay|list");
            std::process::exit(2)
        }
    }
}
