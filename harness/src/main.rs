//! Runs the real crate on generated inputs, one property at a time.
//!
//! `kpdb-harness run C01 --seed 1 --secs 20 --out r.json` tries cases until the
//! time is up; case number n depends only on the seed and n.
//! `kpdb-harness case C01 --seed 1 --n 17` repeats one case.
mod conform;
mod gen;
mod oracle;
mod props1;
mod props2;
mod rng;

use rng::Rng;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail {
    pub what: String,
    pub files: Vec<(String, Vec<u8>)>,
}
/// A case that passed: what it was, or nothing if it was trivial.
pub struct Case(Option<String>);
pub type Res = Result<Case, Fail>;
impl Case {
    pub fn ok(s: String) -> Res {
        Ok(Case(Some(s)))
    }
    pub fn trivial() -> Res {
        Ok(Case(None))
    }
}
pub fn fail(what: String) -> Res {
    Err(Fail { what, files: vec![] })
}

thread_local! {
    static FILES: RefCell<Vec<(String, Vec<u8>)>> = const { RefCell::new(vec![]) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static POOL: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}
/// Keeps an input so that it can be written out if the case fails.
pub fn note_file(name: &str, data: &[u8]) {
    FILES.with(|f| f.borrow_mut().push((name.into(), data.to_vec())));
}

// ---- the operating system's random source, watched ----
pub fn rand_reset() {
    POOL.with(|p| *p.borrow_mut() = Some(vec![]));
}
/// Everything the random source delivered to this thread since the reset, if
/// it could be watched at all.
pub fn rand_log() -> Option<Vec<u8>> {
    POOL.with(|p| p.borrow().clone()).filter(|v| !v.is_empty())
}
fn delivered(p: *const u8, n: isize) {
    if n > 0 {
        let s = unsafe { std::slice::from_raw_parts(p, n as usize) };
        let _ = POOL.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                if let Some(v) = l.as_mut() {
                    v.extend_from_slice(s);
                }
            }
        });
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = raw(n, a, b, c, d, e, f);
    if n == 318 {
        delivered(a as *const u8, r as isize);
    }
    r
}
#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    let r = raw(318, p as i64, n as i64, flags as i64, 0, 0, 0) as isize;
    delivered(p, r);
    r
}

fn case_fn(p: &str) -> fn(&mut Rng, u64) -> Res {
    match p {
        "C01" => props1::c01,
        "C02" => props1::c02,
        "C03" => props1::c03,
        "C04" => props1::c04,
        "C05" => props1::c05,
        "C06" => props1::c06,
        "C07" => props1::c07,
        "C08" => props1::c08,
        "C09" => props1::c09,
        "C10" => props2::c10,
        "C11" => props2::c11,
        "C12" => props2::c12,
        "C13" => props1::c13,
        "C14" => props1::c14,
        "C15" => props2::c15,
        "C16" => props2::c16,
        "C17" => props1::c17,
        "C18" => props1::c18,
        "T00" => conform::case,
        _ => {
            eprintln!("no such property: {}", p);
            std::process::exit(2)
        }
    }
}
fn run_case(p: &str, seed: u64, n: u64) -> Res {
    let id: u64 = p[1..].parse().unwrap_or(0);
    let mut r = Rng::new(seed, id * 1_000_000_007 + n);
    FILES.with(|f| f.borrow_mut().clear());
    let f = case_fn(p);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, n))) {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(mut e)) => {
            e.files.append(&mut FILES.with(|f| f.borrow().clone()));
            Err(e)
        }
        Err(_) => Err(Fail {
            what: format!("panic: {}", PANIC.with(|p| p.borrow().clone())),
            files: FILES.with(|f| f.borrow().clone()),
        }),
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        s.chars().take(400).collect::<String>() + "..."
    } else {
        s.into()
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| get(n).and_then(|x| x.parse().ok()).unwrap_or(d);
    if a.len() < 3 {
        eprintln!("usage: kpdb-harness run|case C01 [--seed S] [--secs T] [--cases N] [--n K] [--threads T] [--out FILE] [--save DIR]");
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let p = a[2].clone();
    let seed = num("--seed", 1);
    let save = |f: &Fail| -> Vec<String> {
        let mut v = vec![];
        if let Some(d) = get("--save") {
            let _ = std::fs::create_dir_all(&d);
            for (name, data) in &f.files {
                let path = format!("{}/{}", d, name);
                if std::fs::write(&path, data).is_ok() {
                    v.push(path);
                }
            }
        }
        v
    };
    match a[1].as_str() {
        "deep" => props1::deep(&p),
        "case" => {
            let n = num("--n", 0);
            match run_case(&p, seed, n) {
                Ok(c) => println!("case {} of {} passes: {}", n, p, c.0.unwrap_or("trivial".into())),
                Err(f) => {
                    println!("case {} of {} fails: {}", n, p, f.what);
                    for x in save(&f) {
                        println!("wrote {}", x);
                    }
                    std::process::exit(1);
                }
            }
        }
        "run" => {
            let secs = num("--secs", 10);
            let max = num("--cases", u64::MAX);
            let threads = num("--threads", 8) as usize;
            let start = Instant::now();
            let next = AtomicU64::new(num("--from", 0));
            let done = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let found: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
            let kinds: Mutex<(HashSet<String>, u64, Vec<String>)> = Mutex::new((HashSet::new(), 0, vec![]));
            let busy: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
            let at: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
            let progress = get("--progress");
            let left = AtomicU64::new(threads as u64);
            let report = |hang: Option<u64>| {
                let k = kinds.lock().unwrap();
                let f = found.lock().unwrap();
                let mut o = String::from("{");
                o.push_str(&format!("\"property\":{},\"seed\":{},\"wall_s\":{:.2},", js(&p), seed, start.elapsed().as_secs_f64()));
                o.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", done.load(Ordering::SeqCst), k.0.len()));
                o.push_str(&format!("\"samples\":[{}],", k.2.iter().map(|s| js(&clip(s))).collect::<Vec<_>>().join(",")));
                match (&*f, hang) {
                    (_, Some(n)) => o.push_str(&format!("\"found\":{},\"what\":{},\"files\":[]", n, js("the case does not end within 100 s"))),
                    (Some((n, x)), _) => {
                        let fs = save(x);
                        o.push_str(&format!(
                            "\"found\":{},\"what\":{},\"files\":[{}]",
                            n,
                            js(&x.what),
                            fs.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                        ));
                    }
                    _ => o.push_str("\"found\":null"),
                }
                o.push('}');
                match get("--out") {
                    Some(f) => std::fs::write(f, &o).unwrap(),
                    None => println!("{}", o),
                }
                f.is_some() || hang.is_some()
            };
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (next, done, stop, found, kinds, busy, at, p, progress, left) =
                        (&next, &done, &stop, &found, &kinds, &busy, &at, &p, &progress, &left);
                    let body = move || {
                      loop {
                        if stop.load(Ordering::SeqCst) || start.elapsed() > Duration::from_secs(secs) {
                            break;
                        }
                        let n = next.fetch_add(1, Ordering::SeqCst);
                        if n >= max {
                            break;
                        }
                        at[t].store(n, Ordering::SeqCst);
                        busy[t].store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        if let Some(f) = progress {
                            let _ = std::fs::write(f, n.to_string());
                        }
                        let r = run_case(p, seed, n);
                        busy[t].store(0, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::SeqCst);
                        match r {
                            Ok(Case(Some(c))) => {
                                let mut k = kinds.lock().unwrap();
                                k.1 += 1;
                                if k.2.len() < 3 || (k.2.len() < 8 && k.1.is_power_of_two()) {
                                    k.2.push(format!("case {}: {}", n, c));
                                }
                                // the same wording counts once
                                k.0.insert(c);
                            }
                            Ok(_) => {}
                            Err(f) => {
                                let mut g = found.lock().unwrap();
                                if g.as_ref().map(|(m, _)| n < *m).unwrap_or(true) {
                                    *g = Some((n, f));
                                }
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                      }
                      left.fetch_sub(1, Ordering::SeqCst);
                    };
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, body).unwrap();
                }
                let (busy, at, left, report) = (&busy, &at, &left, &report);
                s.spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = start.elapsed().as_millis() as u64;
                    let b: Vec<u64> = busy.iter().map(|b| b.load(Ordering::SeqCst)).collect();
                    if let Some(t) = b.iter().position(|x| *x > 0 && now > *x + 100_000) {
                        report(Some(at[t].load(Ordering::SeqCst)));
                        std::process::exit(1);
                    }
                    if left.load(Ordering::SeqCst) == 0 {
                        break;
                    }
                });
            });
            let bad = report(None);
            std::process::exit(bad as i32);
        }
        _ => std::process::exit(2),
    }
}
