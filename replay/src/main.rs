//! Native side of the contracts: runs a contract body against the compiled real code.
//!   replay search NAME SECONDS ITERS SEED   look for an input that violates the contract
//!   replay bytes NAME FILE                  replay one recorded input (one draw per line: bytes, comma separated)
//!   replay list
//! Exit 0: no violation (one JSON line of counts); 1: violation (one JSON line with the input).
use cw::nd::{Rejected, Replay};
use cw::registry::{Entry, Kind, TABLE};
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// counts live bytes: the bodies leak their worlds, so a run stops before it gets large
struct Count;
static LIVE: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as u64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;

static LAST: Mutex<String> = Mutex::new(String::new());

enum R {
    Ok,
    Rejected,
    Violated(String),
}

fn once(e: &Entry, n: &mut Replay) -> R {
    LAST.lock().unwrap().clear();
    let r = catch_unwind(AssertUnwindSafe(|| (e.body)(n)));
    match (r, e.kind) {
        (Err(p), _) if p.downcast_ref::<Rejected>().is_some() => R::Rejected,
        (Err(_), Kind::MustTrap) if n.entered => R::Ok,
        (Err(_), _) => R::Violated(LAST.lock().unwrap().clone()),
        (Ok(()), Kind::MustTrap) if n.no_trap => {
            R::Violated("the instruction completed although it must trap".into())
        }
        (Ok(()), _) => R::Ok,
    }
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn draws(n: &Replay) -> String {
    let v: Vec<String> = n.log.iter().map(|(w, v)| format!("[{w},\"{v:#x}\"]")).collect();
    format!("[{}]", v.join(","))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
        if let Some(m) = m {
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *LAST.lock().unwrap() = format!("{m} at {l}");
        }
    }));
    if a[1] == "list" {
        for e in TABLE {
            println!("{}", e.name);
        }
        return;
    }
    let e = TABLE.iter().find(|e| e.name == a[2]).expect("unknown contract");
    if a[1] == "bytes" {
        let t = std::fs::read_to_string(&a[3]).unwrap();
        let b = t.lines().map(|l| l.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()).collect();
        let mut n = Replay::recorded(b);
        match once(e, &mut n) {
            R::Violated(m) => {
                println!("{{\"violated\":{},\"draws\":{}}}", q(&m), draws(&n));
                std::process::exit(1);
            }
            R::Rejected => println!("{{\"rejected\":true}}"),
            R::Ok => println!("{{\"ok\":true}}"),
        }
        return;
    }
    let secs: f64 = a[3].parse().unwrap();
    let iters: u64 = a[4].parse().unwrap();
    let seed: u64 = a[5].parse().unwrap();
    let t0 = std::time::Instant::now();
    let base = LIVE.load(Relaxed);
    let (mut ok, mut rej, mut k) = (0u64, 0u64, 0u64);
    while k < iters && t0.elapsed().as_secs_f64() < secs && LIVE.load(Relaxed) - base < 1 << 30 {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(k);
        let mut n = Replay::seeded(s);
        match once(e, &mut n) {
            R::Ok => ok += 1,
            R::Rejected => rej += 1,
            R::Violated(m) => {
                println!("{{\"contract\":{},\"violated\":{},\"iteration\":{},\"seed\":{},\"draws\":{}}}", q(e.name), q(&m), k, s, draws(&n));
                std::process::exit(1);
            }
        }
        k += 1;
    }
    println!("{{\"contract\":{},\"runs\":{},\"satisfied_precondition\":{},\"rejected\":{}}}", q(e.name), k, ok, rej);
}
