//! Bounded differential execution of the real parser / translator / interpreter against the
//! reference semantics in refint.rs.
//!   tv run PROFILE SECS SEED SHARDS      supervisor: one JSON line {"summary":..}, {"violation":..} lines
//!   tv worker PROFILE SECS SEED SHARD SHARDS
//!   tv show PROFILE CASE                 print one case
//!   tv one PROFILE CASE                  run one case
mod ast;
mod gen;
mod host;
mod ops;
mod refint;
mod seqx;
mod subject;
use ast::*;
use gen::{interesting, profile, Gen, Rng};
use ops::*;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use subject::*;

const HANG_S: u64 = 40;
static START: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(String, u64, Option<String>)> = Mutex::new((String::new(), 0, None));

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn now() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

#[derive(Debug, Clone)]
enum Case {
    /// not comparable (reference ran out of fuel, left the specified domain, or met a NaN)
    Skip(&'static str),
    Ok { calls: u32, ctl: u64, ckpts: u32 },
    Bad(String),
}
type Calls = Vec<(usize, Vec<u64>)>;

fn trap_matches(t: Trap, msg: &str) -> bool {
    // which trap it is, where the implementation says so; any trap otherwise
    let m = msg.to_lowercase();
    match t {
        Trap::Unreachable => m.contains("unreachable") || m.contains("execution"),
        _ => !m.is_empty(),
    }
}

fn state_diff(s: &refint::Store, i: &Inst, m: &Mod) -> Option<String> {
    let g = i.globals();
    for (k, (want, (t, got))) in s.globals.iter().zip(&g).enumerate() {
        if want != got || *t != m.globals[k].0 {
            return Some(format!("global {k} is {got:#x} ({t:?}) and must be {want:#x}"));
        }
    }
    if g.len() != s.globals.len() {
        return Some(format!("{} globals instead of {}", g.len(), s.globals.len()));
    }
    let mem = i.memory();
    if m.mem.is_some() {
        if mem.len() != s.mem.len() {
            return Some(format!("the memory has {} bytes and must have {}", mem.len(), s.mem.len()));
        }
        if mem != s.mem {
            let k = (0..mem.len()).find(|k| mem[*k] != s.mem[*k]).unwrap();
            return Some(format!("memory byte {k} is {:#x} and must be {:#x}", mem[k], s.mem[k]));
        }
    }
    if m.table.is_some() {
        let t = i.table();
        if t != s.table {
            return Some(format!("the table is {t:?} and must be {:?}", s.table));
        }
    }
    None
}

/// runs the calls one after the other on one instance, in both
fn compare(m: &Mod, bytes: &[u8], calls: &Calls, file: &str, mode: Mode) -> Case {
    let rs = refint::Store::new(m, if mode.ckpt { 300_000 } else { 20_000 });
    let mut rs = match rs {
        Ok(s) => s,
        Err(Trap::Fuel) => return Case::Skip("fuel"),
        Err(Trap::Skip) => return Case::Skip("domain"),
        Err(t) => {
            let md = match load(file, bytes) {
                Ok(x) => x,
                Err(e) => return Case::Bad(format!("the module is valid but is rejected: {e}")),
            };
            return match Inst::new(&md, m.wasi as u64) {
                Ok(_) => Case::Bad(format!("instantiation must trap ({t:?}) and succeeds")),
                Err(_) => Case::Ok { calls: 1, ctl: 1, ckpts: 0 },
            };
        }
    };
    let fresh = rs.snapshot();
    // dry run: everything must be comparable
    let mut want = vec![];
    let mut states: Vec<refint::Store> = vec![];
    for (f, a) in calls {
        rs.depth = 0;
        let r = rs.call(m, *f, a);
        match r {
            Err(Trap::Fuel) => return Case::Skip("fuel"),
            Err(Trap::Skip) => return Case::Skip("domain"),
            _ => {}
        }
        if rs.nan {
            return Case::Skip("nan");
        }
        let stop = r.is_err();
        want.push(r);
        states.push(rs.snapshot());
        if stop {
            break;
        }
    }
    let md = match load(file, bytes) {
        Ok(x) => x,
        Err(e) => return Case::Bad(format!("the module is valid but is rejected: {e}")),
    };
    let sh = m.wasi as u64;
    let mut inst = match Inst::new(&md, sh) {
        Ok(x) => x,
        Err(e) => return Case::Bad(format!("the module is valid but cannot be instantiated: {e}")),
    };
    if let Some(d) = state_diff(&fresh, &inst, m).or_else(|| inst.exports(m)) {
        return Case::Bad(format!("after instantiation: {d}"));
    }
    let mut ckpts = 0;
    for (k, w) in want.iter().enumerate() {
        let (f, a) = &calls[k];
        let mut got;
        if mode.ckpt {
            host::TRIGGER.store(mode.first, Relaxed);
            got = inst.call(m, *f, a, true);
            while got == Out::Checkpoint {
                ckpts += 1;
                // a fresh instance of the same module, as a new process would have
                let md = match load(file, bytes) {
                    Ok(x) => x,
                    Err(e) => return Case::Bad(e),
                };
                inst = match Inst::new(&md, sh) {
                    Ok(x) => x,
                    Err(e) => return Case::Bad(e),
                };
                host::TRIGGER.store(mode.again, Relaxed);
                let _ = std::fs::rename("checkpoint.bin", "resume.bin");
                got = inst.resume(m, *f, "resume.bin", true);
            }
        } else {
            got = inst.call(m, *f, a, false);
        }
        let after = if ckpts > 0 { format!(" (after {ckpts} checkpoint/restore)") } else { String::new() };
        let bad = match (w, &got) {
            (Ok(v), Out::Values(g)) if v == g => None,
            (Err(t), Out::Trap(s)) if trap_matches(*t, s) => None,
            (Ok(v), g) => Some(format!("must return {:x?}, gives {:x?}", v, g)),
            (Err(t), g) => Some(format!("must trap ({t:?}), gives {:x?}", g)),
        };
        if let Some(b) = bad {
            return Case::Bad(format!("call {k} of f{f}({a:x?}){after} {b}"));
        }
        if let Some(d) = state_diff(&states[k], &inst, m) {
            return Case::Bad(format!("after call {k} of f{f}({a:x?}){after}: {d}"));
        }
    }
    Case::Ok { calls: want.len() as u32, ctl: rs.ctl, ckpts }
}

#[derive(Clone, Copy, Default)]
struct Mode {
    ckpt: bool,
    first: i64,
    again: i64,
}

fn random_case(prof: &str, seed: u64) -> (Mod, Calls, Mode) {
    let mut r = Rng::new(seed ^ 0x55aa);
    let ck = prof.starts_with("ckpt");
    let p = match prof {
        "ckpt" => *r.pick(&["control", "calls", "globals", "mixed", "memory", "fold", "refs"]),
        p => p,
    };
    let mut m = Gen::module(seed, profile(p));
    let mut mode = Mode::default();
    m.exports = p == "inst";
    if p == "start" {
        m.start = Some(m.funcs.len() as u32);
        let t = m.type_idx(&[], &[]) ;
        let body = vec![I::Const(Ty::I32, 0), I::GSet(0)];
        m.globals = vec![(Ty::I32, true, 5)];
        m.funcs = vec![Func { sig: t, locals: vec![], body: vec![] }, Func { sig: t, locals: vec![], body }];
        m.start = Some(1);
        m.elems.clear();
        m.data.clear();
    }
    if ck {
        m.wasi = true;
        // 0 polls are skipped before the trigger is seen (or 1), and again after each restore
        mode = Mode { ckpt: true, first: r.chance(15) as i64, again: if r.chance(75) { 0 } else { i64::MAX / 2 } };
        if r.chance(40) {
            // a host call somewhere in the first function
            let v = [I::Wasi, I::Drop];
            m.funcs[0].body.splice(0..0, v);
        }
        // one of 1024 instructions polls: stack-neutral padding (one instruction each) moves the
        // polled instruction to every point of the program
        let mut pads = r.below(3);
        while pads > 0 {
            pads -= 1;
            let k = r.below(m.funcs.len());
            let n = 700 + r.below(324);
            insert_at(&mut m.funcs[k].body, &mut r, &pad(n));
        }
        let steps = if valid(&encode(&m)).is_err() {
            64
        } else {
            let mut s = refint::Store::new(&m, 60_000).expect("instantiation");
            let sg = m.types[m.funcs[0].sig].clone();
            let a: Vec<u64> = sg.params.iter().map(|t| interesting(&mut Rng::new(seed), *t)).collect();
            let _ = s.call(&m, 0, &a);
            s.steps
        };
        let n = 1023 - r.below(steps.clamp(4, 1023) as usize);
        m.funcs[0].body.splice(0..0, pad(n));
    }
    let mut calls = vec![];
    let sg = m.types[m.funcs[0].sig].clone();
    for _ in 0..3 {
        calls.push((0, sg.params.iter().map(|t| interesting(&mut r, *t)).collect()));
    }
    (m, calls, mode)
}
fn pad(n: usize) -> Vec<I> {
    (0..2 * n).map(|k| if k % 2 == 0 { I::Const(Ty::I32, k as u64) } else { I::Drop }).collect()
}
/// inserts p at a random place (padding leaves the operand stack as it was)
fn insert_at(b: &mut Vec<I>, r: &mut Rng, p: &[I]) {
    let nested: Vec<usize> = (0..b.len()).filter(|k| matches!(b[*k], I::Block(..) | I::Loop(..) | I::If(..))).collect();
    if !nested.is_empty() && r.chance(60) {
        let k = nested[r.below(nested.len())];
        return match &mut b[k] {
            I::Block(_, _, c) | I::Loop(_, _, c) => insert_at(c, r, p),
            I::If(_, _, a, Some(e)) => insert_at(if r.chance(50) { a } else { e }, r, p),
            I::If(_, _, a, None) => insert_at(a, r, p),
            _ => unreachable!(),
        };
    }
    let k = r.below(b.len() + 1);
    b.splice(k..k, p.iter().cloned());
}
fn valid(bytes: &[u8]) -> Result<(), String> {
    wasmparser::Validator::new().validate_all(bytes).map(|_| ()).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------ shrinking
fn edits(b: &[I], out: &mut Vec<Vec<I>>) {
    let n = b.len();
    for w in [16usize, 8, 4, 3, 2, 1] {
        if w > n {
            continue;
        }
        for i in 0..=n - w {
            let mut v = b.to_vec();
            v.drain(i..i + w);
            out.push(v);
        }
    }
    for (i, x) in b.iter().enumerate() {
        let mut put = |y: I| {
            let mut v = b.to_vec();
            v[i] = y;
            out.push(v)
        };
        let mut sub = vec![];
        match x {
            I::Block(p, r, c) => {
                edits(c, &mut sub);
                for s in sub {
                    put(I::Block(p.clone(), r.clone(), s))
                }
                let mut v = b.to_vec();
                v.splice(i..=i, c.iter().cloned());
                out.push(v);
            }
            I::Loop(p, r, c) => {
                edits(c, &mut sub);
                for s in sub {
                    put(I::Loop(p.clone(), r.clone(), s))
                }
                let mut v = b.to_vec();
                v.splice(i..=i, c.iter().cloned());
                out.push(v);
            }
            I::If(p, r, a, e) => {
                edits(a, &mut sub);
                for s in sub {
                    put(I::If(p.clone(), r.clone(), s, e.clone()))
                }
                if let Some(e) = e {
                    let mut sub = vec![];
                    edits(e, &mut sub);
                    for s in sub {
                        put(I::If(p.clone(), r.clone(), a.clone(), Some(s)))
                    }
                }
                let mut v = b.to_vec();
                let mut w = vec![I::Drop];
                w.extend(a.iter().cloned());
                v.splice(i..=i, w);
                out.push(v);
            }
            I::BrTable(t, d) if !t.is_empty() => put(I::BrTable(t[1..].to_vec(), *d)),
            _ => {}
        }
    }
}
fn size(b: &[I]) -> usize {
    b.iter()
        .map(|i| match i {
            I::Block(_, _, c) | I::Loop(_, _, c) => 2 + size(c),
            I::If(_, _, a, c) => 2 + size(a) + c.as_ref().map(|c| size(c) + 1).unwrap_or(0),
            _ => 1,
        })
        .sum()
}
fn shrink(m: Mod, calls: Calls, mode: Mode, file: &str, why: String, secs: u64) -> (Mod, Calls, String) {
    let t = Instant::now();
    let (mut m, mut calls, mut why) = (m, calls, why);
    let mut again = true;
    let test = |m: &Mod, c: &Calls| -> Option<String> {
        let b = encode(m);
        if valid(&b).is_err() {
            return None;
        }
        START.store(now(), Relaxed);
        CUR.lock().unwrap().2 = Some(format!("{m:?} calls {c:x?}"));
        match compare(m, &b, c, file, mode) {
            Case::Bad(s) => Some(s),
            _ => None,
        }
    };
    while again && t.elapsed().as_secs() < secs {
        again = false;
        for k in 0..calls.len() {
            if calls.len() > 1 {
                let mut c = calls.clone();
                c.remove(k);
                if let Some(s) = test(&m, &c) {
                    calls = c;
                    why = s;
                    again = true;
                    break;
                }
            }
        }
        'f: for f in 0..m.funcs.len() {
            let mut es = vec![];
            edits(&m.funcs[f].body, &mut es);
            es.sort_by_key(|b| size(b));
            let sz = size(&m.funcs[f].body);
            for e in es {
                if t.elapsed().as_secs() >= secs {
                    break 'f;
                }
                if size(&e) >= sz {
                    continue;
                }
                let mut c = m.clone();
                c.funcs[f].body = e;
                if let Some(s) = test(&c, &calls) {
                    m = c;
                    why = s;
                    again = true;
                    break;
                }
            }
        }
    }
    (m, calls, why)
}

fn report(prof: &str, case: u64, m: &Mod, calls: &Calls, mode: Mode, why: &str) {
    let hex: String = encode(m).iter().map(|b| format!("{b:02x}")).collect();
    println!(
        "{{\"violation\":{},\"key\":{},\"profile\":{},\"case\":{},\"functions\":{},\"calls\":{},\"checkpoint\":{},\"wasm_hex\":{}}}",
        js(why),
        js(&if prof == "start" { "start-function-not-executed".to_string() } else { format!("{prof}:{case}") }),
        js(prof),
        case,
        js(&format!("{:?}", m)),
        js(&format!("{calls:x?}")),
        js(&if mode.ckpt { format!("after polls {} then {}", mode.first, mode.again) } else { String::new() }),
        js(&hex)
    );
}

#[derive(Default)]
struct Stats {
    cases: u64,
    calls: u64,
    compared: u64,
    nontrivial: HashSet<u64>,
    ckpts: u64,
    skips: std::collections::BTreeMap<&'static str, u64>,
    bad: u64,
    rejected_by_validator: u64,
    complete: String,
    sample: Vec<String>,
}
fn h(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |a, x| (a ^ *x as u64).wrapping_mul(0x100000001b3))
}

fn run_random(prof: &str, case: u64, file: &str, st: &mut Stats) -> bool {
    let (m, calls, mode) = random_case(prof, case);
    let bytes = encode(&m);
    if let Err(e) = valid(&bytes) {
        st.rejected_by_validator += 1;
        if std::env::var("TV_DEBUG").is_ok() {
            eprintln!("invalid {case}: {e}\n{m:?}");
        }
        return true;
    }
    st.cases += 1;
    START.store(now(), Relaxed);
    {
        let mut c = CUR.lock().unwrap();
        c.1 = case;
        c.2 = None;
    }
    let r = compare(&m, &bytes, &calls, file, mode);
    START.store(0, Relaxed);
    match r {
        Case::Skip(s) => *st.skips.entry(s).or_default() += 1,
        Case::Ok { calls: n, ctl, ckpts } => {
            st.compared += 1;
            st.calls += n as u64;
            st.ckpts += ckpts as u64;
            if if mode.ckpt { ckpts > 0 } else { ctl > 0 || prof == "fold" } {
                st.nontrivial.insert(h(&bytes));
            }
            if st.sample.len() < 2 && bytes.len() < 160 {
                st.sample.push(format!("case {case}: {:?} calls {calls:x?}", m.funcs));
            }
        }
        Case::Bad(why) => {
            st.bad += 1;
            let (m, calls, why) = shrink(m, calls, mode, file, why, 12);
            report(prof, case, &m, &calls, mode, &why);
            return false;
        }
    }
    true
}

fn seqx_worker(secs: u64, shard: u64, shards: u64, file: &str, st: &mut Stats, maxlen: usize) {
    let t = Instant::now();
    let mut done = 0;
    for len in 1..=maxlen {
        let mut full = true;
        for ty in [Ty::I32, Ty::I64, Ty::F32, Ty::F64] {
            for variant in 0..2 {
                let e = seqx::Enum::new(ty, variant);
                let mut m = e.blank();
                let mut seqs: Vec<(Vec<I>, Vec<Ty>)> = vec![];
                let mut stop = false;
                let mut flush = |m: &mut Mod, seqs: &mut Vec<(Vec<I>, Vec<Ty>)>, st: &mut Stats| -> bool {
                    if m.funcs.is_empty() {
                        return true;
                    }
                    let bytes = encode(m);
                    if let Err(x) = valid(&bytes) {
                        st.rejected_by_validator += 1;
                        if std::env::var("TV_DEBUG").is_ok() {
                            eprintln!("invalid: {x}");
                        }
                    }
                    START.store(now(), Relaxed);
                    CUR.lock().unwrap().2 = Some(format!("{ty:?} variant {variant} from {:?}", seqs.first()));
                    let ok = batch(&e, m, &bytes, seqs, file, st);
                    START.store(0, Relaxed);
                    *m = e.blank();
                    seqs.clear();
                    ok
                };
                let (fin, _) = e.each(len, shard, shards, &mut |s, stk| {
                    e.push(&mut m, s, stk);
                    seqs.push((s.to_vec(), stk.to_vec()));
                    if m.funcs.len() >= 100 {
                        if !flush(&mut m, &mut seqs, st) {
                            stop = true;
                            return false;
                        }
                        if t.elapsed().as_secs() >= secs {
                            return false;
                        }
                    }
                    true
                });
                if stop {
                    return;
                }
                if !flush(&mut m, &mut seqs, st) {
                    return;
                }
                if !fin {
                    full = false;
                }
            }
        }
        if full {
            done = len;
        }
        if t.elapsed().as_secs() >= secs {
            break;
        }
    }
    st.complete = format!("{done}");
}
fn batch(e: &seqx::Enum, m: &Mod, bytes: &[u8], seqs: &[(Vec<I>, Vec<Ty>)], file: &str, st: &mut Stats) -> bool {
    let single = |k: usize, why: String, st: &mut Stats| {
        let mut one = e.blank();
        e.push(&mut one, &seqs[k].0, &seqs[k].1);
        st.bad += 1;
        report("seqx", h(&encode(&one)), &one, &vec![(0, e.args(0)), (0, e.args(1))], Mode::default(), &why);
    };
    let md = match load(file, bytes) {
        Ok(x) => x,
        Err(x) => {
            single(0, format!("a module of 100 valid functions, the first of which is shown, is rejected: {x}"), st);
            return false;
        }
    };
    for arg in 0..2 {
        let inst = match Inst::new(&md, 0) {
            Ok(x) => x,
            Err(x) => {
                single(0, x, st);
                return false;
            }
        };
        let mut rs = refint::Store::new(m, u64::MAX).expect("instantiation");
        for k in 0..m.funcs.len() {
            let a = e.args(arg);
            rs.nan = false;
            let w = rs.call(m, k, &a);
            st.cases += 1;
            let w = match w {
                Ok(w) if !rs.nan => w,
                // outside the compared domain: the shared state is no longer comparable
                _ => {
                    *st.skips.entry("nan or domain").or_default() += 1;
                    return true;
                }
            };
            let g = inst.call(m, k, &a, false);
            if g != Out::Values(w.clone()) {
                single(k, format!("f({a:x?}) must return {w:x?}, gives {g:x?}"), st);
                return false;
            }
            let gl = inst.globals();
            if gl[0].1 != rs.globals[0] {
                single(k, format!("f({a:x?}) leaves the global at {:#x}, must be {:#x}", gl[0].1, rs.globals[0]), st);
                return false;
            }
            st.calls += 1;
            st.compared += 1;
            if arg == 0 {
                st.nontrivial.insert(h(format!("{:?}{:?}", e.t, seqs[k].0).as_bytes()));
            }
            if st.sample.len() < 1 && seqs[k].0.len() >= 4 {
                st.sample.push(format!("{:?}", seqs[k].0));
            }
        }
        if let Some(d) = state_diff(&rs, &inst, m) {
            single(0, format!("after running 100 functions from this one on: {d}"), st);
            return false;
        }
    }
    true
}

fn worker(a: &[String]) {
    let (prof, secs, seed, shard, shards) =
        (a[0].clone(), a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    now();
    let file = format!("m{shard}.wasm");
    CUR.lock().unwrap().0 = prof.clone();
    {
        // a call that does not come back
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = START.load(Relaxed);
            if s != 0 && now() > s + HANG_S * 1000 {
                let c = CUR.lock().unwrap();
                let what = c.2.clone().unwrap_or_else(|| {
                    let (m, calls, _) = random_case(&c.0, c.1);
                    format!("{m:?} calls {calls:x?}")
                });
                println!(
                    "{{\"violation\":{},\"key\":{},\"profile\":{},\"case\":{},\"functions\":{}}}",
                    js(&format!("the program ends after at most 300000 steps, but its execution is still running after {HANG_S} s")),
                    js(&format!("{}:{}", c.0, c.1)),
                    js(&c.0),
                    c.1,
                    js(&what)
                );
                std::process::exit(0);
            }
        });
    }
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut st = Stats::default();
            let cf = std::fs::File::create(format!("cur{shard}")).unwrap();
            use std::os::unix::fs::FileExt;
            if prof == "seqx" {
                seqx_worker(secs, shard, shards, &file, &mut st, 9);
            } else {
                let t = Instant::now();
                let mut k = 0u64;
                while t.elapsed().as_secs() < secs {
                    let case = (seed.wrapping_mul(1_000_003) + k).wrapping_mul(shards) + shard;
                    let _ = cf.write_at(&case.to_le_bytes(), 0);
                    if !run_random(&prof, case, &file, &mut st) {
                        break;
                    }
                    k += 1;
                }
            }
            println!(
                "{{\"part\":{{\"cases\":{},\"calls\":{},\"compared\":{},\"nontrivial\":{},\"ckpts\":{},\"bad\":{},\"invalid\":{},\"skips\":{},\"complete\":{},\"sample\":[{}]}}}}",
                st.cases,
                st.calls,
                st.compared,
                st.nontrivial.len(),
                st.ckpts,
                st.bad,
                st.rejected_by_validator,
                js(&format!("{:?}", st.skips).replace('"', "'")),
                js(&st.complete),
                st.sample.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
            let _ = std::io::stdout().flush();
        })
        .unwrap();
    let _ = t.join();
}

fn num(l: &str, k: &str) -> u64 {
    l.find(&format!("\"{k}\":"))
        .map(|i| l[i + k.len() + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0))
        .unwrap_or(0)
}

fn run(a: &[String]) {
    let (prof, secs, seed, shards) = (&a[0], &a[1], &a[2], a[3].parse::<u64>().unwrap());
    let dir = std::env::temp_dir().join(format!("chiwawa-tv-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut ch = vec![];
    for s in 0..shards {
        let d = dir.join(format!("{s}"));
        std::fs::create_dir_all(&d).unwrap();
        let c = std::process::Command::new("bash")
            .arg("-c")
            .arg("ulimit -v 6000000; ulimit -c 0; exec \"$@\"")
            .arg("x")
            .arg(&exe)
            .args(["worker", prof, secs, seed, &s.to_string(), &shards.to_string()])
            .current_dir(&d)
            .stdout(std::process::Stdio::piped())
            .stderr(std::fs::File::create(d.join("err")).unwrap())
            .spawn()
            .unwrap();
        ch.push((s, c));
    }
    let (mut cases, mut calls, mut compared, mut nt, mut ck, mut inv) = (0, 0, 0, 0, 0, 0);
    let mut parts = 0;
    let mut samples = vec![];
    let mut skips = vec![];
    let mut complete: Option<u64> = None;
    let mut bad = 0;
    for (s, c) in ch {
        let o = c.wait_with_output().unwrap();
        let txt = String::from_utf8_lossy(&o.stdout).to_string();
        let mut seen = false;
        for l in txt.lines() {
            if l.starts_with("{\"violation\"") {
                println!("{l}");
                bad += 1;
                seen = true;
            }
            if l.starts_with("{\"part\"") {
                parts += 1;
                seen = true;
                cases += num(l, "cases");
                calls += num(l, "calls");
                compared += num(l, "compared");
                nt += num(l, "nontrivial");
                ck += num(l, "ckpts");
                inv += num(l, "invalid");
                if let Some(i) = l.find("\"sample\":[") {
                    let x = &l[i + 10..l.len() - 3];
                    if !x.is_empty() && samples.len() < 3 {
                        samples.push(x.to_string());
                    }
                }
                if let Some(i) = l.find("\"skips\":\"") {
                    skips.push(l[i + 9..].split('"').next().unwrap_or("").to_string());
                }
                if let Some(i) = l.find("\"complete\":\"") {
                    if let Ok(v) = l[i + 12..].split('"').next().unwrap_or("").parse::<u64>() {
                        complete = Some(complete.map(|c| c.min(v)).unwrap_or(v));
                    }
                }
            }
        }
        let err = std::fs::read_to_string(dir.join(format!("{s}/err"))).unwrap_or_default();
        let starved = {
            use std::os::unix::process::ExitStatusExt;
            o.status.signal() == Some(9) || err.contains("memory allocation of")
        };
        if !seen && starved {
            eprintln!("worker {s} ran out of memory");
        } else if !seen {
            // the worker died: which case was it running?
            let case = std::fs::read(dir.join(format!("{s}/cur{s}"))).ok().filter(|b| b.len() == 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
            let d = case
                .filter(|_| prof != "seqx")
                .map(|c| {
                    let (m, calls, _) = random_case(prof, c);
                    format!("{m:?} calls {calls:x?}")
                })
                .unwrap_or_default();
            println!(
                "{{\"violation\":{},\"key\":{},\"profile\":{},\"case\":{},\"functions\":{}}}",
                js(&format!("the process executing a valid program died: {:?}", o.status)),
                js(&format!("{prof}:{case:?}")),
                js(prof),
                case.unwrap_or(0),
                js(&d)
            );
            bad += 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{{\"summary\":{{\"profile\":{},\"evaluations\":{calls},\"distinct\":{nt},\"programs_generated\":{cases},\"programs_compared\":{compared},\"checkpoints_taken\":{ck},\"invalid\":{inv},\"workers\":{parts},\"violations\":{bad},\"exhaustive_up_to_length\":{},\"skipped\":{},\"samples\":[{}]}}}}",
        js(prof),
        complete.map(|c| c.to_string()).unwrap_or("null".into()),
        js(skips.first().map(|s| s.as_str()).unwrap_or("")),
        samples.join(",")
    );
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a[0].as_str() {
        "run" => run(&a[1..]),
        "worker" => worker(&a[1..]),
        "show" => {
            let (m, calls, mode) = random_case(&a[1], a[2].parse().unwrap());
            println!("{m:?}\ncalls {calls:x?} ckpt {} {} {}", mode.ckpt, mode.first, mode.again);
            std::fs::write("/tmp/tvcase.wasm", encode(&m)).unwrap();
        }
        "one" => {
            let mut st = Stats::default();
            let d = std::env::temp_dir().join(format!("chiwawa-tv1-{}", std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            std::env::set_current_dir(&d).unwrap();
            let ok = run_random(&a[1], a[2].parse().unwrap(), "m.wasm", &mut st);
            println!("{ok} {:?}", st.skips);
            let _ = std::fs::remove_dir_all(&d);
        }
        _ => panic!("usage"),
    }
}
