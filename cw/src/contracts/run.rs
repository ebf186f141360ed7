//! Contracts of the execution loop: the checkpoint poll, the dispatcher, and `Runtime::run`, which
//! pushes and pops frames around the instruction handlers.
//!
//! The handlers are replaced by scripted ones: functions that check what the runtime hands them and
//! then do whatever the contract of a handler allows, with arbitrary values.
use super::memory::empty_module;
use super::misc::bits;
use crate::contract;
use crate::nd::Nd;
use arrayvec::ArrayVec;
use chiwawa::error::RuntimeError;
use chiwawa::execution::dispatch::execute_instructions;
use chiwawa::execution::func::{FuncAddr, FuncInst};
use chiwawa::execution::ir::*;
use chiwawa::execution::mem::MemAddr;
use chiwawa::execution::migration;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::regs::*;
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::state::*;
use chiwawa::execution::value::*;
use chiwawa::structure::module::{Func, WasiFuncType};
use chiwawa::structure::types::*;
use chiwawa::wasi::passthrough::PassthroughWasiImpl;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;
use std::sync::Arc;

// ---- the host's answer to the poll ----
pub struct Probe {
    pub asked: u32,
    pub bad: bool,
    /// the trigger file is present from the `from`-th question on
    pub from: u32,
    pub removed: u32,
}
pub static mut PROBE: Probe = Probe { asked: 0, bad: false, from: u32::MAX, removed: 0 };
// (initial values are unusual on purpose: Kani gives constants and statics of equal bytes one object)
pub static mut PROBING: u32 = 0x5eed_0001;
const TRIGGER: &[u8] = b"./checkpoint.trigger\0";
#[allow(static_mut_refs, clippy::missing_safety_doc)]
pub unsafe extern "C" fn probe(_fd: u32, _flags: u32, path: *const u8, _stat: *mut u8) -> u16 {
    let mut i = 0;
    while i < TRIGGER.len() {
        if *path.add(i) != TRIGGER[i] {
            PROBE.bad = true;
        }
        i += 1;
    }
    PROBE.asked += 1;
    if PROBE.asked > PROBE.from { 0 } else { 44 }
}
/// path_filestat_get as the native stand-ins see it
#[cfg(not(kani))]
pub unsafe fn native_probe(a: &[super::wasi::A]) -> u16 {
    match a[2] {
        super::wasi::A::R(p) => probe(0, 0, p, std::ptr::null_mut()),
        _ => 28,
    }
}
#[allow(static_mut_refs)]
pub fn remove_file<P: AsRef<std::path::Path>>(_p: P) -> std::io::Result<()> {
    unsafe { PROBE.removed += 1 };
    Ok(())
}
pub fn silent(_a: std::fmt::Arguments<'_>) {}
fn reset(from: u32) {
    unsafe {
        PROBING = 1;
        PROBE = Probe { asked: 0, bad: false, from, removed: 0 };
    }
}

/// the machine state a dispatcher runs on: `k` scripted handlers
struct Flat {
    rf: MD<RegFile>,
    ls: MD<Vec<LabelStack>>,
    rr: MD<ArrayVec<Reg, 8>>,
    module: MD<Box<ModuleInst>>,
}
fn flat(wasi: bool) -> Flat {
    let mut module = MD::new(Box::new(empty_module()));
    if wasi {
        module.wasi_impl = Some(Arc::new(PassthroughWasiImpl::new(Vec::new())));
    }
    Flat {
        rf: MD::new(RegFile::new(0, 0, 0, 0, 0, 0)),
        ls: MD::new(Vec::from([LabelStack { label: Label { is_loop: false, return_ip: 0 }, processed_instrs: Rc::new(Vec::new()), ip: 0 }])),
        rr: MD::new(ArrayVec::new()),
        module,
    }
}
fn machine(f: &mut Flat, h: &[Handler], enable: bool, counter: u32) -> MD<VmState> {
    MD::new(VmState {
        reg_file: &mut *f.rf,
        locals: std::ptr::null_mut(),
        pc: 0,
        instrs: std::ptr::null(),
        instrs_len: h.len(),
        handlers: h.as_ptr(),
        label_stack: &mut *f.ls,
        current_label_idx: 0,
        mem_ptr: std::ptr::null_mut(),
        module: &**f.module,
        trap: None,
        yielded: None,
        return_result_regs: &mut *f.rr,
        enable_checkpoint: enable,
        checkpoint_poll_counter: counter,
    })
}
/// natively the counter starts close to a multiple of 1024 half of the time
fn counter<N: Nd>(n: &mut N) -> u32 {
    let c = n.u32();
    if !n.sym() && c & 0x400 != 0 {
        return c | 0x3fc;
    }
    c
}

macro_rules! polled {
    ($name:ident, $n:ident, $body:block) => {
        contract!(@ $name, [kani::unwind(24)] [kani::solver(cadical)] [kani::stub(std::rc::Rc::drop_slow, crate::leak_rc)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_filestat_get, crate::contracts::run::probe)]
            [kani::stub(std::fs::remove_file, crate::contracts::run::remove_file)]
            [kani::stub(std::io::_print, crate::contracts::run::silent)]
            [kani::stub(std::io::_eprint, crate::contracts::run::silent)]
            [kani::stub(chiwawa::execution::migration::checkpoint, crate::contracts::run::save)], $n, $body);
    };
}
/// `Runtime::run`: executed natively only (the verifier's symbolic execution of its frame handling
/// does not finish)
macro_rules! ran {
    ($name:ident, $n:ident, $body:block) => {
        contract!(@ $name, [kani::unwind(5)], $n, $body);
    };
}
/// One poll: never when disabled; when enabled the host is asked for the trigger file on exactly every
/// 1024th poll, and the answer is the host's.
#[allow(static_mut_refs)]
fn poll_case<N: Nd>(n: &mut N, wasi: bool) {
    let mut f = flat(wasi);
    let (enable, c, present) = (n.bool(), counter(n), n.bool());
    reset(if present { 0 } else { u32::MAX });
    let mut st = machine(&mut f, &[], enable, c);
    let r = migration::poll_checkpoint(&mut st);
    let p = unsafe { &PROBE };
    if !enable {
        assert!(!r && p.asked == 0, "post: with checkpoints disabled the trigger is never looked at");
        assert!(st.checkpoint_poll_counter == c, "frame: a disabled poll changes nothing");
    } else {
        assert!(st.checkpoint_poll_counter == c.wrapping_add(1), "post: every poll is counted");
        let due = wasi && c.wrapping_add(1) % 1024 == 0;
        assert!(p.asked == due as u32, "post: the trigger is looked at on exactly every 1024th poll");
        assert!(r == (due && present), "post: a checkpoint is due exactly when the trigger is there");
        assert!(!p.bad, "post: the file asked for is the trigger file");
    }
    assert!(st.pc == 0 && st.trap.is_none() && st.yielded.is_none() && st.current_label_idx == 0, "frame: polling changes no program state");
    assert!(f.ls.len() == 1 && f.rr.is_empty(), "frame: polling changes no program state");
}
polled!(poll, n, { poll_case(n, true); poll_case(n, false); });

// ---- the dispatcher ----
/// what a scripted handler does after it has noted that it ran; the notes are kept behind `mem_ptr`
fn went(k: usize, st: &mut VmState, to: usize) -> Outcome {
    assert!(st.pc == k, "post: the handler at the program counter runs");
    unsafe { *st.mem_ptr.add(k) += 1 };
    st.pc = to;
    #[cfg(feature = "tco")]
    {
        let h = unsafe { chiwawa::execution::handlers::next_handler(st) };
        return h(st);
    }
    #[cfg(not(feature = "tco"))]
    Outcome::Continue
}
fn leaves(k: usize, st: &mut VmState) -> Outcome {
    assert!(st.pc == k, "post: the handler at the program counter runs");
    unsafe {
        *st.mem_ptr.add(k) += 1;
        match *st.mem_ptr.add(7) {
            0 => Outcome::Halt,
            1 => Outcome::Trap,
            _ => Outcome::Yield,
        }
    }
}
fn h0(st: &mut VmState) -> Outcome { went(0, st, 1) }
fn h1(st: &mut VmState) -> Outcome { went(1, st, 2) }
fn h1_to_3(st: &mut VmState) -> Outcome { went(1, st, 3) }
fn h2(st: &mut VmState) -> Outcome { went(2, st, 3) }
fn h3(st: &mut VmState) -> Outcome { went(3, st, 4) }
fn h3_leaves(st: &mut VmState) -> Outcome { leaves(3, st) }
/// The dispatcher runs the handlers the program counter selects, one poll before each, until one of
/// them leaves or a poll says a checkpoint is due; then the program counter is the instruction to
/// resume with, and that instruction has not run.
#[allow(static_mut_refs)]
fn dispatch_case<N: Nd>(n: &mut N, branch: bool, leave: bool) {
    let mut f = flat(true);
    let (enable, c, present, out) = (n.bool(), counter(n), n.bool(), n.below(3) as u8);
    reset(if present { 0 } else { u32::MAX });
    let hs: [Handler; 5] = [h0, if branch { h1_to_3 } else { h1 }, h2, if leave { h3_leaves } else { h3 }, chiwawa::execution::handlers::halt];
    let mut notes = [0u8, 0, 0, 0, 0, 0, 0, out];
    let mut st = machine(&mut f, &hs, enable, c);
    st.instrs_len = 4;
    st.mem_ptr = notes.as_mut_ptr();
    let o = execute_instructions(&mut st);
    // the specified run: which instructions are reached, and the poll before which it stops
    let order: [usize; 5] = if branch { [0, 1, 3, 4, 4] } else { [0, 1, 2, 3, 4] };
    let len = if branch { 3 } else { 4 };
    let polls_in_all = len + if leave { 0 } else { 1 };
    // the first poll that asks the host, if any of them does
    let due = 1024 - (c % 1024);
    let asks = enable && due <= polls_in_all;
    let stopped = asks && present;
    let want = if stopped {
        Outcome::Trap
    } else if leave {
        match out { 0 => Outcome::Halt, 1 => Outcome::Trap, _ => Outcome::Yield }
    } else {
        Outcome::Halt
    };
    let ran = if stopped { due - 1 } else { len };
    assert!(o == want, "post: the dispatcher leaves with the outcome of the handler that left, or for the checkpoint");
    assert!(st.trap.is_some() == stopped, "post: the run stops for the checkpoint exactly when one is due");
    if stopped {
        assert!(matches!(st.trap, Some(RuntimeError::CheckpointRequested)), "post: the run stops for the checkpoint");
    }
    let resume = if ran == len && leave && !stopped { 3 } else { order[ran as usize] };
    assert!(st.pc == resume, "post: the program counter is the instruction to resume with");
    let mut want_notes = [0u8; 8];
    want_notes[7] = out;
    if ran > 0 { want_notes[order[0]] += 1 }
    if ran > 1 { want_notes[order[1]] += 1 }
    if ran > 2 { want_notes[order[2]] += 1 }
    if ran > 3 { want_notes[order[3]] += 1 }
    assert!(notes == want_notes, "post: exactly the selected instructions ran, once each");
    let polls = if stopped { due } else { polls_in_all };
    assert!(st.checkpoint_poll_counter == if enable { c.wrapping_add(polls) } else { c }, "post: one poll per instruction");
    let p = unsafe { &PROBE };
    assert!(p.asked == asks as u32 && !p.bad, "post: one poll per instruction");
}
polled!(dispatch_line, n, { dispatch_case(n, false, true); });
polled!(dispatch_branch, n, { dispatch_case(n, true, true); });
polled!(dispatch_end, n, { dispatch_case(n, false, false); });

// ---- Runtime::run ----
pub struct Script {
    arg: u64,
    /// arguments of the call, results of the callee, and what the frames write elsewhere
    a: u32,
    b: u64,
    r0: u32,
    r1: u64,
    w: [u64; 6],
    v: [u64; 6],
    mem0: *mut u8,
    mem1: *mut u8,
    mem: *const MemAddr,
    callee: *const FuncAddr,
    /// 0: function call, callee returns; 1: function call, callee halts; 2: host call with a result;
    /// 3: host call without; 4: trap
    kind: u8,
    enabled: bool,
    phase: u8,
    bodies: [*const ProcessedInstr; 2],
    tables: [*const Handler; 2],
    steps: [u32; 3],
    saved: u32,
    hosted: u32,
    host_ok: bool,
}
pub static mut S: Script = Script {
    arg: 0x5eed_0004, a: 0, b: 0, r0: 0, r1: 0, w: [0; 6], v: [0; 6], mem0: std::ptr::null_mut(), mem1: std::ptr::null_mut(),
    mem: std::ptr::null(), callee: std::ptr::null(), kind: 0, enabled: false, phase: 0, bodies: [std::ptr::null(); 2], tables: [std::ptr::null(); 2], steps: [0; 3], saved: 0, hosted: 0, host_ok: true,
};
fn loc(st: &VmState, i: usize) -> Option<(u8, u64)> {
    bits(st.local(i))
}
fn put_locals(st: &mut VmState, i: usize, v: Num) {
    match (st.local_mut(i), v) {
        (Val::Num(Num::I32(d)), Num::I32(s)) => *d = s,
        (Val::Num(Num::I64(d)), Num::I64(s)) => *d = s,
        (Val::Num(Num::F64(d)), Num::F64(s)) => *d = s,
        _ => panic!("post: a local has its declared type"),
    }
}
fn leave(_st: &mut VmState) {}
/// One handler for every instruction, so that the verifier has no indirect calls to resolve: the
/// `phase`-th call plays the caller's first, the callee's only, or the caller's second instruction.
/// That the right frame's instruction runs is checked through the frame's instruction stream.
#[allow(static_mut_refs)]
pub fn script(st: &mut VmState) -> Outcome {
    unsafe {
        let phase = S.phase;
        S.phase += 1;
        if S.enabled {
            assert!(st.enable_checkpoint, "post: every frame of a checkpointable run polls");
            assert!(st.checkpoint_poll_counter == S.phase as u32, "post: the polls of all frames are counted together");
        } else {
            assert!(!st.enable_checkpoint, "post: a run without checkpoints does not poll");
        }
        let call = S.kind < 2;
        let at = if call && phase == 1 { 1 } else { 0 };
        assert!(st.instrs == S.bodies[at] && st.handlers == S.tables[at], "post: the instruction that runs belongs to the running frame");
        match (phase, call) {
            (0, _) => m0(st),
            (1, true) => c0(st),
            _ => m1(st),
        }
    }
}
/// the caller's first instruction
#[allow(static_mut_refs)]
fn m0(st: &mut VmState) -> Outcome {
    unsafe {
        S.steps[0] += 1;
        assert!(st.pc == 0 && st.current_label_idx == 0, "post: a function starts at its first instruction");
        assert!(loc(st, 0) == Some((1, S.arg)) && loc(st, 1) == Some((0, 0)), "post: locals are the arguments, then zeros");
        assert!(st.mem_ptr == S.mem0, "post: the frame sees the module's memory");
        let rf = &mut *st.reg_file;
        assert!(rf.get_i32(0) == 0 && rf.get_i32(1) == 0 && rf.get_i64(0) == 0 && rf.get_f64(0).to_bits() == 0, "post: registers start as zeros");
        rf.set_i32(0, S.w[0] as i32);
        rf.set_i32(1, S.w[1] as i32);
        rf.set_i64(0, S.w[2] as i64);
        rf.set_f64(0, f64::from_bits(S.w[3]));
        put_locals(st, 0, Num::I64(S.w[4] as i64));
        put_locals(st, 1, Num::I32(S.w[5] as i32));
        st.pc = 1;
        let params: Vec<Val> = Vec::from([Val::Num(Num::I32(S.a as i32)), Val::Num(Num::F64(f64::from_bits(S.b)))]);
        match S.kind {
            0 | 1 => {
                let mut result_regs = ArrayVec::new();
                result_regs.push(Reg::I32(1));
                result_regs.push(Reg::I64(0));
                std::ptr::write(&mut st.yielded, Some(ModuleLevelInstr::InvokeReg { func_addr: FuncAddr::clone(&*S.callee), params, result_regs }));
            }
            4 => {
                st.trap = Some(RuntimeError::IntegerOverflow);
                std::mem::forget(params);
                return Outcome::Trap;
            }
            k => std::ptr::write(&mut st.yielded, Some(ModuleLevelInstr::InvokeWasiReg {
                wasi_func_type: WasiFuncType::FdClose,
                params,
                result_reg: if k == 2 { Some(Reg::I32(1)) } else { None },
            })),
        }
        leave(st);
        Outcome::Yield
    }
}
/// the callee's only instruction
#[allow(static_mut_refs)]
fn c0(st: &mut VmState) -> Outcome {
    unsafe {
        S.steps[1] += 1;
        assert!(st.pc == 0 && st.current_label_idx == 0 && st.label_stack().len() == 1, "post: a function starts at its first instruction");
        assert!(loc(st, 0) == Some((0, S.a as u64)) && loc(st, 1) == Some((3, S.b)), "post: the callee's first locals are the arguments in order");
        assert!(loc(st, 2) == Some((1, 0)) && matches!(st.local(3), Val::Ref(Ref::RefNull)), "post: the callee's other locals are zero or null");
        assert!(st.mem_ptr == S.mem0, "post: the frame sees the module's memory");
        let rf = &mut *st.reg_file;
        assert!(rf.get_i32(0) == 0 && rf.get_i64(0) == 0 && rf.get_i64(1) == 0, "post: registers start as zeros");
        rf.set_i32(0, S.r0 as i32);
        rf.set_i64(0, S.v[0] as i64);
        rf.set_i64(1, S.r1 as i64);
        put_locals(st, 0, Num::I32(S.v[1] as i32));
        put_locals(st, 2, Num::I64(S.v[2] as i64));
        // memory.grow moves the memory
        (*S.mem).set_data(Vec::from_raw_parts(S.mem1, 8, 8));
        st.mem_ptr = S.mem1;
        st.return_result_regs_mut().push(Reg::I32(0));
        st.return_result_regs_mut().push(Reg::I64(1));
        st.pc = 1;
        if S.kind == 0 {
            std::ptr::write(&mut st.yielded, Some(ModuleLevelInstr::Return));
            Outcome::Yield
        } else {
            Outcome::Halt
        }
    }
}
/// the caller's second instruction
#[allow(static_mut_refs)]
fn m1(st: &mut VmState) -> Outcome {
    unsafe {
        S.steps[2] += 1;
        assert!(st.pc == 1 && st.current_label_idx == 0 && st.label_stack().len() == 1, "post: the caller resumes behind the call");
        assert!(loc(st, 0) == Some((1, S.w[4])) && loc(st, 1) == Some((0, S.w[5] as u32 as u64)), "frame: the caller's locals are intact after the call");
        let rf = &mut *st.reg_file;
        let (i1, l0) = match S.kind {
            0 | 1 => (S.r0, S.r1),
            2 => (S.r0, S.w[2]),
            _ => (S.w[1] as u32, S.w[2]),
        };
        assert!(rf.get_i32(1) as u32 == i1 && rf.get_i64(0) as u64 == l0, "post: results are in the caller's destinations");
        assert!(rf.get_i32(0) as u32 == S.w[0] as u32 && rf.get_f64(0).to_bits() == S.w[3], "frame: the caller's other registers are intact after the call");
        assert!(st.mem_ptr == if S.kind < 2 { S.mem1 } else { S.mem0 }, "post: the caller sees the memory where it is now");
        st.return_result_regs_mut().push(Reg::F64(0));
        st.return_result_regs_mut().push(Reg::I32(1));
        st.pc = 2;
        std::ptr::write(&mut st.yielded, Some(ModuleLevelInstr::Return));
        Outcome::Yield
    }
}
/// stands for migration::checkpoint
#[allow(static_mut_refs)]
pub fn save<P: AsRef<std::path::Path>>(
    _m: &ModuleInst,
    s: &Stacks,
    _mem: &[MemAddr],
    _g: &[chiwawa::execution::verif::GlobalAddr],
    _p: P,
) -> Result<(), RuntimeError> {
    unsafe { S.saved += 1 };
    assert!(!s.activation_frame_stack.is_empty(), "post: a checkpoint holds the running frames");
    Ok(())
}
fn nt(t: NumType) -> ValueType {
    ValueType::NumType(t)
}
fn code(f: &FuncAddr, m: &Rc<ModuleInst>, ty: FuncType, locals: Vec<(u32, ValueType)>, alloc: RegAllocation, hs: Vec<Handler>) {
    let mut body: Vec<ProcessedInstr> = Vec::with_capacity(hs.len());
    unsafe {
        body.set_len(hs.len() - 1);
        // the whole instance at once, so that the verifier sees one unconditional write
        std::ptr::write(
            f.get_rc().get(),
            FuncInst::RuntimeFunc {
                type_: ty,
                module: Rc::downgrade(m),
                code: Func { type_: TypeIdx(0), locals, body: Rc::new(body), reg_allocation: Some(alloc), handlers: Rc::new(hs) },
            },
        );
    }
}
struct Set {
    rt: MD<Runtime>,
    #[allow(dead_code)]
    fs: [MD<FuncAddr>; 2],
}
#[allow(static_mut_refs)]
fn setup<N: Nd>(n: &mut N, kind: u8, enable: bool) -> Set {
    let (b0, b1) = (MD::new(Box::new([0u8; 8])), MD::new(Box::new([0u8; 8])));
    let mem = MemAddr::new(&MemType(Limits { min: 0, max: None }));
    mem.set_data(unsafe { Vec::from_raw_parts(b0.as_ptr() as *mut u8, 8, 8) });
    let mut m = empty_module();
    m.mem_addrs = Vec::from([mem]);
    m.wasi_impl = Some(Arc::new(PassthroughWasiImpl::new(Vec::new())));
    let m = MD::new(Rc::new(m));
    let fs = super::misc::funcs();
    let r = RegAllocation { i32_count: 2, i64_count: 1, f32_count: 0, f64_count: 1, ref_count: 0, v128_count: 0 };
    code(&fs[0], &m, FuncType { params: Vec::from([nt(NumType::I64)]), results: Vec::from([nt(NumType::F64), nt(NumType::I32)]) },
        Vec::from([(1, nt(NumType::I32))]), r, Vec::from([script as Handler, script, script]));
    let r = RegAllocation { i32_count: 1, i64_count: 2, f32_count: 0, f64_count: 0, ref_count: 0, v128_count: 0 };
    code(&fs[1], &m, FuncType { params: Vec::from([nt(NumType::I32), nt(NumType::F64)]), results: Vec::from([nt(NumType::I32), nt(NumType::I64)]) },
        Vec::from([(1, nt(NumType::I64)), (1, ValueType::RefType(RefType::FuncRef))]), r, Vec::from([script as Handler, script]));
    unsafe {
        S = Script {
            arg: n.u64(), a: n.u32(), b: n.u64(), r0: n.u32(), r1: n.u64(),
            w: [n.u32() as u64, n.u32() as u64, n.u64(), n.u64(), n.u64(), n.u32() as u64],
            v: [n.u64(), n.u32() as u64, n.u64(), 0, 0, 0],
            mem0: b0.as_ptr() as *mut u8,
            mem1: b1.as_ptr() as *mut u8,
            mem: &m.mem_addrs[0],
            callee: &*fs[1],
            kind, enabled: enable, phase: 0, bodies: [std::ptr::null(); 2], tables: [std::ptr::null(); 2], steps: [0; 3], saved: 0, hosted: 0, host_ok: true,
        };
        let rf = RegFile::from_allocation(&RegAllocation { i32_count: 2, i64_count: 1, f32_count: 0, f64_count: 1, ref_count: 0, v128_count: 0 });
        let (body, handlers) = match &*fs[0].get_rc().get() {
            FuncInst::RuntimeFunc { code, .. } => (Rc::clone(&code.body), Rc::clone(&code.handlers)),
            _ => unreachable!(),
        };
        S.bodies[0] = body.as_ptr();
        S.tables[0] = handlers.as_ptr();
        if let FuncInst::RuntimeFunc { code, .. } = &*fs[1].get_rc().get() {
            S.bodies[1] = code.body.as_ptr();
            S.tables[1] = code.handlers.as_ptr();
        }
        let frame = FrameStack {
            frame: Frame { locals: Vec::from([Val::Num(Num::I64(S.arg as i64)), Val::Num(Num::I32(0))]), module: Rc::downgrade(&m), n: 2 },
            label_stack: Vec::from([LabelStack { label: Label { is_loop: false, return_ip: 0 }, processed_instrs: body, ip: 0 }]),
            enable_checkpoint: false,
            result_regs: ArrayVec::new(),
            return_result_regs: ArrayVec::new(),
            primary_mem: Some(MemAddr::clone(&m.mem_addrs[0])),
            cached_mem_ptr: Some(S.mem0),
            handlers,
        };
        let rt = MD::new(Runtime::new_restored(Rc::clone(&m), Stacks { reg_file: rf, activation_frame_stack: Vec::from([frame]) }, false, enable));
        Set { rt, fs }
    }
}
#[allow(static_mut_refs)]
fn finished(r: &Result<Vec<Val>, RuntimeError>) {
    match r {
        Ok(v) => unsafe {
            let want = if S.kind == 3 { S.w[1] as u32 } else { S.r0 };
            assert!(v.len() == 2 && bits(&v[0]) == Some((3, S.w[3])) && bits(&v[1]) == Some((0, want as u64)), "post: the results of the run are the results of the function, in order");
            let c = (S.kind < 2) as u32;
            assert!(S.steps[0] == 1 && S.steps[1] == c && S.steps[2] == 1 && S.hosted == 1 - c, "post: every instruction ran exactly once");
        },
        Err(_) => panic!("post: a run without traps succeeds"),
    }
}
fn run_case<N: Nd>(n: &mut N, kind: u8) {
    let e = n.bool();
    let mut s = setup(n, kind, e);
    reset(u32::MAX);
    let r = MD::new(s.rt.run());
    finished(&r);
}
ran!(run_call_return, n, { run_case(n, 0); });
ran!(run_call_halt, n, { run_case(n, 1); });
ran!(run_trap, n, {
    let mut s = setup(n, 4, false);
    reset(u32::MAX);
    let r = MD::new(s.rt.run());
    assert!(matches!(&*r, Err(RuntimeError::IntegerOverflow)), "post: a trap ends the run with that trap");
});
