//! Contracts of calls, returns and the per-frame register file.
use super::memory::empty_module;
use super::misc::*;
use crate::nd::Nd;
use crate::world::*;
use crate::{contract, must_trap};
use chiwawa::execution::func::{FuncAddr, FuncInst};
use chiwawa::execution::ir::*;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::regs::*;
use chiwawa::execution::state::ModuleLevelInstr;
use chiwawa::execution::value::*;
use chiwawa::execution::verif::TableAddr;
use chiwawa::structure::module::WasiFuncType;
use chiwawa::structure::types::*;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;

fn i32t() -> ValueType {
    ValueType::NumType(NumType::I32)
}
fn i64t() -> ValueType {
    ValueType::NumType(NumType::I64)
}
/// 0: []->[]  1: [i32]->[]  2: []->[i32]  3: [i32 i64]->[i64]  4: [i32 i32]->[i64]
fn ty(k: u8) -> FuncType {
    let (p, r): (Vec<ValueType>, Vec<ValueType>) = match k {
        0 => (Vec::new(), Vec::new()),
        1 => (Vec::from([i32t()]), Vec::new()),
        2 => (Vec::new(), Vec::from([i32t()])),
        3 => (Vec::from([i32t(), i64t()]), Vec::from([i64t()])),
        _ => (Vec::from([i32t(), i32t()]), Vec::from([i64t()])),
    };
    FuncType { params: p, results: r }
}
fn give_type(f: &FuncAddr, k: u8) {
    unsafe {
        if let FuncInst::RuntimeFunc { type_, .. } = &mut *f.get_rc().get() {
            std::ptr::write(type_, ty(k));
        }
    }
}
fn params(shape: u8) -> Box<[Reg]> {
    use Reg::*;
    match shape {
        0 => Box::new([]),
        1 => Box::new([F64(2), I32(0), I64(1), F32(2)]),
        2 => Box::new([I32(2), I64(0)]),
        _ => Box::new([I32(1), I32(1)]),
    }
}
fn results(shape: u8) -> Box<[Reg]> {
    use Reg::*;
    match shape {
        0 => Box::new([]),
        1 => Box::new([I32(1), F64(0)]),
        _ => Box::new([I64(2)]),
    }
}
fn tag(r: &Reg) -> u8 {
    match r { Reg::I32(_) => 0, Reg::I64(_) => 1, Reg::F32(_) => 2, Reg::F64(_) => 3, _ => 9 }
}
fn slot(r: &Reg) -> Dst {
    match r {
        Reg::I32(i) => Dst::I32(*i),
        Reg::I64(i) => Dst::I64(*i),
        Reg::F32(i) => Dst::F32(*i),
        Reg::F64(i) => Dst::F64(*i),
        _ => Dst::Nothing,
    }
}
/// the arguments handed to the callee are the parameter registers' values, in order
fn passed(old: &Snap, shape: u8, got: &[Val]) {
    let want = MD::new(params(shape));
    assert!(got.len() == want.len(), "post: one argument per parameter");
    for k in 0..want.len() {
        assert!(bits(&got[k]) == Some((tag(&want[k]), old.at(slot(&want[k])))), "post: arguments are the parameter registers' values, in order");
    }
}
fn yields(a: &After, pc: usize) {
    assert!(a.outcome == Outcome::Yield, "post: control passes to the runtime");
    assert!(a.pc == pc, "post: the caller resumes behind the call");
    assert!(a.trap == TrapKind::None && a.yielded && a.labels == 0 && a.same_mem, "frame: no trap, control stacks unchanged");
}
/// a module whose function 0 and 1 are f0, f1, with types 0..5
fn module(fs: &[MD<FuncAddr>; 2], ntypes: bool) -> MD<Box<ModuleInst>> {
    let mut m = MD::new(Box::new(empty_module()));
    let b = MD::new(Box::new([FuncAddr::clone(&fs[0]), FuncAddr::clone(&fs[1])]));
    m.func_addrs = unsafe { Vec::from_raw_parts(b.as_ptr() as *mut FuncAddr, 2, 2) };
    if ntypes {
        m.types = Rc::new(Vec::from([ty(0), ty(1), ty(2), ty(3), ty(4)]));
    }
    m
}
fn invoked(w: &World, old: &Snap, fs: &[MD<FuncAddr>; 2], which: u8, ps: u8, rs: u8) {
    match &w.yielded {
        Some(ModuleLevelInstr::InvokeReg { func_addr, params, result_regs }) => {
            let k = if Rc::ptr_eq(func_addr.get_rc(), fs[0].get_rc()) { 0 } else if Rc::ptr_eq(func_addr.get_rc(), fs[1].get_rc()) { 1 } else { 9 };
            assert!(k == which, "post: exactly the addressed function is called");
            passed(old, ps, params);
            let want = MD::new(results(rs));
            assert!(result_regs.len() == want.len(), "post: one destination per result");
            for k in 0..want.len() {
                assert!(result_regs[k] == want[k], "post: results go to the call's destinations");
            }
        }
        _ => panic!("post: a function call is requested"),
    }
}
fn call_case<N: Nd>(n: &mut N, f: u32, ps: u8, rs: u8) {
    let fs = funcs();
    let m = module(&fs, false);
    let mut w = World::new();
    let old = w.havoc(n);
    w.module = &**m;
    let i = MD::new(ProcessedInstr::CallReg { func_idx: FuncIdx(f), param_regs: params(ps), result_regs: results(rs) });
    let a = w.step(&i);
    yields(&a, 1);
    invoked(&w, &old, &fs, f as u8, ps, rs);
    frame(&old, &w.snap(), Dst::Nothing);
}
contract!(call_direct_mixed, leak, n, { call_case(n, 1, 1, 1); });
contract!(call_direct, leak, n, { call_case(n, 0, 0, 2); call_case(n, 1, 3, 0); });

/// call_indirect through a table of three entries (the second table of the module), any valid index
fn indirect_case<N: Nd>(n: &mut N, at: u32, ft: u8, ps: u8, rs: u8, pass: bool) {
    let fs = funcs();
    give_type(&fs[0], ft);
    give_type(&fs[1], ft);
    let m = module(&fs, true);
    let mut m = m;
    let t = table3(&fs, [1, 2, 1]);
    let other = table3(&fs, [0, 0, 0]);
    let tb = MD::new(Box::new([TableAddr::clone(&other), TableAddr::clone(&t)]));
    m.table_addrs = unsafe { Vec::from_raw_parts(tb.as_ptr() as *mut TableAddr, 2, 2) };
    let mut w = World::new();
    let mut old = w.havoc(n);
    w.put_i32_reg(0, at as i32);
    old.set(Dst::I32(0), at as u64);
    w.module = &**m;
    let want_ty = if pass { ft } else { (ft + 1) % 5 };
    let i = MD::new(ProcessedInstr::CallIndirectReg {
        type_idx: TypeIdx(want_ty as u32),
        table_idx: TableIdx(1),
        index_reg: Reg::I32(0),
        param_regs: params(ps),
        result_regs: results(rs),
    });
    let a = w.step(&i);
    if pass {
        yields(&a, 1);
        invoked(&w, &old, &fs, if at == 1 { 1 } else { 0 }, ps, rs);
    } else {
        assert!(a.outcome == Outcome::Trap && a.trap == TrapKind::Other && !a.yielded, "post: a type mismatch traps");
    }
    frame(&old, &w.snap(), Dst::Nothing);
}
contract!(call_indirect_ok, leak, n, { indirect_case(n, 1, 3, 2, 2, true); indirect_case(n, 2, 0, 0, 0, true); });
contract!(call_indirect_mismatch_params, leak, n, { indirect_case(n, 0, 0, 0, 0, false); indirect_case(n, 1, 3, 2, 2, false); });
contract!(call_indirect_mismatch_results, leak, n, { indirect_case(n, 0, 1, 0, 0, false); indirect_case(n, 0, 2, 0, 1, false); });

struct CI {
    w: World,
    m: MD<Box<ModuleInst>>,
    fs: [MD<FuncAddr>; 2],
    t: MD<TableAddr>,
}
must_trap!(trap_call_indirect, unwind 9, n, {
    let fs = funcs();
    let mut m = module(&fs, true);
    let null_at = n.below(3) as usize;
    let e = match null_at { 0 => [0, 1, 2], 1 => [1, 0, 2], _ => [1, 2, 0] };
    let t = table3(&fs, e);
    let tb = MD::new(Box::new([TableAddr::clone(&t)]));
    m.table_addrs = unsafe { Vec::from_raw_parts(tb.as_ptr() as *mut TableAddr, 1, 1) };
    let mut w = World::new();
    w.havoc(n);
    let i = if n.sym() { n.u32() } else { n.below(6) as u32 };
    n.assume(i as usize >= T || i as usize == null_at);
    w.put_i32_reg(0, i as i32);
    w.module = &**m;
    CI { w, m, fs, t }
}, |p| {
    let i = MD::new(ProcessedInstr::CallIndirectReg {
        type_idx: TypeIdx(0),
        table_idx: TableIdx(0),
        index_reg: Reg::I32(0),
        param_regs: Box::new([]),
        result_regs: Box::new([]),
    });
    p.w.step(&i).outcome
});
contract!(call_host, leak, n, {
    for (shape, r) in [(1u8, Some(Reg::I32(1))), (0, None)] {
        let mut w = World::new();
        let old = w.havoc(n);
        let i = MD::new(ProcessedInstr::CallWasiReg { wasi_func_type: WasiFuncType::FdWrite, param_regs: params(shape), result_reg: r });
        let a = w.step(&i);
        yields(&a, 1);
        match &w.yielded {
            Some(ModuleLevelInstr::InvokeWasiReg { wasi_func_type, params, result_reg }) => {
                assert!(matches!(wasi_func_type, WasiFuncType::FdWrite), "post: exactly the named host function is called");
                passed(&old, shape, params);
                assert!(*result_reg == r, "post: the result goes to the call's destination");
            }
            _ => panic!("post: a host call is requested"),
        }
        frame(&old, &w.snap(), Dst::Nothing);
    }
});
contract!(do_return, leak, n, {
    for shape in 0..3u8 {
        let mut w = World::new();
        let old = w.havoc(n);
        let i = MD::new(ProcessedInstr::ReturnReg { result_regs: results(shape) });
        let a = w.step(&i);
        assert!(a.outcome == Outcome::Yield && a.trap == TrapKind::None && a.yielded, "post: the frame is left");
        assert!(matches!(w.yielded, Some(ModuleLevelInstr::Return)), "post: the frame is left");
        let want = MD::new(results(shape));
        assert!(w.rr.len() == want.len(), "post: the results are the return's operands");
        for k in 0..want.len() {
            assert!(w.rr[k] == want[k], "post: the results are the return's operands");
        }
        frame(&old, &w.snap(), Dst::Nothing);
    }
});

// ---- register file ----
// A callee's registers are fresh zeros and disjoint from the caller's; leaving the callee restores the
// caller's registers exactly.
contract!(regs_nested, leak, n, {
    let fs = funcs();
    let mut w = World::with_refs(3);
    let old = w.havoc(n);
    for i in 0..4 {
        put_ref(&mut w, i, mk(1, &fs));
    }
    let d0 = w.rf.frame_depth();
    let (a, b, c, d) = (n.i32(), n.i64(), n.u32(), n.u64());
    w.rf.save_offsets(&RegAllocation { i32_count: 2, i64_count: 1, f32_count: 0, f64_count: 2, ref_count: 1, v128_count: 0 });
    assert!(w.rf.get_i32(0) == 0 && w.rf.get_i32(1) == 0 && w.rf.get_i64(0) == 0, "post: a new frame starts with zeroed registers");
    assert!(w.rf.get_f64(1).to_bits() == 0, "post: a new frame starts with zeroed registers");
    assert!(matches!(w.rf.ref_regs[4], Ref::RefNull), "post: a new frame's references start as null");
    w.rf.set_i32(1, a);
    w.rf.set_i64(0, b);
    w.rf.set_f64(0, f64::from_bits(d));
    assert!(w.rf.get_i32(1) == a && w.rf.get_i32(0) == 0 && w.rf.get_i64(0) == b && w.rf.get_f64(0).to_bits() == d, "post: a register holds what was written");
    w.rf.save_offsets(&RegAllocation { i32_count: 0, i64_count: 1, f32_count: 1, f64_count: 0, ref_count: 0, v128_count: 0 });
    assert!(w.rf.get_i64(0) == 0 && w.rf.get_f32(0).to_bits() == 0, "post: a new frame starts with zeroed registers");
    w.rf.set_f32(0, f32::from_bits(c));
    w.rf.set_i64(0, 7);
    w.rf.restore_offsets();
    assert!(w.rf.get_i32(1) == a && w.rf.get_i32(0) == 0 && w.rf.get_i64(0) == b && w.rf.get_f64(0).to_bits() == d, "frame: the caller's registers are intact after the call");
    w.rf.restore_offsets();
    assert!(w.rf.frame_depth() == d0, "post: frames are left in order");
    assert!(w.rf.i32_regs.len() == BANK && w.rf.i64_regs.len() == BANK && w.rf.f32_regs.len() == BANK && w.rf.f64_regs.len() == BANK && w.rf.ref_regs.len() == 4,
        "post: a left frame's registers are released");
    let v = w.rf.get_i32(2);
    assert!(v == old.at(Dst::I32(2)) as u32 as i32, "post: the caller's frame is current again");
    for k in 0..BANK {
        assert!(w.rf.i32_regs[k] == old.i32[k] && w.rf.i64_regs[k] == old.i64[k], "frame: the caller's registers are intact after the call");
        assert!(w.rf.f32_regs[k].to_bits() == old.f32[k] && w.rf.f64_regs[k].to_bits() == old.f64[k], "frame: the caller's registers are intact after the call");
        assert!(ident(&w.rf.ref_regs[k], &fs) == 1, "frame: the caller's references are intact after the call");
    }
});
// values cross frames unchanged: get_val/set_val at any register of any type
contract!(regs_values, leak, n, {
    let mut w = World::new();
    let old = w.havoc(n);
    let (r, k) = (n.below(CUR), n.below(4));
    let reg = match k { 0 => Reg::I32(r), 1 => Reg::I64(r), 2 => Reg::F32(r), _ => Reg::F64(r) };
    let v = MD::new(w.rf.get_val(&reg));
    assert!(bits(&v) == Some((k as u8, old.at(slot(&reg)))), "post: a register's value is read unchanged");
    let b = n.u64();
    let x = MD::new(Val::Num(match k {
        0 => Num::I32(b as u32 as i32),
        1 => Num::I64(b as i64),
        2 => Num::F32(f32::from_bits(b as u32)),
        _ => Num::F64(f64::from_bits(b)),
    }));
    w.rf.set_val(&reg, &x);
    let mut e = old;
    e.set(slot(&reg), if k == 0 || k == 2 { b & 0xffff_ffff } else { b });
    frame(&e, &w.snap(), Dst::Nothing);
});
