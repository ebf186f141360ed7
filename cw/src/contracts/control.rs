//! Contracts of structured control flow: block, loop, if, else, end, br, br_if, br_table.
use crate::contract;
use crate::nd::Nd;
use crate::world::*;
use chiwawa::execution::handlers::{br_table, select_handler};
use chiwawa::execution::ir::*;
use chiwawa::execution::regs::Reg;
use chiwawa::execution::state::*;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;

/// assumed contract of `Vec::truncate` (the dropped labels only release a reference count)
#[cfg(kani)]
pub fn truncate_spec<T, A: core::alloc::Allocator>(v: &mut Vec<T, A>, len: usize) {
    if len < v.len() {
        unsafe { v.set_len(len) }
    }
}
/// A label stack of any depth >= 1.  Under the verifier its entries are unreadable (the branch
/// contracts do not depend on them).
fn any_labels<N: Nd>(w: &mut World, n: &mut N, real: &Rc<Vec<ProcessedInstr>>) -> usize {
    let len = if n.sym() { n.u32() as usize } else { 1 + n.below(5) as usize };
    n.assume(len >= 1 && len <= i32::MAX as usize / 64);
    if N::SYM {
        w.ls = MD::new(unsafe { Vec::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len, len) });
    } else {
        n.assume(len <= 64);
        w.ls = MD::new((0..len).map(|k| label(k, real)).collect());
    }
    w.idx = len - 1;
    len
}
fn label(k: usize, body: &Rc<Vec<ProcessedInstr>>) -> LabelStack {
    LabelStack { label: Label { is_loop: false, return_ip: 100 + k }, processed_instrs: body.clone(), ip: 200 + k }
}
/// exactly `len` labels sharing one body
fn labels(w: &mut World, len: usize, body: &Rc<Vec<ProcessedInstr>>) {
    let b = MD::new(Box::new([label(0, body), label(1, body), label(2, body), label(3, body)]));
    w.ls = MD::new(unsafe { Vec::from_raw_parts(b.as_ptr() as *mut LabelStack, len, 4) });
    w.idx = len - 1;
}
fn code() -> MD<Rc<Vec<ProcessedInstr>>> {
    MD::new(Rc::new(Vec::new()))
}
/// control moved to `pc` with `len` labels open, nothing trapped or yielded
pub fn moved(a: &After, pc: usize, len: usize) {
    #[cfg(feature = "tco")]
    assert!(a.outcome == Outcome::Halt, "post: execution goes on");
    #[cfg(not(feature = "tco"))]
    assert!(a.outcome == Outcome::Continue, "post: execution goes on");
    assert!(a.pc == pc, "post: control continues at the specified position");
    assert!(a.labels == len, "post: exactly the specified labels stay open");
    assert!(a.label_idx == len - 1, "post: the innermost open label is the current one");
    assert!(a.trap == TrapKind::None && !a.yielded && a.rets == 0 && a.same_mem, "frame: no trap, yield or result");
}
fn same(new: &Snap, exp: &Snap) {
    frame(exp, new, Dst::Nothing);
}
/// value lists of a branch: (sources, targets); sources sit at or above their targets
fn lists(shape: u8) -> (Box<[Reg]>, Box<[Reg]>) {
    use Reg::*;
    match shape {
        0 => (Box::new([]), Box::new([])),
        1 => (Box::new([I32(1), I64(2), F32(1), F64(2)]), Box::new([I32(0), I64(1), F32(0), F64(1)])),
        2 => (Box::new([I64(1), I64(2)]), Box::new([I64(0), I64(1)])),
        _ => (Box::new([F64(1), I32(2)]), Box::new([F64(1), I32(0)])),
    }
}
fn slot(r: &Reg) -> Dst {
    match r {
        Reg::I32(i) => Dst::I32(*i),
        Reg::I64(i) => Dst::I64(*i),
        Reg::F32(i) => Dst::F32(*i),
        Reg::F64(i) => Dst::F64(*i),
        _ => Dst::Nothing,
    }
}
/// the k-th target receives the k-th source's old value, nothing else changes
fn copied(old: &Snap, shape: u8) -> Snap {
    let (s, t) = lists(shape);
    let mut e = *old;
    for k in 0..s.len() {
        e.set(slot(&t[k]), old.at(slot(&s[k])));
    }
    std::mem::forget((s, t));
    e
}
fn ip<N: Nd>(n: &mut N) -> usize {
    if n.sym() { n.u32() as usize } else { n.below(8) as usize }
}
fn depth<N: Nd>(n: &mut N, len: usize) -> u32 {
    let d = if n.sym() { n.u32() } else { n.below(len as u16) as u32 };
    n.assume((d as usize) < len);
    d
}
/// labels open after a branch of depth d out of `len` labels: the target label itself is left
/// (a loop is re-entered through its head), the function's own label stays
fn remaining(len: usize, d: u32) -> usize {
    let keep = len - 1 - d as usize;
    if keep == 0 { 1 } else { keep }
}
/// with tail calls a handler fetches its successor itself: here that is always the sentinel, wherever
/// control goes (run::dispatch_* show that the real `next_handler` fetches the one at `pc`)
#[allow(clippy::missing_safety_doc)]
pub unsafe fn stop(_s: &mut chiwawa::execution::state::VmState) -> Handler {
    chiwawa::execution::handlers::halt
}
macro_rules! ctl {
    ($name:ident, $n:ident, $b:block) => {
        contract!(@ $name, [kani::unwind(9)] [kani::solver(cadical)] [kani::stub(std::vec::Vec::truncate, super::truncate_spec)] [kani::stub(std::rc::Rc::drop_slow, $crate::leak_rc)]
            [kani::stub(chiwawa::execution::handlers::next_handler, crate::contracts::control::stop)], $n, $b);
    };
}
fn br_case<N: Nd>(w: &mut World, n: &mut N, shape: u8) {
    let b = code();
    let len = any_labels(w, n, &b);
    let old = w.havoc(n);
    let (d, t) = (depth(n, len), ip(n));
    let (s, r) = lists(shape);
    let i = MD::new(ProcessedInstr::BrReg { relative_depth: d, target_ip: t, source_regs: s, target_result_regs: r });
    let a = w.step(&i);
    moved(&a, t, remaining(len, d));
    same(&w.snap(), &copied(&old, shape));
}
ctl!(br_none, n, { let mut w = World::new(); br_case(&mut w, n, 0); });
ctl!(br_mixed, n, { let mut w = World::new(); br_case(&mut w, n, 1); });
ctl!(br_overlap, n, { let mut w = World::new(); br_case(&mut w, n, 2); br_case(&mut w, n, 3); });
fn br_if_case<N: Nd>(w: &mut World, n: &mut N, shape: u8) {
    let b = code();
    let len = any_labels(w, n, &b);
    let old = w.havoc(n);
    let (d, t) = (depth(n, len), ip(n));
    let (s, r) = lists(shape);
    let c = old.at(Dst::I32(1)) as u32;
    let i = MD::new(ProcessedInstr::BrIfReg { relative_depth: d, target_ip: t, cond_reg: Reg::I32(1), source_regs: s, target_result_regs: r });
    let a = w.step(&i);
    if c != 0 {
        moved(&a, t, remaining(len, d));
        same(&w.snap(), &copied(&old, shape));
    } else {
        moved(&a, 1, len);
        same(&w.snap(), &old);
    }
}
ctl!(br_if_none, n, { let mut w = World::new(); br_if_case(&mut w, n, 0); });
ctl!(br_if_values, n, { let mut w = World::new(); br_if_case(&mut w, n, 2); br_if_case(&mut w, n, 3); });
// br_table: index arbitrary with no explicit target (always the default); with three explicit targets
// every index that selects one of them, and the indices around and far beyond the list
fn br_table_case<N: Nd>(w: &mut World, n: &mut N, k: usize, x: Option<u32>, shape: u8) {
    let b = code();
    let len = any_labels(w, n, &b);
    let mut old = w.havoc(n);
    let want = [(depth(n, len), ip(n)), (depth(n, len), ip(n)), (depth(n, len), ip(n)), (depth(n, len), ip(n))];
    let ts = MD::new(Box::new([
        (want[0].0, want[0].1, lists(shape).1),
        (want[1].0, want[1].1, lists(shape).1),
        (want[2].0, want[2].1, lists(shape).1),
    ]));
    let targets = unsafe { Vec::from_raw_parts(ts.as_ptr() as *mut _, k, 3) };
    let x = match x {
        Some(x) => x,
        None => n.u32(),
    };
    w.put_i32_reg(1, x as i32);
    old.set(Dst::I32(1), x as u64);
    let i = MD::new(ProcessedInstr::BrTableReg {
        targets,
        default_target: (want[3].0, want[3].1, lists(shape).1),
        index_reg: Reg::I32(1),
        source_regs: lists(shape).0,
    });
    // the verifier does not see through the niche-encoded discriminant of this variant, so the handler is
    // named here; natively it is the one the real selection yields
    let h: Handler = if N::SYM { br_table } else { select_handler(&i) };
    let a = w.step_with(h, &i);
    let (d, t) = if (x as u64) < k as u64 { want[x as usize] } else { want[3] };
    moved(&a, t, remaining(len, d));
    same(&w.snap(), &copied(&old, shape));
}
ctl!(br_table_default, n, { let mut w = World::new(); br_table_case(&mut w, n, 0, None, 0); br_table_case(&mut w, n, 0, None, 2); });
ctl!(br_table_pick, n, {
    let mut w = World::new();
    br_table_case(&mut w, n, 3, Some(0), 2);
    br_table_case(&mut w, n, 3, Some(1), 0);
    br_table_case(&mut w, n, 3, Some(2), 2);
});
ctl!(br_table_beyond, n, {
    let mut w = World::new();
    br_table_case(&mut w, n, 3, Some(3), 2);
    br_table_case(&mut w, n, 3, Some(0x7fff_ffff), 0);
    br_table_case(&mut w, n, 3, Some(0x8000_0000), 0);
    br_table_case(&mut w, n, 3, Some(0xffff_ffff), 0);
});

/// a new label over the same body was opened on top of the `len` existing ones
fn opened(w: &World, len: usize, b: &Rc<Vec<ProcessedInstr>>) {
    for k in 0..len + 1 {
        assert!(Rc::ptr_eq(&w.ls[k].processed_instrs, b), "post: every label runs the function's own body");
        if k < len {
            assert!(w.ls[k].label.return_ip == 100 + k, "frame: enclosing labels unchanged");
        }
    }
}
contract!(enter_block, leak, n, {
    for len in 1..4 {
        for is_loop in [false, true] {
            let b = code();
            let mut w = World::new();
            labels(&mut w, len, &b);
            let old = w.havoc(n);
            let a = w.step(&ProcessedInstr::BlockReg { arity: 1, param_count: 0, is_loop });
            moved(&a, 1, len + 1);
            opened(&w, len, &b);
            same(&w.snap(), &old);
        }
    }
});
ctl!(enter_if, n, {
    for len in 1..3 {
        for has_else in [false, true] {
            let b = code();
            let mut w = World::new();
            labels(&mut w, len, &b);
            let old = w.havoc(n);
            let e = ip(n);
            let c = old.at(Dst::I32(2)) as u32;
            let a = w.step(&ProcessedInstr::IfReg { arity: 0, cond_reg: Reg::I32(2), else_target_ip: e, has_else });
            if c != 0 {
                moved(&a, 1, len + 1);
                opened(&w, len, &b);
            } else if has_else {
                moved(&a, e, len + 1);
                opened(&w, len, &b);
            } else {
                moved(&a, e, len);
            }
            same(&w.snap(), &old);
        }
    }
});
// `else` reached from the then-arm: leave the if and continue behind its end
ctl!(else_jump, n, {
    for len in 1..4 {
        let b = code();
        let mut w = World::new();
        labels(&mut w, len, &b);
        let old = w.havoc(n);
        let t = ip(n);
        let a = w.step(&ProcessedInstr::JumpReg { target_ip: t });
        moved(&a, t, if len > 1 { len - 1 } else { 1 });
        same(&w.snap(), &old);
    }
});
fn end_case<N: Nd>(n: &mut N, len: usize, more: usize, shape: u8) {
    let b = code();
    let mut w = World::new();
    labels(&mut w, len, &b);
    w.len = 1 + more;
    let old = w.havoc(n);
    let (s, t) = lists(shape);
    let nres = s.len();
    let i = MD::new(ProcessedInstr::EndReg { source_regs: s, target_result_regs: t });
    let a = w.step(&i);
    if len == 1 {
        assert!(a.pc >= w.len, "post: the end of the function's body ends the function");
        assert!(a.labels == 1 && a.trap == TrapKind::None && !a.yielded && a.same_mem, "frame: labels, no trap");
        assert!(a.rets == nres, "post: the function's results are the end's operands");
        let (s, _t) = lists(shape);
        for k in 0..nres {
            assert!(w.rr[k] == s[k], "post: the function's results are the end's operands");
        }
        same(&w.snap(), &old);
    } else {
        moved(&a, 1, len - 1);
        same(&w.snap(), &copied(&old, shape));
    }
}
contract!(end_block, leak, n, { end_case(n, 2, 1, 0); end_case(n, 3, 1, 1); });
contract!(end_block_overlap, leak, n, { end_case(n, 3, 2, 2); end_case(n, 2, 1, 3); });
contract!(end_function, leak, n, { end_case(n, 1, 0, 0); end_case(n, 1, 0, 1); end_case(n, 1, 1, 3); });
