//! Contracts of select, globals, nop, references and tables.
use super::memory::empty_module;
use crate::nd::Nd;
use crate::world::*;
use crate::{contract, must_trap};
use chiwawa::execution::func::FuncAddr;
use chiwawa::execution::handlers::*;
use chiwawa::execution::ir::*;
use chiwawa::execution::regs::Reg;
use chiwawa::execution::value::*;
use chiwawa::execution::verif::{GlobalAddr, TableAddr};
use chiwawa::structure::types::*;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;

fn sel<N: Nd>(w: &mut World, n: &mut N, idx: usize, t: u8, c: u16, d: u16) {
    let old = w.havoc(n);
    let (v1, s1) = super::float::reg(t, 0);
    let (v2, s2) = super::float::reg(t, 1);
    let (dr, dd) = super::float::reg(t, d);
    let cond = old.at(Dst::I32(c)) as u32;
    let r = w.step(&ProcessedInstr::SelectReg { handler_index: idx, dst: dr, val1: v1, val2: v2, cond: Reg::I32(c) });
    falls_through(&r);
    let new = w.snap();
    assert!(new.at(dd) == if cond != 0 { old.at(s1) } else { old.at(s2) }, "post: select yields the first operand iff the condition is non-zero");
    frame(&old, &new, dd);
}
contract!(select_num, n, {
    let mut w = World::new();
    sel(&mut w, n, HANDLER_IDX_SELECT_I32, 0, 2, 0);
    sel(&mut w, n, HANDLER_IDX_SELECT_I32, 0, 2, 2);
    sel(&mut w, n, HANDLER_IDX_SELECT_I64, 1, 0, 0);
    sel(&mut w, n, HANDLER_IDX_SELECT_I64, 1, 1, 2);
    sel(&mut w, n, HANDLER_IDX_SELECT_F32, 2, 0, 0);
    sel(&mut w, n, HANDLER_IDX_SELECT_F32, 2, 2, 2);
    sel(&mut w, n, HANDLER_IDX_SELECT_F64, 3, 0, 0);
    sel(&mut w, n, HANDLER_IDX_SELECT_F64, 3, 1, 2);
    let old = w.havoc(n);
    let r = w.step(&ProcessedInstr::NopReg);
    falls_through(&r);
    frame(&old, &w.snap(), Dst::Nothing);
});

// ---- globals ----
fn num(t: u8, b: u64) -> Val {
    Val::Num(match t {
        0 => Num::I32(b as u32 as i32),
        1 => Num::I64(b as i64),
        2 => Num::F32(f32::from_bits(b as u32)),
        _ => Num::F64(f64::from_bits(b)),
    })
}
pub fn bits(v: &Val) -> Option<(u8, u64)> {
    match v {
        Val::Num(Num::I32(v)) => Some((0, *v as u32 as u64)),
        Val::Num(Num::I64(v)) => Some((1, *v as u64)),
        Val::Num(Num::F32(v)) => Some((2, v.to_bits() as u64)),
        Val::Num(Num::F64(v)) => Some((3, v.to_bits())),
        _ => None,
    }
}
fn nt(t: u8) -> NumType {
    match t { 0 => NumType::I32, 1 => NumType::I64, 2 => NumType::F32, _ => NumType::F64 }
}
fn trim(t: u8, b: u64) -> u64 {
    if t == 0 || t == 2 { b & 0xffff_ffff } else { b }
}
const GET: [usize; 4] = [HANDLER_IDX_GLOBAL_GET_I32, HANDLER_IDX_GLOBAL_GET_I64, HANDLER_IDX_GLOBAL_GET_F32, HANDLER_IDX_GLOBAL_GET_F64];
const SET: [usize; 4] = [HANDLER_IDX_GLOBAL_SET_I32, HANDLER_IDX_GLOBAL_SET_I64, HANDLER_IDX_GLOBAL_SET_F32, HANDLER_IDX_GLOBAL_SET_F64];
/// two globals of type t, arbitrary contents: get reads the addressed one, set writes it, neither
/// touches the other one
fn glob<N: Nd>(n: &mut N, t: u8, k: u32, local: bool) {
    let mut w = World::new();
    let old = w.havoc(n);
    let (a, b) = (trim(t, n.u64()), trim(t, n.u64()));
    let ty = GlobalType(Mut::Var, ValueType::NumType(nt(t)));
    let mut module = MD::new(empty_module());
    module.global_addrs.push(GlobalAddr::new(&ty, num(t, a)));
    module.global_addrs.push(GlobalAddr::new(&ty, num(t, b)));
    // an alias, as an export or another module importing the global would hold
    let alias = MD::new(module.global_addrs[k as usize].clone());
    w.module = &*module;
    let (d, dd) = super::float::dst(t, local);
    let r = w.step(&MD::new(ProcessedInstr::GlobalGetReg { handler_index: GET[t as usize], dst: d, global_index: k }));
    falls_through(&r);
    let mid = w.snap();
    assert!(mid.at(dd) == if k == 0 { a } else { b }, "post: global.get yields the global's value");
    frame(&old, &mid, dd);
    let (s, sd) = super::float::dst(t, !local);
    let v = mid.at(sd);
    let r = w.step(&MD::new(ProcessedInstr::GlobalSetReg { handler_index: SET[t as usize], src: s, global_index: k }));
    falls_through(&r);
    frame(&mid, &w.snap(), Dst::Nothing);
    let g0 = MD::new(module.global_addrs[0].get());
    let g1 = MD::new(module.global_addrs[1].get());
    assert!(bits(&g0) == Some((t, if k == 0 { v } else { a })), "post: global.set updates exactly the addressed global");
    assert!(bits(&g1) == Some((t, if k == 1 { v } else { b })), "post: global.set updates exactly the addressed global");
    let al = MD::new(alias.get());
    assert!(bits(&al) == Some((t, v)), "post: every holder of the global sees the new value");
}
contract!(global_i32, leak, n, { glob(n, 0, 0, false); glob(n, 0, 1, true); });
contract!(global_i64, leak, n, { glob(n, 1, 1, false); glob(n, 1, 0, true); });
contract!(global_f32, leak, n, { glob(n, 2, 0, false); glob(n, 2, 1, true); });
contract!(global_f64, leak, n, { glob(n, 3, 1, false); glob(n, 3, 0, true); });

// ---- references and tables ----
pub fn fref(f: &FuncAddr) -> Ref {
    Ref::FuncAddr(f.clone())
}
/// 0 = null, 1.. = the k-th function
pub fn ident(r: &Ref, fs: &[MD<FuncAddr>; 2]) -> u8 {
    match r {
        Ref::RefNull => 0,
        Ref::FuncAddr(f) => {
            if Rc::ptr_eq(f.get_rc(), fs[0].get_rc()) { 1 } else if Rc::ptr_eq(f.get_rc(), fs[1].get_rc()) { 2 } else { 9 }
        }
        _ => 8,
    }
}
pub fn mk(k: u8, fs: &[MD<FuncAddr>; 2]) -> Ref {
    match k { 0 => Ref::RefNull, 1 => fref(&fs[0]), _ => fref(&fs[1]) }
}
pub fn funcs() -> [MD<FuncAddr>; 2] {
    [MD::new(FuncAddr::alloc_empty()), MD::new(FuncAddr::alloc_empty())]
}
pub fn rsnap(w: &World, fs: &[MD<FuncAddr>; 2]) -> [u8; 4] {
    [ident(&w.rf.ref_regs[0], fs), ident(&w.rf.ref_regs[1], fs), ident(&w.rf.ref_regs[2], fs), ident(&w.rf.ref_regs[3], fs)]
}
pub fn put_ref(w: &mut World, i: usize, r: Ref) {
    std::mem::forget(std::mem::replace(&mut w.rf.ref_regs[i], r));
}
pub const T: usize = 3;
fn tsnap(t: &TableAddr, fs: &[MD<FuncAddr>; 2]) -> [u8; T] {
    let g = t.read_lock();
    let f = |i: usize| match &g.elem[i] { Val::Ref(r) => ident(r, fs), _ => 7 };
    [f(0), f(1), f(2)]
}
pub fn table3(fs: &[MD<FuncAddr>; 2], k: [u8; T]) -> MD<TableAddr> {
    let t = MD::new(TableAddr::new(&TableType(Limits { min: T as u32, max: None }, RefType::FuncRef)));
    t.set(0, Val::Ref(mk(k[0], fs)));
    t.set(1, Val::Ref(mk(k[1], fs)));
    t.set(2, Val::Ref(mk(k[2], fs)));
    t
}
pub fn tri<N: Nd>(n: &mut N) -> u8 {
    n.below(3) as u8
}
struct TW {
    w: World,
    fs: [MD<FuncAddr>; 2],
    t: MD<TableAddr>,
    other: MD<TableAddr>,
    module: MD<Box<chiwawa::execution::module::ModuleInst>>,
    old: Snap,
    r: [u8; 4],
    e: [u8; T],
}
/// arbitrary table contents, reference registers and numeric state; the table under test is number 1
fn tworld<N: Nd>(n: &mut N) -> TW {
    let fs = funcs();
    let e = [tri(n), tri(n), tri(n)];
    let t = table3(&fs, e);
    let other = table3(&fs, [0, 0, 0]);
    let mut module = MD::new(Box::new(empty_module()));
    module.table_addrs.push(TableAddr::clone(&other));
    module.table_addrs.push(TableAddr::clone(&t));
    let mut w = World::with_refs(3);
    let old = w.havoc(n);
    let r = [1, tri(n), tri(n), tri(n)];
    for i in 0..4 {
        put_ref(&mut w, i, mk(r[i], &fs));
    }
    w.module = &**module;
    TW { w, fs, t, other, module, old, r, e }
}
fn tinstr(idx: usize, regs: [u16; 3]) -> ProcessedInstr {
    ProcessedInstr::TableRefReg { handler_index: idx, table_idx: 1, regs, ref_type: RefType::FuncRef }
}
impl TW {
    fn check(&self, new: &Snap, d: Dst, r: [u8; 4], e: [u8; T]) {
        frame(&self.old, new, d);
        assert!(rsnap(&self.w, &self.fs) == r, "post/frame: reference registers hold exactly what is specified");
        assert!(tsnap(&self.t, &self.fs) == e, "post/frame: table elements hold exactly what is specified");
        assert!(tsnap(&self.other, &self.fs) == [0, 0, 0], "frame: other tables unchanged");
    }
    fn idx<N: Nd>(&mut self, n: &mut N, reg: usize) -> u32 {
        let i = if n.sym() { n.u32() } else { n.below(T as u16 + 1) as u32 };
        self.w.put_i32_reg(reg, i as i32);
        self.old.i32[BANK - CUR as usize + reg] = i as i32;
        i
    }
}
contract!(ref_null_isnull, leak, n, {
    let mut x = tworld(n);
    let a = x.w.step(&MD::new(tinstr(HANDLER_IDX_REF_NULL, [1, 0, 0])));
    falls_through(&a);
    let s = x.w.snap();
    let r = [x.r[0], x.r[1], 0, x.r[3]];
    x.check(&s, Dst::Nothing, r, x.e);
    let a = x.w.step(&MD::new(tinstr(HANDLER_IDX_REF_IS_NULL, [1, 2, 0])));
    falls_through(&a);
    let s2 = x.w.snap();
    assert!(s2.at(Dst::I32(1)) == (x.r[3] == 0) as u64, "post: ref.is_null is 1 exactly for the null reference");
    x.check(&s2, Dst::I32(1), r, x.e);
});
contract!(table_get, leak, n, {
    let mut x = tworld(n);
    let i = x.idx(n, 1);
    n.assume((i as usize) < T);
    let a = x.w.step(&MD::new(tinstr(HANDLER_IDX_TABLE_GET, [2, 1, 0])));
    falls_through(&a);
    let s = x.w.snap();
    let r = [x.r[0], x.r[1], x.r[2], x.e[i as usize]];
    x.check(&s, Dst::Nothing, r, x.e);
});
contract!(table_set, leak, n, {
    let mut x = tworld(n);
    let i = x.idx(n, 1);
    n.assume((i as usize) < T);
    let a = x.w.step(&MD::new(tinstr(HANDLER_IDX_TABLE_SET, [1, 2, 0])));
    falls_through(&a);
    let s = x.w.snap();
    let mut e = x.e;
    e[i as usize] = x.r[3];
    x.check(&s, Dst::Nothing, x.r, e);
});
contract!(table_fill, leak, n, {
    let mut x = tworld(n);
    let i = x.idx(n, 0);
    let c = x.idx(n, 2);
    n.assume(i as u64 + c as u64 <= T as u64);
    let a = x.w.step(&MD::new(tinstr(HANDLER_IDX_TABLE_FILL, [0, 1, 2])));
    falls_through(&a);
    let s = x.w.snap();
    let mut e = x.e;
    for k in 0..T {
        if k as u32 >= i && (k as u32) < i + c {
            e[k] = x.r[2];
        }
    }
    x.check(&s, Dst::Nothing, x.r, e);
});
contract!(ref_local, leak, n, {
    let fs = funcs();
    let mut w = World::with_refs(3);
    let old = w.havoc(n);
    let (k, l) = (tri(n), tri(n));
    for i in 0..4 {
        put_ref(&mut w, i, Ref::RefNull);
    }
    put_ref(&mut w, 2, mk(k, &fs));
    let mut locals = MD::new([Val::Ref(Ref::RefNull), Val::Ref(mk(l, &fs)), Val::Ref(Ref::RefNull)]);
    let keep = w.locals.as_mut_ptr();
    w.loc_override = locals.as_mut_ptr();
    let r = w.step(&ProcessedInstr::RefLocalReg { handler_index: HANDLER_IDX_REF_LOCAL_GET, dst: 2, src: 9, local_idx: 1 });
    falls_through(&r);
    assert!(rsnap(&w, &fs) == [0, 0, k, l], "post: local.get of a reference copies the local into the register");
    let r = w.step(&ProcessedInstr::RefLocalReg { handler_index: HANDLER_IDX_REF_LOCAL_SET, dst: 9, src: 1, local_idx: 0 });
    falls_through(&r);
    let f = |v: &Val| match v { Val::Ref(r) => ident(r, &fs), _ => 7 };
    assert!(f(&locals[0]) == k && f(&locals[1]) == l && f(&locals[2]) == 0, "post: local.set of a reference writes exactly that local");
    w.loc_override = std::ptr::null_mut();
    let _ = keep;
    frame(&old, &w.snap(), Dst::Nothing);
});
must_trap!(trap_table_oob, unwind 9, n, {
    let mut x = tworld(n);
    let k = n.below(3);
    let i = x.idx(n, 1);
    let c = x.idx(n, 2);
    match k {
        0 | 1 => n.assume(i as u32 as usize >= T),
        _ => n.assume(i as u32 as u64 + c as u32 as u64 > T as u64),
    }
    (k, x)
}, |p| {
    let x = &mut p.1;
    let i = match p.0 {
        0 => tinstr(HANDLER_IDX_TABLE_GET, [2, 1, 0]),
        1 => tinstr(HANDLER_IDX_TABLE_SET, [1, 2, 0]),
        _ => tinstr(HANDLER_IDX_TABLE_FILL, [1, 1, 2]),
    };
    x.w.step(&MD::new(i)).outcome
});
contract!(select_ref, leak, n, {
    let fs = funcs();
    let mut w = World::with_refs(3);
    let old = w.havoc(n);
    let r = [1, tri(n), tri(n), tri(n)];
    for i in 0..4 {
        put_ref(&mut w, i, mk(r[i], &fs));
    }
    let c = old.at(Dst::I32(1)) as u32;
    let i = MD::new(ProcessedInstr::SelectReg { handler_index: HANDLER_IDX_SELECT_REF, dst: Reg::Ref(0), val1: Reg::Ref(1), val2: Reg::Ref(2), cond: Reg::I32(1) });
    let a = w.step(&i);
    falls_through(&a);
    assert!(rsnap(&w, &fs) == [r[0], if c != 0 { r[2] } else { r[3] }, r[2], r[3]], "post: select yields the first reference iff the condition is non-zero");
    frame(&old, &w.snap(), Dst::Nothing);
});
