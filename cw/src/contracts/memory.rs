//! Contracts of loads, stores and the bulk memory instructions.
use crate::nd::Nd;
use crate::world::*;
use crate::{contract, must_trap};
use chiwawa::execution::verif::DataAddr;
use chiwawa::execution::handlers::*;
use chiwawa::execution::ir::*;
use chiwawa::execution::mem::MemAddr;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::regs::Reg;
use chiwawa::structure::types::*;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;

pub const M: usize = 12;

fn fill<N: Nd>(n: &mut N, m: &mut [u8; M]) {
    let mut i = 0;
    while i < M {
        m[i] = n.u8();
        i += 1;
    }
}
/// A linear memory of any size a 32-bit host can hold (a Vec is at most isize::MAX bytes there), with
/// arbitrary contents.
pub struct Lin {
    pub p: *mut u8,
    pub len: usize,
}
impl Lin {
    pub fn any<N: Nd>(n: &mut N) -> Lin {
        let len = if n.sym() { n.u32() as usize } else { 16 + (n.u32() as usize & 0x3ffff) };
        n.assume(len >= 1 && len <= i32::MAX as usize);
        if !N::SYM {
            n.assume(len <= 1 << 26);
        }
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1)) };
        if !N::SYM {
            let m = unsafe { std::slice::from_raw_parts_mut(p, len) };
            let mut x = 0x1234_5678u32 ^ len as u32;
            for b in m.iter_mut() {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                *b = (x >> 24) as u8;
            }
        }
        Lin { p, len }
    }
    pub fn at(&self, i: usize) -> u8 {
        unsafe { *self.p.add(i) }
    }
    pub fn free(self) {
        #[cfg(not(kani))]
        unsafe {
            std::alloc::dealloc(self.p, std::alloc::Layout::from_size_align_unchecked(self.len, 1))
        }
    }
    pub fn le(&self, ea: usize, w: usize) -> u64 {
        let mut v = 0u64;
        let mut i = 0;
        while i < w {
            v |= (self.at(ea + i) as u64) << (8 * i);
            i += 1;
        }
        v
    }
}
/// an in-bounds access: address operand (0 register, 1 constant, 2 local), its value is arbitrary,
/// the offset is arbitrary, [p + offset, p + offset + width) lies inside the memory
fn access<N: Nd>(w: &mut World, n: &mut N, old: &mut Snap, m: &Lin, k: u8, width: usize) -> (I32RegOperand, u64, usize) {
    let (p, off) = if n.sym() {
        let p = match k {
            0 => old.at(Dst::I32(0)) as u32,
            1 => n.u32(),
            _ => old.loc[0] as u32,
        };
        (p, n.u32())
    } else {
        // place the access: split an in-bounds effective address into base and offset
        n.assume(m.len >= width);
        let room = (m.len - width + 1) as u32;
        let ea = match n.u8() & 3 {
            0 => n.u32() % room,
            1 => room - 1 - n.u32() % room.min(5),
            2 => n.u32() % room.min(5),
            _ => (0x1_0000u32.wrapping_sub(4) + n.u32() % 8).min(room - 1),
        };
        let p = match n.u8() & 3 {
            0 => ea,
            1 => 0,
            _ => n.u32() % (ea + 1),
        };
        match k {
            0 => {
                w.put_i32_reg(0, p as i32);
                old.i32[BANK - CUR as usize] = p as i32;
            }
            1 => (),
            _ => {
                w.put_local_i32(0, p as i32);
                old.loc[0] = p as u64;
            }
        }
        (p, ea - p)
    };
    let ea = p as u64 + off as u64;
    n.assume(ea + width as u64 <= m.len as u64);
    let op = match k {
        0 => I32RegOperand::Reg(0),
        1 => I32RegOperand::Const(p as i32),
        _ => I32RegOperand::Param(0),
    };
    (op, off as u64, ea as usize)
}
/// ty: 0 i32, 1 i64, 2 f32, 3 f64
fn load1<N: Nd>(w: &mut World, n: &mut N, m: &Lin, idx: usize, ty: u8, width: usize, signed: bool, k: u8, local: bool) {
    let mut old = w.havoc(n);
    w.mem = m.p;
    let (a, offset, ea) = access(w, n, &mut old, m, k, width);
    let (d, dd) = super::float::dst(ty, local);
    let raw = m.le(ea, width);
    let j = n.u32() as usize % m.len;
    let bj = m.at(j);
    let bits = 8 * width as u32;
    let full = if ty == 0 || ty == 2 { 32 } else { 64 };
    let ext = if signed { (((raw << (64 - bits)) as i64) >> (64 - bits)) as u64 } else { raw };
    let want = if full == 32 { ext & 0xffff_ffff } else { ext };
    let r = w.step(&ProcessedInstr::MemoryLoadReg { handler_index: idx, dst: d, addr: a, offset });
    falls_through(&r);
    let new = w.snap();
    assert!(new.at(dd) == want, "post: the loaded value is the little-endian bytes at the effective address, extended as specified");
    frame(&old, &new, dd);
    assert!(m.at(j) == bj && m.le(ea, width) == raw, "frame: a load leaves memory unchanged");
}
fn load<N: Nd>(w: &mut World, n: &mut N, m: &Lin, idx: usize, ty: u8, width: usize, signed: bool) {
    load1(w, n, m, idx, ty, width, signed, 0, false);
    if n.all_shapes() {
        load1(w, n, m, idx, ty, width, signed, 1, true);
        load1(w, n, m, idx, ty, width, signed, 2, false);
    }
}
fn store1<N: Nd>(w: &mut World, n: &mut N, m: &Lin, idx: usize, ty: u8, width: usize, k: u8) {
    let mut old = w.havoc(n);
    w.mem = m.p;
    let (a, offset, ea) = access(w, n, &mut old, m, k, width);
    let (v, vd) = super::float::reg(ty, 1);
    let val = old.at(vd);
    let j = if n.sym() || n.u8() & 1 == 0 { n.u32() as usize % m.len } else { (ea + n.u8() as usize % 12) % m.len };
    let bj = m.at(j);
    let r = w.step(&ProcessedInstr::MemoryStoreReg { handler_index: idx, addr: a, value: v, offset });
    falls_through(&r);
    let new = w.snap();
    frame(&old, &new, Dst::Nothing);
    let mask = if width == 8 { u64::MAX } else { (1 << (8 * width)) - 1 };
    assert!(m.le(ea, width) == val & mask, "post: the low bytes of the value are stored little-endian at the effective address");
    assert!(j >= ea && j < ea + width || m.at(j) == bj, "frame: bytes outside the store are unchanged");
}
fn store<N: Nd>(w: &mut World, n: &mut N, m: &Lin, idx: usize, ty: u8, width: usize) {
    store1(w, n, m, idx, ty, width, 0);
    if n.all_shapes() {
        store1(w, n, m, idx, ty, width, 1);
        store1(w, n, m, idx, ty, width, 2);
    }
}
// address and destination placements, once
contract!(mem_place, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    load1(&mut w, n, &m, HANDLER_IDX_I32_LOAD16_U, 0, 2, false, 1, true);
    load1(&mut w, n, &m, HANDLER_IDX_I64_LOAD16_U, 1, 2, false, 2, true);
    load1(&mut w, n, &m, HANDLER_IDX_F32_LOAD, 2, 4, false, 2, true);
    load1(&mut w, n, &m, HANDLER_IDX_F64_LOAD, 3, 8, false, 1, true);
    store1(&mut w, n, &m, HANDLER_IDX_I32_STORE16, 0, 2, 1);
    store1(&mut w, n, &m, HANDLER_IDX_I32_STORE16, 0, 2, 2);
    m.free();
});
contract!(mem_load_i32, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    load(&mut w, n, &m, HANDLER_IDX_I32_LOAD, 0, 4, false);
    load(&mut w, n, &m, HANDLER_IDX_I32_LOAD8_S, 0, 1, true);
    load(&mut w, n, &m, HANDLER_IDX_I32_LOAD8_U, 0, 1, false);
    load(&mut w, n, &m, HANDLER_IDX_I32_LOAD16_S, 0, 2, true);
    load(&mut w, n, &m, HANDLER_IDX_I32_LOAD16_U, 0, 2, false);
    m.free();
});
contract!(mem_load_i64, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD, 1, 8, false);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD8_S, 1, 1, true);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD8_U, 1, 1, false);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD16_S, 1, 2, true);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD16_U, 1, 2, false);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD32_S, 1, 4, true);
    load(&mut w, n, &m, HANDLER_IDX_I64_LOAD32_U, 1, 4, false);
    m.free();
});
contract!(mem_load_float, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    load(&mut w, n, &m, HANDLER_IDX_F32_LOAD, 2, 4, false);
    load(&mut w, n, &m, HANDLER_IDX_F64_LOAD, 3, 8, false);
    m.free();
});
contract!(mem_store_i32, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    store(&mut w, n, &m, HANDLER_IDX_I32_STORE, 0, 4);
    store(&mut w, n, &m, HANDLER_IDX_I32_STORE8, 0, 1);
    store(&mut w, n, &m, HANDLER_IDX_I32_STORE16, 0, 2);
    m.free();
});
contract!(mem_store_i64, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    store(&mut w, n, &m, HANDLER_IDX_I64_STORE, 1, 8);
    store(&mut w, n, &m, HANDLER_IDX_I64_STORE8, 1, 1);
    store(&mut w, n, &m, HANDLER_IDX_I64_STORE16, 1, 2);
    store(&mut w, n, &m, HANDLER_IDX_I64_STORE32, 1, 4);
    m.free();
});
contract!(mem_store_float, unwind 9, n, {
    let mut w = World::new();
    let m = Lin::any(n);
    store(&mut w, n, &m, HANDLER_IDX_F32_STORE, 2, 4);
    store(&mut w, n, &m, HANDLER_IDX_F64_STORE, 3, 8);
    m.free();
});

// ---- module-level memory ----
pub fn empty_module() -> ModuleInst {
    ModuleInst {
        types: Rc::new(Vec::new()),
        func_addrs: Vec::new(),
        table_addrs: Vec::new(),
        mem_addrs: Vec::new(),
        global_addrs: Vec::new(),
        elem_addrs: Vec::new(),
        data_addrs: Vec::new(),
        exports: Vec::new(),
        wasi_func_addrs: Vec::new(),
        wasi_impl: None,
    }
}
/// a memory of arbitrary contents, M bytes long
fn small_mem<N: Nd>(n: &mut N) -> (MD<MemAddr>, [u8; M]) {
    let mut b = [0u8; M];
    fill(n, &mut b);
    let mem = MemAddr::new(&MemType(Limits { min: 0, max: None }));
    let mut v = Vec::with_capacity(M);
    v.extend_from_slice(&b);
    mem.set_data(v);
    (MD::new(mem), b)
}
/// a memory of arbitrary size and contents (page granularity is irrelevant to copy/fill/init)
pub fn lin_mem<N: Nd>(n: &mut N) -> (MD<MemAddr>, Lin) {
    let m = Lin::any(n);
    let mem = MemAddr::new(&MemType(Limits { min: 0, max: None }));
    mem.set_data(unsafe { Vec::from_raw_parts(m.p, m.len, m.len) });
    (MD::new(mem), m)
}
/// a range [at, at + l) inside `cap` elements
fn range<N: Nd>(n: &mut N, cap: usize, l: Option<u32>) -> (u32, u32) {
    let (a, l) = if n.sym() {
        (n.u32(), l.unwrap_or_else(|| n.u32()))
    } else {
        let l = l.unwrap_or_else(|| {
            let c = match n.u8() & 3 {
                0 => 9,
                1 => 100,
                2 => 5000,
                _ => cap as u32 + 1,
            };
            n.u32() % c.min(cap as u32 + 1)
        });
        n.assume(l as usize <= cap);
        (n.u32() % (cap as u32 - l + 1), l)
    };
    n.assume(a as u64 + l as u64 <= cap as u64);
    (a, l)
}
fn native_copy(m: &Lin) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(m.p, m.len) }.to_vec()
}
fn world3<N: Nd>(n: &mut N) -> (World, Snap) {
    let mut w = World::new();
    let s = w.havoc(n);
    (w, s)
}
/// assumed contract of std::ptr::copy, pointwise: the byte the contract probes (an arbitrary one)
/// receives the byte of the source range that corresponds to it, read before the copy.  Other bytes are
/// not modelled, so a second bulk copy in the same step is reported as unsupported, not as proved.
#[cfg(kani)]
static mut PROBE: *mut u8 = 0x5eed_0010_usize as *mut u8;
#[cfg(kani)]
// (initial values are unusual on purpose: Kani gives constants and statics of equal bytes one object)
static mut ARMED: u32 = 0x5eed_0011;
#[cfg(kani)]
unsafe fn ptr_copy_stub<T>(src: *const T, dst: *mut T, count: usize) {
    if core::mem::size_of::<T>() != 1 {
        core::intrinsics::copy(src, dst, count);
        return;
    }
    assert!(ARMED == 1, "second bulk copy in one step is not currently supported by the pointwise contract");
    ARMED = 0;
    let off = (PROBE as usize).wrapping_sub(dst as usize);
    if off < count {
        *PROBE = *(src as *const u8).add(off);
    }
}
contract!(@ mem_copy, [kani::unwind(9)] [kani::solver(cadical)] [kani::stub(std::rc::Rc::drop_slow, crate::leak_rc)] [kani::stub(std::ptr::copy, ptr_copy_stub)], n, {
    let (mem, m) = lin_mem(n);
    let mut module = MD::new(empty_module());
    module.mem_addrs.push(MemAddr::clone(&mem));
    let (mut w, mut old) = world3(n);
    w.module = &*module;
    let (d, l) = range(n, m.len, None);
    let (s, _) = if n.sym() || n.u8() & 1 == 0 { range(n, m.len, Some(l)) } else {
        // overlapping
        let s = (d as i64 + (n.u32() % (2 * l + 1)) as i64 - l as i64).clamp(0, (m.len as u32 - l) as i64);
        (s as u32, l)
    };
    w.args3(&mut old, d as i32, s as i32, l as i32);
    let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_COPY, dst: None, args: w.arg_regs(), data_index: 0 });
    let (d, s, l) = (d as usize, s as usize, l as usize);
    let src = |k: usize| if k >= d && k < d + l { s + (k - d) } else { k };
    if N::SYM {
        let k = n.u32() as usize;
        n.assume(k < m.len);
        let want = m.at(src(k));
        #[cfg(kani)]
        unsafe {
            PROBE = m.p.add(k);
            ARMED = 1;
        }
        let r = w.step(&i);
        falls_through(&r);
        assert!(m.at(k) == want, "post: memory.copy moves the source range as if through a buffer and nothing else");
    } else {
        let before = native_copy(&m);
        if n.sym() { n.u32(); }
        let r = w.step(&i);
        falls_through(&r);
        for k in 0..m.len {
            assert!(m.at(k) == before[src(k)], "post: memory.copy moves the source range as if through a buffer and nothing else");
        }
    }
    assert!(mem.data_len() == m.len, "frame: memory size unchanged");
    let new = w.snap();
    frame(&old, &new, Dst::Nothing);
    m.free();
});
contract!(mem_fill, leak, n, {
    let (mem, m) = lin_mem(n);
    let mut module = MD::new(empty_module());
    module.mem_addrs.push(MemAddr::clone(&mem));
    let (mut w, mut old) = world3(n);
    w.module = &*module;
    let (d, l) = range(n, m.len, None);
    let v = n.i32();
    w.args3(&mut old, d as i32, v, l as i32);
    let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_FILL, dst: None, args: w.arg_regs(), data_index: 0 });
    let (d, l) = (d as usize, l as usize);
    if N::SYM {
        let k = n.u32() as usize;
        n.assume(k < m.len);
        let was = m.at(k);
        let r = w.step(&i);
        falls_through(&r);
        assert!(m.at(k) == if k >= d && k < d + l { v as u8 } else { was }, "post: memory.fill writes the low byte over exactly the range");
    } else {
        let before = native_copy(&m);
        if n.sym() { n.u32(); }
        let r = w.step(&i);
        falls_through(&r);
        for k in 0..m.len {
            assert!(m.at(k) == if k >= d && k < d + l { v as u8 } else { before[k] }, "post: memory.fill writes the low byte over exactly the range");
        }
    }
    assert!(mem.data_len() == m.len, "frame: memory size unchanged");
    let new = w.snap();
    frame(&old, &new, Dst::Nothing);
    m.free();
});
const D: usize = 6;
fn segment<N: Nd>(n: &mut N) -> (DataAddr, [u8; D]) {
    let mut b = [0u8; D];
    let mut i = 0;
    while i < D {
        b[i] = n.u8();
        i += 1;
    }
    let mut v = Vec::with_capacity(D);
    v.extend_from_slice(&b);
    let v = MD::new(v);
    (DataAddr::new(&v), b)
}
contract!(mem_init, leak, n, {
    let (mem, m) = lin_mem(n);
    let seg = Lin::any(n);
    let segv = MD::new(unsafe { Vec::from_raw_parts(seg.p, seg.len, seg.len) });
    let mut module = MD::new(empty_module());
    module.mem_addrs.push(MemAddr::clone(&mem));
    module.data_addrs.push(DataAddr::new(&segv));
    let (mut w, mut old) = world3(n);
    w.module = &*module;
    let (d, l) = range(n, m.len.min(seg.len), None);
    let (d, _) = if n.sym() || n.u8() & 1 == 0 { range(n, m.len, Some(l)) } else { (d, l) };
    let (s, _) = range(n, seg.len, Some(l));
    w.args3(&mut old, d as i32, s as i32, l as i32);
    let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_INIT, dst: None, args: w.arg_regs(), data_index: 0 });
    let (d, s, l) = (d as usize, s as usize, l as usize);
    if N::SYM {
        let k = n.u32() as usize;
        n.assume(k < m.len);
        let want = if k >= d && k < d + l { seg.at(s + (k - d)) } else { m.at(k) };
        let r = w.step(&i);
        falls_through(&r);
        assert!(m.at(k) == want, "post: memory.init copies the segment range and nothing else");
    } else {
        let before = native_copy(&m);
        if n.sym() { n.u32(); }
        let r = w.step(&i);
        falls_through(&r);
        for k in 0..m.len {
            let want = if k >= d && k < d + l { seg.at(s + (k - d)) } else { before[k] };
            assert!(m.at(k) == want, "post: memory.init copies the segment range and nothing else");
        }
    }
    assert!(mem.data_len() == m.len, "frame: memory size unchanged");
    let new = w.snap();
    frame(&old, &new, Dst::Nothing);
    // data.drop empties the segment: afterwards only empty ranges may be initialised
    let j = MD::new(ProcessedInstr::DataDropReg { data_index: 0 });
    let r = w.step(&j);
    falls_through(&r);
    let g = MD::new(module.data_addrs[0].get_data());
    assert!(g.len() == 0, "post: data.drop empties the segment");
    m.free();
    seg.free();
});
must_trap!(trap_mem_init_oob, unwind 15, n, {
    let (mem, _) = small_mem(n);
    let (seg, _) = segment(n);
    let mut module = Box::new(empty_module());
    module.mem_addrs.push(MemAddr::clone(&mem));
    module.data_addrs.push(seg);
    let module = MD::new(module);
    let (mut w, mut old) = world3(n);
    w.module = &**module;
    let (d, s, l) = (n.u32(), n.u32(), n.u32());
    n.assume(d < 1 << 31 && s < 1 << 31 && l < 1 << 31);
    n.assume(d as u64 + l as u64 > M as u64 || s as u64 + l as u64 > D as u64);
    w.args3(&mut old, d as i32, s as i32, l as i32);
    w
}, |w| {
    let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_INIT, dst: None, args: w.arg_regs(), data_index: 0 });
    w.step(&i).outcome
});
contract!(mem_new, unwind 9, n, {
    let max = if n.bool() { Some(n.u32()) } else { None };
    let mem = MD::new(MemAddr::new(&MemType(Limits { min: 0, max })));
    assert!(mem.mem_size() == 0 && mem.data_len() == 0, "post: a memory starts with its declared minimum size");
});

/// assumed contract of Vec::resize for growing a byte vector: the length becomes `n`, existing
/// elements are kept, new ones are `v` (checked natively on real memories).
#[cfg(kani)]
fn resize_stub<T: Clone, A: core::alloc::Allocator>(this: &mut Vec<T, A>, n: usize, v: T) {
    if core::mem::size_of::<T>() == 1 {
        assert!(n >= this.len(), "pre: memory.grow never shrinks the memory");
        core::mem::forget(v);
        unsafe { this.set_len(n) }
    } else {
        // register banks of the harness itself
        while this.len() < n {
            this.push(v.clone());
        }
        core::mem::forget(v);
    }
}
/// pages: any size a memory can have.  Under the verifier the vector's length is set without
/// backing storage (memory.size / memory.grow must not touch the bytes themselves).
fn paged<N: Nd>(n: &mut N, max: Option<u32>) -> (MD<MemAddr>, u32) {
    let mem = MemAddr::new(&MemType(Limits { min: 0, max }));
    if n.sym() && !N::SYM {
        let p = n.u32();
        n.assume(p <= 1024);
        mem.set_data(vec![0xa5; p as usize * 65536]);
        (MD::new(mem), p)
    } else if N::SYM {
        let p = n.u32();
        n.assume(p <= 65536);
        let mut v: Vec<u8> = Vec::new();
        unsafe { v.set_len(p as usize * 65536) };
        mem.set_data(v);
        (MD::new(mem), p)
    } else {
        let p = n.below(6) as u32;
        mem.set_data(vec![0xa5; p as usize * 65536]);
        (MD::new(mem), p)
    }
}
// native-contract: mem_grow
pub mod mem_grow {
    use super::*;
    pub fn body<N: Nd>(n: &mut N) {
        let has_max = n.bool();
        let max = if n.sym() { n.u32() } else { n.below(12) as u32 };
        n.assume(max <= 65536);
        let max = if has_max { Some(max) } else { None };
        let (mem, pages) = paged(n, max);
        if let Some(m) = max {
            n.assume(pages <= m);
        }
        let mut module = MD::new(empty_module());
        module.mem_addrs.push(MemAddr::clone(&mem));
        let mut w = World::new();
        let mut old = w.havoc(n);
        w.module = &*module;
        let delta = if n.sym() {
            n.i32()
        } else {
            match n.below(4) {
                0 => n.i32() | 0x4000_0000,
                1 => -1 - n.below(9) as i32,
                _ => n.below(9) as i32,
            }
        };
        let keep = old.i32[2];
        w.args3(&mut old, delta, keep, 0);
        let args: Box<[Reg]> = Box::new([Reg::I32(0)]);
        let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_GROW, dst: Some(Reg::I32(1)), args, data_index: 0 });
        let r = w.step(&i);
        // delta is an unsigned page count
        let want = pages as u64 + delta as u32 as u64;
        let limit = match max { Some(m) => m as u64, None => 65536 };
        let ok = want <= limit && want <= 65536;
        let new = w.snap();
        let after = mem.data_len() as u64;
        // a full 4 GiB memory does not fit a 32-bit host: growing to it may also fail
        let ok = ok && !(want == 65536 && new.at(Dst::I32(1)) as u32 == u32::MAX);
        falls_through_mem(&r);
        if ok {
            assert!(new.at(Dst::I32(1)) as u32 == pages, "post: memory.grow returns the previous size in pages");
            assert!(after == want * 65536, "post: memory.grow adds exactly delta pages");
        } else {
            assert!(new.at(Dst::I32(1)) as u32 == u32::MAX, "post: memory.grow beyond the limit returns -1");
            assert!(after == pages as u64 * 65536, "post: a failed memory.grow leaves the size unchanged");
        }
        assert!(r.mem_ptr == mem.data_ptr(), "post: the cached memory base is the memory's base after growth");
        frame(&old, &new, Dst::I32(1));
        if !N::SYM {
            let d = mem.get_memory_direct_access();
            let p = pages as usize * 65536;
            assert!(d.data[..p].iter().all(|b| *b == 0xa5) && d.data[p..].iter().all(|b| *b == 0), "post: contents kept, new pages zero");
        }
        let i = MD::new(ProcessedInstr::MemoryOpsReg { handler_index: HANDLER_IDX_MEMORY_SIZE, dst: Some(Reg::I32(1)), args: Box::new([]), data_index: 0 });
        let r = w.step(&i);
        falls_through_mem(&r);
        let s2 = w.snap();
        assert!(s2.at(Dst::I32(1)) == after / 65536, "post: memory.size is the current size in pages");
        frame(&new, &s2, Dst::I32(1));
    }
    #[cfg(kani)]
    #[kani::proof]
    #[kani::unwind(9)]
    #[kani::stub(std::vec::Vec::resize, resize_stub)]
    fn proof() {
        body(&mut crate::nd::Sym);
        kani::cover!(true, "REACH");
    }
}
fn falls_through_mem(a: &After) {
    assert!(a.trap == TrapKind::None && a.outcome != Outcome::Trap, "post: no trap is raised");
    assert!(a.pc == 1 && !a.yielded && a.labels == 0 && a.rets == 0, "post: instruction falls through");
}
