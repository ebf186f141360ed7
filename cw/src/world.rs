//! The pre-state every single-instruction contract quantifies over, and its frame condition.
use crate::nd::Nd;
use arrayvec::ArrayVec;
use chiwawa::error::RuntimeError;
use chiwawa::execution::handlers as hd;
use chiwawa::execution::ir::*;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::regs::*;
use chiwawa::execution::state::*;
use chiwawa::execution::value::*;
use std::mem::ManuallyDrop as MD;

/// Registers per bank: 1 in a caller's frame (must never change), 3 in the current frame.
pub const CUR: u16 = 3;
pub const BANK: usize = 4;

/// locals: 0,1 = i32; 2,3 = i64; 4,5 = f32; 6,7 = f64
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Snap {
    pub i32: [i32; BANK],
    pub i64: [i64; BANK],
    pub f32: [u32; BANK],
    pub f64: [u64; BANK],
    pub loc: [u64; 8],
    pub lty: [u8; 8],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TrapKind {
    None,
    InvalidConversion,
    IntegerOverflow,
    Other,
}

pub struct After {
    pub outcome: Outcome,
    pub pc: usize,
    pub trap: TrapKind,
    pub yielded: bool,
    pub labels: usize,
    pub rets: usize,
    pub same_mem: bool,
    pub label_idx: usize,
    pub mem_ptr: *mut u8,
}

pub struct World {
    pub rf: MD<RegFile>,
    b32: *mut [i32; BANK],
    b64: *mut [i64; BANK],
    bf32: *mut [f32; BANK],
    bf64: *mut [f64; BANK],
    pub locals: MD<[Val; 8]>,
    pub ls: MD<Vec<LabelStack>>,
    pub rr: MD<ArrayVec<Reg, 8>>,
    pub module: *const ModuleInst,
    pub mem: *mut u8,
    /// control position the next step starts from
    pub pc: usize,
    pub len: usize,
    pub idx: usize,
    pub yielded: Option<ModuleLevelInstr>,
    /// locals array to use instead of `locals` (reference-typed locals)
    pub loc_override: *mut Val,
}

pub fn alloc(n: usize, refs: usize) -> RegAllocation {
    RegAllocation {
        i32_count: n,
        i64_count: n,
        f32_count: n,
        f64_count: n,
        ref_count: refs,
        v128_count: 0,
    }
}

/// overwrite without running the destructor of the (plain numeric) old value
fn put(slot: &mut Val, v: Num) {
    match (slot, v) {
        (Val::Num(Num::I32(s)), Num::I32(v)) => *s = v,
        (Val::Num(Num::I64(s)), Num::I64(v)) => *s = v,
        (Val::Num(Num::F32(s)), Num::F32(v)) => *s = v,
        (Val::Num(Num::F64(s)), Num::F64(v)) => *s = v,
        _ => panic!("frame: a local changed its type"),
    }
}

impl World {
    /// A machine with a current frame of CUR registers per bank on top of a caller's frame.
    pub fn new() -> World {
        World::with_refs(0)
    }
    /// `refs` reference registers in the current frame and one in the caller frame
    pub fn with_refs(refs: usize) -> World {
        let mut rf = MD::new(RegFile::from_allocation(&alloc(BANK - CUR as usize, refs.min(1))));
        rf.save_offsets(&alloc(CUR as usize, refs));
        World {
            b32: rf.i32_regs.as_mut_ptr() as *mut _,
            b64: rf.i64_regs.as_mut_ptr() as *mut _,
            bf32: rf.f32_regs.as_mut_ptr() as *mut _,
            bf64: rf.f64_regs.as_mut_ptr() as *mut _,
            rf,
            locals: MD::new([
                Val::Num(Num::I32(0)),
                Val::Num(Num::I32(0)),
                Val::Num(Num::I64(0)),
                Val::Num(Num::I64(0)),
                Val::Num(Num::F32(0.0)),
                Val::Num(Num::F32(0.0)),
                Val::Num(Num::F64(0.0)),
                Val::Num(Num::F64(0.0)),
            ]),
            ls: MD::new(Vec::new()),
            rr: MD::new(ArrayVec::new()),
            module: std::ptr::null(),
            mem: std::ptr::null_mut(),
            pc: 0,
            len: 2,
            idx: 0,
            loc_override: std::ptr::null_mut(),
            yielded: None,
        }
    }

    /// requires: register and local contents are arbitrary.  Returns the pre-state.
    pub fn havoc<N: Nd>(&mut self, n: &mut N) -> Snap {
        let mut s = Snap {
            i32: [0; BANK],
            i64: [0; BANK],
            f32: [0; BANK],
            f64: [0; BANK],
            loc: [0; 8],
            lty: [0, 0, 1, 1, 2, 2, 3, 3],
        };
        let mut i = 0;
        while i < BANK { unsafe {
            s.i32[i] = n.i32();
            (*self.b32)[i] = s.i32[i];
            s.i64[i] = n.i64();
            (*self.b64)[i] = s.i64[i];
            s.f32[i] = n.u32();
            (*self.bf32)[i] = f32::from_bits(s.f32[i]);
            s.f64[i] = n.u64();
            (*self.bf64)[i] = f64::from_bits(s.f64[i]);
            i += 1;
        } }
        let l = &mut self.locals;
        let v = n.i32();
        s.loc[0] = v as u32 as u64;
        put(&mut l[0], Num::I32(v));
        let v = n.i32();
        s.loc[1] = v as u32 as u64;
        put(&mut l[1], Num::I32(v));
        let v = n.i64();
        s.loc[2] = v as u64;
        put(&mut l[2], Num::I64(v));
        let v = n.i64();
        s.loc[3] = v as u64;
        put(&mut l[3], Num::I64(v));
        let v = n.u32();
        s.loc[4] = v as u64;
        put(&mut l[4], Num::F32(f32::from_bits(v)));
        let v = n.u32();
        s.loc[5] = v as u64;
        put(&mut l[5], Num::F32(f32::from_bits(v)));
        let v = n.u64();
        s.loc[6] = v;
        put(&mut l[6], Num::F64(f64::from_bits(v)));
        let v = n.u64();
        s.loc[7] = v;
        put(&mut l[7], Num::F64(f64::from_bits(v)));
        s
    }

    pub fn put_i32_reg(&mut self, r: usize, v: i32) {
        unsafe { (*self.b32)[BANK - CUR as usize + r] = v }
    }
    pub fn put_local_i32(&mut self, l: usize, v: i32) {
        put(&mut self.locals[l], Num::I32(v))
    }
    /// loads three i32 arguments into the argument registers `arg_regs` names
    pub fn args3(&mut self, s: &mut Snap, a: i32, b: i32, c: i32) {
        let o = BANK - CUR as usize;
        unsafe {
            (*self.b32)[o] = a;
            (*self.b32)[o + 1] = b;
            (*self.b32)[o + 2] = c;
        }
        s.i32[o] = a;
        s.i32[o + 1] = b;
        s.i32[o + 2] = c;
    }
    pub fn arg_regs(&self) -> Box<[Reg]> {
        Box::new([Reg::I32(0), Reg::I32(1), Reg::I32(2)])
    }
    pub fn snap(&self) -> Snap {
        let mut s = Snap {
            i32: [0; BANK],
            i64: [0; BANK],
            f32: [0; BANK],
            f64: [0; BANK],
            loc: [0; 8],
            lty: [0; 8],
        };
        let mut i = 0;
        while i < BANK { unsafe {
            s.i32[i] = (*self.b32)[i];
            s.i64[i] = (*self.b64)[i];
            s.f32[i] = (*self.bf32)[i].to_bits();
            s.f64[i] = (*self.bf64)[i].to_bits();
            i += 1;
        } }
        let mut k = 0;
        while k < 8 {
            let (t, v) = match &self.locals[k] {
                Val::Num(Num::I32(v)) => (0, *v as u32 as u64),
                Val::Num(Num::I64(v)) => (1, *v as u64),
                Val::Num(Num::F32(v)) => (2, v.to_bits() as u64),
                Val::Num(Num::F64(v)) => (3, v.to_bits()),
                _ => (9, 0),
            };
            s.lty[k] = t;
            s.loc[k] = v;
            k += 1;
        }
        s
    }

    /// run the real handler the real `select_handler` picks for `instr`
    pub fn step(&mut self, instr: &ProcessedInstr) -> After {
        let h = hd::select_handler(instr);
        self.step_with(h, instr)
    }

    pub fn step_with(&mut self, h: Handler, instr: &ProcessedInstr) -> After {
        let handlers: [Handler; 8] = [hd::halt; 8];
        let mut st = VmState {
            reg_file: &mut *self.rf,
            locals: if self.loc_override.is_null() { self.locals.as_mut_ptr() } else { self.loc_override },
            pc: self.pc,
            instrs: unsafe { (instr as *const ProcessedInstr).sub(self.pc) },
            instrs_len: self.len,
            handlers: handlers.as_ptr(),
            label_stack: &mut *self.ls,
            current_label_idx: self.idx,
            mem_ptr: self.mem,
            module: self.module,
            trap: None,
            yielded: None,
            return_result_regs: &mut *self.rr,
            enable_checkpoint: false,
            checkpoint_poll_counter: 0,
        };
        let outcome = h(&mut st);
        let a = After {
            outcome,
            pc: st.pc,
            trap: match &st.trap {
                None => TrapKind::None,
                Some(RuntimeError::InvalidConversionToInt) => TrapKind::InvalidConversion,
                Some(RuntimeError::IntegerOverflow) => TrapKind::IntegerOverflow,
                Some(_) => TrapKind::Other,
            },
            yielded: st.yielded.is_some(),
            labels: self.ls.len(),
            rets: self.rr.len(),
            same_mem: st.mem_ptr == self.mem,
            label_idx: st.current_label_idx,
            mem_ptr: st.mem_ptr,
        };
        std::mem::forget(std::mem::replace(&mut self.yielded, st.yielded.take()));
        std::mem::forget(st);
        a
    }
}

/// where a value is written
#[derive(Clone, Copy)]
pub enum Dst {
    I32(u16),
    I64(u16),
    F32(u16),
    F64(u16),
    Loc(u16),
    Nothing,
}

/// ensures: control falls through to the next instruction, nothing traps or yields.
pub fn falls_through(a: &After) {
    #[cfg(feature = "tco")]
    assert!(a.outcome == Outcome::Halt, "post: instruction falls through");
    #[cfg(not(feature = "tco"))]
    assert!(a.outcome == Outcome::Continue, "post: instruction falls through");
    assert!(a.pc == 1, "post: pc advances to the next instruction");
    assert!(a.trap == TrapKind::None, "post: no trap is raised");
    assert!(!a.yielded, "frame: no yield");
    assert!(a.labels == 0 && a.rets == 0 && a.label_idx == 0, "frame: control stacks unchanged");
    assert!(a.same_mem, "frame: memory base unchanged");
}

/// frame: everything except the destination keeps its value
pub fn frame(old: &Snap, new: &Snap, d: Dst) {
    let mut k = 0;
    while k < BANK {
        let c = |r: u16| k == (BANK - CUR as usize) + r as usize;
        if !matches!(d, Dst::I32(r) if c(r)) {
            assert!(new.i32[k] == old.i32[k], "frame: other i32 registers unchanged");
        }
        if !matches!(d, Dst::I64(r) if c(r)) {
            assert!(new.i64[k] == old.i64[k], "frame: other i64 registers unchanged");
        }
        if !matches!(d, Dst::F32(r) if c(r)) {
            assert!(new.f32[k] == old.f32[k], "frame: other f32 registers unchanged");
        }
        if !matches!(d, Dst::F64(r) if c(r)) {
            assert!(new.f64[k] == old.f64[k], "frame: other f64 registers unchanged");
        }
        k += 1;
    }
    let mut k = 0;
    while k < 8 {
        if !matches!(d, Dst::Loc(r) if r as usize == k) {
            assert!(new.loc[k] == old.loc[k] && new.lty[k] == old.lty[k], "frame: other locals unchanged");
        }
        k += 1;
    }
}

impl Snap {
    pub fn set(&mut self, d: Dst, v: u64) {
        let o = BANK - CUR as usize;
        match d {
            Dst::I32(r) => self.i32[o + r as usize] = v as u32 as i32,
            Dst::I64(r) => self.i64[o + r as usize] = v as i64,
            Dst::F32(r) => self.f32[o + r as usize] = v as u32,
            Dst::F64(r) => self.f64[o + r as usize] = v,
            Dst::Loc(r) => self.loc[r as usize] = v,
            Dst::Nothing => {}
        }
    }
    pub fn at(&self, d: Dst) -> u64 {
        let o = BANK - CUR as usize;
        match d {
            Dst::I32(r) => self.i32[o + r as usize] as u32 as u64,
            Dst::I64(r) => self.i64[o + r as usize] as u64,
            Dst::F32(r) => self.f32[o + r as usize] as u64,
            Dst::F64(r) => self.f64[o + r as usize],
            Dst::Loc(r) => self.loc[r as usize],
            Dst::Nothing => 0,
        }
    }
}
