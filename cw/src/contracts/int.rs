//! Contracts of the integer instructions: result, destination, frame, fall-through.
use crate::contract;
use crate::nd::Nd;
use crate::world::*;
use chiwawa::execution::handlers::*;
use chiwawa::execution::ir::*;

/// operand placement: register / constant / local for each of dst, src1, src2
#[derive(Clone, Copy)]
pub enum Pl {
    /// fixed register (the index-generic case is proved once per operand kind, see place.rs)
    R,
    /// any register of the current frame
    A,
    C,
    L,
}
use Pl::*;

macro_rules! typed {
    ($m:ident, $t:ty, $opty:ident, $instr:ident, $base:expr, $any:ident, $dstreg:ident, $bank:ident, $conv:expr) => {
        pub mod $m {
            use super::*;
            /// picks an operand and returns it with the value the contract says it denotes
            pub fn src<N: Nd>(n: &mut N, s: &Snap, p: Pl, which: u16) -> ($opty, $t) {
                let o = BANK - CUR as usize;
                let conv: fn(u64) -> $t = $conv;
                match p {
                    R => ($opty::Reg(which), conv(s.at(Dst::$dstreg(which)))),
                    A => {
                        let i = n.below(CUR);
                        ($opty::Reg(i), conv(s.at(Dst::$dstreg(i))))
                    }
                    C => {
                        let c = n.$any();
                        ($opty::Const(c), c)
                    }
                    L => {
                        let _ = o;
                        ($opty::Param($base), conv(s.loc[$base]))
                    }
                }
            }
            pub fn dst<N: Nd>(n: &mut N, p: Pl) -> ($opty, Dst) {
                match p {
                    L => ($opty::Param($base + 1), Dst::Loc($base + 1)),
                    R => ($opty::Reg(1), Dst::$dstreg(1)),
                    _ => {
                        let i = n.below(CUR);
                        ($opty::Reg(i), Dst::$dstreg(i))
                    }
                }
            }
        }
    };
}
typed!(ti32, i32, I32RegOperand, I32Reg, 0, i32, I32, i32, |b| b as u32 as i32);
typed!(ti64, i64, I64RegOperand, I64Reg, 2, i64, I64, i64, |b| b as i64);
typed!(tf32, f32, F32RegOperand, F32Reg, 4, f32, F32, f32, |b| f32::from_bits(b as u32));
typed!(tf64, f64, F64RegOperand, F64Reg, 6, f64, F64, f64, |b| f64::from_bits(b));


#[derive(Clone, Copy, PartialEq)]
pub enum Can {
    Bits,
    F32,
    F64,
}
/// equality of results: exact bits, or both NaN for floating point results
pub fn same(c: Can, a: u64, b: u64) -> bool {
    match c {
        Can::Bits => a == b,
        Can::F32 => a == b || (f32::from_bits(a as u32).is_nan() && f32::from_bits(b as u32).is_nan()),
        Can::F64 => a == b || (f64::from_bits(a).is_nan() && f64::from_bits(b).is_nan()),
    }
}

macro_rules! opers {
    ($bin:ident, $bin_pre:ident, $rel:ident, $unb:ident, $binb:ident, $bin_to_i32:ident, $un:ident, $un_to_i32:ident, $m:ident, $t:ty, $instr:ident, $opty:ident, $can:expr, $bits:expr) => {
        pub fn $bin<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: fn($t, $t) -> bool, spec: fn($t, $t) -> $t) {
            $bin_pre(w, n, idx, pl, pre, spec)
        }
        pub fn $bin_pre<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: impl Fn($t, $t) -> bool, spec: fn($t, $t) -> $t) {
            let old = w.havoc(n);
            let (d, dd) = $m::dst(n, pl.0);
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let (s2, b) = $m::src(n, &old, pl.2, 1);
            n.assume(pre(a, b));
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: Some(s2) });
            falls_through(&r);
            let new = w.snap();
            let bits: fn($t) -> u64 = $bits;
            assert!(same($can, new.at(dd), bits(spec(a, b))), "post: destination holds the specified result");
            frame(&old, &new, dd);
        }
        /// full-width contract stated as a relation between the operands and the result
        pub fn $rel<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: impl Fn($t, $t) -> bool, rel: fn($t, $t, u64) -> bool) {
            let old = w.havoc(n);
            let (d, dd) = $m::dst(n, pl.0);
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let (s2, b) = $m::src(n, &old, pl.2, 1);
            n.assume(pre(a, b));
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: Some(s2) });
            falls_through(&r);
            let new = w.snap();
            assert!(rel(a, b, new.at(dd)), "post: destination holds the specified result");
            frame(&old, &new, dd);
        }
        pub fn $bin_to_i32<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), spec: fn($t, $t) -> bool) {
            let old = w.havoc(n);
            let i = if matches!(pl.0, A) { n.below(CUR) } else { 1 };
            let (d, dd) = ($opty::Reg(i), Dst::I32(i));
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let (s2, b) = $m::src(n, &old, pl.2, 1);
            let (d, dd) = if matches!(pl.0, L) { ($opty::Param(1), Dst::Loc(1)) } else { (d, dd) };
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: Some(s2) });
            falls_through(&r);
            let new = w.snap();
            assert!(new.at(dd) == spec(a, b) as u64, "post: comparison yields 0 or 1 as specified");
            frame(&old, &new, dd);
        }
        pub fn $un<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl), spec: fn($t) -> $t) {
            let old = w.havoc(n);
            let (d, dd) = $m::dst(n, pl.0);
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: None });
            falls_through(&r);
            let new = w.snap();
            let bits: fn($t) -> u64 = $bits;
            assert!(same($can, new.at(dd), bits(spec(a))), "post: destination holds the specified result");
            frame(&old, &new, dd);
        }
        pub fn $unb<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl), spec: fn($t) -> $t) {
            let old = w.havoc(n);
            let (d, dd) = $m::dst(n, pl.0);
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: None });
            falls_through(&r);
            let new = w.snap();
            let bits: fn($t) -> u64 = $bits;
            assert!(new.at(dd) == bits(spec(a)), "post: destination holds the specified bit pattern");
            frame(&old, &new, dd);
        }
        pub fn $binb<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: fn($t, $t) -> bool, spec: fn($t, $t) -> $t) {
            let old = w.havoc(n);
            let (d, dd) = $m::dst(n, pl.0);
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let (s2, b) = $m::src(n, &old, pl.2, 1);
            n.assume(pre(a, b));
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: Some(s2) });
            falls_through(&r);
            let new = w.snap();
            let bits: fn($t) -> u64 = $bits;
            assert!(new.at(dd) == bits(spec(a, b)), "post: destination holds the specified bit pattern");
            frame(&old, &new, dd);
        }
        pub fn $un_to_i32<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl), spec: fn($t) -> bool) {
            let old = w.havoc(n);
            let i = if matches!(pl.0, A) { n.below(CUR) } else { 1 };
            let (d, dd) = if matches!(pl.0, L) { ($opty::Param(1), Dst::Loc(1)) } else { ($opty::Reg(i), Dst::I32(i)) };
            let (s1, a) = $m::src(n, &old, pl.1, 0);
            let r = w.step(&ProcessedInstr::$instr { handler_index: idx, dst: d, src1: s1, src2: None });
            falls_through(&r);
            let new = w.snap();
            assert!(new.at(dd) == spec(a) as u64, "post: test yields 0 or 1 as specified");
            frame(&old, &new, dd);
        }
    };
}
opers!(bin_i32, bin_i32_pre, rel_i32, unb_i32, binb_i32, cmp_i32, un_i32, test_i32, ti32, i32, I32Reg, I32RegOperand, Can::Bits, |v| v as u32 as u64);
opers!(bin_i64, bin_i64_pre, rel_i64, unb_i64, binb_i64, cmp_i64, un_i64, test_i64, ti64, i64, I64Reg, I64RegOperand, Can::Bits, |v| v as u64);
opers!(bin_f32, bin_f32_pre, rel_f32, unb_f32, binb_f32, cmp_f32, un_f32, test_f32, tf32, f32, F32Reg, F32RegOperand, Can::F32, |v| v.to_bits() as u64);
opers!(bin_f64, bin_f64_pre, rel_f64, unb_f64, binb_f64, cmp_f64, un_f64, test_f64, tf64, f64, F64Reg, F64RegOperand, Can::F64, |v| v.to_bits());

/// one harness, many instructions: each line is an independent contract over a fresh arbitrary state
macro_rules! batch {
    ($name:ident: $($t:tt)*) => { batch!($name cadical: $($t)*); };
    ($name:ident $solver:ident: $($f:ident $idx:ident ($($a:expr),*);)*) => {
        contract!($name, unwind 9, solver $solver, n, {
            let mut w = World::new();
            $( for_shapes!($f, &mut w, n, $idx, $($a),*); )*
        });
    };
}
macro_rules! for_shapes {
    (bin_i32, $($r:tt)*) => { for_shapes!(@3 bin_i32, $($r)*) };
    (bin_i64, $($r:tt)*) => { for_shapes!(@3 bin_i64, $($r)*) };
    (bin_f32, $($r:tt)*) => { for_shapes!(@3 bin_f32, $($r)*) };
    (bin_f64, $($r:tt)*) => { for_shapes!(@3 bin_f64, $($r)*) };
    (win_i32, $($r:tt)*) => { for_shapes!(@3 win_i32, $($r)*) };
    (win_i64, $($r:tt)*) => { for_shapes!(@3 win_i64, $($r)*) };
    (winu_i32, $($r:tt)*) => { for_shapes!(@3 winu_i32, $($r)*) };
    (winu_i64, $($r:tt)*) => { for_shapes!(@3 winu_i64, $($r)*) };
    (binb_f32, $($r:tt)*) => { for_shapes!(@3 binb_f32, $($r)*) };
    (binb_f64, $($r:tt)*) => { for_shapes!(@3 binb_f64, $($r)*) };
    (cmp_i32, $($r:tt)*) => { for_shapes!(@3 cmp_i32, $($r)*) };
    (cmp_i64, $($r:tt)*) => { for_shapes!(@3 cmp_i64, $($r)*) };
    (cmp_f32, $($r:tt)*) => { for_shapes!(@3 cmp_f32, $($r)*) };
    (cmp_f64, $($r:tt)*) => { for_shapes!(@3 cmp_f64, $($r)*) };
    (@3 $f:ident, $w:expr, $n:ident, $idx:expr, $($a:expr),*) => {
        $f($w, $n, $idx, (R, R, R), $($a),*);
        if $n.all_shapes() {
            $f($w, $n, $idx, (L, C, L), $($a),*);
            $f($w, $n, $idx, (R, L, C), $($a),*);
        }
    };
    ($f:ident, $w:expr, $n:ident, $idx:expr, $($a:expr),*) => {
        $f($w, $n, $idx, (R, R), $($a),*);
        if $n.all_shapes() {
            $f($w, $n, $idx, (L, C), $($a),*);
            $f($w, $n, $idx, (R, L), $($a),*);
            $f($w, $n, $idx, (L, R), $($a),*);
        }
    };
}


/// bounded: both operands within [-256, 255] ([0, 511] for the unsigned operations)
macro_rules! windows {
    ($s:ident, $u:ident, $pre:ident, $t:ty) => {
        fn $s<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: fn($t, $t) -> bool, spec: fn($t, $t) -> $t) {
            let s = n.sym();
            $pre(w, n, idx, pl, |a, b| pre(a, b) && (!s || a >= -256 && a < 256 && b >= -256 && b < 256), spec)
        }
        fn $u<N: Nd>(w: &mut World, n: &mut N, idx: usize, pl: (Pl, Pl, Pl), pre: fn($t, $t) -> bool, spec: fn($t, $t) -> $t) {
            let s = n.sym();
            $pre(w, n, idx, pl, |a, b| pre(a, b) && (!s || a >= 0 && a < 512 && b >= 0 && b < 512), spec)
        }
    };
}
windows!(win_i32, winu_i32, bin_i32_pre, i32);
windows!(win_i64, winu_i64, bin_i64_pre, i64);

// ---- spec functions, written from the WebAssembly specification ----
fn clz32(a: i32) -> i32 {
    let mut x = a as u32;
    let mut n = 0;
    if x == 0 { return 32; }
    if x & 0xFFFF_0000 == 0 { n += 16; x <<= 16; }
    if x & 0xFF00_0000 == 0 { n += 8; x <<= 8; }
    if x & 0xF000_0000 == 0 { n += 4; x <<= 4; }
    if x & 0xC000_0000 == 0 { n += 2; x <<= 2; }
    if x & 0x8000_0000 == 0 { n += 1; }
    n
}
fn ctz32(a: i32) -> i32 {
    if a == 0 { 32 } else { 31 - clz32(a & a.wrapping_neg()) }
}
fn pop32(a: i32) -> i32 {
    let mut x = a as u32;
    x = (x & 0x5555_5555) + ((x >> 1) & 0x5555_5555);
    x = (x & 0x3333_3333) + ((x >> 2) & 0x3333_3333);
    x = (x & 0x0F0F_0F0F) + ((x >> 4) & 0x0F0F_0F0F);
    x = (x & 0x00FF_00FF) + ((x >> 8) & 0x00FF_00FF);
    ((x & 0xFFFF) + (x >> 16)) as i32
}
fn clz64(a: i64) -> i64 {
    let h = ((a as u64) >> 32) as u32 as i32;
    if h != 0 { clz32(h) as i64 } else { 32 + clz32(a as u32 as i32) as i64 }
}
fn ctz64(a: i64) -> i64 {
    let l = a as u32 as i32;
    if l != 0 { ctz32(l) as i64 } else { 32 + ctz32(((a as u64) >> 32) as u32 as i32) as i64 }
}
fn pop64(a: i64) -> i64 {
    pop32(a as u32 as i32) as i64 + pop32(((a as u64) >> 32) as u32 as i32) as i64
}
fn shl32(a: i32, b: i32) -> i32 { ((a as u32) << (b as u32 & 31)) as i32 }
fn shrs32(a: i32, b: i32) -> i32 { a >> (b as u32 & 31) }
fn shru32(a: i32, b: i32) -> i32 { ((a as u32) >> (b as u32 & 31)) as i32 }
fn rotl32(a: i32, b: i32) -> i32 { let k = b as u32 & 31; let x = a as u32; (if k == 0 { x } else { (x << k) | (x >> (32 - k)) }) as i32 }
fn rotr32(a: i32, b: i32) -> i32 { let k = b as u32 & 31; let x = a as u32; (if k == 0 { x } else { (x >> k) | (x << (32 - k)) }) as i32 }
fn shl64(a: i64, b: i64) -> i64 { ((a as u64) << (b as u64 & 63)) as i64 }
fn shrs64(a: i64, b: i64) -> i64 { a >> (b as u64 & 63) }
fn shru64(a: i64, b: i64) -> i64 { ((a as u64) >> (b as u64 & 63)) as i64 }
fn rotl64(a: i64, b: i64) -> i64 { let k = b as u64 & 63; let x = a as u64; (if k == 0 { x } else { (x << k) | (x >> (64 - k)) }) as i64 }
fn rotr64(a: i64, b: i64) -> i64 { let k = b as u64 & 63; let x = a as u64; (if k == 0 { x } else { (x >> k) | (x << (64 - k)) }) as i64 }

fn any2<T>(_: T, _: T) -> bool { true }

batch! { int_i32_arith:
    bin_i32 HANDLER_IDX_I32_ADD (any2, |a, b| (a as u32).wrapping_add(b as u32) as i32);
    bin_i32 HANDLER_IDX_I32_SUB (any2, |a, b| (a as u32).wrapping_sub(b as u32) as i32);
    bin_i32 HANDLER_IDX_I32_AND (any2, |a, b| a & b);
    bin_i32 HANDLER_IDX_I32_OR (any2, |a, b| a | b);
    bin_i32 HANDLER_IDX_I32_XOR (any2, |a, b| a ^ b);
    bin_i32 HANDLER_IDX_I32_SHL (any2, shl32);
    bin_i32 HANDLER_IDX_I32_SHR_S (any2, shrs32);
    bin_i32 HANDLER_IDX_I32_SHR_U (any2, shru32);
    bin_i32 HANDLER_IDX_I32_ROTL (any2, rotl32);
    bin_i32 HANDLER_IDX_I32_ROTR (any2, rotr32);
}
batch! { int_i32_cmp:
    cmp_i32 HANDLER_IDX_I32_EQ (|a, b| a == b);
    cmp_i32 HANDLER_IDX_I32_NE (|a, b| a != b);
    cmp_i32 HANDLER_IDX_I32_LT_S (|a, b| a < b);
    cmp_i32 HANDLER_IDX_I32_LT_U (|a, b| (a as u32) < (b as u32));
    cmp_i32 HANDLER_IDX_I32_GT_S (|a, b| a > b);
    cmp_i32 HANDLER_IDX_I32_GT_U (|a, b| (a as u32) > (b as u32));
    cmp_i32 HANDLER_IDX_I32_LE_S (|a, b| a <= b);
    cmp_i32 HANDLER_IDX_I32_LE_U (|a, b| (a as u32) <= (b as u32));
    cmp_i32 HANDLER_IDX_I32_GE_S (|a, b| a >= b);
    cmp_i32 HANDLER_IDX_I32_GE_U (|a, b| (a as u32) >= (b as u32));
}
batch! { int_i32_unary:
    un_i32 HANDLER_IDX_I32_CLZ (clz32);
    un_i32 HANDLER_IDX_I32_CTZ (ctz32);
    un_i32 HANDLER_IDX_I32_POPCNT (pop32);
    test_i32 HANDLER_IDX_I32_EQZ (|a| a == 0);
    un_i32 HANDLER_IDX_I32_EXTEND8_S (|a| (a << 24) >> 24);
    un_i32 HANDLER_IDX_I32_EXTEND16_S (|a| (a << 16) >> 16);
    un_i32 HANDLER_IDX_LOCAL_GET (|a| a);
    un_i32 HANDLER_IDX_LOCAL_SET (|a| a);
    un_i32 HANDLER_IDX_LOCAL_TEE (|a| a);
    un_i32 HANDLER_IDX_I32_CONST (|a| a);
}
// Two division circuits over equal operands are not recognised as equal by the SAT back end, so
// quotient/remainder equality is proved on a window (bounded, all operand shapes); at full width the
// quotient is proved by the division relation (below), the remainder only by its range and sign.
contract!(bounded_i32_div, n, {
    let mut w = World::new();
    for_shapes!(win_i32, &mut w, n, HANDLER_IDX_I32_DIV_S, |a, b| b != 0 && !(a == i32::MIN && b == -1), |a, b| a / b);
    for_shapes!(winu_i32, &mut w, n, HANDLER_IDX_I32_DIV_U, |_, b| b != 0, |a, b| (a as u32 / b as u32) as i32);
    for_shapes!(win_i32, &mut w, n, HANDLER_IDX_I32_REM_S, |_, b| b != 0, |a, b| if b == -1 { 0 } else { a % b });
    for_shapes!(winu_i32, &mut w, n, HANDLER_IDX_I32_REM_U, |_, b| b != 0, |a, b| (a as u32 % b as u32) as i32);
});
batch! { int_i64_arith:
    bin_i64 HANDLER_IDX_I64_ADD (any2, |a, b| (a as u64).wrapping_add(b as u64) as i64);
    bin_i64 HANDLER_IDX_I64_SUB (any2, |a, b| (a as u64).wrapping_sub(b as u64) as i64);
    bin_i64 HANDLER_IDX_I64_AND (any2, |a, b| a & b);
    bin_i64 HANDLER_IDX_I64_OR (any2, |a, b| a | b);
    bin_i64 HANDLER_IDX_I64_XOR (any2, |a, b| a ^ b);
    bin_i64 HANDLER_IDX_I64_SHL (any2, shl64);
    bin_i64 HANDLER_IDX_I64_SHR_S (any2, shrs64);
    bin_i64 HANDLER_IDX_I64_SHR_U (any2, shru64);
    bin_i64 HANDLER_IDX_I64_ROTL (any2, rotl64);
    bin_i64 HANDLER_IDX_I64_ROTR (any2, rotr64);
}
batch! { int_i64_cmp:
    cmp_i64 HANDLER_IDX_I64_EQ (|a, b| a == b);
    cmp_i64 HANDLER_IDX_I64_NE (|a, b| a != b);
    cmp_i64 HANDLER_IDX_I64_LT_S (|a, b| a < b);
    cmp_i64 HANDLER_IDX_I64_LT_U (|a, b| (a as u64) < (b as u64));
    cmp_i64 HANDLER_IDX_I64_GT_S (|a, b| a > b);
    cmp_i64 HANDLER_IDX_I64_GT_U (|a, b| (a as u64) > (b as u64));
    cmp_i64 HANDLER_IDX_I64_LE_S (|a, b| a <= b);
    cmp_i64 HANDLER_IDX_I64_LE_U (|a, b| (a as u64) <= (b as u64));
    cmp_i64 HANDLER_IDX_I64_GE_S (|a, b| a >= b);
    cmp_i64 HANDLER_IDX_I64_GE_U (|a, b| (a as u64) >= (b as u64));
}
batch! { int_i64_unary:
    un_i64 HANDLER_IDX_I64_CLZ (clz64);
    un_i64 HANDLER_IDX_I64_CTZ (ctz64);
    un_i64 HANDLER_IDX_I64_POPCNT (pop64);
    test_i64 HANDLER_IDX_I64_EQZ (|a| a == 0);
    un_i64 HANDLER_IDX_I64_EXTEND8_S (|a| (a << 56) >> 56);
    un_i64 HANDLER_IDX_I64_EXTEND16_S (|a| (a << 48) >> 48);
    un_i64 HANDLER_IDX_I64_EXTEND32_S (|a| (a << 32) >> 32);
    un_i64 HANDLER_IDX_LOCAL_GET (|a| a);
    un_i64 HANDLER_IDX_LOCAL_SET (|a| a);
    un_i64 HANDLER_IDX_LOCAL_TEE (|a| a);
    un_i64 HANDLER_IDX_I64_CONST (|a| a);
}
batch! { int_i32_mul kissat:
    bin_i32 HANDLER_IDX_I32_MUL (any2, |a, b| a.wrapping_mul(b));
}
batch! { int_i64_mul kissat:
    bin_i64 HANDLER_IDX_I64_MUL (any2, |a, b| a.wrapping_mul(b));
}
// Two division circuits over equal operands are not recognised as equal by the SAT back end, so
// quotient/remainder equality is proved on a window (bounded, all operand shapes); at full width the
// quotient is proved by the division relation (below), the remainder only by its range and sign.
contract!(bounded_i64_div, n, {
    let mut w = World::new();
    for_shapes!(win_i64, &mut w, n, HANDLER_IDX_I64_DIV_S, |a, b| b != 0 && !(a == i64::MIN && b == -1), |a, b| a / b);
    for_shapes!(winu_i64, &mut w, n, HANDLER_IDX_I64_DIV_U, |_, b| b != 0, |a, b| (a as u64 / b as u64) as i64);
    for_shapes!(win_i64, &mut w, n, HANDLER_IDX_I64_REM_S, |_, b| b != 0, |a, b| if b == -1 { 0 } else { a % b });
    for_shapes!(winu_i64, &mut w, n, HANDLER_IDX_I64_REM_U, |_, b| b != 0, |a, b| (a as u64 % b as u64) as i64);
});

fn udiv32(a: i32, b: i32, q: u64) -> bool {
    let (a, b) = (a as u32 as u64, b as u32 as u64);
    let p = (q as u32 as u64) * b;
    p <= a && a - p < b
}
fn udiv64(a: i64, b: i64, q: u64) -> bool {
    let (a, b) = (a as u64 as u128, b as u64 as u128);
    let p = (q as u128) * b;
    p <= a && a - p < b
}
fn sdiv32(a: i32, b: i32, q: u64) -> bool {
    let q = q as u32 as i32;
    let (ua, ub, uq) = (a.unsigned_abs() as u64, b.unsigned_abs() as u64, q.unsigned_abs() as u64);
    let p = uq * ub;
    p <= ua && ua - p < ub && (q == 0 || (q < 0) == ((a < 0) != (b < 0)))
}
macro_rules! rel { ($name:ident: $f:ident $idx:ident ($($a:expr),*)) => {
    contract!($name, unwind 9, solver kissat, n, { let mut w = World::new(); $f(&mut w, n, $idx, (R, R, R), $($a),*); });
} }
rel!(div_full_i32_u: rel_i32 HANDLER_IDX_I32_DIV_U (|_, b| b != 0, udiv32));
rel!(div_full_i64_u: rel_i64 HANDLER_IDX_I64_DIV_U (|_, b| b != 0, udiv64));
rel!(div_full_i32_s: rel_i32 HANDLER_IDX_I32_DIV_S (|a, b| b != 0 && !(a == i32::MIN && b == -1), sdiv32));
contract!(rem_range, n, {
    let mut w = World::new();
    rel_i32(&mut w, n, HANDLER_IDX_I32_REM_U, (R, R, R), |_, b| b != 0, |a, b, r| r < b as u32 as u64 && r <= a as u32 as u64);
    rel_i64(&mut w, n, HANDLER_IDX_I64_REM_U, (R, R, R), |_, b| b != 0, |a, b, r| r < b as u64 && r <= a as u64);
    rel_i32(&mut w, n, HANDLER_IDX_I32_REM_S, (R, R, R), |_, b| b != 0, |a, b, r| { let r = r as u32 as i32; r.unsigned_abs() < b.unsigned_abs() && (r == 0 || (r < 0) == (a < 0)) });
    rel_i64(&mut w, n, HANDLER_IDX_I64_REM_S, (R, R, R), |_, b| b != 0, |a, b, r| { let r = r as i64; r.unsigned_abs() < b.unsigned_abs() && (r == 0 || (r < 0) == (a < 0)) });
});
