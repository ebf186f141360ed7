//! Contracts of the floating point instructions and of all conversions.
use super::int::Pl::*;
use super::int::*;
use crate::nd::Nd;
use crate::world::*;
use crate::{contract, must_trap};
use chiwawa::execution::handlers::*;
use chiwawa::execution::ir::*;
use chiwawa::execution::regs::Reg;

// ---- spec functions ----
macro_rules! fspec {
    ($m:ident, $t:ty, $u:ty, $i:ty, $mb:expr, $bias:expr, $eb:expr) => {
        /// IEEE-754 operations the WebAssembly specification defines on bit patterns
        pub mod $m {
            pub const SIGN: $u = 1 << ($mb + $eb);
            pub const INF: $u = ((1 << $eb) - 1) << $mb;
            pub fn nan(b: $u) -> bool {
                (b & !SIGN) > INF
            }
            pub fn abs(a: $t) -> $t {
                <$t>::from_bits(a.to_bits() & !SIGN)
            }
            pub fn neg(a: $t) -> $t {
                <$t>::from_bits(a.to_bits() ^ SIGN)
            }
            pub fn copysign(a: $t, b: $t) -> $t {
                <$t>::from_bits((a.to_bits() & !SIGN) | (b.to_bits() & SIGN))
            }
            /// total order key of non-NaN values with -0 < +0
            fn key(b: $u) -> $i {
                if b & SIGN != 0 { !(b ^ SIGN) as $i } else { b as $i }
            }
            pub fn min(a: $t, b: $t) -> $t {
                let (x, y) = (a.to_bits(), b.to_bits());
                if nan(x) || nan(y) { <$t>::NAN } else if key(x) <= key(y) { a } else { b }
            }
            pub fn max(a: $t, b: $t) -> $t {
                let (x, y) = (a.to_bits(), b.to_bits());
                if nan(x) || nan(y) { <$t>::NAN } else if key(x) >= key(y) { a } else { b }
            }
            pub fn lt(a: $t, b: $t) -> bool {
                let (x, y) = (a.to_bits(), b.to_bits());
                !nan(x) && !nan(y) && key(x) < key(y) && !((x | y) & !SIGN == 0)
            }
            pub fn eq(a: $t, b: $t) -> bool {
                let (x, y) = (a.to_bits(), b.to_bits());
                !nan(x) && !nan(y) && (x == y || (x | y) & !SIGN == 0)
            }
            pub fn gt(a: $t, b: $t) -> bool { lt(b, a) }
            pub fn le(a: $t, b: $t) -> bool { lt(a, b) || eq(a, b) }
            pub fn ge(a: $t, b: $t) -> bool { lt(b, a) || eq(a, b) }
            pub fn ne(a: $t, b: $t) -> bool { !eq(a, b) }
            /// mode 0 trunc, 1 floor, 2 ceil, 3 nearest (ties to even); computed on the bit pattern
            pub fn round(a: $t, mode: u8) -> $t {
                let b = a.to_bits();
                if nan(b) { return <$t>::NAN; }
                let e = ((b & INF) >> $mb) as i32 - $bias;
                if e >= $mb { return a; }
                let s = b & SIGN;
                let mag = b & !SIGN;
                if e < 0 {
                    // |a| < 1
                    let one: $u = ($bias as $u) << $mb;
                    let half: $u = (($bias - 1) as $u) << $mb;
                    let up = match mode {
                        0 => false,
                        1 => s != 0 && mag != 0,
                        2 => s == 0 && mag != 0,
                        _ => mag > half,
                    };
                    return <$t>::from_bits(s | if up { one } else { 0 });
                }
                let frac: $u = ((1 as $u) << ($mb - e as u32)) - 1;
                let low = mag & frac;
                if low == 0 { return a; }
                let base = mag & !frac;
                let unit = frac + 1;
                let half = unit >> 1;
                let up = match mode {
                    0 => false,
                    1 => s != 0,
                    2 => s == 0,
                    _ => low > half || (low == half && base & unit != 0 || low == half && e == 0),
                };
                <$t>::from_bits(s | if up { base + unit } else { base })
            }
            /// truncation towards zero: (negative, magnitude), None when |a| >= 2^65 or not a number
            pub fn trunc_mag(b: $u) -> Option<(bool, u128)> {
                if nan(b) { return None; }
                let e = ((b & INF) >> $mb) as i32 - $bias;
                if e >= 65 { return None; }
                if e < 0 { return Some((b & SIGN != 0, 0)); }
                let m = ((b & (((1 as $u) << $mb) - 1)) | ((1 as $u) << $mb)) as u128;
                let v = if e >= $mb { m << (e - $mb) as u32 } else { m >> ($mb - e) as u32 };
                Some((b & SIGN != 0, v))
            }
            /// integer magnitude -> nearest representable (ties to even)
            pub fn from_mag(neg: bool, v: u64) -> $t {
                if v == 0 { return 0.0; }
                let top = 63 - v.leading_zeros() as i32;
                let mut e = top;
                let mut m: u64;
                if top <= $mb {
                    m = v << ($mb - top) as u32;
                } else {
                    let sh = (top - $mb) as u32;
                    m = v >> sh;
                    let rem = v & (((1u64) << sh) - 1);
                    let half = 1u64 << (sh - 1);
                    if rem > half || (rem == half && m & 1 == 1) { m += 1; }
                    if m >> ($mb + 1) != 0 { m >>= 1; e += 1; }
                }
                let bits = (((e + $bias) as $u) << $mb) | (m as $u & (((1 as $u) << $mb) - 1));
                <$t>::from_bits(bits | if neg { SIGN } else { 0 })
            }
        }
    };
}
fspec!(s32, f32, u32, i32, 23, 127, 8);
fspec!(s64, f64, u64, i64, 52, 1023, 11);

fn any2<T>(_: T, _: T) -> bool { true }

/// Rounded arithmetic: one operand placement under the verifier (placement is independent of the
/// operation: all operations share it with min/max), every placement natively.  `low` > 0 restricts the
/// verifier to significands whose `low` least significant bits are zero (bounded).
macro_rules! arith { ($name:ident: $f:ident $t:ident $idx:ident ($low:expr) $spec:expr) => {
    contract!($name, unwind 9, solver kissat, n, {
        let mut w = World::new();
        let m = if n.sym() { (1 << $low) - 1 } else { 0 };
        let pre = |a: $t, b: $t| a.to_bits() & m == 0 && b.to_bits() & m == 0;
        $f(&mut w, n, $idx, (R, R, R), pre, $spec);
        if !n.sym() {
            $f(&mut w, n, $idx, (L, C, L), pre, $spec);
            $f(&mut w, n, $idx, (R, L, C), pre, $spec);
        }
    });
} }
batch! { float_f32_cmp:
    cmp_f32 HANDLER_IDX_F32_EQ (s32::eq);
    cmp_f32 HANDLER_IDX_F32_NE (s32::ne);
    cmp_f32 HANDLER_IDX_F32_LT (s32::lt);
    cmp_f32 HANDLER_IDX_F32_GT (s32::gt);
    cmp_f32 HANDLER_IDX_F32_LE (s32::le);
    cmp_f32 HANDLER_IDX_F32_GE (s32::ge);
}
batch! { float_f32_minmax:
    bin_f32 HANDLER_IDX_F32_MIN (any2, s32::min);
    bin_f32 HANDLER_IDX_F32_MAX (any2, s32::max);
    binb_f32 HANDLER_IDX_F32_COPYSIGN (any2, s32::copysign);
}
batch! { float_f32_unary:
    unb_f32 HANDLER_IDX_F32_ABS (s32::abs);
    unb_f32 HANDLER_IDX_F32_NEG (s32::neg);
    un_f32 HANDLER_IDX_F32_CEIL (|a| s32::round(a, 2));
    un_f32 HANDLER_IDX_F32_FLOOR (|a| s32::round(a, 1));
    un_f32 HANDLER_IDX_F32_TRUNC (|a| s32::round(a, 0));
    un_f32 HANDLER_IDX_F32_NEAREST (|a| s32::round(a, 3));
    unb_f32 HANDLER_IDX_LOCAL_GET (|a| a);
    unb_f32 HANDLER_IDX_LOCAL_SET (|a| a);
    unb_f32 HANDLER_IDX_LOCAL_TEE (|a| a);
    unb_f32 HANDLER_IDX_F32_CONST (|a| a);
}
arith! { float_f32_add: bin_f32_pre f32 HANDLER_IDX_F32_ADD (0) |a, b| a + b }
arith! { float_f32_sub: bin_f32_pre f32 HANDLER_IDX_F32_SUB (0) |a, b| a - b }
arith! { float_f32_mul: bin_f32_pre f32 HANDLER_IDX_F32_MUL (0) |a, b| a * b }
arith! { bounded_float_f32_div: bin_f32_pre f32 HANDLER_IDX_F32_DIV (18) |a, b| a / b }
batch! { native_float_f32_sqrt: un_f32 HANDLER_IDX_F32_SQRT (|a| a.sqrt()); }
batch! { float_f64_cmp:
    cmp_f64 HANDLER_IDX_F64_EQ (s64::eq);
    cmp_f64 HANDLER_IDX_F64_NE (s64::ne);
    cmp_f64 HANDLER_IDX_F64_LT (s64::lt);
    cmp_f64 HANDLER_IDX_F64_GT (s64::gt);
    cmp_f64 HANDLER_IDX_F64_LE (s64::le);
    cmp_f64 HANDLER_IDX_F64_GE (s64::ge);
}
batch! { float_f64_minmax:
    bin_f64 HANDLER_IDX_F64_MIN (any2, s64::min);
    bin_f64 HANDLER_IDX_F64_MAX (any2, s64::max);
    binb_f64 HANDLER_IDX_F64_COPYSIGN (any2, s64::copysign);
}
batch! { float_f64_unary:
    unb_f64 HANDLER_IDX_F64_ABS (s64::abs);
    unb_f64 HANDLER_IDX_F64_NEG (s64::neg);
    un_f64 HANDLER_IDX_F64_CEIL (|a| s64::round(a, 2));
    un_f64 HANDLER_IDX_F64_FLOOR (|a| s64::round(a, 1));
    un_f64 HANDLER_IDX_F64_TRUNC (|a| s64::round(a, 0));
    un_f64 HANDLER_IDX_F64_NEAREST (|a| s64::round(a, 3));
    unb_f64 HANDLER_IDX_LOCAL_GET (|a| a);
    unb_f64 HANDLER_IDX_LOCAL_SET (|a| a);
    unb_f64 HANDLER_IDX_LOCAL_TEE (|a| a);
    unb_f64 HANDLER_IDX_F64_CONST (|a| a);
}
arith! { float_f64_add: bin_f64_pre f64 HANDLER_IDX_F64_ADD (0) |a, b| a + b }
arith! { float_f64_sub: bin_f64_pre f64 HANDLER_IDX_F64_SUB (0) |a, b| a - b }
arith! { bounded_float_f64_mul: bin_f64_pre f64 HANDLER_IDX_F64_MUL (42) |a, b| a * b }
arith! { bounded_float_f64_div: bin_f64_pre f64 HANDLER_IDX_F64_DIV (48) |a, b| a / b }
batch! { native_float_f64_sqrt: un_f64 HANDLER_IDX_F64_SQRT (|a| a.sqrt()); }

// ---- conversions: source is a register, destination a register or a local ----
pub fn reg(t: u8, i: u16) -> (Reg, Dst) {
    match t {
        0 => (Reg::I32(i), Dst::I32(i)),
        1 => (Reg::I64(i), Dst::I64(i)),
        2 => (Reg::F32(i), Dst::F32(i)),
        _ => (Reg::F64(i), Dst::F64(i)),
    }
}
/// destination of type `t`: register 1 or the second local of that type
pub fn dst(t: u8, local: bool) -> (RegOrLocal, Dst) {
    if local {
        let l = 2 * t as u16 + 1;
        (RegOrLocal::Local(l), Dst::Loc(l))
    } else {
        (RegOrLocal::Reg(1), reg(t, 1).1)
    }
}
/// spec on bit patterns; `None` means the instruction must trap
fn conv1<N: Nd>(w: &mut World, n: &mut N, idx: usize, from: u8, to: u8, local: bool, c: Can, spec: fn(u64) -> Option<u64>) {
    let old = w.havoc(n);
    let (src, sd) = reg(from, 0);
    let (d, dd) = dst(to, local);
    let want = spec(old.at(sd));
    let r = w.step(&ProcessedInstr::ConversionReg { handler_index: idx, dst: d, src });
    let new = w.snap();
    match want {
        Some(v) => {
            falls_through(&r);
            assert!(same(c, new.at(dd), v), "post: destination holds the converted value");
            frame(&old, &new, dd);
        }
        None => {
            assert!(r.outcome == Outcome::Trap, "post: conversion outside the target range traps");
            assert!(r.trap != TrapKind::None && !r.yielded, "post: the trap reason is recorded");
            let nan = if from == 2 { s32::nan(old.at(sd) as u32) } else { s64::nan(old.at(sd)) };
            assert!(
                r.trap == if nan { TrapKind::InvalidConversion } else { TrapKind::IntegerOverflow },
                "post: NaN is an invalid conversion, out of range is an integer overflow"
            );
            frame(&old, &new, Dst::Nothing);
        }
    }
}
fn conv<N: Nd>(w: &mut World, n: &mut N, idx: usize, from: u8, to: u8, c: Can, spec: fn(u64) -> Option<u64>) {
    conv1(w, n, idx, from, to, false, c, spec);
    if n.all_shapes() {
        conv1(w, n, idx, from, to, true, c, spec);
    }
}
fn int_of(t: Option<(bool, u128)>, bits: u32, signed: bool) -> Option<u64> {
    let (neg, m) = t?;
    let mask = if bits == 32 { 0xffff_ffff } else { u64::MAX };
    let ok = if signed {
        let lim = 1u128 << (bits - 1);
        if neg { m <= lim } else { m < lim }
    } else {
        (!neg || m == 0) && m < (1u128 << bits)
    };
    if !ok { return None; }
    let v = m as u64;
    Some((if neg { v.wrapping_neg() } else { v }) & mask)
}
fn sat_of(nan: bool, neg0: bool, t: Option<(bool, u128)>, bits: u32, signed: bool) -> u64 {
    let mask = if bits == 32 { 0xffff_ffff } else { u64::MAX };
    if nan { return 0; }
    if let Some(v) = int_of(t, bits, signed) { return v; }
    if signed {
        if neg0 { (1u64 << (bits - 1)) & mask } else { ((1u64 << (bits - 1)) - 1) & mask }
    } else if neg0 { 0 } else { mask }
}
fn t32(b: u64) -> Option<(bool, u128)> { s32::trunc_mag(b as u32) }
fn t64(b: u64) -> Option<(bool, u128)> { s64::trunc_mag(b) }
fn sat32(b: u64, bits: u32, signed: bool) -> Option<u64> { let b = b as u32; Some(sat_of(s32::nan(b), b & s32::SIGN != 0, s32::trunc_mag(b), bits, signed)) }
fn sat64(b: u64, bits: u32, signed: bool) -> Option<u64> { Some(sat_of(s64::nan(b), b & s64::SIGN != 0, s64::trunc_mag(b), bits, signed)) }
/// promotion is exact
fn promote(b: u64) -> Option<u64> {
    let b = b as u32;
    let s = ((b >> 31) as u64) << 63;
    if s32::nan(b) { return Some(f64::NAN.to_bits()); }
    let mag = b & 0x7fff_ffff;
    if mag == s32::INF { return Some(s | s64::INF); }
    let e = (mag >> 23) as u64;
    let m = (mag & 0x7f_ffff) as u64;
    if e == 0 {
        if m == 0 { return Some(s); }
        let top = 63 - m.leading_zeros() as u64;
        let frac = (m << (52 - top)) & ((1u64 << 52) - 1);
        return Some(s | ((top + 1023 - 149) << 52) | frac);
    }
    Some(s | ((e + 896) << 52) | (m << 29))
}
/// demotion rounds to nearest, ties to even
fn demote(b: u64) -> Option<u64> {
    let s = ((b >> 63) << 31) as u32;
    if s64::nan(b) { return Some(f32::NAN.to_bits() as u64); }
    let mag = b & !s64::SIGN;
    let e = (mag >> 52) as i32 - 1023;
    if e > 127 { return Some((s | s32::INF) as u64); }
    if e < -150 { return Some(s as u64); }
    let m = (mag & ((1u64 << 52) - 1)) | (1u64 << 52);
    // number of low bits dropped: 29 for normal results, more for subnormal ones
    let (drop, base) = if e >= -126 { (29, ((e + 127) as u32) << 23) } else { ((29 - 126 - e) as u32, 0) };
    let q = (m >> drop) as u32;
    let rem = m & ((1u64 << drop) - 1);
    let half = 1u64 << (drop - 1);
    let up = (rem > half || (rem == half && q & 1 == 1)) as u32;
    let r = if base != 0 { base + (q - (1 << 23)) + up } else { q + up };
    Some((s | r) as u64)
}
macro_rules! convs {
    ($name:ident: $($idx:ident ($from:expr, $to:expr, $c:expr, $spec:expr);)*) => {
        contract!($name, n, { let mut w = World::new(); $( conv(&mut w, n, $idx, $from, $to, $c, $spec); )* });
    };
}
convs! { conv_int:
    HANDLER_IDX_I64_EXTEND_I32_S (0, 1, Can::Bits, |b| Some(b as u32 as i32 as i64 as u64));
    HANDLER_IDX_I64_EXTEND_I32_U (0, 1, Can::Bits, |b| Some(b & 0xffff_ffff));
    HANDLER_IDX_I32_WRAP_I64 (1, 0, Can::Bits, |b| Some(b & 0xffff_ffff));
    HANDLER_IDX_I32_REINTERPRET_F32 (2, 0, Can::Bits, |b| Some(b));
    HANDLER_IDX_F32_REINTERPRET_I32 (0, 2, Can::Bits, |b| Some(b));
    HANDLER_IDX_I64_REINTERPRET_F64 (3, 1, Can::Bits, |b| Some(b));
    HANDLER_IDX_F64_REINTERPRET_I64 (1, 3, Can::Bits, |b| Some(b));
}
convs! { conv_trunc_f32:
    HANDLER_IDX_I32_TRUNC_F32_S (2, 0, Can::Bits, |b| int_of(t32(b), 32, true));
    HANDLER_IDX_I32_TRUNC_F32_U (2, 0, Can::Bits, |b| int_of(t32(b), 32, false));
    HANDLER_IDX_I64_TRUNC_F32_S (2, 1, Can::Bits, |b| int_of(t32(b), 64, true));
    HANDLER_IDX_I64_TRUNC_F32_U (2, 1, Can::Bits, |b| int_of(t32(b), 64, false));
}
convs! { conv_trunc_f64:
    HANDLER_IDX_I32_TRUNC_F64_S (3, 0, Can::Bits, |b| int_of(t64(b), 32, true));
    HANDLER_IDX_I32_TRUNC_F64_U (3, 0, Can::Bits, |b| int_of(t64(b), 32, false));
    HANDLER_IDX_I64_TRUNC_F64_S (3, 1, Can::Bits, |b| int_of(t64(b), 64, true));
    HANDLER_IDX_I64_TRUNC_F64_U (3, 1, Can::Bits, |b| int_of(t64(b), 64, false));
}
convs! { conv_sat_f32:
    HANDLER_IDX_I32_TRUNC_SAT_F32_S (2, 0, Can::Bits, |b| sat32(b, 32, true));
    HANDLER_IDX_I32_TRUNC_SAT_F32_U (2, 0, Can::Bits, |b| sat32(b, 32, false));
    HANDLER_IDX_I64_TRUNC_SAT_F32_S (2, 1, Can::Bits, |b| sat32(b, 64, true));
    HANDLER_IDX_I64_TRUNC_SAT_F32_U (2, 1, Can::Bits, |b| sat32(b, 64, false));
}
convs! { conv_sat_f64:
    HANDLER_IDX_I32_TRUNC_SAT_F64_S (3, 0, Can::Bits, |b| sat64(b, 32, true));
    HANDLER_IDX_I32_TRUNC_SAT_F64_U (3, 0, Can::Bits, |b| sat64(b, 32, false));
    HANDLER_IDX_I64_TRUNC_SAT_F64_S (3, 1, Can::Bits, |b| sat64(b, 64, true));
    HANDLER_IDX_I64_TRUNC_SAT_F64_U (3, 1, Can::Bits, |b| sat64(b, 64, false));
}
fn smag(v: i64) -> (bool, u64) { (v < 0, v.unsigned_abs()) }
convs! { conv_to_f32:
    HANDLER_IDX_F32_CONVERT_I32_S (0, 2, Can::Bits, |b| { let (s, m) = smag(b as u32 as i32 as i64); Some(s32::from_mag(s, m).to_bits() as u64) });
    HANDLER_IDX_F32_CONVERT_I32_U (0, 2, Can::Bits, |b| Some(s32::from_mag(false, b & 0xffff_ffff).to_bits() as u64));
    HANDLER_IDX_F32_CONVERT_I64_S (1, 2, Can::Bits, |b| { let (s, m) = smag(b as i64); Some(s32::from_mag(s, m).to_bits() as u64) });
    HANDLER_IDX_F32_CONVERT_I64_U (1, 2, Can::Bits, |b| Some(s32::from_mag(false, b).to_bits() as u64));
    HANDLER_IDX_F32_DEMOTE_F64 (3, 2, Can::F32, demote);
}
convs! { conv_to_f64:
    HANDLER_IDX_F64_CONVERT_I32_S (0, 3, Can::Bits, |b| { let (s, m) = smag(b as u32 as i32 as i64); Some(s64::from_mag(s, m).to_bits()) });
    HANDLER_IDX_F64_CONVERT_I32_U (0, 3, Can::Bits, |b| Some(s64::from_mag(false, b & 0xffff_ffff).to_bits()));
    HANDLER_IDX_F64_CONVERT_I64_S (1, 3, Can::Bits, |b| { let (s, m) = smag(b as i64); Some(s64::from_mag(s, m).to_bits()) });
    HANDLER_IDX_F64_CONVERT_I64_U (1, 3, Can::Bits, |b| Some(s64::from_mag(false, b).to_bits()));
    HANDLER_IDX_F64_PROMOTE_F32 (2, 3, Can::F64, promote);
}

// ---- integer division and remainder must trap ----
macro_rules! div_traps {
    ($name:ident, $instr:ident, $opty:ident, $t:ty, $any:ident, $zero:expr, $ovf:expr) => {
        must_trap!($name, unwind 9, n, {
            let k = n.below(5);
            let a: $t = n.$any();
            (k, a, World::new())
        }, |p| {
            // b = 0 for the four operations, and MIN / -1 for signed division
            let a = if p.0 == 4 { <$t>::MIN } else { p.1 };
            let b: $t = if p.0 == 4 { -1 } else { 0 };
            let ops: [usize; 5] = $zero;
            let idx = ops[p.0 as usize];
            let i = ProcessedInstr::$instr { handler_index: idx, dst: $opty::Reg(1), src1: $opty::Const(a), src2: Some($opty::Const(b)) };
            p.2.step(&i).outcome
        });
    };
}
div_traps!(trap_i32_div, I32Reg, I32RegOperand, i32, i32, [HANDLER_IDX_I32_DIV_S, HANDLER_IDX_I32_DIV_U, HANDLER_IDX_I32_REM_S, HANDLER_IDX_I32_REM_U, HANDLER_IDX_I32_DIV_S], 0);
div_traps!(trap_i64_div, I64Reg, I64RegOperand, i64, i64, [HANDLER_IDX_I64_DIV_S, HANDLER_IDX_I64_DIV_U, HANDLER_IDX_I64_REM_S, HANDLER_IDX_I64_REM_U, HANDLER_IDX_I64_DIV_S], 0);
must_trap!(trap_unreachable, unwind 9, n, { World::new() }, |p| { p.step(&ProcessedInstr::UnreachableReg).outcome });
