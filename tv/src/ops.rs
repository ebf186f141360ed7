//! Numeric instructions of the reference semantics, written from the WebAssembly specification.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Func,
}
use Ty::*;
impl Ty {
    pub fn byte(self) -> u8 {
        match self {
            I32 => 0x7f,
            I64 => 0x7e,
            F32 => 0x7d,
            F64 => 0x7c,
            Func => 0x70,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Trap {
    Unreachable,
    DivZero,
    Overflow,
    Conversion,
    Table,
    Memory,
    Indirect,
    Fuel,
    /// precondition of the comparison not met (plain out-of-bounds access)
    Skip,
}

/// opcode (0x45..=0xC4, or 0xFC00 + n) -> operand types and result type
pub fn sig(op: u16) -> (&'static [Ty], Ty) {
    match op {
        0x45 => (&[I32], I32),
        0x46..=0x4F => (&[I32, I32], I32),
        0x50 => (&[I64], I32),
        0x51..=0x5A => (&[I64, I64], I32),
        0x5B..=0x60 => (&[F32, F32], I32),
        0x61..=0x66 => (&[F64, F64], I32),
        0x67..=0x69 => (&[I32], I32),
        0x6A..=0x78 => (&[I32, I32], I32),
        0x79..=0x7B => (&[I64], I64),
        0x7C..=0x8A => (&[I64, I64], I64),
        0x8B..=0x91 => (&[F32], F32),
        0x92..=0x98 => (&[F32, F32], F32),
        0x99..=0x9F => (&[F64], F64),
        0xA0..=0xA6 => (&[F64, F64], F64),
        0xA7 => (&[I64], I32),
        0xA8 | 0xA9 => (&[F32], I32),
        0xAA | 0xAB => (&[F64], I32),
        0xAC | 0xAD => (&[I32], I64),
        0xAE | 0xAF => (&[F32], I64),
        0xB0 | 0xB1 => (&[F64], I64),
        0xB2 | 0xB3 => (&[I32], F32),
        0xB4 | 0xB5 => (&[I64], F32),
        0xB6 => (&[F64], F32),
        0xB7 | 0xB8 => (&[I32], F64),
        0xB9 | 0xBA => (&[I64], F64),
        0xBB => (&[F32], F64),
        0xBC => (&[F32], I32),
        0xBD => (&[F64], I64),
        0xBE => (&[I32], F32),
        0xBF => (&[I64], F64),
        0xC0 | 0xC1 => (&[I32], I32),
        0xC2..=0xC4 => (&[I64], I64),
        0xFC00 | 0xFC01 => (&[F32], I32),
        0xFC02 | 0xFC03 => (&[F64], I32),
        0xFC04 | 0xFC05 => (&[F32], I64),
        0xFC06 | 0xFC07 => (&[F64], I64),
        _ => panic!("op {op:#x}"),
    }
}
pub fn all_ops() -> Vec<u16> {
    (0x45..=0xC4u16).chain(0xFC00..=0xFC07).collect()
}

fn f32_(b: u64) -> f32 {
    f32::from_bits(b as u32)
}
fn f64_(b: u64) -> f64 {
    f64::from_bits(b)
}
fn nearest(a: f64) -> f64 {
    // ties to even
    if !a.is_finite() || a == 0.0 {
        return a;
    }
    let r = a.abs();
    if r >= 4503599627370496.0 {
        return a;
    }
    let f = r.floor();
    let d = r - f;
    let v = if d > 0.5 || (d == 0.5 && f % 2.0 == 1.0) { f + 1.0 } else { f };
    v.copysign(a)
}
fn min64(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == 0.0 && b == 0.0 {
        if a.is_sign_negative() { a } else { b }
    } else if a < b {
        a
    } else {
        b
    }
}
fn max64(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == 0.0 && b == 0.0 {
        if a.is_sign_negative() { b } else { a }
    } else if a > b {
        a
    } else {
        b
    }
}
/// integer part as an i128 (exact), None when not finite
fn trunc(a: f64) -> Option<i128> {
    if !a.is_finite() {
        return None;
    }
    if a.abs() >= 1e30 {
        return Some(if a > 0.0 { i128::MAX } else { i128::MIN });
    }
    Some(a.trunc() as i128)
}
fn to_int(a: f64, lo: i128, hi: i128) -> Result<i128, Trap> {
    if a.is_nan() {
        return Err(Trap::Conversion);
    }
    match trunc(a) {
        Some(v) if v >= lo && v <= hi => Ok(v),
        _ => Err(Trap::Overflow),
    }
}
fn sat(a: f64, lo: i128, hi: i128) -> i128 {
    if a.is_nan() {
        return 0;
    }
    match trunc(a) {
        Some(v) => v.clamp(lo, hi),
        None => if a > 0.0 { hi } else { lo },
    }
}
const I32LO: i128 = i32::MIN as i128;
const I32HI: i128 = i32::MAX as i128;
const U32HI: i128 = u32::MAX as i128;
const I64LO: i128 = i64::MIN as i128;
const I64HI: i128 = i64::MAX as i128;
const U64HI: i128 = u64::MAX as i128;

/// value bits of the result; `nan` is set when an arithmetic NaN is produced (its payload is not determined)
pub fn eval(op: u16, a: u64, b: u64, nan: &mut bool) -> Result<u64, Trap> {
    let (x, y) = (a as u32, b as u32);
    let (xs, ys) = (x as i32, y as i32);
    let (sa, sb) = (a as i64, b as i64);
    let bl = |c: bool| c as u64;
    let n32 = |f: f32, nan: &mut bool| {
        if f.is_nan() {
            *nan = true;
        }
        f.to_bits() as u64
    };
    let n64 = |f: f64, nan: &mut bool| {
        if f.is_nan() {
            *nan = true;
        }
        f.to_bits()
    };
    let (fa, fb) = (f32_(a), f32_(b));
    let (da, db) = (f64_(a), f64_(b));
    Ok(match op {
        0x45 => bl(x == 0),
        0x46 => bl(x == y),
        0x47 => bl(x != y),
        0x48 => bl(xs < ys),
        0x49 => bl(x < y),
        0x4A => bl(xs > ys),
        0x4B => bl(x > y),
        0x4C => bl(xs <= ys),
        0x4D => bl(x <= y),
        0x4E => bl(xs >= ys),
        0x4F => bl(x >= y),
        0x50 => bl(a == 0),
        0x51 => bl(a == b),
        0x52 => bl(a != b),
        0x53 => bl(sa < sb),
        0x54 => bl(a < b),
        0x55 => bl(sa > sb),
        0x56 => bl(a > b),
        0x57 => bl(sa <= sb),
        0x58 => bl(a <= b),
        0x59 => bl(sa >= sb),
        0x5A => bl(a >= b),
        0x5B => bl(fa == fb),
        0x5C => bl(fa != fb),
        0x5D => bl(fa < fb),
        0x5E => bl(fa > fb),
        0x5F => bl(fa <= fb),
        0x60 => bl(fa >= fb),
        0x61 => bl(da == db),
        0x62 => bl(da != db),
        0x63 => bl(da < db),
        0x64 => bl(da > db),
        0x65 => bl(da <= db),
        0x66 => bl(da >= db),
        0x67 => (0..32).take_while(|i| x & (0x8000_0000 >> i) == 0).count() as u64,
        0x68 => (0..32).take_while(|i| x & (1 << i) == 0).count() as u64,
        0x69 => (0..32).filter(|i| x >> i & 1 == 1).count() as u64,
        0x6A => x.wrapping_add(y) as u64,
        0x6B => x.wrapping_sub(y) as u64,
        0x6C => ((x as u64 * y as u64) as u32) as u64,
        0x6D => {
            if y == 0 {
                return Err(Trap::DivZero);
            }
            if xs == i32::MIN && ys == -1 {
                return Err(Trap::Overflow);
            }
            (xs / ys) as u32 as u64
        }
        0x6E => if y == 0 { return Err(Trap::DivZero) } else { (x / y) as u64 },
        0x6F => if y == 0 { return Err(Trap::DivZero) } else { ((xs as i64 % ys as i64) as i32) as u32 as u64 },
        0x70 => if y == 0 { return Err(Trap::DivZero) } else { (x % y) as u64 },
        0x71 => (x & y) as u64,
        0x72 => (x | y) as u64,
        0x73 => (x ^ y) as u64,
        0x74 => (x << (y % 32)) as u64,
        0x75 => ((xs >> (y % 32)) as u32) as u64,
        0x76 => (x >> (y % 32)) as u64,
        0x77 => { let k = y % 32; if k == 0 { x as u64 } else { ((x << k) | (x >> (32 - k))) as u64 } }
        0x78 => { let k = y % 32; if k == 0 { x as u64 } else { ((x >> k) | (x << (32 - k))) as u64 } }
        0x79 => (0..64).take_while(|i| a & (1 << (63 - i)) == 0).count() as u64,
        0x7A => (0..64).take_while(|i| a & (1 << i) == 0).count() as u64,
        0x7B => (0..64).filter(|i| a >> i & 1 == 1).count() as u64,
        0x7C => a.wrapping_add(b),
        0x7D => a.wrapping_sub(b),
        0x7E => (a as u128 * b as u128) as u64,
        0x7F => {
            if b == 0 {
                return Err(Trap::DivZero);
            }
            if sa == i64::MIN && sb == -1 {
                return Err(Trap::Overflow);
            }
            (sa / sb) as u64
        }
        0x80 => if b == 0 { return Err(Trap::DivZero) } else { a / b },
        0x81 => if b == 0 { return Err(Trap::DivZero) } else { (sa as i128 % sb as i128) as i64 as u64 },
        0x82 => if b == 0 { return Err(Trap::DivZero) } else { a % b },
        0x83 => a & b,
        0x84 => a | b,
        0x85 => a ^ b,
        0x86 => a << (b % 64),
        0x87 => (sa >> (b % 64)) as u64,
        0x88 => a >> (b % 64),
        0x89 => { let k = b % 64; if k == 0 { a } else { (a << k) | (a >> (64 - k)) } }
        0x8A => { let k = b % 64; if k == 0 { a } else { (a >> k) | (a << (64 - k)) } }
        0x8B => (x & 0x7fff_ffff) as u64,
        0x8C => (x ^ 0x8000_0000) as u64,
        0x8D => n32(fa.ceil(), nan),
        0x8E => n32(fa.floor(), nan),
        0x8F => n32(fa.trunc(), nan),
        0x90 => n32(nearest(fa as f64) as f32, nan),
        0x91 => n32(fa.sqrt(), nan),
        0x92 => n32(fa + fb, nan),
        0x93 => n32(fa - fb, nan),
        0x94 => n32(fa * fb, nan),
        0x95 => n32(fa / fb, nan),
        0x96 => n32(min64(fa as f64, fb as f64) as f32, nan),
        0x97 => n32(max64(fa as f64, fb as f64) as f32, nan),
        0x98 => ((x & 0x7fff_ffff) | (y & 0x8000_0000)) as u64,
        0x99 => a & !(1 << 63),
        0x9A => a ^ (1 << 63),
        0x9B => n64(da.ceil(), nan),
        0x9C => n64(da.floor(), nan),
        0x9D => n64(da.trunc(), nan),
        0x9E => n64(nearest(da), nan),
        0x9F => n64(da.sqrt(), nan),
        0xA0 => n64(da + db, nan),
        0xA1 => n64(da - db, nan),
        0xA2 => n64(da * db, nan),
        0xA3 => n64(da / db, nan),
        0xA4 => n64(min64(da, db), nan),
        0xA5 => n64(max64(da, db), nan),
        0xA6 => (a & !(1 << 63)) | (b & (1 << 63)),
        0xA7 => x as u64,
        0xA8 => to_int(fa as f64, I32LO, I32HI)? as i32 as u32 as u64,
        0xA9 => to_int(fa as f64, 0, U32HI)? as u32 as u64,
        0xAA => to_int(da, I32LO, I32HI)? as i32 as u32 as u64,
        0xAB => to_int(da, 0, U32HI)? as u32 as u64,
        0xAC => xs as i64 as u64,
        0xAD => x as u64,
        0xAE => to_int(fa as f64, I64LO, I64HI)? as i64 as u64,
        0xAF => to_int(fa as f64, 0, U64HI)? as u64,
        0xB0 => to_int(da, I64LO, I64HI)? as i64 as u64,
        0xB1 => to_int(da, 0, U64HI)? as u64,
        0xB2 => n32(xs as f32, nan),
        0xB3 => n32(x as f32, nan),
        0xB4 => n32(sa as f32, nan),
        0xB5 => n32(a as f32, nan),
        0xB6 => n32(da as f32, nan),
        0xB7 => n64(xs as f64, nan),
        0xB8 => n64(x as f64, nan),
        0xB9 => n64(sa as f64, nan),
        0xBA => n64(a as f64, nan),
        0xBB => n64(fa as f64, nan),
        0xBC | 0xBE => x as u64,
        0xBD | 0xBF => a,
        0xC0 => x as u8 as i8 as i32 as u32 as u64,
        0xC1 => x as u16 as i16 as i32 as u32 as u64,
        0xC2 => a as u8 as i8 as i64 as u64,
        0xC3 => a as u16 as i16 as i64 as u64,
        0xC4 => x as i32 as i64 as u64,
        0xFC00 => sat(fa as f64, I32LO, I32HI) as i32 as u32 as u64,
        0xFC01 => sat(fa as f64, 0, U32HI) as u32 as u64,
        0xFC02 => sat(da, I32LO, I32HI) as i32 as u32 as u64,
        0xFC03 => sat(da, 0, U32HI) as u32 as u64,
        0xFC04 => sat(fa as f64, I64LO, I64HI) as i64 as u64,
        0xFC05 => sat(fa as f64, 0, U64HI) as u64,
        0xFC06 => sat(da, I64LO, I64HI) as i64 as u64,
        0xFC07 => sat(da, 0, U64HI) as u64,
        _ => panic!("op"),
    })
}
/// load/store opcode -> (type, width in bytes, sign extend)
pub fn mem_op(op: u8) -> (Ty, usize, bool) {
    match op {
        0x28 => (I32, 4, false),
        0x29 => (I64, 8, false),
        0x2A => (F32, 4, false),
        0x2B => (F64, 8, false),
        0x2C => (I32, 1, true),
        0x2D => (I32, 1, false),
        0x2E => (I32, 2, true),
        0x2F => (I32, 2, false),
        0x30 => (I64, 1, true),
        0x31 => (I64, 1, false),
        0x32 => (I64, 2, true),
        0x33 => (I64, 2, false),
        0x34 => (I64, 4, true),
        0x35 => (I64, 4, false),
        0x36 => (I32, 4, false),
        0x37 => (I64, 8, false),
        0x38 => (F32, 4, false),
        0x39 => (F64, 8, false),
        0x3A => (I32, 1, false),
        0x3B => (I32, 2, false),
        0x3C => (I64, 1, false),
        0x3D => (I64, 2, false),
        0x3E => (I64, 4, false),
        _ => panic!("mem op"),
    }
}
