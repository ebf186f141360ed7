//! Exhaustive enumeration: every well-typed straight-line sequence up to a length over a small
//! alphabet (constants, locals, globals, one unary / binary / comparison / conversion of the
//! element type, memory, select, drop, conditional branch), for each element type.
use crate::ast::*;
use crate::ops::Ty;

pub struct Enum {
    pub t: Ty,
    alpha: Vec<(I, Vec<Ty>, Vec<Ty>)>,
}
/// locals: 0,1 : T (parameters), 2 : i32 (parameter), 3 : T, 4 : i32
impl Enum {
    pub fn new(t: Ty, variant: usize) -> Enum {
        let i = Ty::I32;
        let (un, bi, cmp, cv, cvt): (u16, u16, u16, u16, Ty) = match (t, variant) {
            (Ty::I32, 0) => (0x68, 0x6B, 0x48, 0xAC, Ty::I64),
            (Ty::I32, _) => (0x67, 0x75, 0x4F, 0xB2, Ty::F32),
            (Ty::I64, 0) => (0x7A, 0x7D, 0x53, 0xA7, i),
            (Ty::I64, _) => (0x79, 0x87, 0x5A, 0xB5, Ty::F32),
            (Ty::F32, 0) => (0x8C, 0x93, 0x5D, 0xBB, Ty::F64),
            (Ty::F32, _) => (0x8D, 0x95, 0x60, 0xFC00, i),
            (Ty::F64, 0) => (0x9A, 0xA1, 0x63, 0xB6, Ty::F32),
            (_, _) => (0x9B, 0xA3, 0x66, 0xFC06, Ty::I64),
        };
        let (ld, st) = match t {
            Ty::I32 => (0x28, 0x36),
            Ty::I64 => (0x29, 0x37),
            Ty::F32 => (0x2A, 0x38),
            _ => (0x2B, 0x39),
        };
        let c = match t {
            Ty::I32 | Ty::I64 => 5,
            Ty::F32 => 2.5f32.to_bits() as u64,
            _ => 2.5f64.to_bits(),
        };
        let mut alpha = vec![
            (I::Get(0), vec![], vec![t]),
            (I::Const(t, c), vec![], vec![t]),
            (I::Num(bi), vec![t, t], vec![t]),
            (I::Num(un), vec![t], vec![t]),
            (I::Set(3), vec![t], vec![]),
            (I::Num(cmp), vec![t, t], vec![i]),
            (I::Select, vec![t, t, i], vec![t]),
            (I::Load(ld, 4), vec![i], vec![t]),
            (I::Store(st, 8), vec![i, t], vec![]),
            (I::GGet(0), vec![], vec![t]),
            (I::GSet(0), vec![t], vec![]),
            (I::Tee(0), vec![t], vec![t]),
            (I::Num(cv), vec![t], vec![cvt]),
            (I::Drop, vec![t], vec![]),
            (I::BrIf(0), vec![i], vec![]),
            (I::Get(3), vec![], vec![t]),
        ];
        if t != i {
            alpha.push((I::Get(2), vec![], vec![i]));
            alpha.push((I::Const(i, 3), vec![], vec![i]));
            alpha.push((I::Num(0x45), vec![i], vec![i]));
            alpha.push((I::Set(4), vec![i], vec![]));
        }
        Enum { t, alpha }
    }
    fn rec(&self, len: usize, st: &mut Vec<Ty>, cur: &mut Vec<I>, n: &mut u64, lo: u64, step: u64, sink: &mut dyn FnMut(&[I], &[Ty]) -> bool) -> bool {
        if len == 0 {
            let k = *n;
            *n += 1;
            if k % step == lo {
                return sink(cur, st);
            }
            return true;
        }
        for (ins, a, r) in &self.alpha {
            if !st.ends_with(a) || st.len() - a.len() + r.len() > 4 {
                continue;
            }
            let keep = st.clone();
            st.truncate(st.len() - a.len());
            st.extend(r.iter().copied());
            cur.push(ins.clone());
            let go = self.rec(len - 1, st, cur, n, lo, step, sink);
            cur.pop();
            *st = keep;
            if !go {
                return false;
            }
        }
        true
    }
    /// calls `sink` for every sequence of exactly `len` instructions (those of this shard)
    pub fn each(&self, len: usize, lo: u64, step: u64, sink: &mut dyn FnMut(&[I], &[Ty]) -> bool) -> (bool, u64) {
        let mut n = 0;
        let r = self.rec(len, &mut vec![], &mut vec![], &mut n, lo, step, sink);
        (r, n)
    }
    pub fn blank(&self) -> Mod {
        let mut m = Mod::default();
        let c = match self.t {
            Ty::F32 => 3f32.to_bits() as u64,
            Ty::F64 => 3f64.to_bits(),
            _ => 9,
        };
        m.globals.push((self.t, true, c));
        m.mem = Some((1, None));
        m.data.push((Some(0), (1..33u8).map(|k| k.wrapping_mul(7) & 0x3f).collect()));
        m
    }
    pub fn push(&self, m: &mut Mod, seq: &[I], st: &[Ty]) {
        // the sequence runs inside a block (target of the conditional branch); what it leaves on
        // the stack is returned, below the final values of the locals
        let mut body = vec![];
        let has_br = seq.iter().any(|i| matches!(i, I::BrIf(_)));
        if has_br {
            // the block has no results: leave the values through drops
            let mut b = seq.to_vec();
            for t in st.iter().rev() {
                b.push(if *t == self.t { I::Set(3) } else { I::Drop });
            }
            body.push(I::Block(vec![], vec![], b));
        } else {
            body.extend(seq.iter().cloned());
        }
        let mut res: Vec<Ty> = if has_br { vec![] } else { st.to_vec() };
        for l in [0, 3] {
            body.push(I::Get(l));
            res.push(self.t);
        }
        body.push(I::Get(4));
        res.push(Ty::I32);
        let sig = m.type_idx(&[self.t, self.t, Ty::I32], &res);
        m.funcs.push(Func { sig, locals: vec![self.t, Ty::I32], body });
    }
    pub fn args(&self, k: usize) -> Vec<u64> {
        let v = |x: f64| match self.t {
            Ty::F32 => (x as f32).to_bits() as u64,
            Ty::F64 => x.to_bits(),
            Ty::I32 => x as i32 as u32 as u64,
            _ => x as i64 as u64,
        };
        match k {
            0 => vec![v(11.0), v(-3.0), 0],
            _ => vec![v(-2.0), v(6.0), 12],
        }
    }
}
