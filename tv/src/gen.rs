//! Random well-typed programs, weighted towards one area of the language.
use crate::ast::*;
use crate::ops::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 | 1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 16) % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Fold,
    Control,
    Calls,
    Memory,
    Refs,
    Globals,
    Mixed,
    Inst,
}
pub fn profile(s: &str) -> Profile {
    match s {
        "fold" => Profile::Fold,
        "control" => Profile::Control,
        "calls" => Profile::Calls,
        "memory" => Profile::Memory,
        "refs" => Profile::Refs,
        "globals" => Profile::Globals,
        "inst" | "start" => Profile::Inst,
        _ => Profile::Mixed,
    }
}
const NUM: [Ty; 4] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64];

pub fn interesting(r: &mut Rng, t: Ty) -> u64 {
    match t {
        Ty::I32 => match r.below(6) {
            0 => *r.pick(&[0, 1, 2, 3, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 31, 32, 0x80, 0xff, 0x8000, 0xffff_fffe]),
            1 | 2 => r.below(16) as u64,
            3 => r.below(4) as u64,
            4 => (-(r.below(40) as i64)) as u32 as u64,
            _ => r.next() & 0xffff_ffff,
        },
        Ty::I64 => match r.below(5) {
            0 => *r.pick(&[0, 1, 2, u64::MAX, 1 << 63, (1 << 63) - 1, 63, 64, 0xffff_ffff, 0x8000_0000, 1 << 32]),
            1 | 2 => r.below(16) as u64,
            3 => (-(r.below(40) as i64)) as u64,
            _ => r.next(),
        },
        Ty::F32 => match r.below(4) {
            0 => *r.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 1, 0x4f00_0000, 0x3f00_0000]) as u64,
            1 => ((r.below(200) as f32 - 100.0) / 4.0).to_bits() as u64,
            2 => ((r.next() as i32) as f32).to_bits() as u64,
            _ => { let b = r.next() as u32; if f32::from_bits(b).is_nan() { 0x40490fdb } else { b as u64 } }
        },
        Ty::F64 => match r.below(4) {
            0 => *r.pick(&[0u64, 1 << 63, 1f64.to_bits(), (-1f64).to_bits(), f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 1, 0.5f64.to_bits()]),
            1 => ((r.below(200) as f64 - 100.0) / 4.0).to_bits(),
            2 => ((r.next() as i64) as f64).to_bits(),
            _ => { let b = r.next(); if f64::from_bits(b).is_nan() { 0x4009_21fb_5444_2d18 } else { b } }
        },
        Ty::Func => 0,
    }
}

pub struct Gen {
    pub r: Rng,
    pub m: Mod,
    pub p: Profile,
    ops: Vec<u16>,
    budget: i32,
    /// function signatures are fixed before the bodies are generated
    locals: Vec<Ty>,
    labels: Vec<Vec<Ty>>,
    ret: Vec<Ty>,
    me: usize,
    loop_ctr: Vec<u32>,
}

impl Gen {
    fn ty(&mut self) -> Ty {
        match self.p {
            Profile::Refs if self.r.chance(30) => Ty::Func,
            Profile::Memory | Profile::Control | Profile::Refs if self.r.chance(60) => Ty::I32,
            _ => *self.r.pick(&NUM),
        }
    }
    fn tys(&mut self, max: usize) -> Vec<Ty> {
        let n = self.r.below(max + 1);
        (0..n).map(|_| self.ty()).collect()
    }
    pub fn module(seed: u64, p: Profile) -> Mod {
        let mut g = Gen {
            r: Rng::new(seed),
            m: Mod::default(),
            p,
            ops: all_ops().into_iter().filter(|o| !matches!(o, 0xBC | 0xBD)).collect(),
            budget: 0,
            locals: vec![],
            labels: vec![],
            ret: vec![],
            me: 0,
            loop_ctr: vec![],
        };
        let nf = match p {
            Profile::Calls => 3 + g.r.below(3),
            Profile::Mixed | Profile::Refs | Profile::Inst => 2 + g.r.below(3),
            _ => 1 + g.r.below(2),
        };
        // operation subset per module makes collisions of interesting shapes more likely
        if g.r.chance(50) {
            let k = 4 + g.r.below(10);
            let mut v = vec![];
            for _ in 0..k {
                let o = *g.r.pick(&g.ops.clone());
                v.push(o);
            }
            v.extend([0x6A, 0x6B, 0x45, 0x48]);
            g.ops = v;
        }
        let ng = if matches!(p, Profile::Globals | Profile::Mixed | Profile::Calls | Profile::Inst) { 1 + g.r.below(4) } else { g.r.below(2) };
        for _ in 0..ng {
            let t = *g.r.pick(&NUM);
            let v = match t {
                Ty::I32 | Ty::I64 => interesting(&mut g.r, t),
                // instantiation evaluates float initialisers through the wasm constant
                _ => interesting(&mut g.r, t),
            };
            let mu = !g.r.chance(15);
            g.m.globals.push((t, mu, v));
        }
        g.m.mem = Some((1, if g.r.chance(50) { None } else { Some(1 + g.r.below(4) as u32) }));
        if g.r.chance(70) {
            let n = 1 + g.r.below(12);
            let d: Vec<u8> = (0..n).map(|_| g.r.next() as u8).collect();
            let o = g.r.below(24) as u32;
            g.m.data.push((Some(o), d));
        }
        if g.r.chance(60) {
            let n = 1 + g.r.below(12);
            let d: Vec<u8> = (0..n).map(|_| g.r.next() as u8).collect();
            g.m.data.push((None, d));
        }
        if p == Profile::Inst {
            g.inst_data();
        }
        let mut sigs = vec![];
        for k in 0..nf {
            let mut ps = g.tys(4);
            if k == 0 {
                ps.retain(|t| *t != Ty::Func);
            }
            let rs = if g.r.chance(70) { vec![g.ty()] } else { g.tys(3) };
            let rs: Vec<Ty> = if k == 0 { rs.into_iter().map(|t| if t == Ty::Func { Ty::I32 } else { t }).collect() } else { rs };
            let t = if k > 1 && g.r.chance(40) { *g.r.pick(&sigs) } else { g.m.type_idx(&ps, &rs) };
            sigs.push(t);
            g.m.funcs.push(Func { sig: t, locals: vec![], body: vec![] });
        }
        let tn = 2 + g.r.below(5) as u32;
        g.m.table = Some(tn);
        if p == Profile::Inst {
            g.inst_elems(tn, nf);
        }
        let ne = if p == Profile::Inst { 0 } else { g.r.below(tn as usize + 1) };
        if ne > 0 {
            let off = g.r.below(tn as usize - ne + 1) as u32;
            let fs: Vec<u32> = (0..ne).map(|_| g.r.below(nf) as u32).collect();
            g.m.elems.push((off, fs, 0));
        }
        for k in 0..nf {
            let sg = g.m.types[sigs[k]].clone();
            let mut ls = g.tys(5);
            g.loop_ctr.clear();
            g.locals = sg.params.clone();
            g.locals.extend(ls.iter().copied());
            // two counters that only the loop idiom writes
            for _ in 0..2 {
                ls.push(Ty::I32);
                g.loop_ctr.push(g.locals.len() as u32);
                g.locals.push(Ty::I32);
            }
            g.labels = vec![sg.results.clone()];
            g.ret = sg.results.clone();
            g.me = k;
            g.budget = match p {
                Profile::Fold => 12 + g.r.below(20) as i32,
                Profile::Control => 15 + g.r.below(50) as i32,
                _ => 10 + g.r.below(35) as i32,
            };
            let body = g.seq(&[], &sg.results, 0);
            g.m.funcs[k].locals = ls;
            g.m.funcs[k].body = body;
        }
        g.m
    }
    /// several segments, overlapping, at the edges of the memory and (sometimes) beyond them
    fn inst_data(&mut self) {
        let pages = if self.r.chance(20) { 0 } else { 1 + self.r.below(2) as u32 };
        let max = if self.r.chance(50) { None } else { Some(pages + self.r.below(3) as u32) };
        self.m.mem = Some((pages, max));
        self.m.data.clear();
        let size = pages * 65536;
        for _ in 0..self.r.below(5) {
            let n = self.r.below(12) as u32;
            let d: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
            let off = match self.r.below(12) {
                0 => size.wrapping_sub(n),
                1 if self.r.chance(30) => size.wrapping_sub(n).wrapping_add(1),
                2 if self.r.chance(20) => size + 1,
                3 if self.r.chance(20) => *self.r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff]),
                _ => self.r.below(24) as u32,
            };
            let off = if self.r.chance(75) { Some(off) } else { None };
            self.m.data.push((off, d));
        }
    }
    fn inst_elems(&mut self, tn: u32, nf: usize) {
        for _ in 0..self.r.below(4) {
            let n = self.r.below(tn as usize + 1);
            let nulls = self.r.chance(30);
            let fs: Vec<u32> = (0..n).map(|_| if nulls && self.r.chance(40) { u32::MAX } else { self.r.below(nf) as u32 }).collect();
            let off = match self.r.below(20) {
                0 => tn - n as u32 + 1,
                1 => tn + 1,
                2 => *self.r.pick(&[u32::MAX, 0x8000_0000]),
                _ => self.r.below(tn as usize - n + 1) as u32,
            };
            let mode = *self.r.pick(&[0, 0, 0, 2, 2, 1, 3]);
            self.m.elems.push((off, fs, mode));
        }
    }
    fn local_of(&mut self, t: Ty) -> Option<u32> {
        let v: Vec<u32> = (0..self.locals.len() as u32).filter(|i| self.locals[*i as usize] == t).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn wlocal_of(&mut self, t: Ty) -> Option<u32> {
        let v: Vec<u32> = (0..self.locals.len() as u32).filter(|i| self.locals[*i as usize] == t && !self.loop_ctr.contains(i)).collect();
        if v.is_empty() { None } else { Some(*self.r.pick(&v)) }
    }
    fn leaf(&mut self, t: Ty, o: &mut Vec<I>) {
        if t == Ty::Func {
            match self.r.below(3) {
                0 => o.push(I::RefNull),
                1 => {
                    // a reference read from the table (ref.func is not supported by chiwawa)
                    if self.m.table.is_some() {
                        let k = self.r.below(self.m.table.unwrap() as usize) as u64;
                        o.push(I::Const(Ty::I32, k));
                        o.push(I::TGet)
                    } else {
                        o.push(I::RefNull)
                    }
                }
                _ => match self.local_of(t) {
                    Some(l) => o.push(I::Get(l)),
                    None => o.push(I::RefNull),
                },
            }
            return;
        }
        let k = self.r.below(10);
        if k < 6 {
            if let Some(l) = self.local_of(t) {
                o.push(I::Get(l));
                return;
            }
        }
        if k == 6 || (self.p == Profile::Globals && k < 9) {
            let v: Vec<u32> = (0..self.m.globals.len() as u32).filter(|i| self.m.globals[*i as usize].0 == t).collect();
            if !v.is_empty() {
                let g = *self.r.pick(&v);
                o.push(I::GGet(g));
                return;
            }
        }
        let c = interesting(&mut self.r, t);
        o.push(I::Const(t, c));
    }
    /// an expression of type t; depth bounds the tree
    fn expr(&mut self, t: Ty, depth: u32, o: &mut Vec<I>) {
        self.budget -= 1;
        if depth == 0 || self.budget < 0 || self.r.chance(30) {
            return self.leaf(t, o);
        }
        if t == Ty::Func {
            match self.r.below(4) {
                0 => {
                    self.small_index(o);
                    o.push(I::TGet)
                }
                1 => {
                    self.expr(t, depth - 1, o);
                    self.expr(t, depth - 1, o);
                    self.expr(Ty::I32, depth - 1, o);
                    o.push(I::SelectT(t))
                }
                _ => self.leaf(t, o),
            }
            return;
        }
        let ctl = match self.p {
            Profile::Control | Profile::Mixed => 25,
            Profile::Calls => 12,
            Profile::Fold => 4,
            _ => 8,
        };
        if self.r.chance(ctl) {
            return self.control(&[], &[t], depth - 1, o);
        }
        let call = match self.p { Profile::Calls => 30, Profile::Mixed | Profile::Refs => 12, _ => 4 };
        if self.r.chance(call) {
            if let Some(rs) = self.call_any(depth - 1, o) {
                // keep one matching result, or drop everything
                for x in rs.iter().rev() {
                    let _ = x;
                    o.push(I::Drop);
                }
                if rs.first() == Some(&t) {
                    o.pop();
                    return;
                }
                return self.leaf(t, o);
            }
        }
        let mem = match self.p { Profile::Memory => 30, Profile::Mixed => 12, Profile::Fold => 10, _ => 3 };
        if self.r.chance(mem) {
            let ops: Vec<u8> = (0x28..=0x35u8).filter(|x| mem_op(*x).0 == t).collect();
            let op = *self.r.pick(&ops);
            self.address(depth - 1, o);
            let off = if self.r.chance(50) { 0 } else { self.r.below(40) as u32 };
            o.push(I::Load(op, off));
            return;
        }
        if t == Ty::I32 && self.p == Profile::Refs && self.r.chance(40) {
            self.expr(Ty::Func, depth - 1, o);
            o.push(I::RefIsNull);
            return;
        }
        match self.r.below(12) {
            0 => {
                self.expr(t, depth - 1, o);
                self.expr(t, depth - 1, o);
                self.expr(Ty::I32, depth - 1, o);
                o.push(if self.r.chance(80) { I::Select } else { I::SelectT(t) });
            }
            1 => {
                self.expr(t, depth - 1, o);
                match self.wlocal_of(t) {
                    Some(l) => o.push(I::Tee(l)),
                    None => {}
                }
            }
            2 if t == Ty::I32 => o.push(I::MemSize),
            3 if t == Ty::I32 && self.p == Profile::Memory => {
                let n = if self.r.chance(80) { self.r.below(3) as u64 } else { interesting(&mut self.r, Ty::I32) };
                o.push(I::Const(Ty::I32, n));
                o.push(I::MemGrow);
            }
            _ => {
                let v: Vec<u16> = self.ops.iter().copied().filter(|x| sig(*x).1 == t).collect();
                if v.is_empty() {
                    return self.leaf(t, o);
                }
                let mut op = *self.r.pick(&v);
                // make divisions rarer: most of them trap
                if matches!(op, 0x6D..=0x70 | 0x7F..=0x82) && self.r.chance(60) {
                    op = if t == Ty::I32 { 0x6B } else { 0x7D };
                }
                if matches!(op, 0xA8..=0xAB | 0xAE..=0xB1) && self.r.chance(60) {
                    op = match op { 0xA8 => 0xFC00, 0xA9 => 0xFC01, 0xAA => 0xFC02, 0xAB => 0xFC03, 0xAE => 0xFC04, 0xAF => 0xFC05, 0xB0 => 0xFC06, _ => 0xFC07 };
                }
                for t in sig(op).0 {
                    self.expr(*t, depth - 1, o);
                }
                o.push(I::Num(op));
            }
        }
    }
    fn small_index(&mut self, o: &mut Vec<I>) {
        let n = self.m.table.unwrap() as usize;
        if self.r.chance(60) {
            let k = if self.r.chance(97) { self.r.below(n) } else { n };
            o.push(I::Const(Ty::I32, k as u64))
        } else {
            self.leaf(Ty::I32, o);
            o.push(I::Const(Ty::I32, 1));
            o.push(I::Num(0x71));
        }
    }
    fn address(&mut self, depth: u32, o: &mut Vec<I>) {
        match self.r.below(4) {
            0 => {
                let a = self.r.below(64) as u64;
                o.push(I::Const(Ty::I32, a))
            }
            1 => self.leaf(Ty::I32, o),
            _ => {
                self.expr(Ty::I32, depth.min(2), o);
                o.push(I::Const(Ty::I32, 0x3f));
                o.push(I::Num(0x71));
            }
        }
    }
    fn call_any(&mut self, depth: u32, o: &mut Vec<I>) -> Option<Vec<Ty>> {
        let n = self.m.funcs.len();
        // mostly calls later functions; sometimes any (recursion, cut off by fuel)
        let f = if self.r.chance(92) {
            if self.me + 1 >= n { return None; }
            self.me + 1 + self.r.below(n - self.me - 1)
        } else {
            self.r.below(n)
        };
        let ti = self.m.funcs[f].sig;
        let sg = self.m.types[ti].clone();
        for t in &sg.params {
            self.expr(*t, depth.min(2), o);
        }
        if self.r.chance(35) {
            self.small_index(o);
            o.push(I::CallInd(ti as u32));
        } else {
            o.push(I::Call(f as u32));
        }
        Some(sg.results)
    }
    /// a structured instruction consuming `ps` (on the stack) and producing `rs`
    fn control(&mut self, ps: &[Ty], rs: &[Ty], depth: u32, o: &mut Vec<I>) {
        match self.r.below(10) {
            0..=3 => {
                self.labels.push(rs.to_vec());
                let b = self.seq(ps, rs, depth);
                self.labels.pop();
                o.push(I::Block(ps.to_vec(), rs.to_vec(), b));
            }
            4..=7 => {
                self.expr(Ty::I32, depth.min(2), o);
                self.labels.push(rs.to_vec());
                let a = self.seq(ps, rs, depth);
                let b = if ps == rs && self.r.chance(40) { None } else { Some(self.seq(ps, rs, depth)) };
                self.labels.pop();
                o.push(I::If(ps.to_vec(), rs.to_vec(), a, b));
            }
            _ => {
                // a loop that counts down
                let c = *self.r.pick(&self.loop_ctr.clone());
                let n = 1 + self.r.below(4) as u64;
                o.push(I::Const(Ty::I32, n));
                o.push(I::Set(c));
                self.labels.push(ps.to_vec());
                let mut b = self.seq(ps, ps, depth);
                self.labels.pop();
                b.push(I::Get(c));
                b.push(I::Const(Ty::I32, 1));
                b.push(I::Num(0x6B));
                b.push(I::Tee(c));
                b.push(I::BrIf(0));
                // after the loop: ps -> rs
                self.adjust(ps, rs, &mut b);
                o.push(I::Loop(ps.to_vec(), rs.to_vec(), b));
            }
        }
    }
    /// turn the stack `from` into `to`
    fn adjust(&mut self, from: &[Ty], to: &[Ty], o: &mut Vec<I>) {
        let k = from.iter().zip(to).take_while(|(a, b)| a == b).count();
        for _ in k..from.len() {
            o.push(I::Drop);
        }
        for t in &to[k..] {
            self.expr(*t, 2, o);
        }
    }
    fn seq(&mut self, ps: &[Ty], rs: &[Ty], depth: u32) -> Vec<I> {
        let mut st = ps.to_vec();
        let mut o = vec![];
        let n = match self.p { Profile::Control => 2 + self.r.below(6), Profile::Fold => 3 + self.r.below(10), _ => 1 + self.r.below(6) };
        let dmax = if self.labels.len() > 5 { 1 } else { 3 };
        for _ in 0..n {
            if self.budget < 0 {
                break;
            }
            self.budget -= 1;
            let ctl = match self.p { Profile::Control => 45, Profile::Calls => 20, Profile::Fold => 6, _ => 15 };
            if depth < 6 && self.r.chance(ctl) {
                match self.r.below(10) {
                    0..=4 => {
                        let take = self.r.below(st.len().min(2) + 1);
                        let ps2 = st.split_off(st.len() - take);
                        let rs2 = if self.r.chance(50) { vec![] } else { self.tys(2) };
                        let mut c = vec![];
                        // `if` and the counted loop push operands of their own: parameters stay below them
                        self.control_with_params(&ps2, &rs2, depth + 1, &mut c);
                        o.extend(c);
                        st.extend(rs2);
                    }
                    5 | 6 => {
                        // conditional branch: operands of the label on top of the stack
                        let k = self.r.below(self.labels.len());
                        let lt = self.labels[self.labels.len() - 1 - k].clone();
                        if !st.ends_with(&lt) {
                            for t in &lt {
                                self.expr(*t, dmax, &mut o);
                            }
                            st.extend(lt.iter().copied());
                        }
                        self.expr(Ty::I32, dmax, &mut o);
                        o.push(I::BrIf(k as u32));
                    }
                    7 => {
                        // br_table inside its own block, so that code after it is live
                        let rs2 = if self.r.chance(60) { vec![] } else { vec![self.ty()] };
                        let mut b = vec![];
                        self.labels.push(rs2.clone());
                        let cands: Vec<u32> = (0..self.labels.len() as u32).filter(|k| self.labels[self.labels.len() - 1 - *k as usize] == rs2).collect();
                        for t in &rs2 {
                            self.expr(*t, dmax, &mut b);
                        }
                        self.expr(Ty::I32, 1, &mut b);
                        if self.r.chance(70) {
                            b.push(I::Const(Ty::I32, 3));
                            b.push(I::Num(0x71));
                        }
                        let v: Vec<u32> = (0..self.r.below(4)).map(|_| *self.r.pick(&cands)).collect();
                        let d = *self.r.pick(&cands);
                        b.push(I::BrTable(v, d));
                        self.dead(&mut b);
                        self.labels.pop();
                        o.push(I::Block(vec![], rs2.clone(), b));
                        st.extend(rs2);
                    }
                    _ => {
                        // leave the sequence
                        if self.labels.len() > 1 && self.r.chance(60) || self.r.chance(10) {
                            let k = self.r.below(self.labels.len());
                            if self.r.chance(75) {
                                let lt = self.labels[self.labels.len() - 1 - k].clone();
                                if !st.ends_with(&lt) {
                                    for t in &lt {
                                        self.expr(*t, dmax, &mut o);
                                    }
                                }
                                o.push(I::Br(k as u32));
                            } else if self.r.chance(90) {
                                let lt = self.ret.clone();
                                if !st.ends_with(&lt) {
                                    for t in &lt {
                                        self.expr(*t, dmax, &mut o);
                                    }
                                }
                                o.push(I::Return);
                            } else {
                                o.push(I::Unreachable);
                            }
                            self.dead(&mut o);
                            return o;
                        }
                    }
                }
                continue;
            }
            match self.r.below(10) {
                0 | 1 => {
                    let t = self.ty();
                    self.expr(t, dmax, &mut o);
                    st.push(t);
                }
                2 => {
                    // apply an operation to what is on the stack
                    let v: Vec<u16> = self.ops.iter().copied().filter(|x| st.ends_with(sig(*x).0)).collect();
                    if !v.is_empty() {
                        let op = *self.r.pick(&v);
                        let (ins, out) = sig(op);
                        st.truncate(st.len() - ins.len());
                        st.push(out);
                        o.push(I::Num(op));
                    }
                }
                3 if !st.is_empty() => {
                    let t = *st.last().unwrap();
                    match self.r.below(3) {
                        0 => {
                            o.push(I::Drop);
                            st.pop();
                        }
                        1 => {
                            if let Some(l) = self.wlocal_of(t) {
                                o.push(I::Tee(l))
                            }
                        }
                        _ => {
                            if let Some(l) = self.wlocal_of(t) {
                                o.push(I::Set(l));
                                st.pop();
                            }
                        }
                    }
                }
                4 | 5 => {
                    let t = self.ty();
                    if let Some(l) = self.wlocal_of(t) {
                        self.expr(t, dmax, &mut o);
                        o.push(I::Set(l));
                    }
                }
                6 => {
                    let v: Vec<u32> = (0..self.m.globals.len() as u32).filter(|i| self.m.globals[*i as usize].1).collect();
                    if !v.is_empty() {
                        let g = *self.r.pick(&v);
                        let t = self.m.globals[g as usize].0;
                        self.expr(t, dmax, &mut o);
                        o.push(I::GSet(g));
                    }
                }
                7 => {
                    if matches!(self.p, Profile::Refs) {
                        match self.r.below(3) {
                            0 | 1 => {
                                self.small_index(&mut o);
                                self.expr(Ty::Func, 1, &mut o);
                                o.push(I::TSet)
                            }
                            _ => {
                                let n = self.m.table.unwrap() as usize;
                                let i = self.r.below(n);
                                let c = self.r.below(n - i + 1);
                                o.push(I::Const(Ty::I32, i as u64));
                                self.expr(Ty::Func, 1, &mut o);
                                o.push(I::Const(Ty::I32, c as u64));
                                o.push(I::TFill)
                            }
                        }
                        continue;
                    }
                    let op = 0x36 + self.r.below(9) as u8;
                    self.address(dmax, &mut o);
                    self.expr(mem_op(op).0, dmax, &mut o);
                    let off = if self.r.chance(50) { 0 } else { self.r.below(40) as u32 };
                    o.push(I::Store(op, off));
                }
                8 => {
                    if matches!(self.p, Profile::Memory | Profile::Inst) || self.r.chance(15) {
                        match self.r.below(4) {
                            0 => {
                                for _ in 0..2 {
                                    self.address(1, &mut o);
                                }
                                self.address(1, &mut o);
                                o.push(I::MemCopy)
                            }
                            1 => {
                                self.address(1, &mut o);
                                self.expr(Ty::I32, 1, &mut o);
                                self.address(1, &mut o);
                                o.push(I::MemFill)
                            }
                            2 => {
                                let k = self.m.data.len();
                                if k > 0 {
                                    let d = self.r.below(k);
                                    let len = self.m.data[d].1.len();
                                    let a = self.r.below(60) as u64;
                                    let s = self.r.below(len + 1);
                                    let n = self.r.below(len - s + 1);
                                    o.push(I::Const(Ty::I32, a));
                                    o.push(I::Const(Ty::I32, s as u64));
                                    o.push(I::Const(Ty::I32, n as u64));
                                    // active segments are dropped: a copy of length 0 is all that is left
                                    if self.m.data[d].0.is_none() || self.r.chance(20) {
                                        o.push(I::MemInit(d as u32))
                                    } else {
                                        o.extend([I::Drop, I::Drop, I::Drop])
                                    }
                                    if self.r.chance(15) {
                                        o.push(I::DataDrop(d as u32))
                                    }
                                }
                            }
                            _ => {
                                self.expr(Ty::I32, 1, &mut o);
                                o.push(I::Const(Ty::I32, 1));
                                o.push(I::Num(0x71));
                                o.push(I::MemGrow);
                                o.push(I::Drop)
                            }
                        }
                    } else {
                        o.push(I::Nop)
                    }
                }
                _ => {
                    if let Some(rs2) = self.call_any(dmax, &mut o) {
                        st.extend(rs2);
                    }
                }
            }
        }
        self.adjust(&st.clone(), rs, &mut o);
        o
    }
    fn control_with_params(&mut self, ps: &[Ty], rs: &[Ty], depth: u32, o: &mut Vec<I>) {
        self.control(ps, rs, depth, o)
    }
    /// code after an unconditional transfer: must be valid, is never executed
    fn dead(&mut self, o: &mut Vec<I>) {
        match self.r.below(8) {
            0 => {
                self.leaf(Ty::I32, o);
                o.push(I::Drop)
            }
            1 => {
                o.push(I::Num(0x6A));
                o.push(I::Drop)
            }
            2 => {
                o.push(I::Block(vec![], vec![], vec![I::Const(Ty::I32, 7), I::Drop]));
            }
            3 => {
                o.push(I::Const(Ty::I32, 1));
                o.push(I::If(vec![], vec![], vec![I::Nop], Some(vec![I::Nop])));
            }
            4 => {
                if let Some(l) = self.wlocal_of(Ty::I32) {
                    o.push(I::Set(l))
                }
            }
            _ => {}
        }
    }
}
