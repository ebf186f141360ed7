//! Programs: syntax and binary encoding.
use crate::ops::Ty;

#[derive(Clone, Debug, PartialEq)]
pub enum I {
    Const(Ty, u64),
    Num(u16),
    Get(u32),
    Set(u32),
    Tee(u32),
    GGet(u32),
    GSet(u32),
    Load(u8, u32),
    Store(u8, u32),
    MemSize,
    MemGrow,
    MemCopy,
    MemFill,
    MemInit(u32),
    DataDrop(u32),
    Drop,
    Select,
    SelectT(Ty),
    Nop,
    Unreachable,
    Block(Vec<Ty>, Vec<Ty>, Vec<I>),
    Loop(Vec<Ty>, Vec<Ty>, Vec<I>),
    If(Vec<Ty>, Vec<Ty>, Vec<I>, Option<Vec<I>>),
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Return,
    Call(u32),
    CallInd(u32),
    RefNull,
    RefFunc(u32),
    RefIsNull,
    TGet,
    TSet,
    TFill,
    /// call of the imported WASI function sched_yield (only with Mod::wasi)
    Wasi,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub sig: usize,
    pub locals: Vec<Ty>,
    pub body: Vec<I>,
}
#[derive(Clone, Debug, Default)]
pub struct Mod {
    pub types: Vec<Sig>,
    pub funcs: Vec<Func>,
    pub globals: Vec<(Ty, bool, u64)>,
    pub mem: Option<(u32, Option<u32>)>,
    /// active data segments (offset, bytes) then passive ones
    pub data: Vec<(Option<u32>, Vec<u8>)>,
    /// table size and element segments (offset, function indices, mode: 0 active, 1 passive, 2 active with a table index, 3 declarative)
    pub table: Option<u32>,
    pub elems: Vec<(u32, Vec<u32>, u8)>,
    /// the module imports wasi sched_yield as function 0 (all others move up by one)
    pub wasi: bool,
    /// start function
    pub start: Option<u32>,
    /// also export the table as "t", the memory as "m" and every global k as "g<k>", functions twice
    pub exports: bool,
    /// nops put in front of function 0 (shifts the phase of the checkpoint poll)
    pub nops: u32,
}
impl Mod {
    pub fn type_idx(&mut self, params: &[Ty], results: &[Ty]) -> usize {
        let s = Sig { params: params.to_vec(), results: results.to_vec() };
        match self.types.iter().position(|t| *t == s) {
            Some(i) => i,
            None => {
                self.types.push(s);
                self.types.len() - 1
            }
        }
    }
}

fn u(mut v: u64, o: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn s(mut v: i64, o: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn bt(m: &mut Vec<Sig>, p: &[Ty], r: &[Ty], o: &mut Vec<u8>) {
    if p.is_empty() && r.is_empty() {
        o.push(0x40)
    } else if p.is_empty() && r.len() == 1 {
        o.push(r[0].byte())
    } else {
        let sg = Sig { params: p.to_vec(), results: r.to_vec() };
        let i = m.iter().position(|t| *t == sg).unwrap_or_else(|| {
            m.push(sg);
            m.len() - 1
        });
        s(i as i64, o)
    }
}
fn konst(t: Ty, v: u64, o: &mut Vec<u8>) {
    match t {
        Ty::I32 => {
            o.push(0x41);
            s(v as u32 as i32 as i64, o)
        }
        Ty::I64 => {
            o.push(0x42);
            s(v as i64, o)
        }
        Ty::F32 => {
            o.push(0x43);
            o.extend_from_slice(&(v as u32).to_le_bytes())
        }
        Ty::F64 => {
            o.push(0x44);
            o.extend_from_slice(&v.to_le_bytes())
        }
        Ty::Func => o.extend_from_slice(&[0xD0, 0x70]),
    }
}
fn seq(m: &mut Vec<Sig>, w: u32, is: &[I], o: &mut Vec<u8>) {
    for i in is {
        match i {
            I::Const(t, v) => konst(*t, *v, o),
            I::Num(op) => {
                if *op >= 0xFC00 {
                    o.push(0xFC);
                    u((*op - 0xFC00) as u64, o)
                } else {
                    o.push(*op as u8)
                }
            }
            I::Get(i) => { o.push(0x20); u(*i as u64, o) }
            I::Set(i) => { o.push(0x21); u(*i as u64, o) }
            I::Tee(i) => { o.push(0x22); u(*i as u64, o) }
            I::GGet(i) => { o.push(0x23); u(*i as u64, o) }
            I::GSet(i) => { o.push(0x24); u(*i as u64, o) }
            I::Load(op, off) | I::Store(op, off) => {
                o.push(*op);
                o.push(0);
                u(*off as u64, o)
            }
            I::MemSize => o.extend_from_slice(&[0x3F, 0]),
            I::MemGrow => o.extend_from_slice(&[0x40, 0]),
            I::MemCopy => o.extend_from_slice(&[0xFC, 10, 0, 0]),
            I::MemFill => o.extend_from_slice(&[0xFC, 11, 0]),
            I::MemInit(k) => { o.extend_from_slice(&[0xFC, 8]); u(*k as u64, o); o.push(0) }
            I::DataDrop(k) => { o.extend_from_slice(&[0xFC, 9]); u(*k as u64, o) }
            I::Drop => o.push(0x1A),
            I::Select => o.push(0x1B),
            I::SelectT(t) => o.extend_from_slice(&[0x1C, 1, t.byte()]),
            I::Nop => o.push(1),
            I::Unreachable => o.push(0),
            I::Block(p, r, b) => { o.push(2); bt(m, p, r, o); seq(m, w, b, o); o.push(0x0B) }
            I::Loop(p, r, b) => { o.push(3); bt(m, p, r, o); seq(m, w, b, o); o.push(0x0B) }
            I::If(p, r, a, b) => {
                o.push(4);
                bt(m, p, r, o);
                seq(m, w, a, o);
                if let Some(b) = b {
                    o.push(5);
                    seq(m, w, b, o);
                }
                o.push(0x0B)
            }
            I::Br(n) => { o.push(0x0C); u(*n as u64, o) }
            I::BrIf(n) => { o.push(0x0D); u(*n as u64, o) }
            I::BrTable(v, d) => {
                o.push(0x0E);
                u(v.len() as u64, o);
                for x in v {
                    u(*x as u64, o);
                }
                u(*d as u64, o)
            }
            I::Return => o.push(0x0F),
            I::Call(f) => { o.push(0x10); u((*f + w) as u64, o) }
            I::Wasi => { o.push(0x10); u(0, o) }
            I::CallInd(t) => { o.push(0x11); u(*t as u64, o); o.push(0) }
            I::RefNull => o.extend_from_slice(&[0xD0, 0x70]),
            I::RefFunc(f) => { o.push(0xD2); u((*f + w) as u64, o) }
            I::RefIsNull => o.push(0xD1),
            I::TGet => o.extend_from_slice(&[0x25, 0]),
            I::TSet => o.extend_from_slice(&[0x26, 0]),
            I::TFill => o.extend_from_slice(&[0xFC, 17, 0]),
        }
    }
}
fn section(id: u8, n: usize, body: Vec<u8>, o: &mut Vec<u8>) {
    let mut b = vec![];
    u(n as u64, &mut b);
    b.extend(body);
    o.push(id);
    u(b.len() as u64, o);
    o.extend(b);
}
/// every function k is exported as "f<k>"
pub fn encode(m: &Mod) -> Vec<u8> {
    let mut types = m.types.clone();
    let w = m.wasi as u32;
    let mut wt = 0;
    if m.wasi {
        let sg = Sig { params: vec![], results: vec![Ty::I32] };
        wt = types.iter().position(|t| *t == sg).unwrap_or_else(|| {
            types.push(sg);
            types.len() - 1
        });
    }
    let mut code = vec![];
    for (k, f) in m.funcs.iter().enumerate() {
        let mut b = vec![];
        u(f.locals.len() as u64, &mut b);
        for t in &f.locals {
            u(1, &mut b);
            b.push(t.byte());
        }
        if k == 0 {
            b.extend(std::iter::repeat(1).take(m.nops as usize));
        }
        seq(&mut types, w, &f.body, &mut b);
        b.push(0x0B);
        u(b.len() as u64, &mut code);
        code.extend(b);
    }
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    let mut b = vec![];
    for t in &types {
        b.push(0x60);
        u(t.params.len() as u64, &mut b);
        b.extend(t.params.iter().map(|t| t.byte()));
        u(t.results.len() as u64, &mut b);
        b.extend(t.results.iter().map(|t| t.byte()));
    }
    section(1, types.len(), b, &mut o);
    if m.wasi {
        let mut b = vec![];
        for n in ["wasi_snapshot_preview1", "sched_yield"] {
            u(n.len() as u64, &mut b);
            b.extend(n.bytes());
        }
        b.push(0);
        u(wt as u64, &mut b);
        section(2, 1, b, &mut o);
    }
    let mut b = vec![];
    for f in &m.funcs {
        u(f.sig as u64, &mut b);
    }
    section(3, m.funcs.len(), b, &mut o);
    if let Some(n) = m.table {
        let mut b = vec![0x70, 0];
        u(n as u64, &mut b);
        section(4, 1, b, &mut o);
    }
    if let Some((min, max)) = m.mem {
        let mut b = vec![];
        match max {
            None => {
                b.push(0);
                u(min as u64, &mut b);
            }
            Some(x) => {
                b.push(1);
                u(min as u64, &mut b);
                u(x as u64, &mut b);
            }
        }
        section(5, 1, b, &mut o);
    }
    if !m.globals.is_empty() {
        let mut b = vec![];
        for (t, mu, v) in &m.globals {
            b.push(t.byte());
            b.push(*mu as u8);
            konst(*t, *v, &mut b);
            b.push(0x0B);
        }
        section(6, m.globals.len(), b, &mut o);
    }
    let mut b = vec![];
    for k in 0..m.funcs.len() {
        let n = format!("f{k}");
        u(n.len() as u64, &mut b);
        b.extend(n.bytes());
        b.push(0);
        u(k as u64 + w as u64, &mut b);
    }
    let mut n = m.funcs.len();
    let mut more = |name: String, kind: u8, i: u64| {
        u(name.len() as u64, &mut b);
        b.extend(name.bytes());
        b.push(kind);
        u(i, &mut b);
        n += 1;
    };
    if m.exports {
        if m.table.is_some() {
            more("t".into(), 1, 0);
        }
        if m.mem.is_some() {
            more("m".into(), 2, 0);
        }
        for k in 0..m.globals.len() {
            more(format!("g{k}"), 3, k as u64);
        }
        for k in 0..m.funcs.len() {
            more(format!("f{k}x"), 0, k as u64 + w as u64);
        }
    }
    section(7, n, b, &mut o);
    if let Some(f) = m.start {
        let mut b = vec![];
        u(f as u64 + w as u64, &mut b);
        o.push(8);
        u(b.len() as u64, &mut o);
        o.extend(b);
    }
    if !m.elems.is_empty() {
        let mut b = vec![];
        for (off, fs, mode) in &m.elems {
            // a segment with a null entry is written as expressions
            let exprs = fs.contains(&u32::MAX);
            b.push(mode | if exprs { 4 } else { 0 });
            if *mode == 2 {
                b.push(0);
            }
            if mode & 1 == 0 {
                konst(Ty::I32, *off as u64, &mut b);
                b.push(0x0B);
            }
            if *mode != 0 {
                b.push(if exprs { 0x70 } else { 0 });
            }
            u(fs.len() as u64, &mut b);
            for f in fs {
                match (exprs, *f) {
                    (false, f) => u((f + w) as u64, &mut b),
                    (true, u32::MAX) => b.extend([0xD0, 0x70, 0x0B]),
                    (true, f) => {
                        b.push(0xD2);
                        u((f + w) as u64, &mut b);
                        b.push(0x0B);
                    }
                }
            }
        }
        section(9, m.elems.len(), b, &mut o);
    }
    if !m.data.is_empty() {
        let mut b = vec![];
        u(m.data.len() as u64, &mut b);
        o.push(12);
        u(b.len() as u64, &mut o);
        o.extend(b);
    }
    section(10, m.funcs.len(), code, &mut o);
    if !m.data.is_empty() {
        let mut b = vec![];
        for (off, d) in &m.data {
            match off {
                Some(x) => {
                    b.push(0);
                    konst(Ty::I32, *x as u64, &mut b);
                    b.push(0x0B);
                }
                None => b.push(1),
            }
            u(d.len() as u64, &mut b);
            b.extend(d);
        }
        section(11, m.data.len(), b, &mut o);
    }
    o
}
