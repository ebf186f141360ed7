//! Reference semantics: a direct transcription of the WebAssembly execution rules on the AST.
use crate::ast::*;
use crate::ops::*;

pub struct Store {
    pub globals: Vec<u64>,
    pub mem: Vec<u8>,
    pub table: Vec<u64>,
    pub dropped: Vec<bool>,
    pub fuel: u64,
    pub nan: bool,
    pub steps: u64,
    pub depth: u32,
    /// how many control instructions / calls were executed (non-triviality)
    pub ctl: u64,
}
enum Flow {
    Next,
    Br(u32),
    Ret,
}
pub const PAGE: usize = 65536;

impl Store {
    /// the state after instantiation; Err: instantiation traps
    pub fn new(m: &Mod, fuel: u64) -> Result<Store, Trap> {
        let mut s = Store {
            globals: m.globals.iter().map(|g| g.2).collect(),
            mem: m.mem.map(|(min, _)| vec![0; min as usize * PAGE]).unwrap_or_default(),
            table: vec![0; m.table.unwrap_or(0) as usize],
            dropped: vec![false; m.data.len()],
            fuel,
            nan: false,
            steps: 0,
            depth: 0,
            ctl: 0,
        };
        for (off, fs, _) in m.elems.iter().filter(|e| e.2 & 1 == 0) {
            if *off as usize + fs.len() > s.table.len() {
                return Err(Trap::Table);
            }
            for (i, f) in fs.iter().enumerate() {
                s.table[*off as usize + i] = if *f == u32::MAX { 0 } else { *f as u64 + 1 };
            }
        }
        for (k, (off, d)) in m.data.iter().enumerate() {
            if let Some(o) = off {
                if *o as usize + d.len() > s.mem.len() {
                    return Err(Trap::Memory);
                }
                s.mem[*o as usize..*o as usize + d.len()].copy_from_slice(d);
                s.dropped[k] = true;
            }
        }
        if let Some(f) = m.start {
            s.call(m, f as usize, &[])?;
        }
        Ok(s)
    }
    /// the observable part
    pub fn snapshot(&self) -> Store {
        Store {
            globals: self.globals.clone(),
            mem: self.mem.clone(),
            table: self.table.clone(),
            dropped: self.dropped.clone(),
            ..*self
        }
    }
    pub fn call(&mut self, m: &Mod, f: usize, args: &[u64]) -> Result<Vec<u64>, Trap> {
        let fun = &m.funcs[f];
        let sig = &m.types[fun.sig];
        let mut locals = args.to_vec();
        locals.extend(fun.locals.iter().map(|_| 0));
        self.depth += 1;
        if self.depth > 60 {
            return Err(Trap::Skip);
        }
        let mut st = vec![];
        match self.seq(m, &fun.body, &mut st, &mut locals)? {
            Flow::Next | Flow::Ret | Flow::Br(_) => {}
        }
        self.depth -= 1;
        let n = sig.results.len();
        Ok(st.split_off(st.len() - n))
    }
    fn addr(&self, base: u64, off: u32, w: usize) -> Result<usize, Trap> {
        let a = base as u32 as u64 + off as u64;
        if a + w as u64 > self.mem.len() as u64 {
            Err(Trap::Skip)
        } else {
            Ok(a as usize)
        }
    }
    fn seq(&mut self, m: &Mod, is: &[I], st: &mut Vec<u64>, l: &mut Vec<u64>) -> Result<Flow, Trap> {
        for i in is {
            self.steps += 1;
            if self.fuel == 0 {
                return Err(Trap::Fuel);
            }
            self.fuel -= 1;
            macro_rules! pop { () => { st.pop().expect("stack") } }
            match i {
                I::Const(_, v) => st.push(*v),
                I::Num(op) => {
                    let (ins, _) = sig(*op);
                    let b = if ins.len() == 2 { pop!() } else { 0 };
                    let a = pop!();
                    st.push(eval(*op, a, b, &mut self.nan)?)
                }
                I::Get(k) => st.push(l[*k as usize]),
                I::Set(k) => l[*k as usize] = pop!(),
                I::Tee(k) => l[*k as usize] = *st.last().unwrap(),
                I::GGet(k) => st.push(self.globals[*k as usize]),
                I::GSet(k) => self.globals[*k as usize] = pop!(),
                I::Load(op, off) => {
                    let (t, w, sx) = mem_op(*op);
                    let a = self.addr(pop!(), *off, w)?;
                    let mut v = 0u64;
                    for k in 0..w {
                        v |= (self.mem[a + k] as u64) << (8 * k);
                    }
                    if sx {
                        let sh = 64 - 8 * w as u32;
                        v = (((v << sh) as i64) >> sh) as u64;
                    }
                    if matches!(t, Ty::I32 | Ty::F32) {
                        v &= 0xffff_ffff;
                    }
                    st.push(v)
                }
                I::Store(op, off) => {
                    let (_, w, _) = mem_op(*op);
                    let v = pop!();
                    let a = self.addr(pop!(), *off, w)?;
                    for k in 0..w {
                        self.mem[a + k] = (v >> (8 * k)) as u8;
                    }
                }
                I::MemSize => st.push((self.mem.len() / PAGE) as u64),
                I::MemGrow => {
                    let n = pop!() as u32 as u64;
                    let old = (self.mem.len() / PAGE) as u64;
                    let max = m.mem.unwrap().1.map(|x| x as u64).unwrap_or(65536).min(65536);
                    if (n > 20 || old > 300) && old + n <= max {
                        return Err(Trap::Skip); // keeps the memories small
                    }
                    if old + n > max {
                        st.push(0xffff_ffff)
                    } else {
                        self.mem.resize(((old + n) as usize) * PAGE, 0);
                        st.push(old)
                    }
                }
                I::MemCopy => {
                    let (n, s, d) = (pop!() as u32 as usize, pop!() as u32 as usize, pop!() as u32 as usize);
                    if s + n > self.mem.len() || d + n > self.mem.len() {
                        return Err(Trap::Skip);
                    }
                    let t = self.mem[s..s + n].to_vec();
                    self.mem[d..d + n].copy_from_slice(&t);
                }
                I::MemFill => {
                    let (n, v, d) = (pop!() as u32 as usize, pop!() as u8, pop!() as u32 as usize);
                    if d + n > self.mem.len() {
                        return Err(Trap::Skip);
                    }
                    for k in 0..n {
                        self.mem[d + k] = v;
                    }
                }
                I::MemInit(k) => {
                    let (n, s, d) = (pop!() as u32 as usize, pop!() as u32 as usize, pop!() as u32 as usize);
                    let len = if self.dropped[*k as usize] { 0 } else { m.data[*k as usize].1.len() };
                    if s + n > len || d + n > self.mem.len() {
                        return Err(Trap::Memory);
                    }
                    for j in 0..n {
                        self.mem[d + j] = m.data[*k as usize].1[s + j];
                    }
                }
                I::DataDrop(k) => self.dropped[*k as usize] = true,
                I::Drop => {
                    pop!();
                }
                I::Select | I::SelectT(_) => {
                    let c = pop!() as u32;
                    let b = pop!();
                    let a = pop!();
                    st.push(if c != 0 { a } else { b })
                }
                I::Wasi => {
                    self.ctl += 1;
                    st.push(7)
                }
                I::Nop => {}
                I::Unreachable => return Err(Trap::Unreachable),
                I::Block(p, r, b) => {
                    self.ctl += 1;
                    let base = st.len() - p.len();
                    match self.seq(m, b, st, l)? {
                        Flow::Next => {}
                        Flow::Br(0) => {
                            let v = st.split_off(st.len() - r.len());
                            st.truncate(base);
                            st.extend(v);
                        }
                        Flow::Br(n) => return Ok(Flow::Br(n - 1)),
                        Flow::Ret => return Ok(Flow::Ret),
                    }
                }
                I::Loop(p, _r, b) => {
                    self.ctl += 1;
                    let base = st.len() - p.len();
                    loop {
                        match self.seq(m, b, st, l)? {
                            Flow::Next => break,
                            Flow::Br(0) => {
                                let v = st.split_off(st.len() - p.len());
                                st.truncate(base);
                                st.extend(v);
                                if self.fuel == 0 {
                                    return Err(Trap::Fuel);
                                }
                                self.fuel -= 1;
                            }
                            Flow::Br(n) => return Ok(Flow::Br(n - 1)),
                            Flow::Ret => return Ok(Flow::Ret),
                        }
                    }
                }
                I::If(p, r, a, b) => {
                    self.ctl += 1;
                    let c = pop!() as u32;
                    let base = st.len() - p.len();
                    let body: &[I] = if c != 0 { a } else { b.as_deref().unwrap_or(&[]) };
                    match self.seq(m, body, st, l)? {
                        Flow::Next => {}
                        Flow::Br(0) => {
                            let v = st.split_off(st.len() - r.len());
                            st.truncate(base);
                            st.extend(v);
                        }
                        Flow::Br(n) => return Ok(Flow::Br(n - 1)),
                        Flow::Ret => return Ok(Flow::Ret),
                    }
                }
                I::Br(n) => return Ok(Flow::Br(*n)),
                I::BrIf(n) => {
                    self.ctl += 1;
                    if pop!() as u32 != 0 {
                        return Ok(Flow::Br(*n));
                    }
                }
                I::BrTable(v, d) => {
                    self.ctl += 1;
                    let i = pop!() as u32 as usize;
                    return Ok(Flow::Br(*v.get(i).unwrap_or(d)));
                }
                I::Return => return Ok(Flow::Ret),
                I::Call(f) => {
                    self.ctl += 1;
                    let n = m.types[m.funcs[*f as usize].sig].params.len();
                    let a = st.split_off(st.len() - n);
                    st.extend(self.call(m, *f as usize, &a)?)
                }
                I::CallInd(t) => {
                    self.ctl += 1;
                    let i = pop!() as u32 as usize;
                    let r = *self.table.get(i).ok_or(Trap::Table)?;
                    if r == 0 {
                        return Err(Trap::Indirect);
                    }
                    let f = r as usize - 1;
                    if m.types[m.funcs[f].sig] != m.types[*t as usize] {
                        return Err(Trap::Indirect);
                    }
                    let n = m.types[*t as usize].params.len();
                    let a = st.split_off(st.len() - n);
                    st.extend(self.call(m, f, &a)?)
                }
                I::RefNull => st.push(0),
                I::RefFunc(f) => st.push(*f as u64 + 1),
                I::RefIsNull => {
                    let r = pop!();
                    st.push((r == 0) as u64)
                }
                I::TGet => {
                    let i = pop!() as u32 as usize;
                    st.push(*self.table.get(i).ok_or(Trap::Table)?)
                }
                I::TSet => {
                    let v = pop!();
                    let i = pop!() as u32 as usize;
                    *self.table.get_mut(i).ok_or(Trap::Table)? = v;
                }
                I::TFill => {
                    let (n, v, i) = (pop!() as u32 as u64, pop!(), pop!() as u32 as u64);
                    if i + n > self.table.len() as u64 {
                        return Err(Trap::Table);
                    }
                    for k in i..i + n {
                        self.table[k as usize] = v;
                    }
                }
            }
        }
        Ok(Flow::Next)
    }
}
