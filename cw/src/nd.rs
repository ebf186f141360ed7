//! Nondeterministic input source.  The same contract text runs
//!  * under Kani (`Sym`): every draw is a fully symbolic value -> a proof for all inputs;
//!  * natively (`Replay`): draws are read from a recorded counterexample, or from a
//!    seeded generator, so that a failed obligation is replayed on the compiled real code.
pub trait Nd {
    /// true under the verifier, where every draw is symbolic
    const SYM: bool;
    /// draws follow the verifier's protocol (under the verifier, and when one of its
    /// counterexamples is replayed)
    fn sym(&self) -> bool {
        Self::SYM
    }
    /// every operand placement of every instruction (natively and in the thorough tier); otherwise
    /// each instruction is proved with register operands and the placements are proved once per
    /// operand kind in contracts::place
    fn all_shapes(&self) -> bool {
        !self.sym() || cfg!(feature = "thorough")
    }
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn assume(&mut self, c: bool);
    /// record a failed postcondition (native) / assert it (Kani)
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    fn f32(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }
    fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// must-trap contracts: the call under contract starts / completed without a trap
    fn enter(&mut self) {}
    fn completed(&mut self) {}
    /// value in 0..m
    fn below(&mut self, m: u16) -> u16;
}

#[cfg(kani)]
pub struct Sym;
#[cfg(kani)]
impl Nd for Sym {
    const SYM: bool = true;
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn assume(&mut self, c: bool) {
        kani::assume(c)
    }
    fn below(&mut self, m: u16) -> u16 {
        let v: u16 = kani::any();
        kani::assume(v < m);
        v
    }
}

/// payload of the panic raised when a draw does not satisfy a precondition
pub struct Rejected;

pub struct Replay {
    pub bytes: Option<Vec<Vec<u8>>>,
    pub pos: usize,
    pub state: u64,
    pub log: Vec<(u8, u64)>,
    pub entered: bool,
    pub no_trap: bool,
}
impl Replay {
    pub fn recorded(bytes: Vec<Vec<u8>>) -> Self {
        Replay { bytes: Some(bytes), pos: 0, state: 1, log: vec![], entered: false, no_trap: false }
    }
    pub fn seeded(seed: u64) -> Self {
        Replay { bytes: None, pos: 0, state: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1, log: vec![], entered: false, no_trap: false }
    }
    fn rnd(&mut self) -> u64 {
        self.state ^= self.state << 13;
        self.state ^= self.state >> 7;
        self.state ^= self.state << 17;
        self.state.wrapping_mul(0x2545F4914F6CDD1D)
    }
    fn draw(&mut self, n: usize) -> u64 {
        let v = match &self.bytes {
            Some(b) => {
                let mut v = 0u64;
                if let Some(x) = b.get(self.pos) {
                    for (i, c) in x.iter().enumerate().take(8) {
                        v |= (*c as u64) << (8 * i);
                    }
                }
                v
            }
            None => {
                const E32: [u32; 28] = [
                    0, 1, 2, 3, 7, 31, 32, 33, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff, 0xffff_fffe, 0xff, 0x80, 0x7f,
                    0x8000, 0x7fff, 0xffff, 0x3f80_0000, 0xbf80_0000, 0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 0x4f00_0000,
                    0xcf00_0000, 0x4f80_0000, 0x3f00_0000,
                ];
                const E64: [u64; 24] = [
                    0, 1, 2, 63, 64, 65, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, u64::MAX, u64::MAX - 1,
                    0xffff_ffff, 0x1_0000_0000, 0x8000_0000, 0x7fff_ffff, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000,
                    0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0000, 0x43e0_0000_0000_0000, 0xc3e0_0000_0000_0000, 0x43f0_0000_0000_0000,
                    0x41e0_0000_0000_0000, 0xffff_ffff_8000_0000,
                ];
                let r = self.rnd();
                let w = self.rnd();
                match (n, r % 4) {
                    (4, 0) | (4, 1) => E32[(w % 28) as usize] as u64,
                    (8, 0) | (8, 1) => E64[(w % 24) as usize],
                    (4, 2) => ((w as i64) >> (32 + r / 4 % 32)) as u32 as u64,
                    (8, 2) => ((w as i64) >> (r / 4 % 64)) as u64,
                    _ => w,
                }
            }
        };
        self.pos += 1;
        let v = if n >= 8 { v } else { v & ((1u64 << (8 * n)) - 1) };
        self.log.push((n as u8, v));
        v
    }
}
impl Nd for Replay {
    const SYM: bool = false;
    fn sym(&self) -> bool {
        self.bytes.is_some()
    }
    fn enter(&mut self) {
        self.entered = true;
    }
    fn completed(&mut self) {
        self.no_trap = true;
    }
    fn u8(&mut self) -> u8 {
        self.draw(1) as u8
    }
    fn u16(&mut self) -> u16 {
        self.draw(2) as u16
    }
    fn u32(&mut self) -> u32 {
        self.draw(4) as u32
    }
    fn u64(&mut self) -> u64 {
        self.draw(8)
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::panic_any(Rejected)
        }
    }
    fn below(&mut self, m: u16) -> u16 {
        if self.bytes.is_none() {
            let v = (self.rnd() % m as u64) as u16;
            self.log.push((2, v as u64));
            self.pos += 1;
            v
        } else {
            let v = self.draw(2) as u16;
            self.assume(v < m);
            v
        }
    }
}
