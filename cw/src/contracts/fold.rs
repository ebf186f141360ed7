//! Lookahead decisions of the translator (`can_fold_*`, `try_fold_dst_*` in parser.rs).
//!
//! A constant or local read that is folded into its consumer leaves its place in the register file unfilled.  That is
//! right only when nothing else can observe it: the answer `true` promises that the value is consumed, at its own
//! type, by the next operator, or by the one after it while the operator in between only pushes a value.
use crate::contract;
use crate::nd::Nd;
use chiwawa::parser::verif::{can_fold, consumes, local_type, try_fold_dst};
use std::mem::ManuallyDrop;
use chiwawa::structure::types::{NumType, RefType, ValueType};
use wasmparser::{BinaryReaderError, Ieee32, Ieee64, MemArg, Operator as O};

const MEM: MemArg = MemArg { align: 0, max_align: 3, offset: 8, memory: 0 };
const NONE: u8 = 9;

/// what the standard says about an operator; types are 0: i32, 1: i64, 2: f32, 3: f64
#[derive(Clone, Copy)]
pub struct Sig {
    pops: [u8; 2],
    n: usize,
    /// pops nothing, pushes one value and writes nothing
    pure: bool,
}

fn sig(p: &[u8], push: u8) -> Sig {
    Sig { pops: [if p.len() > 0 { p[0] } else { NONE }, if p.len() > 1 { p[1] } else { NONE }], n: p.len(), pure: p.len() == 0 && push != NONE }
}
/// control, calls and variables: consume nothing as far as folding is concerned
const OTHER: Sig = Sig { pops: [NONE; 2], n: 0, pure: false };
const READ: Sig = Sig { pops: [NONE; 2], n: 0, pure: true };

impl Sig {
    fn top(&self) -> u8 {
        if self.n == 0 { NONE } else { self.pops[self.n - 1] }
    }
}

/// builds from the table below: `operator` (the k-th operator, with the given immediates) and `every` (calls `f` on
/// each operator, held in a static: the verifier cannot move values of so large an enum)
macro_rules! operators {
    ($m:ident $x:ident $v:ident; $($o:expr => $s:expr;)*) => {
        pub const COUNT: usize = [$(stringify!($o)),*].len();
        #[allow(unused_assignments)]
        fn operator(k: usize, $m: MemArg, $x: u32, $v: u64) -> (O<'static>, Sig) {
            let mut i = 0;
            $(
                if i == k {
                    return ($o, $s);
                }
                i += 1;
            )*
            unreachable!()
        }
        #[allow(non_upper_case_globals)]
        fn every(f: impl Fn(&O, Sig)) {
            const $m: MemArg = MEM;
            const $x: u32 = 0;
            const $v: u64 = 0;
            $({
                static A: ManuallyDrop<O<'static>> = ManuallyDrop::new($o);
                f(&A, $s);
            })*
        }
    };
}
// operator => what it pops and pushes
operators! { m x v;
    O::I32Add => sig(&[0, 0], 0);
    O::I32Sub => sig(&[0, 0], 0);
    O::I32Mul => sig(&[0, 0], 0);
    O::I32DivS => sig(&[0, 0], 0);
    O::I32DivU => sig(&[0, 0], 0);
    O::I32RemS => sig(&[0, 0], 0);
    O::I32RemU => sig(&[0, 0], 0);
    O::I32And => sig(&[0, 0], 0);
    O::I32Or => sig(&[0, 0], 0);
    O::I32Xor => sig(&[0, 0], 0);
    O::I32Shl => sig(&[0, 0], 0);
    O::I32ShrS => sig(&[0, 0], 0);
    O::I32ShrU => sig(&[0, 0], 0);
    O::I32Rotl => sig(&[0, 0], 0);
    O::I32Rotr => sig(&[0, 0], 0);
    O::I32Eq => sig(&[0, 0], 0);
    O::I32Ne => sig(&[0, 0], 0);
    O::I32LtS => sig(&[0, 0], 0);
    O::I32LtU => sig(&[0, 0], 0);
    O::I32LeS => sig(&[0, 0], 0);
    O::I32LeU => sig(&[0, 0], 0);
    O::I32GtS => sig(&[0, 0], 0);
    O::I32GtU => sig(&[0, 0], 0);
    O::I32GeS => sig(&[0, 0], 0);
    O::I32GeU => sig(&[0, 0], 0);
    O::I32Clz => sig(&[0], 0);
    O::I32Ctz => sig(&[0], 0);
    O::I32Popcnt => sig(&[0], 0);
    O::I32Extend8S => sig(&[0], 0);
    O::I32Extend16S => sig(&[0], 0);
    O::I32Eqz => sig(&[0], 0);
    O::I64Add => sig(&[1, 1], 1);
    O::I64Sub => sig(&[1, 1], 1);
    O::I64Mul => sig(&[1, 1], 1);
    O::I64DivS => sig(&[1, 1], 1);
    O::I64DivU => sig(&[1, 1], 1);
    O::I64RemS => sig(&[1, 1], 1);
    O::I64RemU => sig(&[1, 1], 1);
    O::I64And => sig(&[1, 1], 1);
    O::I64Or => sig(&[1, 1], 1);
    O::I64Xor => sig(&[1, 1], 1);
    O::I64Shl => sig(&[1, 1], 1);
    O::I64ShrS => sig(&[1, 1], 1);
    O::I64ShrU => sig(&[1, 1], 1);
    O::I64Rotl => sig(&[1, 1], 1);
    O::I64Rotr => sig(&[1, 1], 1);
    O::I64Eq => sig(&[1, 1], 0);
    O::I64Ne => sig(&[1, 1], 0);
    O::I64LtS => sig(&[1, 1], 0);
    O::I64LtU => sig(&[1, 1], 0);
    O::I64LeS => sig(&[1, 1], 0);
    O::I64LeU => sig(&[1, 1], 0);
    O::I64GtS => sig(&[1, 1], 0);
    O::I64GtU => sig(&[1, 1], 0);
    O::I64GeS => sig(&[1, 1], 0);
    O::I64GeU => sig(&[1, 1], 0);
    O::I64Clz => sig(&[1], 1);
    O::I64Ctz => sig(&[1], 1);
    O::I64Popcnt => sig(&[1], 1);
    O::I64Extend8S => sig(&[1], 1);
    O::I64Extend16S => sig(&[1], 1);
    O::I64Eqz => sig(&[1], 0);
    O::I64Extend32S => sig(&[1], 1);
    O::F32Add => sig(&[2, 2], 2);
    O::F32Sub => sig(&[2, 2], 2);
    O::F32Mul => sig(&[2, 2], 2);
    O::F32Div => sig(&[2, 2], 2);
    O::F32Min => sig(&[2, 2], 2);
    O::F32Max => sig(&[2, 2], 2);
    O::F32Copysign => sig(&[2, 2], 2);
    O::F32Eq => sig(&[2, 2], 0);
    O::F32Ne => sig(&[2, 2], 0);
    O::F32Lt => sig(&[2, 2], 0);
    O::F32Le => sig(&[2, 2], 0);
    O::F32Gt => sig(&[2, 2], 0);
    O::F32Ge => sig(&[2, 2], 0);
    O::F32Abs => sig(&[2], 2);
    O::F32Neg => sig(&[2], 2);
    O::F32Ceil => sig(&[2], 2);
    O::F32Floor => sig(&[2], 2);
    O::F32Trunc => sig(&[2], 2);
    O::F32Nearest => sig(&[2], 2);
    O::F32Sqrt => sig(&[2], 2);
    O::F64Add => sig(&[3, 3], 3);
    O::F64Sub => sig(&[3, 3], 3);
    O::F64Mul => sig(&[3, 3], 3);
    O::F64Div => sig(&[3, 3], 3);
    O::F64Min => sig(&[3, 3], 3);
    O::F64Max => sig(&[3, 3], 3);
    O::F64Copysign => sig(&[3, 3], 3);
    O::F64Eq => sig(&[3, 3], 0);
    O::F64Ne => sig(&[3, 3], 0);
    O::F64Lt => sig(&[3, 3], 0);
    O::F64Le => sig(&[3, 3], 0);
    O::F64Gt => sig(&[3, 3], 0);
    O::F64Ge => sig(&[3, 3], 0);
    O::F64Abs => sig(&[3], 3);
    O::F64Neg => sig(&[3], 3);
    O::F64Ceil => sig(&[3], 3);
    O::F64Floor => sig(&[3], 3);
    O::F64Trunc => sig(&[3], 3);
    O::F64Nearest => sig(&[3], 3);
    O::F64Sqrt => sig(&[3], 3);
    O::I32TruncF32S => sig(&[2], 0);
    O::I32TruncSatF32S => sig(&[2], 0);
    O::F32ConvertI32S => sig(&[0], 2);
    O::I32TruncF32U => sig(&[2], 0);
    O::I32TruncSatF32U => sig(&[2], 0);
    O::F32ConvertI32U => sig(&[0], 2);
    O::I32TruncF64S => sig(&[3], 0);
    O::I32TruncSatF64S => sig(&[3], 0);
    O::F64ConvertI32S => sig(&[0], 3);
    O::I32TruncF64U => sig(&[3], 0);
    O::I32TruncSatF64U => sig(&[3], 0);
    O::F64ConvertI32U => sig(&[0], 3);
    O::I64TruncF32S => sig(&[2], 1);
    O::I64TruncSatF32S => sig(&[2], 1);
    O::F32ConvertI64S => sig(&[1], 2);
    O::I64TruncF32U => sig(&[2], 1);
    O::I64TruncSatF32U => sig(&[2], 1);
    O::F32ConvertI64U => sig(&[1], 2);
    O::I64TruncF64S => sig(&[3], 1);
    O::I64TruncSatF64S => sig(&[3], 1);
    O::F64ConvertI64S => sig(&[1], 3);
    O::I64TruncF64U => sig(&[3], 1);
    O::I64TruncSatF64U => sig(&[3], 1);
    O::F64ConvertI64U => sig(&[1], 3);
    O::I32WrapI64 => sig(&[1], 0);
    O::I64ExtendI32S => sig(&[0], 1);
    O::I64ExtendI32U => sig(&[0], 1);
    O::F32DemoteF64 => sig(&[3], 2);
    O::F64PromoteF32 => sig(&[2], 3);
    O::I32ReinterpretF32 => sig(&[2], 0);
    O::F32ReinterpretI32 => sig(&[0], 2);
    O::I64ReinterpretF64 => sig(&[3], 1);
    O::F64ReinterpretI64 => sig(&[1], 3);
    O::I32Load { memarg: m } => sig(&[0], 0);
    O::I32Store { memarg: m } => sig(&[0, 0], 9);
    O::I64Load { memarg: m } => sig(&[0], 1);
    O::I64Store { memarg: m } => sig(&[0, 1], 9);
    O::F32Load { memarg: m } => sig(&[0], 2);
    O::F32Store { memarg: m } => sig(&[0, 2], 9);
    O::F64Load { memarg: m } => sig(&[0], 3);
    O::F64Store { memarg: m } => sig(&[0, 3], 9);
    O::I32Load8S { memarg: m } => sig(&[0], 0);
    O::I32Load8U { memarg: m } => sig(&[0], 0);
    O::I32Store8 { memarg: m } => sig(&[0, 0], 9);
    O::I32Load16S { memarg: m } => sig(&[0], 0);
    O::I32Load16U { memarg: m } => sig(&[0], 0);
    O::I32Store16 { memarg: m } => sig(&[0, 0], 9);
    O::I64Load8S { memarg: m } => sig(&[0], 1);
    O::I64Load8U { memarg: m } => sig(&[0], 1);
    O::I64Store8 { memarg: m } => sig(&[0, 1], 9);
    O::I64Load16S { memarg: m } => sig(&[0], 1);
    O::I64Load16U { memarg: m } => sig(&[0], 1);
    O::I64Store16 { memarg: m } => sig(&[0, 1], 9);
    O::I64Load32S { memarg: m } => sig(&[0], 1);
    O::I64Load32U { memarg: m } => sig(&[0], 1);
    O::I64Store32 { memarg: m } => sig(&[0, 1], 9);
    O::I32Const { value: v as i32 } => sig(&[], 0);
    O::I64Const { value: v as i64 } => sig(&[], 1);
    O::F32Const { value: unsafe { std::mem::transmute::<u32, Ieee32>(v as u32) } } => sig(&[], 2);
    O::F64Const { value: unsafe { std::mem::transmute::<u64, Ieee64>(v) } } => sig(&[], 3);
    O::LocalGet { local_index: x } => READ;
    O::GlobalGet { global_index: x } => READ;
    O::MemorySize { mem: 0 } => READ;
    O::LocalSet { local_index: x } => OTHER;
    O::LocalTee { local_index: x } => OTHER;
    O::GlobalSet { global_index: x } => OTHER;
    O::Drop => OTHER;
    O::Select => OTHER;
    O::Nop => OTHER;
    O::Unreachable => OTHER;
    O::End => OTHER;
    O::Else => OTHER;
    O::Return => OTHER;
    O::Br { relative_depth: x } => OTHER;
    O::BrIf { relative_depth: x } => OTHER;
    O::Call { function_index: x } => OTHER;
    O::CallIndirect { type_index: x, table_index: 0 } => OTHER;
    O::MemoryGrow { mem: 0 } => OTHER;
    O::MemoryFill { mem: 0 } => OTHER;
    O::MemoryCopy { dst_mem: 0, src_mem: 0 } => OTHER;
    O::MemoryInit { data_index: x, mem: 0 } => OTHER;
    O::DataDrop { data_index: x } => OTHER;
    O::TableGet { table: x } => OTHER;
    O::TableSet { table: x } => OTHER;
    O::TableFill { table: x } => OTHER;
    O::RefIsNull => OTHER;
    O::RefNull { hty: wasmparser::HeapType::Func } => READ;
    O::Block { blockty: wasmparser::BlockType::Empty } => OTHER;
    O::Loop { blockty: wasmparser::BlockType::Empty } => OTHER;
    O::If { blockty: wasmparser::BlockType::Empty } => OTHER;
}

// What the lookaheads take for a consumer of a folded value pops that value, at its own type; unless it is called
// unary, it pops two values of that type (only then may the value that is folded lie below another one).
fn consumer<N: Nd>(n: &mut N, which: u8) {
    n.enter();
    every(|a, s| {
        if consumes(which, a) {
            match which {
                4 => assert!(s.n == 1 && s.pops[0] == 0, "a load pops an address"),
                5 => assert!(s.n == 2 && s.pops[0] == 0, "a store pops an address and a value"),
                t => {
                    assert!(s.top() == t, "a folding consumer pops the folded value at its own type");
                    assert!(consumes(6, a) || (s.n == 2 && s.pops[0] == t), "a consumer of two values pops both of the folded type");
                }
            }
        }
    });
}
contract!(takes_i32, n, { consumer(n, 0) });
contract!(takes_i64, n, { consumer(n, 1) });
contract!(takes_f32, n, { consumer(n, 2) });
contract!(takes_f64, n, { consumer(n, 3) });
contract!(takes_address_load, n, { consumer(n, 4) });
contract!(takes_address_store, n, { consumer(n, 5) });

contract!(type_of_local, n, {
    let k = [n.below(5) as u8, n.below(5) as u8, n.below(5) as u8, n.below(5) as u8];
    let (c, i) = ([n.u32(), n.u32()], n.u32());
    let len = [n.below(3) as usize, n.below(3) as usize];
    n.assume(c[0] <= 50000 && c[1] <= 50000);
    let declared = [0, c[0], c[0] + c[1]][len[1]];
    // validated code names locals that exist
    n.assume(i < len[0] as u32 + declared);
    n.enter();
    let (params, locals) = ([ty(k[0]), ty(k[1])], [(c[0], ty(k[2])), (c[1], ty(k[3]))]);
    let t = local_type(&params[..len[0]], &locals[..len[1]], i);
    let want = if i < len[0] as u32 { k[i as usize] } else if i - (len[0] as u32) < c[0] { k[2] } else { k[3] };
    assert!(t == ty(want), "parameters come first, then the declared groups of locals");
});

/// the upcoming operators, handed out one by one
struct Two(Option<O<'static>>, Option<O<'static>>);
impl Iterator for Two {
    type Item = Result<(O<'static>, usize), BinaryReaderError>;
    fn next(&mut self) -> Option<Self::Item> {
        let r = self.0.take();
        self.0 = self.1.take();
        r.map(|o| Ok((o, 0)))
    }
}

/// every pair of upcoming operators (too large for the verifier: it would have to move them through the lookahead's queue)
fn fold<N: Nd>(n: &mut N, which: u8) {
    let m = MemArg { align: n.u8(), max_align: n.u8(), offset: n.u64(), memory: 0 };
    let (x, v) = (n.u32(), n.u64());
    n.enter();
    assert!(!can_fold(which, Two(None, None)), "nothing is folded at the end of the body");
    for i in 0..COUNT {
        for j in 0..=COUNT {
            let ((a, sa), b) = (operator(i, m, x, v), if j < COUNT { Some(operator(j, m, x, v)) } else { None });
            let read = matches!(a, O::LocalGet { .. } | O::I32Const { .. } | O::I64Const { .. } | O::F32Const { .. } | O::F64Const { .. });
            let (b, sb) = match b {
                Some((b, s)) => (Some(b), s),
                None => (None, OTHER),
            };
            if can_fold(which, Two(Some(a), b)) {
                let t = if which < 4 { which } else { 0 };
                let next = sa.top() == t;
                let after = sa.pure && sb.n == 2 && sb.pops[0] == t && (which >= 4 || sb.pops[1] == t);
                assert!(next || after, "a folded value is consumed, at its own type, before anything else can observe it");
                assert!(next || read || which >= 4, "only a constant or a local read may stand between");
            }
        }
    }
}

contract!(fold_i32, n, { fold(n, 0) });
contract!(fold_i64, n, { fold(n, 1) });
contract!(fold_f32, n, { fold(n, 2) });
contract!(fold_f64, n, { fold(n, 3) });
contract!(fold_load, n, { fold(n, 4) });
contract!(fold_store, n, { fold(n, 5) });

fn ty(k: u8) -> ValueType {
    match k {
        0 => ValueType::NumType(NumType::I32),
        1 => ValueType::NumType(NumType::I64),
        2 => ValueType::NumType(NumType::F32),
        3 => ValueType::NumType(NumType::F64),
        _ => ValueType::RefType(RefType::FuncRef),
    }
}

// under the verifier: a local.set of any local, or nothing; natively: any operator
fn dst<N: Nd>(n: &mut N, which: u8) {
    let x = n.u32();
    let k = [n.below(5) as u8, n.below(5) as u8, n.below(5) as u8, n.below(5) as u8];
    let c = [n.u32(), n.u32()];
    // the parser's limit on the number of locals
    n.assume(c[0] <= 50000 && c[1] <= 50000 && c[0] + c[1] <= 49998);
    let a = if n.sym() || n.bool() { O::LocalSet { local_index: x } } else { operator(n.below(COUNT as u16) as usize, MEM, x, 0).0 };
    let index = match &a {
        O::LocalSet { local_index } => Some(*local_index),
        _ => None,
    };
    // validated code names locals that exist
    n.assume(index.map_or(true, |i| i < 2 + c[0] + c[1]));
    n.enter();
    let params = [ty(k[0]), ty(k[1])];
    let locals = [(c[0], ty(k[2])), (c[1], ty(k[3]))];
    let r = try_fold_dst(which, Two(Some(a), None), &params, &locals);
    if let Some(l) = r {
        assert!(index == Some(l as u32), "a destination is folded into the local that the next operator sets");
        let i = l as u32;
        let t = if i < 2 { k[i as usize] } else if i < 2 + c[0] { k[2] } else { k[3] };
        assert!(t == which, "a destination is folded into a local of its own type");
    }
}
contract!(dst_i32, n, { dst(n, 0) });
contract!(dst_i64, n, { dst(n, 1) });
contract!(dst_f32, n, { dst(n, 2) });
contract!(dst_f64, n, { dst(n, 3) });
