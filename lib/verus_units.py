"""Contracts inserted into the mechanically extracted functions (see verus.py)."""

REGS = 'src/execution/regs.rs'
TYPES = 'src/structure/types.rs'
K = ['i32', 'i64', 'f32', 'f64', 'ref', 'v128']

ALLOC_SPEC = '''
pub open spec fn kind(t: ValueType) -> int {
    match t {
        ValueType::NumType(NumType::I32) => 0,
        ValueType::NumType(NumType::I64) => 1,
        ValueType::NumType(NumType::F32) => 2,
        ValueType::NumType(NumType::F64) => 3,
        ValueType::RefType(_) => 4,
        ValueType::VecType(_) => 5,
    }
}
pub open spec fn rkind(r: Reg) -> int {
    match r { Reg::I32(_) => 0, Reg::I64(_) => 1, Reg::F32(_) => 2, Reg::F64(_) => 3, Reg::Ref(_) => 4, Reg::V128(_) => 5 }
}
pub open spec fn rindex(r: Reg) -> int {
    match r { Reg::I32(i) => i as int, Reg::I64(i) => i as int, Reg::F32(i) => i as int, Reg::F64(i) => i as int, Reg::Ref(i) => i as int, Reg::V128(i) => i as int }
}
/// how many of the types in s have kind k
pub open spec fn count(s: Seq<ValueType>, k: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count(s.drop_last(), k) + if kind(s.last()) == k { 1int } else { 0int } }
}
/// how many locals of kind k the declarations reserve
pub open spec fn total(s: Seq<(u32, ValueType)>, k: int) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { total(s.drop_last(), k) + if kind(s.last().1) == k { s.last().0 as int } else { 0 } }
}
pub open spec fn six(k: int) -> bool { 0 <= k < 6 }
impl RegAllocator {
    pub open spec fn depth(&self, k: int) -> int {
        if k == 0 { self.i32_depth as int } else if k == 1 { self.i64_depth as int } else if k == 2 { self.f32_depth as int }
        else if k == 3 { self.f64_depth as int } else if k == 4 { self.ref_depth as int } else { self.v128_depth as int }
    }
    pub open spec fn maxd(&self, k: int) -> int {
        if k == 0 { self.max_i32_depth as int } else if k == 1 { self.max_i64_depth as int } else if k == 2 { self.max_f32_depth as int }
        else if k == 3 { self.max_f64_depth as int } else if k == 4 { self.max_ref_depth as int } else { self.max_v128_depth as int }
    }
    /// every register handed out is below the register count the function will be given, and every live
    /// operand owns a register of its own
    pub open spec fn inv(&self) -> bool {
        self.ok(0) && self.ok(1) && self.ok(2) && self.ok(3) && self.ok(4) && self.ok(5)
    }
    /// the state was saved when the operand stack was a prefix of what it is now
    pub open spec fn can_restore(&self, s: &RegAllocatorState, k: int) -> bool {
        count(self.type_stack@.take(s.type_stack_len as int), k) <= s.depth(k) <= self.maxd(k)
    }
    pub open spec fn ok(&self, k: int) -> bool {
        count(self.type_stack@, k) <= self.depth(k) <= self.maxd(k)
    }
}
/// first of the registers that hold the operands of kind k among the topmost operands `ts`
pub open spec fn base(a: RegAllocator, ts: Seq<ValueType>, k: int) -> int {
    if a.depth(k) >= count(ts, k) { a.depth(k) - count(ts, k) } else { 0 }
}
/// r is the register that holds operand i of the topmost operands `ts`
pub open spec fn slot_ok(a: RegAllocator, ts: Seq<ValueType>, r: Reg, i: int) -> bool {
    rkind(r) == kind(ts[i]) && rindex(r) == (base(a, ts, kind(ts[i])) + count(ts.take(i), kind(ts[i])))
}
impl RegAllocatorState {
    pub open spec fn depth(&self, k: int) -> int {
        if k == 0 { self.i32_depth as int } else if k == 1 { self.i64_depth as int } else if k == 2 { self.f32_depth as int }
        else if k == 3 { self.f64_depth as int } else if k == 4 { self.ref_depth as int } else { self.v128_depth as int }
    }
}
impl RegAllocation {
    pub open spec fn size(&self, k: int) -> int {
        if k == 0 { self.i32_count as int } else if k == 1 { self.i64_count as int } else if k == 2 { self.f32_count as int }
        else if k == 3 { self.f64_count as int } else if k == 4 { self.ref_count as int } else { self.v128_count as int }
    }
}
'''
only = lambda a: 'forall|k: int| six(k) && k != kind(%s) ==> #[trigger] final(self).depth(k) == old(self).depth(k)' % a
GROW = [
    'rkind(r) == kind(vtype)', 'rindex(r) == old(self).depth(kind(vtype))',
    'final(self).depth(kind(vtype)) == old(self).depth(kind(vtype)) + 1',
    'forall|k: int| six(k) && k != kind(vtype) ==> #[trigger] final(self).depth(k) == old(self).depth(k)',
    'forall|k: int| six(k) ==> #[trigger] final(self).maxd(k) == if k == kind(vtype) && old(self).maxd(k) < old(self).depth(k) + 1 { old(self).depth(k) + 1 } else { old(self).maxd(k) }',
]
PUSHED = 'proof { let s = self.type_stack@.push(vtype); assert(s.drop_last() =~= self.type_stack@); assert(s.last() == vtype); }'

STEP = ('proof { let i = it.index() as int; assert(types@.take(i + 1).drop_last() =~= types@.take(i)); assert(types@.take(i + 1).last() == types@[i]); '
        'assert(forall|k: int| #![trigger count(types@.take(i + 1), k)] count(types@.take(i + 1), k) == count(types@.take(i), k) + if kind(types@[i]) == k { 1int } else { 0int }); '
        'lemma_count_bounds_all(types@.take(i)); lemma_count_bounds_all(types@); lemma_count_mono(types@, i + 1, kind(types@[i])); assert(*vtype == types@[i]); }')

STEP2 = 'proof { let i = it.index() as int; assert(types@.take(i + 1).take(i) =~= types@.take(i)); assert(slot_ok(*self, types@, reg, i)); }'

VALUE = 'src/execution/value.rs'
FK = list(zip(K, ['Reg::I32', 'Reg::I64', 'Reg::F32', 'Reg::F64', 'Reg::Ref', 'Reg::V128'],
              ['Val::Num(Num::I32(%s))', 'Val::Num(Num::I64(%s))', 'Val::Num(Num::F32(%s))', 'Val::Num(Num::F64(%s))', 'Val::Ref(%s)', 'Val::Vec_(Vec_::V128(%s))'],
              ['0', '0', '0.0f32', '0.0f64', 'Ref::RefNull', '0']))
conj = lambda f, sep=' && ': sep.join(f(*k) for k in FK)
FILE_SPEC = '''
#[verifier::external_body] pub struct FuncAddr { x: u8 }
#[verifier::external_body] pub struct ExternAddr { x: u8 }
pub enum RuntimeError { TypeMismatch }
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, b: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures r == (match a { Ok(x) => x, Err(_) => b });
impl Clone for Ref { #[verifier::external_body] fn clone(&self) -> (r: Ref) ensures r == *self { unimplemented!() } }
impl Clone for FrameRegOffsets { #[verifier::external_body] fn clone(&self) -> (r: FrameRegOffsets) ensures r == *self { unimplemented!() } }
impl Default for FrameRegOffsets { #[verifier::external_body] fn default() -> (r: FrameRegOffsets) ensures ''' + conj(lambda k, *_: 'r.%s_offset == 0' % k, ', ') + ''' { unimplemented!() } }
/// the register exists in the current frame
pub open spec fn has(f: RegFile, r: Reg) -> bool {
    match r { ''' + conj(lambda k, c, v, d: '%s(i) => f.cached_offsets.%s_offset + i < f.%s_regs@.len()' % (c, k, k), ', ') + ''' }
}
/// the value of a register of the current frame
pub open spec fn at(f: RegFile, r: Reg) -> Val {
    match r { ''' + conj(lambda k, c, v, d: '%s(i) => %s' % (c, v % ('f.%s_regs@[f.cached_offsets.%s_offset + i]' % (k, k))), ', ') + ''' }
}
pub open spec fn rk(r: Reg) -> int { match r { ''' + ', '.join('%s(_) => %d' % (c, i) for i, (k, c, v, d) in enumerate(FK)) + ''' } }
pub open spec fn vk(v: Val) -> int {
    match v { Val::Num(Num::I32(_)) => 0, Val::Num(Num::I64(_)) => 1, Val::Num(Num::F32(_)) => 2, Val::Num(Num::F64(_)) => 3, Val::Ref(_) => 4, Val::Vec_(_) => 5 }
}
/// same frames, and every register of the frames below the current one has the value it had
pub open spec fn framed(a: RegFile, b: RegFile) -> bool {
    a.frame_offsets@ == b.frame_offsets@ && a.cached_offsets == b.cached_offsets
    && ''' + conj(lambda k, *_: 'a.%s_regs@.len() == b.%s_regs@.len()' % (k, k)) + '''
    && ''' + conj(lambda k, *_: '(forall|i: int| 0 <= i < a.cached_offsets.%s_offset ==> #[trigger] a.%s_regs@[i] == b.%s_regs@[i])' % (k, k, k)) + '''
}
/// only register r of the current frame may differ
pub open spec fn only(a: RegFile, b: RegFile, r: Reg) -> bool {
    framed(a, b) && forall|q: Reg| has(a, q) && q != r ==> #[trigger] at(b, q) == at(a, q)
}
pub open spec fn wf(f: RegFile) -> bool {
    ''' + conj(lambda k, *_: 'f.cached_offsets.%s_offset <= f.%s_regs@.len() < 0x1_0000_0000' % (k, k)) + '''
    && (f.frame_offsets@.len() > 0 ==> f.cached_offsets == f.frame_offsets@.last())
    && (f.frame_offsets@.len() == 0 ==> ''' + conj(lambda k, *_: 'f.cached_offsets.%s_offset == 0' % k) + ''')
    && (forall|i: int, j: int| 0 <= i <= j < f.frame_offsets@.len() ==> le(#[trigger] f.frame_offsets@[i], #[trigger] f.frame_offsets@[j]))
}
pub open spec fn le(a: FrameRegOffsets, b: FrameRegOffsets) -> bool { ''' + conj(lambda k, *_: 'a.%s_offset <= b.%s_offset' % (k, k)) + ''' }
/// the copies neither read a register after an earlier one of them wrote it, nor write one twice
pub open spec fn parallel(src: Seq<Reg>, dst: Seq<Reg>) -> bool {
    forall|i: int, j: int| 0 <= i < j < src.len() ==> #[trigger] dst[i] != #[trigger] src[j] && dst[i] != dst[j]
}
'''
GET = lambda k, c, v: dict(start='proof { assert(self.%s_regs.len() == self.%s_regs@.len()); }' % (k, k), req=['has(*self, %s(reg))' % c], ens=['%s == at(*self, %s(reg))' % (v % 'r', c)])
SET = lambda k, c, v: dict(req=['has(*old(self), %s(reg))' % c, 'wf(*old(self))'],
                           ens=['at(*final(self), %s(reg)) == %s' % (c, v % 'val'), 'only(*old(self), *final(self), %s(reg))' % c, 'wf(*final(self))'])
FILE_FNS = {
    'current_offsets': dict(ens=['*r == self.cached_offsets']),
    'frame_depth': dict(ens=['r == self.frame_offsets@.len()']),
    'save_offsets': dict(
        req=['wf(*old(self))', conj(lambda k, *_: 'old(self).%s_regs@.len() + allocation.%s_count < 0x1_0000_0000' % (k, k))],
        ens=['wf(*final(self))', 'final(self).frame_offsets@ == old(self).frame_offsets@.push(final(self).cached_offsets)'] +
            ['final(self).cached_offsets.%s_offset == old(self).%s_regs@.len()' % (k, k) for k in K] +
            ['final(self).%s_regs@.len() == old(self).%s_regs@.len() + allocation.%s_count' % (k, k, k) for k in K] +
            ['forall|i: int| 0 <= i < old(self).%s_regs@.len() ==> #[trigger] final(self).%s_regs@[i] == old(self).%s_regs@[i]' % (k, k, k) for k in K] +
            ['forall|i: int| old(self).%s_regs@.len() <= i < final(self).%s_regs@.len() ==> #[trigger] final(self).%s_regs@[i] == %s' % (k, k, k, d) for k, c, v, d in FK]),
    'restore_offsets': dict(
        req=['wf(*old(self))'],
        ens=['wf(*final(self))',
             'old(self).frame_offsets@.len() > 0 ==> final(self).frame_offsets@ == old(self).frame_offsets@.drop_last()'] +
            ['old(self).frame_offsets@.len() > 0 ==> final(self).%s_regs@ == old(self).%s_regs@.take(old(self).cached_offsets.%s_offset as int)' % (k, k, k) for k in K] +
            ['final(self).frame_offsets@.len() > 0 ==> final(self).cached_offsets == final(self).frame_offsets@.last()']),
    'copy_reg': dict(req=['has(*old(self), *src)', 'has(*old(self), *dst)', 'rk(*src) == rk(*dst)', 'wf(*old(self))'],
                     ens=['at(*final(self), *dst) == at(*old(self), *src)', 'only(*old(self), *final(self), *dst)', 'wf(*final(self))']),
    'copy_regs': dict(
        req=['src_regs@.len() == dst_regs@.len()', 'wf(*old(self))', 'parallel(src_regs@, dst_regs@)',
             'forall|j: int| 0 <= j < src_regs@.len() ==> has(*old(self), #[trigger] src_regs@[j]) && has(*old(self), dst_regs@[j]) && rk(src_regs@[j]) == rk(dst_regs@[j])'],
        ens=['wf(*final(self))', 'framed(*old(self), *final(self))',
             'forall|j: int| 0 <= j < dst_regs@.len() ==> at(*final(self), #[trigger] dst_regs@[j]) == at(*old(self), src_regs@[j])',
             'forall|q: Reg| has(*old(self), q) && !dst_regs@.contains(q) ==> #[trigger] at(*final(self), q) == at(*old(self), q)'],
        loops=[('it', '''it.seq().len() == src_regs@.len(), src_regs@.len() == dst_regs@.len(),
            forall|j: int| 0 <= j < src_regs@.len() ==> *(#[trigger] it.seq()[j]).0 == src_regs@[j] && *it.seq()[j].1 == dst_regs@[j],
            wf(*self), framed(*old(self), *self), parallel(src_regs@, dst_regs@),
            forall|j: int| 0 <= j < src_regs@.len() ==> has(*old(self), #[trigger] src_regs@[j]) && has(*old(self), dst_regs@[j]) && rk(src_regs@[j]) == rk(dst_regs@[j]),
            forall|j: int| 0 <= j < it.index() ==> at(*self, #[trigger] dst_regs@[j]) == at(*old(self), src_regs@[j]),
            forall|q: Reg| has(*old(self), q) && !dst_regs@.take(it.index() as int).contains(q) ==> #[trigger] at(*self, q) == at(*old(self), q),
            ''')],
        after=[(r'for \(src, dst\) in it:[^{]*\{', '''let ghost before = *self; proof { let i = it.index() as int; assert(*src == src_regs@[i] && *dst == dst_regs@[i]);
              assert(!dst_regs@.take(i).contains(*src)); assert(has(*old(self), *src)); assert(has(*old(self), *dst)); }'''),
               (r'self\.copy_reg\(src, dst\);', '''proof { let i = it.index() as int;
              assert forall|j: int| 0 <= j < i + 1 implies at(*self, #[trigger] dst_regs@[j]) == at(*old(self), src_regs@[j]) by { if j < i { assert(has(before, dst_regs@[j])) by { assert(has(*old(self), src_regs@[j]) && has(*old(self), dst_regs@[j])); } assert(dst_regs@[j] != dst_regs@[i]) by { assert(dst_regs@[j] != src_regs@[i]); } } }
              assert forall|q: Reg| has(*old(self), q) && !dst_regs@.take(i + 1).contains(q) implies #[trigger] at(*self, q) == at(*old(self), q) by { assert(dst_regs@.take(i + 1)[i] == *dst); assert(!dst_regs@.take(i).contains(q)) by { if dst_regs@.take(i).contains(q) { let k = choose|k: int| 0 <= k < i && dst_regs@.take(i)[k] == q; assert(dst_regs@.take(i + 1)[k] == q); } } assert(has(before, q)); assert(at(before, q) == at(*old(self), q)); } }''')],
        end='proof { assert(dst_regs@.take(dst_regs@.len() as int) =~= dst_regs@); }'),
    'get_val': dict(req=['has(*self, *reg)'], ens=['r == at(*self, *reg)']),
    'set_val': dict(req=['has(*old(self), *reg)', 'wf(*old(self))', 'rk(*reg) == vk(*val)', 'rk(*reg) != 5'],
                    ens=['at(*final(self), *reg) == *val', 'only(*old(self), *final(self), *reg)', 'wf(*final(self))']),
}
for k, c, v, d in FK:
    FILE_FNS['get_' + k] = GET(k, c, v)
    FILE_FNS['set_' + k] = SET(k, c, v)

NEWI = 'it.seq().len() == local_types@.len(), forall|i: int| 0 <= i < local_types@.len() ==> *it.seq()[i] == local_types@[i], allocator.type_stack@.len() == 0, ' + ', '.join('total(local_types@, %d) < 0x1_0000_0000' % k for k in range(6)) + ', '
STEPN = ('proof { let i = it.index() as int; assert(local_types@.take(i + 1).drop_last() =~= local_types@.take(i)); assert(local_types@.take(i + 1).last() == local_types@[i]); '
         + ' '.join('lemma_total_mono(local_types@, i + 1, %d); lemma_total_mono(local_types@, i, %d);' % (k, k) for k in range(6)) + ' }')

PARSER = 'src/parser.rs'
IR = 'src/execution/ir.rs'
TAKE = lambda t: dict(
    ens=['old(pending)@.len() == 0 ==> r == %sRegOperand::Reg(reg_index) && final(pending)@ == old(pending)@' % t,
         'old(pending)@.len() > 0 ==> (match old(pending)@.last() { '
         'PendingOperand::%sConst(v) => r == %sRegOperand::Const(v) && final(pending)@ == old(pending)@.drop_last(), '
         'PendingOperand::%sLocal(i) => r == %sRegOperand::Param(i) && final(pending)@ == old(pending)@.drop_last(), '
         '_ => r == %sRegOperand::Reg(reg_index) && final(pending)@ == old(pending)@ })' % ((t,) * 5)],
    end='')
PARSER_SPEC = '''
pub mod wasmparser { use super::*; verus! { #[verifier::external_body] pub struct BlockType { x: u8 } } }
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    where T: std::clone::Clone
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(#[trigger] s@[i], r@[i]);
/// the registers a branch of this depth has to write
pub open spec fn targets(stack: Seq<ControlBlockInfo>, func: Seq<Reg>, depth: int) -> Seq<Reg> {
    if depth >= stack.len() { func }
    else if stack[stack.len() - 1 - depth].is_loop { stack[stack.len() - 1 - depth].param_regs@ }
    else { stack[stack.len() - 1 - depth].result_regs@ }
}
/// the types of these registers
pub open spec fn typed(ts: Seq<ValueType>, regs: Seq<Reg>) -> bool {
    ts.len() == regs.len() && forall|i: int| 0 <= i < ts.len() ==> kind(#[trigger] ts[i]) == rkind(regs[i])
}
/// type of local i
pub open spec fn local_type(params: Seq<ValueType>, locals: Seq<(u32, ValueType)>, i: int) -> ValueType {
    if i < params.len() { params[i] } else { declared(locals, i - params.len()) }
}
pub open spec fn declared(locals: Seq<(u32, ValueType)>, i: int) -> ValueType
    decreases locals.len()
{
    if locals.len() == 0 { ValueType::NumType(NumType::I32) }
    else if i < locals[0].0 { locals[0].1 }
    else { declared(locals.drop_first(), i - locals[0].0) }
}
'''

UNITS = {
    'regalloc': dict(
        types=[(TYPES, 'ValueType'), (TYPES, 'NumType'), (TYPES, 'VecType'), (TYPES, 'RefType'),
               (REGS, 'Reg'), (REGS, 'RegAllocation'), (REGS, 'RegAllocator'), (REGS, 'RegAllocatorState'),
               (PARSER, 'PendingOperand'), (PARSER, 'ControlBlockInfo'), (IR, 'I32RegOperand'), (IR, 'I64RegOperand'), (IR, 'F32RegOperand'), (IR, 'F64RegOperand')],
        no_derive=('RegAllocation', 'RegAllocatorState', 'ControlBlockInfo'),
        spec=ALLOC_SPEC + PARSER_SPEC,
        impls=[
            (REGS, r'impl RegAllocator\b', 'impl RegAllocator', {
                'new': dict(
                    req=['forall|k: int| six(k) ==> #[trigger] total(local_types@, k) < 0x1_0000_0000'],
                    ens=['forall|k: int| six(k) ==> #[trigger] r.depth(k) == total(local_types@, k)', 'forall|k: int| six(k) ==> #[trigger] r.maxd(k) == total(local_types@, k)',
                         'r.type_stack@.len() == 0', 'r.inv()'],
                    start='proof { assert(local_types@.take(local_types@.len() as int) =~= local_types@); ' + ' '.join('assert(total(local_types@, %d) < 0x1_0000_0000); assert(total(local_types@.take(0), %d) == 0);' % (k, k) for k in range(6)) + ' }',
                    loops=[('it', NEWI + ', '.join('allocator.%s_depth == total(local_types@.take(it.index() as int), %d)' % (n, k) for k, n in enumerate(K)) + ','),
                           ('jt', NEWI + '0 <= it.index() < local_types@.len(), *count == local_types@[it.index() as int].0, *vtype == local_types@[it.index() as int].1, ' +
                            ', '.join('total(local_types@.take(it.index() as int), %d) + if kind(*vtype) == %d { *count as int } else { 0 } < 0x1_0000_0000' % (k, k) for k in range(6)) + ', ' +
                            ', '.join('allocator.%s_depth == total(local_types@.take(it.index() as int), %d) + if kind(*vtype) == %d { jt.index() as int } else { 0 }' % (n, k, k) for k, n in enumerate(K)) + ',')],
                    after=[(r'for \(count, vtype\) in it:[^{]*\{(?=\s*for)', STEPN)]),
                'push': dict(req=['old(self).inv()', 'old(self).depth(kind(vtype)) < 0x10000'],
                             ens=GROW + ['final(self).type_stack@ == old(self).type_stack@.push(vtype)', 'final(self).inv()'], start=PUSHED),
                'reserve': dict(req=['old(self).inv()', 'old(self).depth(kind(vtype)) < 0x10000'],
                                ens=GROW + ['final(self).type_stack@ == old(self).type_stack@', 'final(self).inv()']),
                'free': dict(req=['old(self).inv()', 'old(self).depth(kind(*vtype)) > count(old(self).type_stack@, kind(*vtype))'],
                             ens=['final(self).depth(kind(*vtype)) == old(self).depth(kind(*vtype)) - 1',
                                  'forall|k: int| six(k) && k != kind(*vtype) ==> #[trigger] final(self).depth(k) == old(self).depth(k)',
                                  'forall|k: int| six(k) ==> #[trigger] final(self).maxd(k) == old(self).maxd(k)',
                                  'final(self).type_stack@ == old(self).type_stack@', 'final(self).inv()'],
                             start='proof { lemma_count_bounds(self.type_stack@, kind(*vtype)); }'),
                'pop': dict(req=['old(self).inv()', 'old(self).type_stack@.len() > 0', 'kind(old(self).type_stack@.last()) == kind(*vtype)',
                                 'old(self).depth(kind(*vtype)) <= 0x10000'],
                            ens=['rkind(r) == kind(*vtype)', 'rindex(r) == old(self).depth(kind(*vtype)) - 1',
                                 'final(self).depth(kind(*vtype)) == old(self).depth(kind(*vtype)) - 1',
                                 'forall|k: int| six(k) && k != kind(*vtype) ==> #[trigger] final(self).depth(k) == old(self).depth(k)',
                                 'forall|k: int| six(k) ==> #[trigger] final(self).maxd(k) == old(self).maxd(k)',
                                 'final(self).type_stack@ == old(self).type_stack@.drop_last()', 'final(self).inv()'],
                            start='proof { lemma_count_bounds(self.type_stack@.drop_last(), kind(*vtype)); assert(self.depth(kind(*vtype)) >= 1) by { assert(six(kind(*vtype))); } }'),
                'pop_any': dict(req=['old(self).inv()', 'forall|k: int| six(k) ==> #[trigger] old(self).depth(k) <= 0x10000'],
                                ens=['old(self).type_stack@.len() == 0 ==> r is None && *final(self) == *old(self)',
                                     'old(self).type_stack@.len() > 0 ==> r is Some && rkind(r->0) == kind(old(self).type_stack@.last()) && rindex(r->0) == old(self).depth(rkind(r->0)) - 1 && final(self).depth(rkind(r->0)) == old(self).depth(rkind(r->0)) - 1 && final(self).type_stack@ == old(self).type_stack@.drop_last()',
                                     'final(self).inv()']),
                'peek_type': dict(ens=['self.type_stack@.len() == 0 ==> r is None', 'self.type_stack@.len() > 0 ==> r is Some && *r->0 == self.type_stack@.last()']),
                'peek': dict(req=['forall|k: int| six(k) ==> #[trigger] self.depth(k) <= 0x10000'],
                             ens=['self.depth(kind(*vtype)) == 0 ==> r is None',
                                  'self.depth(kind(*vtype)) > 0 ==> r is Some && rkind(r->0) == kind(*vtype) && rindex(r->0) == self.depth(kind(*vtype)) - 1']),
                'peek_regs_for_types': dict(
                    req=['types@.len() < 0x10000', 'forall|k: int| six(k) ==> #[trigger] self.depth(k) < 0x10000'],
                    ens=['r@.len() == types@.len()', 'forall|i: int| 0 <= i < types@.len() ==> #[trigger] slot_ok(*self, types@, r@[i], i)'],
                    loops=[('it', "it.seq().len() == types@.len(), forall|i: int| 0 <= i < types@.len() ==> *it.seq()[i] == types@[i], types@.len() < 0x10000, " + ', '.join(
                        '%s_c == count(types@.take(it.index() as int), %d)' % (n, k) for k, n in enumerate(K)) + ','),
                           ('it', "it.seq().len() == types@.len(), forall|i: int| 0 <= i < types@.len() ==> *it.seq()[i] == types@[i], types@.len() < 0x10000, "
                            "forall|k: int| six(k) ==> #[trigger] self.depth(k) < 0x10000, " + ', '.join('self.%s_depth < 0x10000' % n for n in K) + ", result@.len() == it.index(), "
                            "forall|i: int| 0 <= i < it.index() ==> #[trigger] slot_ok(*self, types@, result@[i], i), " + ', '.join(
                        '%s_idx == base(*self, types@, %d) + count(types@.take(it.index() as int), %d)' % (n, k, k) for k, n in enumerate(K)) + ',')],
                    after=[(r'for vtype in it: types.iter\(\)[^{]*\{(?=\s*match)', STEP), (r'for vtype in it: types.iter\(\)[^{]*\{(?=\s*let)', STEP), (r'result\.push\(reg\);', STEP2)],
                    start='proof { ' + ' '.join('assert(self.depth(%d) == self.%s_depth);' % (k, n) for k, n in enumerate(K)) + ' assert(types@.take(types@.len() as int) =~= types@); assert(types@.take(0) =~= Seq::<ValueType>::empty()); assert(forall|k: int| #[trigger] count(types@.take(0), k) == 0); }'),
                'clear_stack': dict(ens=['forall|k: int| six(k) ==> #[trigger] final(self).depth(k) == 0', 'forall|k: int| six(k) ==> #[trigger] final(self).maxd(k) == old(self).maxd(k)']),
                'save_state': dict(ens=['forall|k: int| six(k) ==> #[trigger] r.depth(k) == self.depth(k)', 'r.type_stack_len == self.type_stack@.len()']),
                'restore_state': dict(
                    req=['old(self).inv()', 'state.type_stack_len <= old(self).type_stack@.len()',
                         ' && '.join('old(self).can_restore(state, %d)' % k for k in range(6))],
                    ens=['forall|k: int| six(k) ==> #[trigger] final(self).depth(k) == state.depth(k)',
                         'forall|k: int| six(k) ==> #[trigger] final(self).maxd(k) == old(self).maxd(k)',
                         'final(self).type_stack@ == old(self).type_stack@.take(state.type_stack_len as int)', 'final(self).inv()']),
                'finalize': dict(ens=['forall|k: int| six(k) ==> #[trigger] r.size(k) == self.maxd(k)']),
            }),
            (REGS, r'impl RegAllocatorState\b', 'impl RegAllocatorState', {
                'reg_for_type': dict(req=['self.depth(kind(*vtype)) < 0x10000'], ens=['rkind(r) == kind(*vtype)', 'rindex(r) == self.depth(kind(*vtype))']),
                'next_reg_for_type': dict(req=['old(self).depth(kind(*vtype)) < 0x10000'],
                                          ens=['rkind(r) == kind(*vtype)', 'rindex(r) == old(self).depth(kind(*vtype))',
                                               'final(self).depth(kind(*vtype)) == old(self).depth(kind(*vtype)) + 1',
                                               'forall|k: int| six(k) && k != kind(*vtype) ==> #[trigger] final(self).depth(k) == old(self).depth(k)',
                                               'final(self).type_stack_len == old(self).type_stack_len']),
            }),
            (REGS, r'impl Reg\b', 'impl Reg', {'index': dict(ens=['r == rindex(*self)']), 'value_type': dict(ens=['kind(r) == rkind(*self)'])}),
            (PARSER, None, None, {
                'take_i32_operand': TAKE('I32'), 'take_i64_operand': TAKE('I64'), 'take_f32_operand': TAKE('F32'), 'take_f64_operand': TAKE('F64'),
                'get_local_type': dict(
                    ens=['r == local_type(params@, locals@, local_index as int)'],
                    loops=[('it', '''it.seq().len() == locals@.len(), forall|i: int| 0 <= i < locals@.len() ==> *it.seq()[i] == locals@[i], local_index >= params@.len(),
                        declared(locals@, local_index - params@.len()) == declared(locals@.skip(it.index() as int), index as int),''')],
                    start='proof { assert(locals@.skip(0) =~= locals@); }',
                    after=[(r'for \(count, vtype\) in it:[^{]*\{(?=\s*if)', 'proof { let i = it.index() as int; assert(locals@.skip(i)[0] == locals@[i]); assert(locals@.skip(i).drop_first() =~= locals@.skip(i + 1)); }')]),
                'compute_branch_regs': dict(
                    req=['reg_allocator is Some ==> forall|k: int| six(k) ==> #[trigger] reg_allocator->0.depth(k) < 0x10000',
                         'targets(control_info_stack@, function_result_regs@, relative_depth as int).len() < 0x10000'],
                    ens=['r.1@ == targets(control_info_stack@, function_result_regs@, relative_depth as int)',
                         'reg_allocator is None ==> r.0@.len() == 0',
                         '''reg_allocator is Some ==> r.0@.len() == r.1@.len() && exists|ts: Seq<ValueType>| #[trigger] typed(ts, r.1@)
                            && (forall|i: int| 0 <= i < ts.len() ==> #[trigger] slot_ok(*reg_allocator->0, ts, r.0@[i], i))'''],
                    after=[(r'allocator\.peek_regs_for_types\(&label_types\)(?=\s*\})', ''), (r'let label_types[^;]*;', 'proof { assert(label_types@.len() == target_result_regs@.len()); assert(typed(label_types@, target_result_regs@)); }')]),
            }),
        ],
        skip=(),
        lemmas='''
proof fn lemma_total_mono(s: Seq<(u32, ValueType)>, i: int, k: int)
    requires 0 <= i <= s.len()
    ensures 0 <= total(s.take(i), k) <= total(s, k)
    decreases s.len()
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        if s.len() > 0 { lemma_total_mono(s.drop_last(), s.len() - 1, k); assert(s.drop_last().take(s.len() - 1) =~= s.drop_last()); }
    } else {
        assert(s.drop_last().take(i) =~= s.take(i));
        lemma_total_mono(s.drop_last(), i, k);
    }
}
proof fn lemma_count_bounds_all(s: Seq<ValueType>)
    ensures forall|k: int| 0 <= #[trigger] count(s, k) <= s.len()
{
    assert forall|k: int| 0 <= #[trigger] count(s, k) <= s.len() by { lemma_count_bounds(s, k); }
}
proof fn lemma_count_mono(s: Seq<ValueType>, i: int, k: int)
    requires 0 <= i <= s.len()
    ensures count(s.take(i), k) <= count(s, k)
    decreases s.len()
{
    if i == s.len() { assert(s.take(i) =~= s); }
    else {
        assert(s.drop_last().take(i) =~= s.take(i));
        lemma_count_mono(s.drop_last(), i, k);
    }
}
proof fn lemma_count_bounds(s: Seq<ValueType>, k: int)
    ensures 0 <= count(s, k) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_count_bounds(s.drop_last(), k); }
}
''',
    ),
    'regfile': dict(
        types=[(VALUE, 'Val'), (VALUE, 'Num'), (VALUE, 'Vec_'), (VALUE, 'Ref'), (REGS, 'Reg'), (REGS, 'FrameRegOffsets'), (REGS, 'RegFile'), (REGS, 'RegAllocation')],
        no_derive=('RegAllocation', 'FrameRegOffsets', 'RegFile', 'Ref', 'Val', 'Num', 'Vec_'),
        must_derive=[(VALUE, 'Ref', 'Clone'), (REGS, 'FrameRegOffsets', 'Clone'), (REGS, 'FrameRegOffsets', 'Default')],
        spec=FILE_SPEC,
        rewrite=[(r'unsafe \{\s*\*self\.(\w+)\.get_unchecked\(idx\)\s*\}', r'self.\1[idx]'),
                 (r'unsafe \{\s*self\.(\w+)\.get_unchecked\(idx\)\.clone\(\)\s*\}', r'self.\1[idx].clone()'),
                 (r'unsafe \{\s*\*self\.(\w+)\.get_unchecked_mut\(idx\) = val;\s*\}', r'self.\1[idx] = val;')],
        impls=[
            (VALUE, r'impl Val\b', 'impl Val', {
                'to_i32': dict(ens=['r == (match *self { Val::Num(Num::I32(x)) => Ok::<i32, RuntimeError>(x), _ => Err(RuntimeError::TypeMismatch) })']),
                'to_i64': dict(ens=['r == (match *self { Val::Num(Num::I64(x)) => Ok::<i64, RuntimeError>(x), _ => Err(RuntimeError::TypeMismatch) })']),
                'to_f32': dict(ens=['r == (match *self { Val::Num(Num::F32(x)) => Ok::<f32, RuntimeError>(x), _ => Err(RuntimeError::TypeMismatch) })']),
                'to_f64': dict(ens=['r == (match *self { Val::Num(Num::F64(x)) => Ok::<f64, RuntimeError>(x), _ => Err(RuntimeError::TypeMismatch) })']),
            }),
            (REGS, r'impl RegFile\b', 'impl RegFile', FILE_FNS),
        ],
        skip=('val_type', 'new', 'new_global', 'from_allocation', 'write_from_stack', 'get_i32_regs', 'get_i64_regs',
              'get_i32_and_i64_regs', 'get_i32_and_f32_regs', 'get_i32_and_f64_regs'),
        lemmas='''
/// a call (a new frame, any writes to that frame's registers, the frame's removal) leaves the registers of
/// every other frame as they were
proof fn lemma_call_preserves_caller(f0: RegFile, f1: RegFile, f2: RegFile, f3: RegFile)
    requires
        // save_offsets
        ''' + ',\n        '.join('f1.cached_offsets.%s_offset == f0.%s_regs@.len(), f1.%s_regs@.len() >= f0.%s_regs@.len(), forall|i: int| 0 <= i < f0.%s_regs@.len() ==> #[trigger] f1.%s_regs@[i] == f0.%s_regs@[i]' % ((k,) * 7) for k in K) + ''',
        // the callee
        framed(f1, f2),
        // restore_offsets
        ''' + ',\n        '.join('f3.%s_regs@ == f2.%s_regs@.take(f2.cached_offsets.%s_offset as int)' % ((k,) * 3) for k in K) + '''
    ensures
        ''' + ',\n        '.join('f3.%s_regs@ =~= f0.%s_regs@' % ((k,) * 2) for k in K) + '''
{
    ''' + '\n    '.join('assert forall|i: int| 0 <= i < f0.%s_regs@.len() implies f3.%s_regs@[i] == f0.%s_regs@[i] by { assert(f1.%s_regs@[i] == f2.%s_regs@[i]); }' % ((k,) * 5) for k in K) + '''
}
''',
    ),
}
