//! Contracts of instantiation: what `ModuleInst::new` and its parts build from a decoded module.
use super::memory::{lin_mem, Lin};
use super::misc::bits;
use crate::nd::Nd;
use crate::{contract, must_trap};
use chiwawa::execution::func::{FuncAddr, FuncInst};
use chiwawa::execution::ir::Outcome;
use chiwawa::execution::module::*;
use chiwawa::execution::regs::RegAllocation;
use chiwawa::execution::value::*;
use chiwawa::execution::verif::*;
use chiwawa::structure::instructions::{Expr, Instr};
use chiwawa::structure::module::*;
use chiwawa::structure::types::*;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;

// ---- parts ----
// an active data segment: any memory, any segment, any offset inside
contract!(seg_init, leak, n, {
    let (mem, m) = lin_mem(n);
    let seg = Lin::any(n);
    n.assume(seg.len <= m.len);
    let d = if n.sym() { n.u32() as usize } else { n.u32() as usize % (m.len - seg.len + 1) };
    n.assume(d as u64 + seg.len as u64 <= m.len as u64);
    let init: &[u8] = unsafe { std::slice::from_raw_parts(seg.p, seg.len) };
    let want = |k: usize, was: u8| if k >= d && k < d + seg.len { seg.at(k - d) } else { was };
    if N::SYM {
        let k = n.u32() as usize;
        n.assume(k < m.len);
        let was = m.at(k);
        mem.init(d, init);
        assert!(m.at(k) == want(k, was), "post: an active data segment replaces exactly its range of the memory");
    } else {
        let before: Vec<u8> = (0..m.len).map(|k| m.at(k)).collect();
        mem.init(d, init);
        for k in 0..m.len {
            assert!(m.at(k) == want(k, before[k]), "post: an active data segment replaces exactly its range of the memory");
        }
    }
    assert!(mem.data_len() == m.len, "frame: the memory keeps its size");
    m.free();
    seg.free();
});
must_trap!(trap_seg_init, unwind 9, n, {
    let (mem, m) = lin_mem(n);
    let l = if n.bool() { 0 } else { n.u32() as usize % 9 };
    let d = if n.sym() { n.u32() as usize } else { m.len - m.len.min(9) + n.u32() as usize % 20 };
    n.assume(d as u64 + l as u64 > m.len as u64);
    (mem, d, l)
}, |p| {
    let seg = [7u8; 9];
    p.0.init(p.1, &seg[..p.2]);
    Outcome::Continue
});
/// the functions of a module under construction
fn funcs(k: usize) -> MD<Vec<FuncAddr>> {
    let mut v = Vec::with_capacity(k);
    let mut i = 0;
    while i < k {
        v.push(FuncAddr::alloc_empty());
        i += 1;
    }
    MD::new(v)
}
fn is_func(v: &Val, f: &FuncAddr) -> bool {
    match v {
        Val::Ref(Ref::FuncAddr(g)) => Rc::ptr_eq(g.get_rc(), f.get_rc()),
        _ => false,
    }
}
fn is_null(v: &Val) -> bool {
    matches!(v, Val::Ref(Ref::RefNull))
}
/// a table of `T` entries, a segment of `l` arbitrary functions at offset `o`, then a second one
fn table_case<N: Nd>(n: &mut N, size: u32, l: usize) {
    let fs = funcs(3);
    let t = MD::new(TableAddr::new(&TableType(Limits { min: size, max: if n.bool() { Some(n.u32()) } else { None } }, RefType::FuncRef)));
    let mut i = 0;
    assert!(t.read_lock().elem.len() == size as usize, "post: a table starts with its declared minimum size");
    while i < size as usize {
        assert!(is_null(&MD::new(t.get(i))), "post: a table starts with null entries");
        i += 1;
    }
    let (a, b) = (n.u8() % 3, n.u8() % 3);
    let o = n.u8() as usize % (size as usize - l + 1);
    let f = |k: u8| Ref::FuncAddr(FuncAddr::clone(&fs[k as usize]));
    let init = MD::new(if l == 0 { Vec::new() } else if l == 1 { Vec::from([f(a)]) } else { Vec::from([f(a), f(b)]) });
    t.init(o, &init);
    assert!(t.read_lock().elem.len() == size as usize, "frame: a segment does not resize the table");
    let mut i = 0;
    while i < size as usize {
        let v = MD::new(t.get(i));
        if i >= o && i < o + l {
            let f = if i == o { a } else { b };
            assert!(is_func(&v, &fs[f as usize]), "post: an active element segment stores exactly the functions it names");
        } else {
            assert!(is_null(&v), "frame: an element segment changes only its range");
        }
        i += 1;
    }
}
contract!(table_0, leak, n, { table_case(n, 0, 0); table_case(n, 1, 0); table_case(n, 1, 1); });
contract!(table_3, leak, n, { table_case(n, 3, 1); });
contract!(table_4, leak, n, { table_case(n, 4, 2); });
must_trap!(trap_table_init, unwind 9, n, {
    let t = MD::new(TableAddr::new(&TableType(Limits { min: 3, max: None }, RefType::FuncRef)));
    let l = (n.u8() % 3) as usize;
    let o = if n.sym() { n.u32() } else { n.u32() % 9 };
    n.assume(o as u64 + l as u64 > 3);
    (t, o as usize, l)
}, |p| {
    let fs = funcs(1);
    let f = || Ref::FuncAddr(FuncAddr::clone(&fs[0]));
    let init = MD::new(if p.2 == 0 { Vec::new() } else if p.2 == 1 { Vec::from([f()]) } else { Vec::from([f(), Ref::RefNull]) });
    p.0.init(p.1, &init);
    Outcome::Continue
});

// ---- ModuleInst::new ----
fn name(s: &str) -> Name {
    Name(String::from(s))
}
fn new(m: &Module) -> MD<Rc<ModuleInst>> {
    match MD::new(ModuleInst::new(m, ImportObjects::default(), Vec::new())) {
        ref r => match &**r {
            Ok(x) => MD::new(Rc::clone(x)),
            Err(_) => panic!("post: a valid module instantiates"),
        },
    }
}
fn konst(t: u8, b: u64) -> Expr {
    Expr(Vec::from([match t {
        0 => Instr::I32Const(b as u32 as i32),
        1 => Instr::I64Const(b as i64),
        2 => Instr::F32Const(f32::from_bits(b as u32)),
        _ => Instr::F64Const(f64::from_bits(b)),
    }]))
}
fn global(t: u8, init: Expr) -> Global {
    let ty = match t { 0 => NumType::I32, 1 => NumType::I64, 2 => NumType::F32, _ => NumType::F64 };
    Global { type_: GlobalType(Mut::Const, ValueType::NumType(ty)), init }
}
/// two globals of arbitrary constants and one initialised from one of them
fn globals_case<N: Nd>(n: &mut N, t: u8, u: u8, from: u32) {
    let tr = |t: u8, b: u64| if t == 0 || t == 2 { b & 0xffff_ffff } else { b };
    let (a, b) = (tr(t, n.u64()), tr(u, n.u64()));
    let mut m = MD::new(Module::new("m"));
    m.globals = Vec::from([
        global(t, konst(t, a)),
        global(u, konst(u, b)),
        global(if from == 0 { t } else { u }, Expr(Vec::from([Instr::GlobalGet(GlobalIdx(from))]))),
    ]);
    let i = new(&m);
    assert!(i.global_addrs.len() == 3, "post: one global per declaration");
    let v = [MD::new(i.global_addrs[0].get()), MD::new(i.global_addrs[1].get()), MD::new(i.global_addrs[2].get())];
    assert!(bits(&v[0]) == Some((t, a)) && bits(&v[1]) == Some((u, b)), "post: a global starts with the value of its initialiser");
    assert!(bits(&v[2]) == Some(if from == 0 { (t, a) } else { (u, b) }), "post: global.get in an initialiser reads the earlier global");
}
contract!(new_globals_i, leak, n, { globals_case(n, 0, 1, 0); });
contract!(new_globals_f, leak, n, { globals_case(n, 2, 3, 1); });
/// Executed natively only: the verifier runs out of memory on a whole page or on the module graph.
macro_rules! ran {
    ($name:ident, $n:ident, $body:block) => {
        contract!(@ $name, [kani::unwind(5)], $n, $body);
    };
}
fn data(mode: DataMode, at: Option<Instr>, b: &[u8]) -> Data {
    let mut init = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        init.push(Byte(b[i]));
        i += 1;
    }
    Data { init, memory: if mode == DataMode::Active { Some(MemIdx(0)) } else { None }, mode, offset: at.map(|x| Expr(Vec::from([x]))) }
}
// a memory of one page with a passive and two active segments, the second may overlap the first
ran!(new_memory, n, {
    let (o, p) = (n.u32(), n.u32());
    let (o, p) = if n.sym() { (o, p) } else { (o % 65534, (o % 65534 + p % 5).saturating_sub(2)) };
    n.assume(o <= 65536 - 3 && p <= 65536 - 2);
    let b = [n.u8(), n.u8(), n.u8(), n.u8(), n.u8(), n.u8()];
    let mut m = MD::new(Module::new("m"));
    m.mems = Vec::from([Mem { type_: MemType(Limits { min: 1, max: None }) }]);
    m.globals = Vec::from([global(0, konst(0, p as u64))]);
    m.datas = Vec::from([
        data(DataMode::Active, Some(Instr::I32Const(o as i32)), &b[0..3]),
        data(DataMode::Passive, None, &b[5..6]),
        data(DataMode::Active, Some(Instr::GlobalGet(GlobalIdx(0))), &b[3..5]),
    ]);
    let i = new(&m);
    assert!(i.mem_addrs.len() == 1 && i.mem_addrs[0].data_len() == 65536 && i.mem_addrs[0].mem_size() == 1, "post: a memory has its declared minimum size");
    let mem = i.mem_addrs[0].data_ptr();
    let (o, p) = (o as usize, p as usize);
    let want = |k: usize| {
        if k >= p && k < p + 2 { b[3 + k - p] } else if k >= o && k < o + 3 { b[k - o] } else { 0 }
    };
    if N::SYM {
        let k = n.u32() as usize;
        n.assume(k < 65536);
        assert!(unsafe { *mem.add(k) } == want(k), "post: memory is zero except for the active segments, applied in order");
    } else {
        for k in 0..65536 {
            assert!(unsafe { *mem.add(k) } == want(k), "post: memory is zero except for the active segments, applied in order");
        }
    }
    assert!(i.data_addrs.len() == 3, "post: one data segment per declaration");
    let d = [MD::new(i.data_addrs[0].get_data()), MD::new(i.data_addrs[1].get_data()), MD::new(i.data_addrs[2].get_data())];
    assert!(d[0].len() == 0 && d[2].len() == 0, "post: active segments are dropped");
    assert!(d[1].len() == 1 && d[1][0] == b[5], "post: passive segments stay available");
});
// a table with an active segment, and exports naming every kind of entity
ran!(new_exports, n, {
    let (o, f, g) = (n.u8() % 2, n.u8() % 2, n.u8() % 2);
    let (x, y) = (n.u8() % 2, n.u8() % 2);
    let mut m = MD::new(Module::new("m"));
    let one = |ty: u32| Func { type_: TypeIdx(ty), locals: Vec::new(), body: Rc::new(Vec::new()), reg_allocation: None::<RegAllocation>, handlers: Rc::new(Vec::new()) };
    m.types = Rc::new(Vec::from([
        FuncType { params: Vec::new(), results: Vec::new() },
        FuncType { params: Vec::from([ValueType::NumType(NumType::I64)]), results: Vec::new() },
    ]));
    m.funcs = Vec::from([one(0), one(1)]);
    m.tables = Vec::from([Table { type_: TableType(Limits { min: 3, max: None }, RefType::FuncRef) }]);
    m.globals = Vec::from([global(0, konst(0, 5)), global(1, konst(1, 6))]);
    m.elems = Vec::from([Elem {
        type_: RefType::FuncRef,
        init: None,
        idxes: Some(Vec::from([FuncIdx(f as u32), FuncIdx(g as u32)])),
        mode: ElemMode::Active,
        table_idx: Some(TableIdx(0)),
        offset: Some(Expr(Vec::from([Instr::I32Const(o as i32)]))),
    }]);
    m.exports = Vec::from([
        Export { name: name("a"), desc: ExportDesc::Func(FuncIdx(x as u32)) },
        Export { name: name("b"), desc: ExportDesc::Global(GlobalIdx(y as u32)) },
        Export { name: name("c"), desc: ExportDesc::Table(TableIdx(0)) },
    ]);
    let i = new(&m);
    assert!(i.func_addrs.len() == 2, "post: one function per definition");
    let mut k = 0;
    while k < 2 {
        match i.func_addrs[k].read_lock() {
            FuncInst::RuntimeFunc { type_, module, code } => {
                assert!(code.type_.0 as usize == k && type_.params.len() == k, "post: function k is the k-th definition");
                assert!(std::ptr::eq(module.as_ptr(), Rc::as_ptr(&i)), "post: a function belongs to its module instance");
            }
            _ => panic!("post: a defined function is a module function"),
        }
        k += 1;
    }
    let t = &i.table_addrs[0];
    let mut k = 0;
    while k < 3 {
        let v = MD::new(t.get(k));
        let o = o as usize;
        if k == o { assert!(is_func(&v, &i.func_addrs[f as usize]), "post: the active element segment fills the table"); }
        else if k == o + 1 { assert!(is_func(&v, &i.func_addrs[g as usize]), "post: the active element segment fills the table"); }
        else { assert!(is_null(&v), "post: other table entries are null"); }
        k += 1;
    }
    assert!(i.exports.len() == 3, "post: one export per declaration");
    assert!(i.exports[0].name == "a" && i.exports[1].name == "b" && i.exports[2].name == "c", "post: exports keep their names");
    match &i.exports[0].value {
        Externval::Func(e) => assert!(Rc::ptr_eq(e.get_rc(), i.func_addrs[x as usize].get_rc()), "post: a function export is the function it names"),
        _ => panic!("post: a function export is a function"),
    }
    match &i.exports[1].value {
        Externval::Global(e) => assert!(bits(&MD::new(e.get())) == Some((y, 5 + y as u64)), "post: a global export is the global it names"),
        _ => panic!("post: a global export is a global"),
    }
    match &i.exports[2].value {
        Externval::Table(e) => assert!(is_func(&MD::new(e.get(o as usize)), &i.func_addrs[f as usize]), "post: a table export is the table it names"),
        _ => panic!("post: a table export is a table"),
    }
    match MD::new(i.get_export_func("a")) {
        ref r => match &**r {
            Ok(e) => assert!(Rc::ptr_eq(e.get_rc(), i.func_addrs[x as usize].get_rc()), "post: looking an export up by name gives the function it names"),
            Err(_) => panic!("post: an exported function is found by name"),
        },
    }
    assert!(MD::new(i.get_export_func("b")).is_err() && MD::new(i.get_export_func("z")).is_err(), "post: only exported functions are found by name");
});
