//! The real code: the parser, instantiation and the interpreter of the chiwawa crate.
use crate::ast::Mod;
use crate::ops::Ty;
use chiwawa::error::RuntimeError;
use chiwawa::execution::migration;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::value::*;
use chiwawa::structure::module::Module;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub struct Inst {
    pub inst: Rc<ModuleInst>,
    /// functions before function 0 of the reference numbering
    pub shift: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Values(Vec<u64>),
    Trap(String),
    /// stopped for a checkpoint
    Checkpoint,
    /// the real code rejected a valid program
    Reject(String),
}
pub fn val(t: Ty, b: u64) -> Val {
    match t {
        Ty::I32 => Val::Num(Num::I32(b as u32 as i32)),
        Ty::I64 => Val::Num(Num::I64(b as i64)),
        Ty::F32 => Val::Num(Num::F32(f32::from_bits(b as u32))),
        Ty::F64 => Val::Num(Num::F64(f64::from_bits(b))),
        Ty::Func => Val::Ref(Ref::RefNull),
    }
}
pub fn load(path: &str, bytes: &[u8]) -> Result<Module, String> {
    std::fs::write(path, bytes).map_err(|e| e.to_string())?;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut m = Module::new("t");
        chiwawa::parser::parse_bytecode(&mut m, path).map_err(|e| format!("{e:?}"))?;
        Ok(m)
    }));
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("parser panics: {}", msg(&p))),
    }
}
pub fn msg(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}
impl Inst {
    pub fn new(m: &Module, shift: u64) -> Result<Inst, String> {
        match catch_unwind(AssertUnwindSafe(|| ModuleInst::new(m, Default::default(), vec![]))) {
            Ok(Ok(inst)) => Ok(Inst { inst, shift }),
            Ok(Err(e)) => Err(format!("{e:?}")),
            Err(p) => Err(format!("instantiation panics: {}", msg(&p))),
        }
    }
    /// which function a reference is, in the numbering of the reference semantics
    pub fn refbits(&self, r: &Ref) -> u64 {
        match r {
            Ref::RefNull => 0,
            Ref::FuncAddr(f) => match self.inst.func_addrs.iter().position(|g| Rc::ptr_eq(g.get_rc(), f.get_rc())) {
                Some(i) => i as u64 + 1 - self.shift,
                None => u64::MAX,
            },
            _ => u64::MAX - 1,
        }
    }
    pub fn bits(&self, v: &Val) -> (Ty, u64) {
        match v {
            Val::Num(Num::I32(v)) => (Ty::I32, *v as u32 as u64),
            Val::Num(Num::I64(v)) => (Ty::I64, *v as u64),
            Val::Num(Num::F32(v)) => (Ty::F32, v.to_bits() as u64),
            Val::Num(Num::F64(v)) => (Ty::F64, v.to_bits()),
            Val::Ref(r) => (Ty::Func, self.refbits(r)),
            _ => (Ty::Func, u64::MAX - 2),
        }
    }
    fn finish(&self, r: Result<Result<Vec<Val>, RuntimeError>, Box<dyn std::any::Any + Send>>, tys: &[Ty]) -> Out {
        match r {
            Ok(Ok(v)) => {
                if v.len() != tys.len() {
                    return Out::Reject(format!("{} results instead of {}", v.len(), tys.len()));
                }
                let mut o = vec![];
                for (v, t) in v.iter().zip(tys) {
                    let (vt, b) = self.bits(v);
                    if vt != *t {
                        return Out::Reject(format!("a result has type {vt:?} instead of {t:?}"));
                    }
                    o.push(b);
                }
                Out::Values(o)
            }
            Ok(Err(RuntimeError::CheckpointRequested)) => Out::Checkpoint,
            Ok(Err(e)) => Out::Trap(format!("{e:?}")),
            Err(p) => Out::Trap(msg(&p)),
        }
    }
    pub fn call(&self, m: &Mod, f: usize, args: &[u64], ckpt: bool) -> Out {
        let sg = &m.types[m.funcs[f].sig];
        let params: Vec<Val> = sg.params.iter().zip(args).map(|(t, b)| val(*t, *b)).collect();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let fa = self.inst.get_export_func(&format!("f{f}"))?;
            let mut rt = Runtime::new(Rc::clone(&self.inst), &fa, params, false, ckpt)?;
            rt.run()
        }));
        self.finish(r, &sg.results)
    }
    /// resume from ./checkpoint.bin in this (fresh) instance
    pub fn resume(&self, m: &Mod, f: usize, path: &str, ckpt: bool) -> Out {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let st = migration::restore(Rc::clone(&self.inst), path)?;
            let mut rt = Runtime::new_restored(Rc::clone(&self.inst), st, false, ckpt);
            rt.run()
        }));
        self.finish(r, &m.types[m.funcs[f].sig].results)
    }
    /// what is wrong with the exports of the instance, if anything
    pub fn exports(&self, m: &Mod) -> Option<String> {
        let i = &self.inst;
        let mut want: Vec<(String, u8, usize)> = (0..m.funcs.len()).map(|k| (format!("f{k}"), 0, k)).collect();
        if m.exports {
            if m.table.is_some() {
                want.push(("t".into(), 1, 0));
            }
            if m.mem.is_some() {
                want.push(("m".into(), 2, 0));
            }
            want.extend((0..m.globals.len()).map(|k| (format!("g{k}"), 3, k)));
            want.extend((0..m.funcs.len()).map(|k| (format!("f{k}x"), 0, k)));
        }
        if i.exports.len() != want.len() {
            return Some(format!("{} exports instead of {}", i.exports.len(), want.len()));
        }
        for ((n, kind, k), e) in want.iter().zip(&i.exports) {
            if *n != e.name {
                return Some(format!("export {:?} instead of {n:?}", e.name));
            }
            let ok = match (kind, &e.value) {
                (0, Externval::Func(f)) => Rc::ptr_eq(f.get_rc(), i.func_addrs[*k + self.shift as usize].get_rc()),
                (1, Externval::Table(t)) => std::ptr::eq(&*t.read_lock(), &*i.table_addrs[0].read_lock()),
                (2, Externval::Mem(x)) => std::ptr::eq(x.get_memory_direct_access(), i.mem_addrs[0].get_memory_direct_access()),
                (3, Externval::Global(g)) => self.bits(&g.get()) == self.bits(&i.global_addrs[*k].get()),
                _ => false,
            };
            if !ok {
                return Some(format!("export {n:?} is another entity"));
            }
            if *kind == 0 {
                match i.get_export_func(n) {
                    Ok(f) if Rc::ptr_eq(f.get_rc(), i.func_addrs[*k + self.shift as usize].get_rc()) => {}
                    _ => return Some(format!("the export {n:?} is not found by its name")),
                }
            } else if i.get_export_func(n).is_ok() {
                return Some(format!("the export {n:?} is found as a function"));
            }
        }
        if i.get_export_func("f").is_ok() || i.get_export_func("").is_ok() {
            return Some("a name that is not exported is found".into());
        }
        None
    }
    pub fn globals(&self) -> Vec<(Ty, u64)> {
        self.inst.global_addrs.iter().map(|g| self.bits(&g.get())).collect()
    }
    pub fn memory(&self) -> Vec<u8> {
        self.inst.mem_addrs.first().map(|m| m.get_data().to_vec()).unwrap_or_default()
    }
    pub fn table(&self) -> Vec<u64> {
        self.inst
            .table_addrs
            .first()
            .map(|t| t.read_lock().elem.iter().map(|v| self.bits(v).1).collect())
            .unwrap_or_default()
    }
}
