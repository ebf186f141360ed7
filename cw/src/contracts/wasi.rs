//! Contracts of the WASI calls: the guest's call reaches the host function of the same name exactly
//! once, with the same scalars, every guest address translated to the byte of linear memory it names,
//! every path copied with a terminating NUL, every iovec list translated entry by entry; the guest
//! gets the host's errno, results the interpreter forwards itself are stored at the guest's address
//! exactly on success, and no other byte of linear memory changes.
//!
//! The host functions are replaced by `stubs` (under the verifier by stubbing the foreign functions,
//! natively by defining the symbols), which check what they are given against `H.exp`.
use super::memory::{empty_module, lin_mem, Lin};
use crate::contract;
use crate::nd::Nd;
use chiwawa::execution::mem::MemAddr;
use chiwawa::execution::module::ModuleInst;
use chiwawa::execution::regs::{RegAllocation, RegFile};
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::state::Stacks;
use chiwawa::execution::value::{Num, Val};
use chiwawa::structure::module::WasiFuncType as W;
use chiwawa::wasi::passthrough::PassthroughWasiImpl;
use std::mem::ManuallyDrop as MD;
use std::rc::Rc;
use std::sync::Arc;

/// how one guest parameter (two for Path, Buf and Iov) reaches the host
#[derive(Clone, Copy, PartialEq)]
pub enum P {
    /// i32 passed on; truncated to 16 or 8 bits
    S,
    H,
    B,
    /// i64 passed on
    D,
    /// guest address of a buffer the host reads or fills: passed as the host pointer to that byte
    O,
    /// guest address at which a 4- or 8-byte result appears on success
    L4,
    L8,
    /// guest address at which an 8-, 24- or 64-byte structure appears on success
    K8,
    K24,
    K64,
    /// (address, length): copied, NUL-terminated
    Path,
    /// (address, length): address translated
    Buf,
    /// (address, count) of an iovec list of the given length
    Iov0,
    Iov1,
    Iov2,
}
#[derive(Clone, Copy)]
pub enum E {
    Eq(u64),
    At(usize),
    Str(usize, usize),
    /// the host stores value `.0` there on success
    Out(usize),
    /// the host fills `.0` bytes there on success
    Block(usize),
}
#[derive(Clone, Copy)]
pub enum A {
    V(u64),
    R(*const u8),
    W4(*mut u32),
    W8(*mut u64),
}
#[repr(C)]
struct HostIovec {
    buf: *const u8,
    len: u32,
}
pub struct Host {
    pub id: u8,
    pub calls: u32,
    pub base: *mut u8,
    pub exp: [E; 8],
    pub n: usize,
    pub errno: u16,
    pub vals: [u64; 2],
    /// the arbitrary position at which string copies are compared
    pub pick: usize,
    /// the arbitrary byte of a structure the host writes
    pub block_at: usize,
    /// 0, or what was wrong with the call
    pub bad: u32,
    /// the list of an Iov parameter as the guest wrote it
    pub list: [(u32, u32); 3],
}
pub static mut H: Host = Host {
    id: 0,
    calls: 0,
    base: std::ptr::null_mut(),
    exp: [E::Eq(0); 8],
    n: 0,
    errno: 0,
    vals: [0; 2],
    pick: 0,
    block_at: 0,
    bad: 0,
    list: [(0, 0); 3],
};
const WRONG_CALL: u32 = 1;
const WRONG_SCALAR: u32 = 2;
const WRONG_POINTER: u32 = 3;
const WRONG_STRING: u32 = 4;
const WRONG_LIST: u32 = 5;

#[allow(static_mut_refs)]
unsafe fn check(e: E, a: A) -> u32 {
    match (e, a) {
        (E::Eq(x), A::V(v)) => (x != v) as u32 * WRONG_SCALAR,
        (E::At(x), A::R(p)) => (p != H.base.add(x) as *const u8) as u32 * WRONG_POINTER,
        (E::Str(x, l), A::R(p)) => {
            let j = H.pick;
            if *p.add(l) != 0 || (j < l && *p.add(j) != *H.base.add(x + j)) {
                WRONG_STRING
            } else {
                0
            }
        }
        (E::Out(i), A::W4(p)) => {
            if H.errno == 0 {
                std::ptr::write_unaligned(p, H.vals[i] as u32);
            }
            0
        }
        (E::Out(i), A::W8(p)) => {
            if H.errno == 0 {
                std::ptr::write_unaligned(p, H.vals[i]);
            }
            0
        }
        (E::Block(w), A::R(p)) => {
            if H.errno == 0 {
                // its first, its last and an arbitrary byte
                let p = p as *mut u8;
                *p = H.vals[0] as u8;
                *p.add(w - 1) = H.vals[0] as u8;
                *p.add(H.block_at % w) = H.vals[0] as u8;
            }
            0
        }
        _ => WRONG_CALL,
    }
}
#[allow(static_mut_refs)]
unsafe fn host(id: u8, args: &[A]) -> u16 {
    H.calls += 1;
    if id != H.id || args.len() != H.n {
        H.bad = WRONG_CALL;
        return H.errno;
    }
    let mut i = 0;
    while i < args.len() {
        let b = check(H.exp[i], args[i]);
        if b != 0 {
            H.bad = b;
        }
        i += 1;
    }
    H.errno
}
/// the host functions that take an iovec list: fd_write, fd_read, fd_pread, fd_pwrite, sock_recv, sock_send
#[allow(static_mut_refs)]
fn host_iov(which: u8, fd: u32, list: *const u8, n: u32, x: u64, out: [*mut u32; 2]) -> u16 {
    unsafe {
        let r = match which {
            0 | 1 => host(which, &[A::V(fd as u64), A::V(n as u64), A::W4(out[0])]),
            2 | 3 => host(which, &[A::V(fd as u64), A::V(n as u64), A::V(x), A::W4(out[0])]),
            4 => host(which, &[A::V(fd as u64), A::V(n as u64), A::V(x), A::W4(out[0]), A::W4(out[1])]),
            _ => host(which, &[A::V(fd as u64), A::V(n as u64), A::V(x), A::W4(out[0])]),
        };
        if H.bad == 0 {
            let l = list as *const HostIovec;
            let mut i = 0;
            while i < n as usize {
                let (a, len) = H.list[i];
                let v = &*l.add(i);
                if v.len != len || (len != 0 && v.buf != H.base.add(a as usize) as *const u8) {
                    H.bad = WRONG_LIST;
                }
                i += 1;
            }
        }
        r
    }
}

macro_rules! hosts {
    ($($name:ident $id:literal ($($a:ident: $t:ty = $e:expr),*);)*) => {
        #[allow(non_snake_case, unused_unsafe, clippy::missing_safety_doc)]
        pub mod stubs {
            use super::*;
            $(#[cfg_attr(not(kani), no_mangle)]
            pub unsafe extern "C" fn $name($($a: $t),*) -> u16 {
                #[cfg(not(kani))]
                if $id == 34 && super::super::run::PROBING == 1 {
                    return super::super::run::native_probe(&[$($e),*]);
                }
                host($id, &[$($e),*])
            })*
            #[cfg(not(kani))]
            mod lists {
                use chiwawa::wasi::passthrough::verif as v;
                // untyped views of the typed stand-ins in the crate under verification
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_fd_write(fd: u32, l: *const u8, n: u32, o: *mut u32) -> u16 {
                    (v::HOST)(0, fd, l, n, 0, [o, std::ptr::null_mut()])
                }
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_fd_read(fd: u32, l: *const u8, n: u32, o: *mut u32) -> u16 {
                    (v::HOST)(1, fd, l, n, 0, [o, std::ptr::null_mut()])
                }
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_fd_pread(fd: u32, l: *const u8, n: u32, x: u64, o: *mut u32) -> u16 {
                    (v::HOST)(2, fd, l, n, x, [o, std::ptr::null_mut()])
                }
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_fd_pwrite(fd: u32, l: *const u8, n: u32, x: u64, o: *mut u32) -> u16 {
                    (v::HOST)(3, fd, l, n, x, [o, std::ptr::null_mut()])
                }
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_sock_recv(fd: u32, l: *const u8, n: u32, x: u32, o: *mut u32, o2: *mut u32) -> u16 {
                    (v::HOST)(4, fd, l, n, x as u64, [o, o2])
                }
                #[no_mangle]
                pub unsafe extern "C" fn __wasi_sock_send(fd: u32, l: *const u8, n: u32, x: u32, o: *mut u32) -> u16 {
                    (v::HOST)(5, fd, l, n, x as u64, [o, std::ptr::null_mut()])
                }
            }
        }
    };
}
hosts! {
    __wasi_random_get 11 (b: *mut u8 = A::R(b), l: u32 = A::V(l as u64));
    __wasi_args_sizes_get 12 (a: *mut u32 = A::W4(a), b: *mut u32 = A::W4(b));
    __wasi_args_get 13 (a: *mut *mut u8 = A::R(a as *const u8), b: *mut u8 = A::R(b));
    __wasi_clock_time_get 16 (c: u32 = A::V(c as u64), p: u64 = A::V(p), t: *mut u64 = A::W8(t));
    __wasi_clock_res_get 17 (c: u32 = A::V(c as u64), t: *mut u64 = A::W8(t));
    __wasi_sched_yield 18 ();
    __wasi_fd_close 19 (fd: u32 = A::V(fd as u64));
    __wasi_fd_sync 20 (fd: u32 = A::V(fd as u64));
    __wasi_fd_datasync 21 (fd: u32 = A::V(fd as u64));
    __wasi_fd_prestat_get 22 (fd: u32 = A::V(fd as u64), p: *mut u8 = A::R(p));
    __wasi_fd_prestat_dir_name 23 (fd: u32 = A::V(fd as u64), p: *mut u8 = A::R(p), l: u32 = A::V(l as u64));
    __wasi_fd_fdstat_get 24 (fd: u32 = A::V(fd as u64), p: *mut u8 = A::R(p));
    __wasi_fd_seek 25 (fd: u32 = A::V(fd as u64), o: i64 = A::V(o as u64), w: u32 = A::V(w as u64), p: *mut u64 = A::W8(p));
    __wasi_fd_tell 26 (fd: u32 = A::V(fd as u64), p: *mut u64 = A::W8(p));
    __wasi_fd_fdstat_set_flags 27 (fd: u32 = A::V(fd as u64), f: u32 = A::V(f as u64));
    __wasi_fd_filestat_set_size 28 (fd: u32 = A::V(fd as u64), s: u64 = A::V(s));
    __wasi_fd_filestat_get 29 (fd: u32 = A::V(fd as u64), p: *mut u8 = A::R(p));
    __wasi_path_create_directory 30 (fd: u32 = A::V(fd as u64), p: *const u8 = A::R(p));
    __wasi_path_remove_directory 31 (fd: u32 = A::V(fd as u64), p: *const u8 = A::R(p));
    __wasi_path_unlink_file 32 (fd: u32 = A::V(fd as u64), p: *const u8 = A::R(p));
    __wasi_path_readlink 33 (fd: u32 = A::V(fd as u64), p: *const u8 = A::R(p), b: *mut u8 = A::R(b), l: u32 = A::V(l as u64), o: *mut u32 = A::W4(o));
    __wasi_path_filestat_get 34 (fd: u32 = A::V(fd as u64), f: u32 = A::V(f as u64), p: *const u8 = A::R(p), s: *mut u8 = A::R(s));
    __wasi_path_filestat_set_times 35 (fd: u32 = A::V(fd as u64), f: u32 = A::V(f as u64), p: *const u8 = A::R(p), a: u64 = A::V(a), m: u64 = A::V(m), t: u32 = A::V(t as u64));
    __wasi_path_open 36 (fd: u32 = A::V(fd as u64), d: u32 = A::V(d as u64), p: *const u8 = A::R(p), o: u16 = A::V(o as u64), b: u64 = A::V(b), i: u64 = A::V(i), f: u16 = A::V(f as u64), r: *mut u32 = A::W4(r));
    __wasi_poll_oneoff 37 (i: *const u8 = A::R(i), o: *mut u8 = A::R(o), n: u32 = A::V(n as u64), e: *mut u32 = A::W4(e));
    __wasi_fd_readdir 38 (fd: u32 = A::V(fd as u64), b: *mut u8 = A::R(b), l: u32 = A::V(l as u64), c: u64 = A::V(c), u: *mut u32 = A::W4(u));
    __wasi_proc_raise 39 (s: u32 = A::V(s as u64));
    __wasi_fd_advise 40 (fd: u32 = A::V(fd as u64), o: u64 = A::V(o), l: u64 = A::V(l), a: u8 = A::V(a as u64));
    __wasi_fd_allocate 41 (fd: i32 = A::V(fd as u32 as u64), o: u64 = A::V(o), l: u64 = A::V(l));
    __wasi_fd_fdstat_set_rights 42 (fd: u32 = A::V(fd as u64), b: u64 = A::V(b), i: u64 = A::V(i));
    __wasi_fd_renumber 43 (fd: i32 = A::V(fd as u32 as u64), t: i32 = A::V(t as u32 as u64));
    __wasi_fd_filestat_set_times 44 (fd: u32 = A::V(fd as u64), a: u64 = A::V(a), m: u64 = A::V(m), t: u32 = A::V(t as u64));
    __wasi_path_link 45 (fd: u32 = A::V(fd as u64), f: u32 = A::V(f as u64), p: *const u8 = A::R(p), g: u32 = A::V(g as u64), q: *const u8 = A::R(q));
    __wasi_path_rename 46 (fd: u32 = A::V(fd as u64), p: *const u8 = A::R(p), g: u32 = A::V(g as u64), q: *const u8 = A::R(q));
    __wasi_path_symlink 47 (p: *const u8 = A::R(p), fd: u32 = A::V(fd as u64), q: *const u8 = A::R(q));
    __wasi_sock_accept 48 (fd: u32 = A::V(fd as u64), f: u32 = A::V(f as u64), p: *mut u32 = A::W4(p));
    __wasi_sock_shutdown 49 (fd: u32 = A::V(fd as u64), h: u32 = A::V(h as u64));
}

#[allow(static_mut_refs)]
pub mod envs {
    use super::*;
    #[cfg_attr(not(kani), no_mangle)]
    pub unsafe extern "C" fn __wasi_environ_sizes_get(a: *mut u32, b: *mut u32) -> u16 {
        #[cfg(not(kani))]
        if let Some((bytes, offs, e, _)) = &ENV {
            if *e == 0 {
                *a = offs.len() as u32;
                *b = bytes.len() as u32;
            }
            return *e;
        }
        host(14, &[A::W4(a), A::W4(b)])
    }
    #[cfg(not(kani))]
    #[no_mangle]
    pub unsafe extern "C" fn __wasi_environ_get(a: *mut *mut u8, b: *mut u8) -> u16 {
        let (bytes, offs, _, e) = ENV.as_ref().unwrap();
        if *e == 0 {
            std::ptr::copy(bytes.as_ptr(), b, bytes.len());
            for (i, o) in offs.iter().enumerate() {
                *a.add(i) = b.add(*o as usize);
            }
        }
        *e
    }
}
fn runtime(mem: &MemAddr, argv: Vec<String>) -> MD<Runtime> {
    let mut module: ModuleInst = empty_module();
    module.mem_addrs.push(MemAddr::clone(mem));
    module.wasi_impl = Some(Arc::new(PassthroughWasiImpl::new(argv)));
    bare_runtime(module)
}
fn bare_runtime(module: ModuleInst) -> MD<Runtime> {
    let none = RegAllocation { i32_count: 0, i64_count: 0, f32_count: 0, f64_count: 0, ref_count: 0, v128_count: 0 };
    let stacks = Stacks { activation_frame_stack: Vec::new(), reg_file: RegFile::from_allocation(&none) };
    MD::new(Runtime::new_restored(Rc::new(module), stacks, false, false))
}
pub fn i32v(v: u32) -> Val {
    Val::Num(Num::I32(v as i32))
}

/// an address (and, natively, a plausible one) with `w` bytes behind it
fn addr<N: Nd>(n: &mut N, m: &Lin, w: usize) -> usize {
    n.assume(m.len >= w);
    let a = n.u32() as usize;
    if n.sym() {
        n.assume(a <= m.len - w);
        a
    } else {
        a % (m.len - w + 1)
    }
}
/// a length that fits behind `a`
fn len_at<N: Nd>(n: &mut N, m: &Lin, a: usize) -> usize {
    let l = n.u32() as usize;
    if n.sym() {
        n.assume(l <= m.len - a);
        l
    } else {
        l % (m.len - a + 1) % 300
    }
}
/// the guest's arguments of one call and what the host must see
pub struct Call {
    pub args: [u64; 9],
    pub wide: [bool; 9],
    pub k: usize,
    /// (address, width, structure) of the results
    pub outs: [(usize, usize, bool); 2],
    pub n_out: usize,
    pub buf_len: usize,
    /// an iovec buffer lies outside the memory
    pub oob: bool,
}
#[allow(static_mut_refs)]
pub fn arrange<N: Nd>(n: &mut N, m: &Lin, id: u8, ps: &[P], oob: bool) -> Call {
    let mut c = Call { args: [0; 9], wide: [false; 9], k: 0, outs: [(0, 0, false); 2], n_out: 0, buf_len: 1, oob: false };
    unsafe {
        chiwawa::wasi::passthrough::verif::HOST = host_iov;
        H.id = id;
        H.calls = 0;
        H.base = m.p;
        H.n = 0;
        H.bad = 0;
        H.errno = n.u16();
        if !n.sym() && H.errno & 3 != 0 {
            H.errno = 0;
        }
        H.vals = [n.u64(), n.u64()];
        H.pick = n.u32() as usize;
        H.block_at = n.u8() as usize & 63;
        if !n.sym() {
            H.pick %= 8;
        }
        let mut i = 0;
        while i < ps.len() {
            let e = match ps[i] {
                P::D => {
                    let v = n.u64();
                    c.args[c.k] = v;
                    c.wide[c.k] = true;
                    c.k += 1;
                    E::Eq(v)
                }
                P::S | P::H | P::B => {
                    let v = n.u32();
                    c.args[c.k] = v as u64;
                    c.k += 1;
                    E::Eq(match ps[i] {
                        P::H => v as u16 as u64,
                        P::B => v as u8 as u64,
                        _ => v as u64,
                    })
                }
                P::O => {
                    let a = addr(n, m, 1);
                    c.args[c.k] = a as u64;
                    c.k += 1;
                    E::At(a)
                }
                P::L4 | P::L8 | P::K8 | P::K24 | P::K64 => {
                    let block = !matches!(ps[i], P::L4 | P::L8);
                    let w = match ps[i] {
                        P::L4 => 4,
                        P::L8 | P::K8 => 8,
                        P::K24 => 24,
                        _ => 64,
                    };
                    let a = addr(n, m, w);
                    c.args[c.k] = a as u64;
                    c.k += 1;
                    c.outs[c.n_out] = (a, w, block);
                    c.n_out += 1;
                    if block {
                        E::Block(w)
                    } else {
                        E::Out(c.n_out - 1)
                    }
                }
                P::Path => {
                    let a = addr(n, m, 1);
                    let l = len_at(n, m, a);
                    c.args[c.k] = a as u64;
                    c.args[c.k + 1] = l as u64;
                    c.k += 2;
                    E::Str(a, l)
                }
                P::Buf => {
                    let a = addr(n, m, 1);
                    let l = len_at(n, m, a);
                    c.args[c.k] = a as u64;
                    c.args[c.k + 1] = l as u64;
                    c.k += 2;
                    c.buf_len = l;
                    H.exp[H.n] = E::At(a);
                    H.n += 1;
                    E::Eq(l as u64)
                }
                P::Iov0 | P::Iov1 | P::Iov2 => {
                    let cnt = match ps[i] {
                        P::Iov0 => 0,
                        P::Iov1 => 1,
                        _ => 2,
                    };
                    let a = addr(n, m, 16);
                    let mut j = 0;
                    while j < cnt {
                        if !n.sym() {
                            // a plausible list: mostly inside the memory
                            let b = n.u32();
                            let at = (b as usize % m.len) as u32;
                            let l = n.u32() as usize % (m.len - at as usize + 1 + (oob && b & 0x70 == 0) as usize * 9);
                            for z in 0..4 {
                                *m.p.add(a + 8 * j + z) = at.to_le_bytes()[z];
                                *m.p.add(a + 8 * j + 4 + z) = (l as u32).to_le_bytes()[z];
                            }
                        }
                        let at = m.le(a + 8 * j, 4) as u32;
                        let l = m.le(a + 8 * j + 4, 4) as u32;
                        let inside = l == 0 || at as usize + l as usize <= m.len;
                        if oob {
                            c.oob |= !inside;
                        } else {
                            n.assume(inside);
                        }
                        H.list[j] = (at, l);
                        j += 1;
                    }
                    c.args[c.k] = a as u64;
                    c.args[c.k + 1] = cnt as u64;
                    c.k += 2;
                    E::Eq(cnt as u64)
                }
            };
            H.exp[H.n] = e;
            H.n += 1;
            i += 1;
        }
        // two results of one call are stored at different places (otherwise the last one wins)
        if c.n_out == 2 {
            let (a, b) = (c.outs[0].0, c.outs[1].0);
            n.assume(a + c.outs[0].1 <= b || b + c.outs[1].1 <= a);
        }
    }
    c
}
#[allow(static_mut_refs)]
pub fn expected_byte(c: &Call, j: usize, old: u8, now: u8) -> u8 {
    unsafe {
        if H.errno == 0 {
            let mut i = 0;
            while i < c.n_out {
                let (a, w, block) = c.outs[i];
                if j >= a && j < a + w {
                    if !block {
                        return (H.vals[i] >> (8 * (j - a))) as u8;
                    }
                    // the other bytes of a structure are the host's business
                    let written = j == a || j == a + w - 1 || j == a + H.block_at % w;
                    return if written { H.vals[0] as u8 } else { now };
                }
                i += 1;
            }
        }
        old
    }
}
fn is_list(ps: &[P]) -> bool {
    ps.len() > 1 && matches!(ps[1], P::Iov0 | P::Iov1 | P::Iov2)
}
fn list_len(ps: &[P]) -> u32 {
    match ps[1] {
        P::Iov0 => 0,
        P::Iov1 => 1,
        _ => 2,
    }
}
#[allow(static_mut_refs)]
fn wasi_call<N: Nd>(n: &mut N, f: W, id: u8, ps: &[P], oob: bool) {
    let (mem, m) = lin_mem(n);
    let c = arrange(n, &m, id, ps, oob);
    let mut vals: MD<[Val; 9]> = MD::new([i32v(0), i32v(0), i32v(0), i32v(0), i32v(0), i32v(0), i32v(0), i32v(0), i32v(0)]);
    let mut i = 0;
    while i < c.k {
        let v = if c.wide[i] { Val::Num(Num::I64(c.args[i] as i64)) } else { i32v(c.args[i] as u32) };
        unsafe { std::ptr::write(&mut vals[i], v) };
        i += 1;
    }
    let j = n.u32() as usize;
    let j = if n.sym() {
        n.assume(j < m.len);
        j
    } else if c.n_out > 0 && j & 1 == 0 {
        (c.outs[0].0 + j % 9).min(m.len - 1)
    } else {
        j % m.len
    };
    let old = m.at(j);
    let r = if is_list(ps) {
        // the method itself, with a literal count: the verifier unrolls the loop over the list exactly that often
        let imp = MD::new(PassthroughWasiImpl::new(Vec::new()));
        let a = |i: usize| c.args[i] as u32;
        let cnt = list_len(ps);
        let r = match f {
            W::FdWrite => imp.fd_write(&mem, a(0) as i32, a(1), cnt, a(3)),
            W::FdRead => imp.fd_read(&mem, a(0) as i32, a(1), cnt, a(3)),
            W::FdPread => imp.fd_pread(&mem, a(0) as i32, a(1), cnt, c.args[3], a(4)),
            W::FdPwrite => imp.fd_pwrite(&mem, a(0) as i32, a(1), cnt, c.args[3], a(4)),
            W::SockRecv => imp.sock_recv(&mem, a(0), a(1), cnt, a(3), a(4), a(5)),
            _ => imp.sock_send(&mem, a(0), a(1), cnt, a(3), a(4)),
        };
        MD::new(r.map(|e| Some(i32v(e as u32))))
    } else {
        let rt = runtime(&mem, Vec::new());
        MD::new(rt.verif_call_wasi(&f, &vals[..c.k]))
    };
    unsafe {
        if c.oob {
            assert!(r.is_err() && H.calls == 0, "a buffer outside the memory is refused");
            assert!(m.at(j) == old, "memory unchanged");
        } else {
            assert!(H.bad != WRONG_CALL, "the right host function with the right number of arguments");
            assert!(H.bad != WRONG_SCALAR, "scalar arguments are passed on");
            assert!(H.bad != WRONG_POINTER, "guest addresses are translated");
            assert!(H.bad != WRONG_STRING, "paths are copied and terminated");
            assert!(H.bad != WRONG_LIST, "iovec lists are translated");
            // asking for no random bytes need not reach the host
            let skipped = id == 11 && c.buf_len == 0 && H.calls == 0;
            assert!(H.calls == 1 || skipped, "the host function is called exactly once");
            let e = match &*r {
                Ok(Some(Val::Num(Num::I32(e)))) => *e,
                _ => panic!("the call returns an errno"),
            };
            assert!(e == H.errno as i32 || (skipped && e == 0), "the host's errno is returned");
            assert!(m.at(j) == expected_byte(&c, j, old, m.at(j)), "results are stored exactly where the guest asked");
        }
    }
    m.free();
}

// one list of stand-ins for all: harnesses with the same stand-ins are compiled together
macro_rules! wasi {
    ($name:ident, $($f:ident $id:literal [$($p:ident),*] $oob:literal),*) => {
        contract!(@ $name, [kani::unwind(10)] [kani::solver(cadical)] [kani::stub(std::rc::Rc::drop_slow, $crate::leak_rc)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_random_get, crate::contracts::wasi::stubs::__wasi_random_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_clock_time_get, crate::contracts::wasi::stubs::__wasi_clock_time_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_clock_res_get, crate::contracts::wasi::stubs::__wasi_clock_res_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_sched_yield, crate::contracts::wasi::stubs::__wasi_sched_yield)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_close, crate::contracts::wasi::stubs::__wasi_fd_close)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_sync, crate::contracts::wasi::stubs::__wasi_fd_sync)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_datasync, crate::contracts::wasi::stubs::__wasi_fd_datasync)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_prestat_get, crate::contracts::wasi::stubs::__wasi_fd_prestat_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_prestat_dir_name, crate::contracts::wasi::stubs::__wasi_fd_prestat_dir_name)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_fdstat_get, crate::contracts::wasi::stubs::__wasi_fd_fdstat_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_seek, crate::contracts::wasi::stubs::__wasi_fd_seek)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_tell, crate::contracts::wasi::stubs::__wasi_fd_tell)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_fdstat_set_flags, crate::contracts::wasi::stubs::__wasi_fd_fdstat_set_flags)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_filestat_set_size, crate::contracts::wasi::stubs::__wasi_fd_filestat_set_size)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_filestat_get, crate::contracts::wasi::stubs::__wasi_fd_filestat_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_create_directory, crate::contracts::wasi::stubs::__wasi_path_create_directory)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_remove_directory, crate::contracts::wasi::stubs::__wasi_path_remove_directory)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_unlink_file, crate::contracts::wasi::stubs::__wasi_path_unlink_file)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_readlink, crate::contracts::wasi::stubs::__wasi_path_readlink)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_filestat_get, crate::contracts::wasi::stubs::__wasi_path_filestat_get)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_filestat_set_times, crate::contracts::wasi::stubs::__wasi_path_filestat_set_times)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_open, crate::contracts::wasi::stubs::__wasi_path_open)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_poll_oneoff, crate::contracts::wasi::stubs::__wasi_poll_oneoff)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_readdir, crate::contracts::wasi::stubs::__wasi_fd_readdir)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_advise, crate::contracts::wasi::stubs::__wasi_fd_advise)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_allocate, crate::contracts::wasi::stubs::__wasi_fd_allocate)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_fdstat_set_rights, crate::contracts::wasi::stubs::__wasi_fd_fdstat_set_rights)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_renumber, crate::contracts::wasi::stubs::__wasi_fd_renumber)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_filestat_set_times, crate::contracts::wasi::stubs::__wasi_fd_filestat_set_times)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_link, crate::contracts::wasi::stubs::__wasi_path_link)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_rename, crate::contracts::wasi::stubs::__wasi_path_rename)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_path_symlink, crate::contracts::wasi::stubs::__wasi_path_symlink)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_sock_accept, crate::contracts::wasi::stubs::__wasi_sock_accept)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_sock_shutdown, crate::contracts::wasi::stubs::__wasi_sock_shutdown)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_write, chiwawa::wasi::passthrough::verif::fd_write)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_read, chiwawa::wasi::passthrough::verif::fd_read)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_pread, chiwawa::wasi::passthrough::verif::fd_pread)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_fd_pwrite, chiwawa::wasi::passthrough::verif::fd_pwrite)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_sock_recv, chiwawa::wasi::passthrough::verif::sock_recv)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_sock_send, chiwawa::wasi::passthrough::verif::sock_send)]
            [kani::stub(chiwawa::wasi::passthrough::__wasi_environ_sizes_get, crate::contracts::wasi::envs::__wasi_environ_sizes_get)], n, {
            $(wasi_call(n, W::$f, $id, &[$(P::$p),*], $oob);)*
        });
    };
}
wasi!(scalars_a, SchedYield 18 [] false, FdClose 19 [S] false, FdSync 20 [S] false);
wasi!(scalars_b, FdDatasync 21 [S] false, FdFdstatSetFlags 27 [S, S] false, FdFilestatSetSize 28 [S, D] false);
wasi!(scalars_c, FdAdvise 40 [S, D, D, B] false, FdAllocate 41 [S, D, D] false, FdFdstatSetRights 42 [S, D, D] false);
wasi!(scalars_d, FdRenumber 43 [S, S] false, FdFilestatSetTimes 44 [S, D, D, S] false, SockShutdown 49 [S, S] false);
wasi!(results_a, EnvironSizesGet 14 [L4, L4] false, ClockTimeGet 16 [S, D, L8] false, ClockResGet 17 [S, L8] false);
wasi!(results_b, FdSeek 25 [S, D, S, L8] false, FdTell 26 [S, L8] false, SockAccept 48 [S, S, L4] false);
wasi!(structures, FdPrestatGet 22 [S, K8] false, FdFdstatGet 24 [S, K24] false, FdFilestatGet 29 [S, K64] false);
wasi!(buffers, RandomGet 11 [Buf] false, FdPrestatDirName 23 [S, Buf] false, PollOneoff 37 [O, O, S, L4] false, FdReaddir 38 [S, Buf, D, L4] false);
wasi!(paths_directory, PathCreateDirectory 30 [S, Path] false, PathRemoveDirectory 31 [S, Path] false, PathUnlinkFile 32 [S, Path] false);
wasi!(path_open, PathOpen 36 [S, S, Path, H, D, D, H, L4] false, PathFilestatSetTimes 35 [S, S, Path, D, D, S] false);
wasi!(path_stat, PathFilestatGet 34 [S, S, Path, K64] false, PathReadlink 33 [S, Path, Buf, L4] false);
wasi!(path_link, PathLink 45 [S, S, Path, S, Path] false);
wasi!(path_rename, PathRename 46 [S, Path, S, Path] false);
wasi!(path_symlink, PathSymlink 47 [Path, S, Path] false);
wasi!(lists_none, FdWrite 0 [S, Iov0, L4] true, FdRead 1 [S, Iov0, L4] false, FdPread 2 [S, Iov0, D, L4] false, FdPwrite 3 [S, Iov0, D, L4] false, SockRecv 4 [S, Iov0, S, L4, L4] false, SockSend 5 [S, Iov0, S, L4] false);
wasi!(lists_one_fd, FdWrite 0 [S, Iov1, L4] true, FdRead 1 [S, Iov1, L4] false, FdPread 2 [S, Iov1, D, L4] false, FdPwrite 3 [S, Iov1, D, L4] false);
wasi!(lists_one_sock, SockRecv 4 [S, Iov1, S, L4, L4] false, SockSend 5 [S, Iov1, S, L4] false);
wasi!(fd_write_two, FdWrite 0 [S, Iov2, L4] true);
wasi!(fd_read_two, FdRead 1 [S, Iov2, L4] false);
wasi!(fd_pread_two, FdPread 2 [S, Iov2, D, L4] false);
wasi!(fd_pwrite_two, FdPwrite 3 [S, Iov2, D, L4] false);
wasi!(sock_recv_two, SockRecv 4 [S, Iov2, S, L4, L4] false);
wasi!(sock_send_two, SockSend 5 [S, Iov2, S, L4] false);

/// every supported function, for the end-to-end runs
pub struct Func {
    pub name: &'static str,
    pub id: u8,
    pub ps: &'static [P],
}
macro_rules! funcs {
    ($($name:ident $id:literal [$($p:ident),*];)*) => {
        pub const FUNCS: &[Func] = &[$(Func { name: stringify!($name), id: $id, ps: &[$(P::$p),*] }),*];
    };
}
funcs! {
    fd_write 0 [S, Iov2, L4]; fd_read 1 [S, Iov2, L4]; fd_pread 2 [S, Iov2, D, L4]; fd_pwrite 3 [S, Iov2, D, L4];
    sock_recv 4 [S, Iov2, S, L4, L4]; sock_send 5 [S, Iov2, S, L4]; fd_write 0 [S, Iov1, L4]; fd_read 1 [S, Iov0, L4];
    random_get 11 [Buf]; environ_sizes_get 14 [L4, L4]; clock_time_get 16 [S, D, L8]; clock_res_get 17 [S, L8];
    sched_yield 18 []; fd_close 19 [S]; fd_sync 20 [S]; fd_datasync 21 [S]; fd_prestat_get 22 [S, K8];
    fd_prestat_dir_name 23 [S, Buf]; fd_fdstat_get 24 [S, K24]; fd_seek 25 [S, D, S, L8]; fd_tell 26 [S, L8];
    fd_fdstat_set_flags 27 [S, S]; fd_filestat_set_size 28 [S, D]; fd_filestat_get 29 [S, K64];
    path_create_directory 30 [S, Path]; path_remove_directory 31 [S, Path]; path_unlink_file 32 [S, Path];
    path_readlink 33 [S, Path, Buf, L4]; path_filestat_get 34 [S, S, Path, K64];
    path_filestat_set_times 35 [S, S, Path, D, D, S]; path_open 36 [S, S, Path, H, D, D, H, L4];
    poll_oneoff 37 [O, O, S, L4]; fd_readdir 38 [S, Buf, D, L4]; fd_advise 40 [S, D, D, B]; fd_allocate 41 [S, D, D];
    fd_fdstat_set_rights 42 [S, D, D]; fd_renumber 43 [S, S]; fd_filestat_set_times 44 [S, D, D, S];
    path_link 45 [S, S, Path, S, Path]; path_rename 46 [S, Path, S, Path]; path_symlink 47 [Path, S, Path];
    sock_accept 48 [S, S, L4]; sock_shutdown 49 [S, S];
}

contract!(no_memory, leak, n, {
    // a module without a memory: the call is refused and the host is not asked
    let mut module = empty_module();
    module.wasi_impl = Some(Arc::new(PassthroughWasiImpl::new(Vec::new())));
    let rt = bare_runtime(module);
    let v: MD<[Val; 1]> = MD::new([i32v(n.u32())]);
    let r = MD::new(rt.verif_call_wasi(&W::FdClose, &v[..]));
    assert!(r.is_err(), "a module without a memory gets an error");
});

/// `argv` of bounded length: strings of at most 2 bytes
fn strings<N: Nd>(n: &mut N, max: usize) -> Vec<Vec<u8>> {
    let k = n.below(max as u16 + 1) as usize;
    let mut v = Vec::new();
    for _ in 0..k {
        let l = n.below(if n.sym() { 3 } else { 9 }) as usize;
        let mut s = Vec::new();
        for _ in 0..l {
            s.push(1 + n.below(127) as u8);
        }
        v.push(s);
    }
    v
}
/// the strings behind each other with their NULs, and where each starts
fn layout(v: &[Vec<u8>]) -> (Vec<u8>, Vec<u32>) {
    let mut b = Vec::new();
    let mut o = Vec::new();
    for s in v {
        o.push(b.len() as u32);
        b.extend_from_slice(s);
        b.push(0);
    }
    (b, o)
}
#[cfg(not(kani))]
fn small<N: Nd>(n: &mut N) -> (MD<MemAddr>, Vec<u8>) {
    let mem = MemAddr::new(&chiwawa::structure::types::MemType(chiwawa::structure::types::Limits { min: 0, max: None }));
    let v: Vec<u8> = (0..512u32).map(|i| (i as u8).wrapping_mul(7) ^ n.u8()).collect();
    mem.set_data(v.clone());
    (MD::new(mem), v)
}
#[cfg(not(kani))]
fn dump(mem: &MemAddr) -> Vec<u8> {
    mem.get_memory_direct_access().data.clone()
}
#[cfg(not(kani))]
fn put(v: &mut [u8], a: usize, b: &[u8]) {
    v[a..a + b.len()].copy_from_slice(b)
}
#[cfg(not(kani))]
fn string_call<N: Nd>(n: &mut N, f: W, mem: &MemAddr, old: &[u8], argv: &[Vec<u8>], a: u32, b: u32, fail: u16, list: bool) {
    let (bytes, offs) = layout(argv);
    let args = argv.iter().map(|s| String::from_utf8(s.clone()).unwrap()).collect();
    let rt = runtime(mem, args);
    let v = [i32v(a), i32v(b)];
    let r = rt.verif_call_wasi(&f, &v[..]);
    let mut want = old.to_vec();
    if fail == 0 {
        if list {
            for (i, o) in offs.iter().enumerate() {
                put(&mut want, a as usize + 4 * i, &(b + o).to_le_bytes());
            }
            put(&mut want, b as usize, &bytes);
        } else {
            put(&mut want, a as usize, &(argv.len() as u32).to_le_bytes());
            put(&mut want, b as usize, &(bytes.len() as u32).to_le_bytes());
        }
    }
    match r {
        Ok(Some(Val::Num(Num::I32(e)))) => assert!(e == fail as i32, "the host's errno is returned"),
        _ => panic!("the call returns an errno"),
    }
    assert!(dump(mem) == want, "exactly one pointer per string, and the strings with their terminators, are stored");
    let _ = n;
}
#[cfg(not(kani))]
fn args_body<N: Nd>(n: &mut N, list: bool) {
    let (mem, old) = small(n);
    let v = strings(n, 6);
    let a = n.below(100) as u32;
    let b = 128 + n.below(100) as u32;
    let (a, b) = if n.bool() { (a, b) } else { (b, a) };
    string_call(n, if list { W::ArgsGet } else { W::ArgsSizesGet }, &mem, &old, &v, a, b, 0, list);
}
// native-contract: args_get
#[cfg(not(kani))]
pub mod args_get {
    use super::*;
    pub fn body<N: Nd>(n: &mut N) {
        args_body(n, true)
    }
}
// native-contract: args_sizes_get
#[cfg(not(kani))]
pub mod args_sizes_get {
    use super::*;
    pub fn body<N: Nd>(n: &mut N) {
        args_body(n, false)
    }
}
/// the host's environment, when set
#[cfg(not(kani))]
pub static mut ENV: Option<(Vec<u8>, Vec<u32>, u16, u16)> = None;
// native-contract: environ_get
#[cfg(not(kani))]
pub mod environ_get {
    use super::*;
    pub fn body<N: Nd>(n: &mut N) {
        let (mem, old) = small(n);
        let v = strings(n, 6);
        let (bytes, offs) = layout(&v);
        let a = n.below(100) as u32;
        let b = 128 + n.below(100) as u32;
        let (a, b) = if n.bool() { (a, b) } else { (b, a) };
        let f = [0, 0, 0, 0, 28, 29][n.below(6) as usize];
        unsafe { ENV = Some((bytes, offs, if f == 28 { f } else { 0 }, if f == 29 { f } else { 0 })) };
        string_call(n, W::EnvironGet, &mem, &old, &v, a, b, f, true);
        unsafe { ENV = None };
    }
}

/// a module importing `name` and forwarding to it
#[cfg(not(kani))]
fn module_bytes(name: &str, wide: &[bool], result: bool, pages: u8) -> Vec<u8> {
    let ty = |b: &mut Vec<u8>| {
        b.push(0x60);
        b.push(wide.len() as u8);
        b.extend(wide.iter().map(|w| if *w { 0x7e } else { 0x7f }));
        if result {
            b.extend([1, 0x7f]);
        } else {
            b.push(0);
        }
    };
    let mut m = vec![0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    let mut sec = |id: u8, b: Vec<u8>| {
        m.push(id);
        assert!(b.len() < 128);
        m.push(b.len() as u8);
        m.extend(b);
    };
    let mut t = vec![1];
    ty(&mut t);
    sec(1, t);
    let mut i = vec![1, 22];
    i.extend(b"wasi_snapshot_preview1");
    i.push(name.len() as u8);
    i.extend(name.as_bytes());
    i.extend([0, 0]);
    sec(2, i);
    sec(3, vec![1, 0]);
    sec(5, vec![1, 0, pages]);
    sec(7, vec![1, 1, b'f', 0, 1]);
    let mut c = vec![0];
    for k in 0..wide.len() {
        c.extend([0x20, k as u8]);
    }
    c.extend([0x10, 0, 0x0b]);
    let mut code = vec![1, c.len() as u8];
    code.extend(c);
    sec(10, code);
    m
}
// native-contract: end_to_end
#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub mod end_to_end {
    use super::*;
    use chiwawa::structure::module::Module;
    pub fn body<N: Nd>(n: &mut N) {
        let f = &FUNCS[n.below(FUNCS.len() as u16) as usize];
        let mut wide = vec![];
        for p in f.ps {
            match p {
                P::D => wide.push(true),
                P::Path | P::Buf | P::Iov0 | P::Iov1 | P::Iov2 => wide.extend([false, false]),
                _ => wide.push(false),
            }
        }
        let path = std::env::temp_dir().join(format!("chiwawa-verif-{}.wasm", std::process::id()));
        std::fs::write(&path, module_bytes(f.name, &wide, true, 1)).unwrap();
        let mut m = Module::new("t");
        let parsed = chiwawa::parser::parse_bytecode(&mut m, path.to_str().unwrap());
        std::fs::remove_file(&path).unwrap();
        assert!(parsed.is_ok(), "the module is accepted");
        let inst = ModuleInst::new(&m, Default::default(), vec![]).unwrap();
        let lin = Lin { p: inst.mem_addrs[0].data_ptr(), len: 65536 };
        for i in 0..64 {
            let b = n.u64().to_le_bytes();
            let at = (i * 1021) % 65528;
            unsafe { std::ptr::copy(b.as_ptr(), lin.p.add(at), 8) };
        }
        let c = arrange(n, &lin, f.id, f.ps, f.id == 0);
        let old = inst.mem_addrs[0].get_memory_direct_access().data.clone();
        let args: Vec<Val> = (0..c.k).map(|i| if c.wide[i] { Val::Num(Num::I64(c.args[i] as i64)) } else { i32v(c.args[i] as u32) }).collect();
        let fa = inst.get_export_func("f").unwrap();
        let mut rt = Runtime::new(Rc::clone(&inst), &fa, args, false, false).unwrap();
        let r = rt.run();
        let now = inst.mem_addrs[0].get_memory_direct_access().data.clone();
        unsafe {
            if c.oob {
                assert!(r.is_err() && H.calls == 0 && now == old, "a buffer outside the memory is refused");
                return;
            }
            assert!(H.bad != WRONG_CALL, "the import reaches the host function of its name");
            assert!(H.bad == 0, "arguments reach the host");
            let skipped = f.id == 11 && c.buf_len == 0 && H.calls == 0;
            assert!(H.calls == 1 || skipped, "the host function is called exactly once");
            match r.as_ref().map(|v| v.as_slice()) {
                Ok([Val::Num(Num::I32(e))]) => assert!(*e == H.errno as i32 || (skipped && *e == 0), "the guest gets the host's errno"),
                _ => panic!("the guest gets an errno"),
            }
            for j in 0..now.len() {
                assert!(now[j] == expected_byte(&c, j, old[j], now[j]), "results are stored exactly where the guest asked");
            }
        }
    }
}

/// proc_exit never returns: the exit code reaches the host
#[cfg(kani)]
pub mod proc_exit {
    use super::*;
    pub unsafe extern "C" fn exit_stub(code: u32) -> ! {
        assert!(code as u64 == H.vals[0], "the exit code reaches the host");
        kani::cover!(true, "REACH");
        kani::assume(false);
        loop {}
    }
    #[kani::proof]
    #[kani::unwind(9)]
    #[kani::solver(cadical)]
    #[kani::stub(std::rc::Rc::drop_slow, crate::leak_rc)]
    #[kani::stub(chiwawa::wasi::passthrough::__wasi_proc_exit, exit_stub)]
    fn proof() {
        let mut n = crate::nd::Sym;
        let (mem, _m) = lin_mem(&mut n);
        let code = n.u32();
        unsafe { H.vals = [code as u64, 0] };
        let rt = runtime(&mem, Vec::new());
        let v: MD<[Val; 1]> = MD::new([i32v(code)]);
        let _r = MD::new(rt.verif_call_wasi(&W::ProcExit, &v[..]));
        assert!(false, "proc_exit does not return");
    }
}
#[cfg(not(kani))]
#[no_mangle]
pub extern "C" fn __wasi_proc_exit(_code: u32) {
    std::process::abort()
}
