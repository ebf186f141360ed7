#![recursion_limit = "20000"]
#![cfg_attr(kani, feature(allocator_api, core_intrinsics))]
#![cfg_attr(kani, allow(internal_features))]
pub mod contracts;
pub mod nd;
#[cfg(feature = "native")]
pub mod registry;
pub mod world;

/// stub for the slow path of `Rc::drop`
#[cfg(kani)]
pub unsafe fn leak_rc<T: ?Sized, A: core::alloc::Allocator>(_this: &mut std::rc::Rc<T, A>) {}

/// Declares one contract: a body that builds an arbitrary pre-state satisfying the
/// precondition, runs the real code, and asserts the postcondition and the frame.
#[macro_export]
macro_rules! contract {
    ($name:ident, $n:ident, $body:block) => {
        contract!($name, unwind 9, $n, $body);
    };
    ($name:ident, unwind $u:literal, $n:ident, $body:block) => {
        contract!($name, unwind $u, solver cadical, $n, $body);
    };
    // values behind Rc are leaked instead of destroyed: `Rc::drop_slow` is assumed to have no
    // observable effect (the destructors of the instances only free memory)
    ($name:ident, leak, $n:ident, $body:block) => {
        contract!(@ $name, [kani::unwind(9)] [kani::solver(cadical)] [kani::stub(std::rc::Rc::drop_slow, $crate::leak_rc)], $n, $body);
    };
    ($name:ident, unwind $u:literal, solver $s:ident, $n:ident, $body:block) => {
        contract!(@ $name, [kani::unwind($u)] [kani::solver($s)], $n, $body);
    };
    (@ $name:ident, $([$($attr:tt)*])*, $n:ident, $body:block) => {
        #[allow(non_snake_case)]
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables)]
            pub fn body<N: $crate::nd::Nd>($n: &mut N) {
                $body
            }
            #[cfg(kani)]
            #[kani::proof]
            $(#[$($attr)*])*
            fn proof() {
                body(&mut $crate::nd::Sym);
                kani::cover!(true, "REACH");
            }
        }
    };
}

/// Declares a must-trap contract: from every pre-state satisfying the precondition the real code
/// must not complete the instruction: it panics (a host trap on wasm32) or returns `Outcome::Trap`.
/// The body returns the outcome; the driver requires the cover MUST_NOT_REACH to be unsatisfiable
/// and the cover PRE (precondition satisfiable) to be satisfied.
#[macro_export]
macro_rules! must_trap {
    ($name:ident, unwind $u:literal, $n:ident, $pre:block, |$p:ident| $body:block) => {
        #[allow(non_snake_case)]
        pub mod $name {
            #[allow(unused_imports)]
            use super::*;
            #[allow(unused_variables, unused_mut)]
            pub fn body<N: $crate::nd::Nd>($n: &mut N) {
                let mut $p = $pre;
                #[cfg(kani)]
                kani::cover!(true, "PRE");
                $n.enter();
                let o: chiwawa::execution::ir::Outcome = $body;
                if o != chiwawa::execution::ir::Outcome::Trap {
                    #[cfg(kani)]
                    kani::cover!(true, "MUST_NOT_REACH");
                    $n.completed();
                }
            }
            #[cfg(kani)]
            #[kani::proof]
            #[kani::unwind($u)]
            #[kani::stub(std::rc::Rc::drop_slow, $crate::leak_rc)]
            fn proof() {
                body(&mut $crate::nd::Sym);
            }
        }
    };
}
