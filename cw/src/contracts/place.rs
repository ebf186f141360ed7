//! Operand placement, once per operand type: every combination of register / constant / local for
//! destination and sources, and registers with a symbolic index.  The per-instruction contracts use
//! register operands under the verifier in the quick tier (all handlers go through the same operand
//! accessors); natively and in the thorough tier every instruction runs with every placement.
use super::int::Pl::*;
use super::float::{s32, s64};
use super::int::*;
use crate::contract;
use crate::world::*;
use chiwawa::execution::handlers::*;

fn any2<T>(_: T, _: T) -> bool { true }

macro_rules! place {
    ($name:ident: $bin:ident $bi:ident $bs:expr; $cmp:ident $ci:ident $cs:expr; $un:ident $ui:ident $us:expr) => {
        contract!($name, n, {
            let mut w = World::new();
            $bin(&mut w, n, $bi, (L, C, L), any2, $bs);
            $bin(&mut w, n, $bi, (R, L, C), any2, $bs);
            $cmp(&mut w, n, $ci, (L, C, L), $cs);
            $cmp(&mut w, n, $ci, (R, L, C), $cs);
            $un(&mut w, n, $ui, (L, C), $us);
            $un(&mut w, n, $ui, (R, L), $us);
            $un(&mut w, n, $ui, (L, R), $us);
            $bin(&mut w, n, $bi, (A, A, A), any2, $bs);
        });
    };
}
place! { place_i32: bin_i32 HANDLER_IDX_I32_AND |a, b| a & b; cmp_i32 HANDLER_IDX_I32_EQ |a, b| a == b; un_i32 HANDLER_IDX_LOCAL_GET |a| a }
place! { place_i64: bin_i64 HANDLER_IDX_I64_AND |a, b| a & b; cmp_i64 HANDLER_IDX_I64_EQ |a, b| a == b; un_i64 HANDLER_IDX_LOCAL_GET |a| a }
place! { place_f32: binb_f32 HANDLER_IDX_F32_COPYSIGN s32::copysign; cmp_f32 HANDLER_IDX_F32_EQ s32::eq; unb_f32 HANDLER_IDX_LOCAL_GET |a| a }
place! { place_f64: binb_f64 HANDLER_IDX_F64_COPYSIGN s64::copysign; cmp_f64 HANDLER_IDX_F64_EQ s64::eq; unb_f64 HANDLER_IDX_LOCAL_GET |a| a }
