//! Generated by gen_registry.py.
use crate::contracts::*;
use crate::nd::Replay;
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Ensures,
    MustTrap,
}
pub struct Entry {
    pub name: &'static str,
    pub kind: Kind,
    pub body: fn(&mut Replay),
}
pub const TABLE: &[Entry] = &[
    Entry { name: "calls::call_direct_mixed", kind: Kind::Ensures, body: calls::call_direct_mixed::body::<Replay> },
    Entry { name: "calls::call_direct", kind: Kind::Ensures, body: calls::call_direct::body::<Replay> },
    Entry { name: "calls::call_indirect_ok", kind: Kind::Ensures, body: calls::call_indirect_ok::body::<Replay> },
    Entry { name: "calls::call_indirect_mismatch_params", kind: Kind::Ensures, body: calls::call_indirect_mismatch_params::body::<Replay> },
    Entry { name: "calls::call_indirect_mismatch_results", kind: Kind::Ensures, body: calls::call_indirect_mismatch_results::body::<Replay> },
    Entry { name: "calls::trap_call_indirect", kind: Kind::MustTrap, body: calls::trap_call_indirect::body::<Replay> },
    Entry { name: "calls::call_host", kind: Kind::Ensures, body: calls::call_host::body::<Replay> },
    Entry { name: "calls::do_return", kind: Kind::Ensures, body: calls::do_return::body::<Replay> },
    Entry { name: "calls::regs_nested", kind: Kind::Ensures, body: calls::regs_nested::body::<Replay> },
    Entry { name: "calls::regs_values", kind: Kind::Ensures, body: calls::regs_values::body::<Replay> },
    Entry { name: "control::br_none", kind: Kind::Ensures, body: control::br_none::body::<Replay> },
    Entry { name: "control::br_mixed", kind: Kind::Ensures, body: control::br_mixed::body::<Replay> },
    Entry { name: "control::br_overlap", kind: Kind::Ensures, body: control::br_overlap::body::<Replay> },
    Entry { name: "control::br_if_none", kind: Kind::Ensures, body: control::br_if_none::body::<Replay> },
    Entry { name: "control::br_if_values", kind: Kind::Ensures, body: control::br_if_values::body::<Replay> },
    Entry { name: "control::br_table_default", kind: Kind::Ensures, body: control::br_table_default::body::<Replay> },
    Entry { name: "control::br_table_pick", kind: Kind::Ensures, body: control::br_table_pick::body::<Replay> },
    Entry { name: "control::br_table_beyond", kind: Kind::Ensures, body: control::br_table_beyond::body::<Replay> },
    Entry { name: "control::enter_block", kind: Kind::Ensures, body: control::enter_block::body::<Replay> },
    Entry { name: "control::enter_if", kind: Kind::Ensures, body: control::enter_if::body::<Replay> },
    Entry { name: "control::else_jump", kind: Kind::Ensures, body: control::else_jump::body::<Replay> },
    Entry { name: "control::end_block", kind: Kind::Ensures, body: control::end_block::body::<Replay> },
    Entry { name: "control::end_block_overlap", kind: Kind::Ensures, body: control::end_block_overlap::body::<Replay> },
    Entry { name: "control::end_function", kind: Kind::Ensures, body: control::end_function::body::<Replay> },
    Entry { name: "float::float_f32_cmp", kind: Kind::Ensures, body: float::float_f32_cmp::body::<Replay> },
    Entry { name: "float::float_f32_minmax", kind: Kind::Ensures, body: float::float_f32_minmax::body::<Replay> },
    Entry { name: "float::float_f32_unary", kind: Kind::Ensures, body: float::float_f32_unary::body::<Replay> },
    Entry { name: "float::float_f32_add", kind: Kind::Ensures, body: float::float_f32_add::body::<Replay> },
    Entry { name: "float::float_f32_sub", kind: Kind::Ensures, body: float::float_f32_sub::body::<Replay> },
    Entry { name: "float::float_f32_mul", kind: Kind::Ensures, body: float::float_f32_mul::body::<Replay> },
    Entry { name: "float::bounded_float_f32_div", kind: Kind::Ensures, body: float::bounded_float_f32_div::body::<Replay> },
    Entry { name: "float::native_float_f32_sqrt", kind: Kind::Ensures, body: float::native_float_f32_sqrt::body::<Replay> },
    Entry { name: "float::float_f64_cmp", kind: Kind::Ensures, body: float::float_f64_cmp::body::<Replay> },
    Entry { name: "float::float_f64_minmax", kind: Kind::Ensures, body: float::float_f64_minmax::body::<Replay> },
    Entry { name: "float::float_f64_unary", kind: Kind::Ensures, body: float::float_f64_unary::body::<Replay> },
    Entry { name: "float::float_f64_add", kind: Kind::Ensures, body: float::float_f64_add::body::<Replay> },
    Entry { name: "float::float_f64_sub", kind: Kind::Ensures, body: float::float_f64_sub::body::<Replay> },
    Entry { name: "float::bounded_float_f64_mul", kind: Kind::Ensures, body: float::bounded_float_f64_mul::body::<Replay> },
    Entry { name: "float::bounded_float_f64_div", kind: Kind::Ensures, body: float::bounded_float_f64_div::body::<Replay> },
    Entry { name: "float::native_float_f64_sqrt", kind: Kind::Ensures, body: float::native_float_f64_sqrt::body::<Replay> },
    Entry { name: "float::conv_int", kind: Kind::Ensures, body: float::conv_int::body::<Replay> },
    Entry { name: "float::conv_trunc_f32", kind: Kind::Ensures, body: float::conv_trunc_f32::body::<Replay> },
    Entry { name: "float::conv_trunc_f64", kind: Kind::Ensures, body: float::conv_trunc_f64::body::<Replay> },
    Entry { name: "float::conv_sat_f32", kind: Kind::Ensures, body: float::conv_sat_f32::body::<Replay> },
    Entry { name: "float::conv_sat_f64", kind: Kind::Ensures, body: float::conv_sat_f64::body::<Replay> },
    Entry { name: "float::conv_to_f32", kind: Kind::Ensures, body: float::conv_to_f32::body::<Replay> },
    Entry { name: "float::conv_to_f64", kind: Kind::Ensures, body: float::conv_to_f64::body::<Replay> },
    Entry { name: "float::trap_i32_div", kind: Kind::MustTrap, body: float::trap_i32_div::body::<Replay> },
    Entry { name: "float::trap_i64_div", kind: Kind::MustTrap, body: float::trap_i64_div::body::<Replay> },
    Entry { name: "float::trap_unreachable", kind: Kind::MustTrap, body: float::trap_unreachable::body::<Replay> },
    Entry { name: "fold::takes_i32", kind: Kind::Ensures, body: fold::takes_i32::body::<Replay> },
    Entry { name: "fold::takes_i64", kind: Kind::Ensures, body: fold::takes_i64::body::<Replay> },
    Entry { name: "fold::takes_f32", kind: Kind::Ensures, body: fold::takes_f32::body::<Replay> },
    Entry { name: "fold::takes_f64", kind: Kind::Ensures, body: fold::takes_f64::body::<Replay> },
    Entry { name: "fold::takes_address_load", kind: Kind::Ensures, body: fold::takes_address_load::body::<Replay> },
    Entry { name: "fold::takes_address_store", kind: Kind::Ensures, body: fold::takes_address_store::body::<Replay> },
    Entry { name: "fold::type_of_local", kind: Kind::Ensures, body: fold::type_of_local::body::<Replay> },
    Entry { name: "fold::fold_i32", kind: Kind::Ensures, body: fold::fold_i32::body::<Replay> },
    Entry { name: "fold::fold_i64", kind: Kind::Ensures, body: fold::fold_i64::body::<Replay> },
    Entry { name: "fold::fold_f32", kind: Kind::Ensures, body: fold::fold_f32::body::<Replay> },
    Entry { name: "fold::fold_f64", kind: Kind::Ensures, body: fold::fold_f64::body::<Replay> },
    Entry { name: "fold::fold_load", kind: Kind::Ensures, body: fold::fold_load::body::<Replay> },
    Entry { name: "fold::fold_store", kind: Kind::Ensures, body: fold::fold_store::body::<Replay> },
    Entry { name: "fold::dst_i32", kind: Kind::Ensures, body: fold::dst_i32::body::<Replay> },
    Entry { name: "fold::dst_i64", kind: Kind::Ensures, body: fold::dst_i64::body::<Replay> },
    Entry { name: "fold::dst_f32", kind: Kind::Ensures, body: fold::dst_f32::body::<Replay> },
    Entry { name: "fold::dst_f64", kind: Kind::Ensures, body: fold::dst_f64::body::<Replay> },
    Entry { name: "inst::seg_init", kind: Kind::Ensures, body: inst::seg_init::body::<Replay> },
    Entry { name: "inst::trap_seg_init", kind: Kind::MustTrap, body: inst::trap_seg_init::body::<Replay> },
    Entry { name: "inst::table_0", kind: Kind::Ensures, body: inst::table_0::body::<Replay> },
    Entry { name: "inst::table_3", kind: Kind::Ensures, body: inst::table_3::body::<Replay> },
    Entry { name: "inst::table_4", kind: Kind::Ensures, body: inst::table_4::body::<Replay> },
    Entry { name: "inst::trap_table_init", kind: Kind::MustTrap, body: inst::trap_table_init::body::<Replay> },
    Entry { name: "inst::new_globals_i", kind: Kind::Ensures, body: inst::new_globals_i::body::<Replay> },
    Entry { name: "inst::new_globals_f", kind: Kind::Ensures, body: inst::new_globals_f::body::<Replay> },
    Entry { name: "inst::new_memory", kind: Kind::Ensures, body: inst::new_memory::body::<Replay> },
    Entry { name: "inst::new_exports", kind: Kind::Ensures, body: inst::new_exports::body::<Replay> },
    Entry { name: "int::int_i32_arith", kind: Kind::Ensures, body: int::int_i32_arith::body::<Replay> },
    Entry { name: "int::int_i32_cmp", kind: Kind::Ensures, body: int::int_i32_cmp::body::<Replay> },
    Entry { name: "int::int_i32_unary", kind: Kind::Ensures, body: int::int_i32_unary::body::<Replay> },
    Entry { name: "int::bounded_i32_div", kind: Kind::Ensures, body: int::bounded_i32_div::body::<Replay> },
    Entry { name: "int::int_i64_arith", kind: Kind::Ensures, body: int::int_i64_arith::body::<Replay> },
    Entry { name: "int::int_i64_cmp", kind: Kind::Ensures, body: int::int_i64_cmp::body::<Replay> },
    Entry { name: "int::int_i64_unary", kind: Kind::Ensures, body: int::int_i64_unary::body::<Replay> },
    Entry { name: "int::int_i32_mul", kind: Kind::Ensures, body: int::int_i32_mul::body::<Replay> },
    Entry { name: "int::int_i64_mul", kind: Kind::Ensures, body: int::int_i64_mul::body::<Replay> },
    Entry { name: "int::bounded_i64_div", kind: Kind::Ensures, body: int::bounded_i64_div::body::<Replay> },
    Entry { name: "int::div_full_i32_u", kind: Kind::Ensures, body: int::div_full_i32_u::body::<Replay> },
    Entry { name: "int::div_full_i64_u", kind: Kind::Ensures, body: int::div_full_i64_u::body::<Replay> },
    Entry { name: "int::div_full_i32_s", kind: Kind::Ensures, body: int::div_full_i32_s::body::<Replay> },
    Entry { name: "int::rem_range", kind: Kind::Ensures, body: int::rem_range::body::<Replay> },
    Entry { name: "memory::mem_place", kind: Kind::Ensures, body: memory::mem_place::body::<Replay> },
    Entry { name: "memory::mem_load_i32", kind: Kind::Ensures, body: memory::mem_load_i32::body::<Replay> },
    Entry { name: "memory::mem_load_i64", kind: Kind::Ensures, body: memory::mem_load_i64::body::<Replay> },
    Entry { name: "memory::mem_load_float", kind: Kind::Ensures, body: memory::mem_load_float::body::<Replay> },
    Entry { name: "memory::mem_store_i32", kind: Kind::Ensures, body: memory::mem_store_i32::body::<Replay> },
    Entry { name: "memory::mem_store_i64", kind: Kind::Ensures, body: memory::mem_store_i64::body::<Replay> },
    Entry { name: "memory::mem_store_float", kind: Kind::Ensures, body: memory::mem_store_float::body::<Replay> },
    Entry { name: "memory::mem_copy", kind: Kind::Ensures, body: memory::mem_copy::body::<Replay> },
    Entry { name: "memory::mem_fill", kind: Kind::Ensures, body: memory::mem_fill::body::<Replay> },
    Entry { name: "memory::mem_init", kind: Kind::Ensures, body: memory::mem_init::body::<Replay> },
    Entry { name: "memory::trap_mem_init_oob", kind: Kind::MustTrap, body: memory::trap_mem_init_oob::body::<Replay> },
    Entry { name: "memory::mem_new", kind: Kind::Ensures, body: memory::mem_new::body::<Replay> },
    Entry { name: "memory::mem_grow", kind: Kind::Ensures, body: memory::mem_grow::body::<Replay> },
    Entry { name: "misc::select_num", kind: Kind::Ensures, body: misc::select_num::body::<Replay> },
    Entry { name: "misc::global_i32", kind: Kind::Ensures, body: misc::global_i32::body::<Replay> },
    Entry { name: "misc::global_i64", kind: Kind::Ensures, body: misc::global_i64::body::<Replay> },
    Entry { name: "misc::global_f32", kind: Kind::Ensures, body: misc::global_f32::body::<Replay> },
    Entry { name: "misc::global_f64", kind: Kind::Ensures, body: misc::global_f64::body::<Replay> },
    Entry { name: "misc::ref_null_isnull", kind: Kind::Ensures, body: misc::ref_null_isnull::body::<Replay> },
    Entry { name: "misc::table_get", kind: Kind::Ensures, body: misc::table_get::body::<Replay> },
    Entry { name: "misc::table_set", kind: Kind::Ensures, body: misc::table_set::body::<Replay> },
    Entry { name: "misc::table_fill", kind: Kind::Ensures, body: misc::table_fill::body::<Replay> },
    Entry { name: "misc::ref_local", kind: Kind::Ensures, body: misc::ref_local::body::<Replay> },
    Entry { name: "misc::trap_table_oob", kind: Kind::MustTrap, body: misc::trap_table_oob::body::<Replay> },
    Entry { name: "misc::select_ref", kind: Kind::Ensures, body: misc::select_ref::body::<Replay> },
    Entry { name: "place::place_i32", kind: Kind::Ensures, body: place::place_i32::body::<Replay> },
    Entry { name: "place::place_i64", kind: Kind::Ensures, body: place::place_i64::body::<Replay> },
    Entry { name: "place::place_f32", kind: Kind::Ensures, body: place::place_f32::body::<Replay> },
    Entry { name: "place::place_f64", kind: Kind::Ensures, body: place::place_f64::body::<Replay> },
    Entry { name: "run::poll", kind: Kind::Ensures, body: run::poll::body::<Replay> },
    Entry { name: "run::dispatch_line", kind: Kind::Ensures, body: run::dispatch_line::body::<Replay> },
    Entry { name: "run::dispatch_branch", kind: Kind::Ensures, body: run::dispatch_branch::body::<Replay> },
    Entry { name: "run::dispatch_end", kind: Kind::Ensures, body: run::dispatch_end::body::<Replay> },
    Entry { name: "run::run_call_return", kind: Kind::Ensures, body: run::run_call_return::body::<Replay> },
    Entry { name: "run::run_call_halt", kind: Kind::Ensures, body: run::run_call_halt::body::<Replay> },
    Entry { name: "run::run_trap", kind: Kind::Ensures, body: run::run_trap::body::<Replay> },
    Entry { name: "wasi::scalars_a", kind: Kind::Ensures, body: wasi::scalars_a::body::<Replay> },
    Entry { name: "wasi::scalars_b", kind: Kind::Ensures, body: wasi::scalars_b::body::<Replay> },
    Entry { name: "wasi::scalars_c", kind: Kind::Ensures, body: wasi::scalars_c::body::<Replay> },
    Entry { name: "wasi::scalars_d", kind: Kind::Ensures, body: wasi::scalars_d::body::<Replay> },
    Entry { name: "wasi::results_a", kind: Kind::Ensures, body: wasi::results_a::body::<Replay> },
    Entry { name: "wasi::results_b", kind: Kind::Ensures, body: wasi::results_b::body::<Replay> },
    Entry { name: "wasi::structures", kind: Kind::Ensures, body: wasi::structures::body::<Replay> },
    Entry { name: "wasi::buffers", kind: Kind::Ensures, body: wasi::buffers::body::<Replay> },
    Entry { name: "wasi::paths_directory", kind: Kind::Ensures, body: wasi::paths_directory::body::<Replay> },
    Entry { name: "wasi::path_open", kind: Kind::Ensures, body: wasi::path_open::body::<Replay> },
    Entry { name: "wasi::path_stat", kind: Kind::Ensures, body: wasi::path_stat::body::<Replay> },
    Entry { name: "wasi::path_link", kind: Kind::Ensures, body: wasi::path_link::body::<Replay> },
    Entry { name: "wasi::path_rename", kind: Kind::Ensures, body: wasi::path_rename::body::<Replay> },
    Entry { name: "wasi::path_symlink", kind: Kind::Ensures, body: wasi::path_symlink::body::<Replay> },
    Entry { name: "wasi::lists_none", kind: Kind::Ensures, body: wasi::lists_none::body::<Replay> },
    Entry { name: "wasi::lists_one_fd", kind: Kind::Ensures, body: wasi::lists_one_fd::body::<Replay> },
    Entry { name: "wasi::lists_one_sock", kind: Kind::Ensures, body: wasi::lists_one_sock::body::<Replay> },
    Entry { name: "wasi::fd_write_two", kind: Kind::Ensures, body: wasi::fd_write_two::body::<Replay> },
    Entry { name: "wasi::fd_read_two", kind: Kind::Ensures, body: wasi::fd_read_two::body::<Replay> },
    Entry { name: "wasi::fd_pread_two", kind: Kind::Ensures, body: wasi::fd_pread_two::body::<Replay> },
    Entry { name: "wasi::fd_pwrite_two", kind: Kind::Ensures, body: wasi::fd_pwrite_two::body::<Replay> },
    Entry { name: "wasi::sock_recv_two", kind: Kind::Ensures, body: wasi::sock_recv_two::body::<Replay> },
    Entry { name: "wasi::sock_send_two", kind: Kind::Ensures, body: wasi::sock_send_two::body::<Replay> },
    Entry { name: "wasi::no_memory", kind: Kind::Ensures, body: wasi::no_memory::body::<Replay> },
    Entry { name: "wasi::args_get", kind: Kind::Ensures, body: wasi::args_get::body::<Replay> },
    Entry { name: "wasi::args_sizes_get", kind: Kind::Ensures, body: wasi::args_sizes_get::body::<Replay> },
    Entry { name: "wasi::environ_get", kind: Kind::Ensures, body: wasi::environ_get::body::<Replay> },
    Entry { name: "wasi::end_to_end", kind: Kind::Ensures, body: wasi::end_to_end::body::<Replay> },
];
