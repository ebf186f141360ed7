"""Which contracts and bounded tools decide which property."""
JOBS = 8
I = lambda *n: ['int::' + x for x in n]
F = lambda *n: ['float::' + x for x in n]
M = lambda *n: ['memory::' + x for x in n]
P = lambda *n: ['place::' + x for x in n]
X = lambda *n: ['misc::' + x for x in n]
C = lambda *n: ['control::' + x for x in n]
L = lambda *n: ['calls::' + x for x in n]
W = lambda *n: ['wasi::' + x for x in n]
R = lambda *n: ['run::' + x for x in n]
D = lambda *n: ['fold::' + x for x in n]
S = lambda *n: ['inst::' + x for x in n]


def tv(profile, bound, secs=20):
    """bounded differential execution of the real parser and runtime against tv's reference interpreter"""
    return dict(name='tv ' + profile, bound=bound, secs=secs, secs_thorough=secs * 20, argv=['{tv}', 'run', profile, '{secs}', '{seed}', '4'])


PROPS = {
    'C01': dict(level='proof', kani=I(
        'int_i32_arith', 'int_i32_cmp', 'int_i32_unary', 'int_i64_arith', 'int_i64_cmp', 'int_i64_unary', 'int_i32_mul', 'int_i64_mul',
        'div_full_i32_u', 'div_full_i64_u', 'div_full_i32_s', 'rem_range', 'bounded_i32_div', 'bounded_i64_div') + P('place_i32', 'place_i64')),
    'C02': dict(level='proof', kani=F(
        'float_f32_cmp', 'float_f32_minmax', 'float_f32_unary', 'float_f32_add', 'float_f32_sub', 'float_f32_mul', 'bounded_float_f32_div',
        'float_f64_cmp', 'float_f64_minmax', 'float_f64_unary', 'float_f64_add', 'float_f64_sub', 'bounded_float_f64_mul',
        'bounded_float_f64_div'), native=F('native_float_f32_sqrt', 'native_float_f64_sqrt')),
    'C03': dict(level='proof', kani=F('conv_int', 'conv_trunc_f32', 'conv_trunc_f64', 'conv_sat_f32', 'conv_sat_f64', 'conv_to_f32', 'conv_to_f64')),
    'C04': dict(level='proof', kani=F('trap_i32_div', 'trap_i64_div', 'trap_unreachable', 'conv_trunc_f32', 'conv_trunc_f64') + M('trap_mem_init_oob') + X('trap_table_oob'),
                traps=F('trap_i32_div', 'trap_i64_div', 'trap_unreachable') + M('trap_mem_init_oob') + X('trap_table_oob')),
    'C05': dict(level='proof', kani=M('mem_place', 'mem_load_i32', 'mem_load_i64', 'mem_load_float', 'mem_store_i32', 'mem_store_i64', 'mem_store_float',
                                      'mem_copy', 'mem_fill', 'mem_init', 'mem_new', 'mem_grow')),
    'C06': dict(level='proof', verus=['regalloc', 'regfile'], kani=C('br_none', 'br_mixed', 'br_overlap', 'br_if_none', 'br_if_values', 'br_table_default', 'br_table_pick', 'br_table_beyond',
                                      'enter_block', 'enter_if', 'else_jump', 'end_block', 'end_block_overlap', 'end_function'),
                tools=[tv('control', 'seeded random nestings of block/loop/if/br/br_if/br_table up to depth 5, run through the real parser and runtime')]),
    'C07': dict(level='proof', verus=['regfile'], kani=L('call_direct', 'call_direct_mixed', 'call_indirect_ok', 'call_indirect_mismatch_params', 'call_indirect_mismatch_results',
                                      'trap_call_indirect', 'call_host', 'do_return', 'regs_nested', 'regs_values'), traps=L('trap_call_indirect'),
                tools=[tv('calls', 'seeded random modules of several functions calling each other directly and indirectly')]),
    'C08': dict(level='exploration', verus=['regalloc', 'regfile'],
                kani=D('takes_i32', 'takes_i64', 'takes_f32', 'takes_f64', 'takes_address_load', 'takes_address_store', 'type_of_local', 'dst_i32', 'dst_i64', 'dst_f32', 'dst_f64'),
                native=D('fold_i32', 'fold_i64', 'fold_f32', 'fold_f64', 'fold_load', 'fold_store'), tools=[
        tv('seqx', 'every straight-line operator sequence up to length 4 over a fixed alphabet', 10),
        tv('fold', 'seeded random straight-line code with operand and destination folding opportunities', 15),
        tv('mixed', 'seeded random modules mixing every supported operator', 15)],
                rule='generated well-typed programs, each executed by the real parser and runtime and by the reference interpreter on several argument tuples'),
    'C09': dict(level='exploration', tools=[tv('ckpt', 'seeded random programs, checkpointed at random instructions, serialised, restored in a fresh instance and run to the end', 40)],
                rule='checkpoints taken at distinct instruction positions of generated programs'),
    'C10': dict(level='proof', kani=R('poll', 'dispatch_line', 'dispatch_branch', 'dispatch_end'), native=R('run_call_return', 'run_call_halt', 'run_trap'),
                trusted=['the host function path_filestat_get and std::fs::remove_file, replaced by stand-ins that note what they are asked'],
                assumptions=['scripts of at most four instructions per dispatch (the dispatcher keeps no state between instructions)',
                             'Runtime::run: seeded runs of one caller and one callee (bounded)']),
    'C11': dict(level='proof', kani=W('scalars_a', 'scalars_b', 'scalars_c', 'scalars_d', 'results_a', 'results_b', 'structures', 'buffers', 'paths_directory', 'path_open',
                                      'path_stat', 'path_link', 'path_rename', 'path_symlink', 'lists_none', 'lists_one_fd', 'lists_one_sock', 'fd_write_two', 'fd_read_two',
                                      'fd_pread_two', 'fd_pwrite_two', 'sock_recv_two', 'sock_send_two', 'no_memory', 'proc_exit'),
                native=W('args_get', 'args_sizes_get', 'environ_get', 'end_to_end'),
                trusted=['the host functions (wasi-libc) behind the 45 foreign declarations, replaced by stand-ins that check what they are given'],
                assumptions=['guest addresses of buffers and results lie inside the linear memory (the interpreter leaves other accesses to its own host, except for fd_write)',
                             'iovec lists of at most 2 entries (bounded)', 'argument and environment lists: seeded runs (bounded)']),
    'C13': dict(level='proof', kani=S('seg_init', 'trap_seg_init', 'table_0', 'table_3', 'table_4', 'trap_table_init', 'new_globals_i', 'new_globals_f') + M('mem_new'),
                traps=S('trap_seg_init', 'trap_table_init'), native=S('new_memory', 'new_exports'),
                assumptions=['tables of at most 4 entries and element segments of at most 2 (bounded in the number of entries only)',
                             'ModuleInst::new as a whole: globals are proved, memories, tables, segments and exports together are seeded runs (bounded)'],
                tools=[tv('inst', 'seeded random modules with several data and element segments, some out of bounds, exports of every kind; instantiated and run', 15),
                       tv('start', 'modules with a start function', 2)]),
    'C14': dict(level='proof', kani=X('ref_null_isnull', 'table_get', 'table_set', 'table_fill', 'ref_local', 'select_ref', 'trap_table_oob'), traps=X('trap_table_oob'),
                tools=[tv('refs', 'seeded random programs over reference locals, tables and call_indirect', 15)]),
    'C15': dict(level='proof', kani=X('global_i32', 'global_i64', 'global_f32', 'global_f64', 'select_num'),
                tools=[tv('globals', 'seeded random programs over locals, globals and select', 15)]),
}

# C12: the tail-calling dispatcher.  Every contract above is also executed with chiwawa built with the feature
# `tco`; a selection that covers the dispatcher, `advance!` and one handler of every macro family is proved.
_tco = (R('poll', 'dispatch_line', 'dispatch_branch', 'dispatch_end') + C('br_none', 'br_mixed', 'br_if_none', 'br_if_values', 'enter_block', 'else_jump', 'end_block', 'end_function')
        + I('int_i32_unary') + F('conv_int') + M('mem_load_i32', 'mem_store_i32') + X('table_get', 'ref_null_isnull', 'global_i32', 'select_num') + L('call_direct', 'do_return'))
_rest = sorted({n for p in PROPS.values() for n in list(p.get('kani', ())) + list(p.get('native', ()))} - set(_tco))
PROPS['C12'] = dict(level='proof', features=('tco',), kani=_tco, native=_rest, native_secs=0.5,
                    assumptions=['handlers outside the proved selection share the `advance!` macro with it; with tail calls they are executed on seeded inputs only (bounded)',
                                 'that the compiler turns the call in `advance!` into a tail call (no stack growth) is not expressible in a contract'],
                    tools=[tv('mixed', 'seeded random modules mixing every supported operator, run by the tail-calling dispatcher', 10),
                           tv('control', 'seeded random nestings of structured control, run by the tail-calling dispatcher', 8),
                           tv('calls', 'seeded random call graphs, run by the tail-calling dispatcher', 8),
                           tv('ckpt', 'seeded random programs, checkpointed and restored under the tail-calling dispatcher', 12)])

# the functions each property is about: their obligations are the ones counted in the evidence
_base = '|operand::|state::VmState|regs::|value::Val::'
for _p, _r in {
        'C01': r'handlers::i(32|64)_(?!load|store)', 'C02': r'handlers::f(32|64)_(?!load|store)', 'C03': r'handlers::conv_',
        'C04': r'handlers::(i(32|64)_(div|rem)|conv_i(32|64)_trunc_f|unreachable|mem_init|table_|trap)|MemAddr::init|TableAddr::|DataAddr',
        'C05': r'handlers::(i|f)(32|64)_(load|store)|handlers::(mem_|data_drop)|mem::|DataAddr',
        'C06': r'handlers::(block|br|r#if|loop|else|jump|end|nop)\b|handlers::br_', 'C07': r'handlers::(call|r#return)|func::|TableAddr::get_func_addr|verif',
        'C08': r'parser::', 'C10': r'migration::|dispatch|runtime::|handlers::', 'C11': r'wasi::|handlers::call_wasi', 'C13': r'module::|table::|mem::|global::|TableAddr|MemAddr|GlobalAddr',
        'C14': r'handlers::(ref_|table_|select_ref)|TableAddr', 'C15': r'handlers::(global_|select_)|GlobalAddr'}.items():
    PROPS[_p]['under'] = _r + _base
