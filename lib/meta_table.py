HOOKS = ['444b80a', 'fd2ed59', 'c8d0343']
NOTES = ('All checks run the real crate at /repo: contract harnesses in cw/ are compiled against it on every run. '
         'Kani/CBMC discharges them for every input; see DESIGN.md for which obligations are bounded.')
KT = 'contract-based deductive verification: Kani contracts on the real handlers, loop-free obligations discharged by CBMC/SAT for all inputs'
P = [
 dict(id='C01', title='Integer instructions compute the WebAssembly result',
  statement='Every i32 and i64 arithmetic, bitwise, shift, rotate, comparison, test, count and sign-extension instruction produces exactly the result the WebAssembly specification defines, for every pair of operand values and whether operands and destination are registers, constants or locals. It changes nothing but its destination and continues with the next instruction.',
  over=['inputs'], qtext='all operand bit patterns, all operand placements of an instruction, arbitrary contents of every other register and local',
  why='The test suite samples a few dozen operand pairs per opcode; wrong shift-count masking, signedness, a wrong destination bank or a clobbered register shows only on particular values or placements.',
  files=['src/execution/handlers.rs', 'src/execution/operand.rs', 'src/execution/ir.rs'],
  mech=[('macro-generated integer handlers', 'src/execution/handlers.rs'), ('handler selection', 'src/execution/handlers.rs select_handler'), ('operand reading and destination writing', 'src/execution/operand.rs')],
  technique=KT, level='proof',
  note='All operand values, full width, for every operation except: i32/i64 div_u and i32 div_s full width via the division relation; rem range/sign full width; exact i64 div_s and exact remainders only on 9-bit windows (bounded, not counted). Operand placement: register/constant/local for each position at fixed indices. x86_64 target for the verifier.'),
 dict(id='C02', title='Floating-point instructions compute the WebAssembly result',
  statement='Every f32 and f64 arithmetic, rounding, comparison, min/max, sign and square-root instruction produces exactly the IEEE-754 result the WebAssembly specification defines, including signed zeros, infinities, subnormals and NaN results, for every operand bit pattern and operand placement. It changes nothing but its destination.',
  over=['inputs'], qtext='all operand bit patterns, all operand placements, arbitrary contents of every other register and local',
  why='Tests sample ordinary values; errors live at signed zeros, ties, NaN operands and subnormals.',
  files=['src/execution/handlers.rs', 'src/execution/operand.rs'],
  mech=[('f32/f64 handlers', 'src/execution/handlers.rs')],
  technique=KT, level='proof',
  note='Comparisons, min/max, sign operations, rounding: all bit patterns against a bit-level specification. add/sub (both widths) and f32 mul: all bit patterns against IEEE round-to-nearest as modelled by CBMC. f32 div, f64 mul/div: significands with few significant bits only (bounded, not counted). sqrt: executed natively only (bounded).'),
 dict(id='C03', title='Conversions are exact, correctly rounded or saturating as specified',
  statement='Every conversion between i32, i64, f32 and f64 (wrap, extend, truncate, saturating truncate, convert, promote, demote, reinterpret) yields exactly the value the WebAssembly specification defines for every source bit pattern, and changes nothing but its destination.',
  over=['inputs'], qtext='all source bit patterns, register and local destinations',
  why='Rounding and range limits fail only at a handful of the 2^64 inputs.',
  files=['src/execution/handlers.rs'],
  mech=[('conversion handlers', 'src/execution/handlers.rs')],
  technique=KT, level='proof',
  note='All source bit patterns against bit-level specifications written from the WebAssembly standard (results that are NaN are compared as NaN).'),
 dict(id='C04', title='Trapping instructions trap exactly when the specification says so',
  statement='Integer division and remainder by zero, signed division overflow, float-to-integer truncation of NaN or out-of-range values, unreachable, and out-of-bounds table and bulk-memory initialisation operations always stop execution with a trap and never produce a value. In every other case these instructions complete normally.',
  over=['inputs'], qtext='all operand values on both sides of every trap boundary',
  why='Trap boundaries are single values in a 2^64 space and the suite touches only a few of them.',
  files=['src/execution/handlers.rs', 'src/execution/mem.rs', 'src/execution/table.rs', 'src/error.rs'],
  mech=[('division handlers', 'src/execution/handlers.rs'), ('truncation range checks', 'src/execution/handlers.rs'), ('bounds of table and segment access', 'src/execution/table.rs, src/execution/mem.rs')],
  technique=KT + ' (must-trap contracts: completion is proved unreachable)', level='proof',
  note='A trap is either a recorded trap or a host panic (which is how the runtime traps on wasm32). The other direction (no spurious trap) is the total-correctness part of C01/C03/C05. Out-of-bounds plain loads and stores are not bounds-checked by design and are excluded.'),
 dict(id='C05', title='Linear memory accesses, growth and bulk operations',
  statement='In-bounds loads return the little-endian bytes at address plus offset with the specified extension, and in-bounds stores, copy, fill and init change exactly the addressed bytes to the specified values, overlapping ranges included. memory.size and memory.grow report page counts exactly, growth keeps old contents, adds zeroed pages and fails without effect beyond the maximum.',
  over=['inputs'], qtext='all addresses, offsets, lengths and values for which the access is in bounds; all page counts and limits',
  why='Tests use a few fixed addresses; sign-extension of narrow loads, offset handling, overlap direction and growth limits depend on values the suite does not sample.',
  files=['src/execution/handlers.rs', 'src/execution/mem.rs'],
  mech=[('load/store handlers', 'src/execution/handlers.rs'), ('memory instance', 'src/execution/mem.rs')],
  hook='re-export of the private instance types (cfg chiwawa_verif)',
  technique=KT, level='proof',
  note='Memories of every size a 32-bit host can hold, arbitrary contents, all in-bounds addresses, offsets, lengths and values (no bound); memory.copy assumes the pointwise contract of std::ptr::copy; growth for all page counts assumes the contract of Vec::resize. Addresses at and above 2 GiB cannot be in bounds on the 32-bit host.'),
 dict(id='C06', title='Structured control flow reaches the right place with the right values',
  statement='Blocks, loops, if/else, br, br_if, br_table and end transfer control exactly where the WebAssembly specification says, at any nesting depth, and carry exactly the specified operand values to the target. They alter no other local, register or enclosing label, and br_table selects the indexed target for every in-range index and the default otherwise, treating the index as unsigned.',
  over=['inputs', 'programs'], qtext='all conditions, indices, branch depths and label stack depths; all values of the operands carried; generated programs for the composition',
  why='The tests exercise a few hand-written nestings; wrong register copies or label bookkeeping show only for particular depths, mixed value types, or overlapping source and target registers.',
  files=['src/execution/handlers.rs', 'src/parser.rs', 'src/execution/regs.rs'],
  mech=[('control handlers', 'src/execution/handlers.rs'), ('branch target and register resolution', 'src/parser.rs'), ('register copies', 'src/execution/regs.rs copy_regs')],
  technique=KT, level='proof',
  note='br, br_if: every label depth, branch depth, target, condition; value lists of 0, 1, 2 and 4 registers (fixed register numbers, any contents, overlapping lists included). br_table: arbitrary index with an empty list, each index of a three-entry list, and the indices 3, 2^31-1, 2^31, 2^32-1. block/if/else/end: label depths 1 to 3. Assumes the contract of Vec::truncate. The copies themselves and the parser\'s register allocator are proved with Verus (copy_regs, RegAllocator). That the parser resolves branch targets correctly is only executed (bounded, not counted).'),
 dict(id='C07', title='Calls pass arguments, return results and isolate frames',
  statement='Direct, indirect and host calls hand the callee exactly the operand values in order, indirect calls reach exactly the referenced function and trap on a null entry, an out-of-bounds index or a type mismatch. A callee starts with zeroed locals and registers of its own, and after it returns the caller sees exactly the results in its destinations and everything else unchanged.',
  over=['inputs', 'histories'], qtext='all operand values and table indices; nested frames; generated call graphs for the composition',
  why='Tests use small fixed call chains; a leaked register window, swapped arguments or a missing type check shows only with particular frame layouts and indices.',
  files=['src/execution/handlers.rs', 'src/execution/runtime.rs', 'src/execution/regs.rs', 'src/execution/state.rs', 'src/execution/func.rs', 'src/execution/table.rs'],
  mech=[('call handlers', 'src/execution/handlers.rs'), ('frame transitions', 'src/execution/runtime.rs run'), ('register windows', 'src/execution/regs.rs save_offsets/restore_offsets')],
  technique=KT, level='proof',
  note='Call, call_indirect, host call and return handlers for all operand values (parameter and result lists of fixed shape, up to four mixed-type values); null, out-of-bounds and mismatching indirect calls proved to trap; register windows for three nested frames of fixed size, and with Verus for every size (save_offsets, restore_offsets, reads and writes). Runtime::run, which pushes and pops the frames, is executed on generated call graphs (bounded, not counted).'),
 dict(id='C08', title='Translation to register code preserves program behaviour',
  statement='For every valid module, the register-based code that the parser emits (register allocation, constant and local operand folding, destination folding, branch resolution) computes the same results, traps, memory and globals as the WebAssembly stack semantics of the original function bodies.',
  over=['programs', 'inputs'], qtext='all valid function bodies over the supported operators, all arguments',
  why='Folding and register allocation bugs need particular operator sequences (for example a local read, overwritten and then consumed); tests contain few of them.',
  files=['src/parser.rs', 'src/execution/regs.rs', 'src/execution/operand.rs', 'src/execution/handlers.rs'],
  mech=[('translation and folding', 'src/parser.rs'), ('register allocation', 'src/execution/regs.rs RegAllocator')],
  technique='Kani contracts on the folding classifications and Verus contracts on the register allocator and register file; for their composition, the translation loop, differential execution of the real parser and runtime against an independent reference interpreter (bounded stand-in: that loop is out of the deductive verifiers\' reach)', level='exploration',
  note='Every straight-line sequence up to length 4 of a fixed alphabet, and seeded random programs; bounded. The folding classifications are proved with Kani for every operator, destination folding for every local, the register allocator and the register file below with Verus for all inputs.'),
 dict(id='C09', title='Checkpoint and restore are invisible to the program',
  statement='If execution is stopped at any instruction by a checkpoint request, saved, and restored in a fresh process from the same module, the continued run produces exactly the results, traps, memory contents and globals of the uninterrupted run, however often this is repeated.',
  over=['crash_points', 'programs', 'histories'], qtext='every instruction boundary at which the runtime polls, every call depth, repeated checkpoints',
  why='Tests checkpoint at one or two places of one program; state that is lost (a frame, label, register window, global, grown memory) shows only at particular points.',
  files=['src/execution/migration.rs', 'src/execution/runtime.rs', 'src/execution/state.rs', 'src/execution/regs.rs', 'src/execution/mem.rs', 'src/execution/global.rs'],
  mech=[('checkpoint writer and restorer', 'src/execution/migration.rs'), ('poll', 'src/execution/migration.rs poll_checkpoint')],
  technique='checkpoint/restore equivalence executed on the real code at random points (bounded stand-in: serialisation, compression and file access are out of the deductive verifiers\' reach)', level='exploration',
  note='Seeded random programs and checkpoint points; bounded.'),
 dict(id='C10', title='The checkpoint trigger is honoured promptly and only when enabled',
  statement='With checkpoints enabled, the runtime looks for the trigger file once every 1024 executed instructions, across branches, calls and returns and whatever the instructions do. A trigger that is present at a poll stops execution before the next instruction with a checkpoint request and the whole execution state intact. With checkpoints disabled the file is never looked at, and apart from such a stop polling changes nothing the program can observe.',
  over=['schedules', 'inputs'], qtext='all poll counter values, all times at which the trigger appears, all outcomes of the instructions executed',
  why='The suite asks for a checkpoint at one moment of a few programs; a poll that is skipped after a branch or call, a counter that is reset, or an instruction executed twice shows only when the trigger appears at a particular instruction.',
  files=['src/execution/migration.rs', 'src/execution/dispatch_loop.rs', 'src/execution/dispatch_tco.rs', 'src/execution/runtime.rs', 'src/execution/handlers.rs'],
  mech=[('poll', 'src/execution/migration.rs poll_checkpoint, check_checkpoint_trigger'), ('dispatch loop', 'src/execution/dispatch_loop.rs execute_instructions'), ('frame loop', 'src/execution/runtime.rs run')],
  technique=KT, level='proof',
  note='poll_checkpoint for every counter value and answer of the host; the dispatcher over scripted handlers with arbitrary outcomes, jumps and counters (at most four instructions per run: the dispatcher keeps no state between instructions). Runtime::run is executed natively on seeded one-caller, one-callee runs (bounded, not counted).'),
 dict(id='C11', title='WASI imports pass the guest\'s arguments to the host and its results back',
  statement='Every WASI Preview 1 import the runtime supports calls the host exactly once with exactly the guest\'s arguments (integers at full width, paths and buffers byte for byte, iovec lists in order), writes the host\'s results to exactly the guest addresses given and to nothing else in linear memory, and returns the host\'s error number. args_get and environ_get write each string and one pointer per string at the sizes that args_sizes_get and environ_sizes_get report, and a call without linear memory fails without reaching the host.',
  over=['inputs'], qtext='all integer arguments, guest addresses inside memory, path and buffer lengths, memory sizes and contents, host results and error numbers',
  why='The suite runs a handful of imports with one argument set; swapped arguments, truncated 64-bit offsets, a result written at the wrong address or a dropped error number show only on particular calls and values.',
  files=['src/wasi/passthrough.rs', 'src/wasi/mod.rs', 'src/execution/runtime.rs', 'src/execution/mem.rs', 'src/parser.rs'],
  mech=[('WASI pass-through', 'src/wasi/passthrough.rs'), ('import dispatch', 'src/execution/runtime.rs call_wasi_function'), ('import name resolution', 'src/parser.rs')],
  hook='cfg(chiwawa_verif) stand-ins for the foreign host functions and Runtime::verif_call_wasi',
  technique=KT, level='proof',
  note='All integer arguments, addresses, path lengths, memory sizes; iovec lists of 0, 1 and 2 entries (bounded in the number of entries only); args/environ lists and the resolution of import names through the real parser are executed on seeded inputs (bounded, not counted). The host functions themselves are stand-ins that check what they receive. proc_raise, which the runtime does not support, is out of scope.'),
 dict(id='C12', title='The tail-calling dispatcher executes programs exactly like the loop dispatcher',
  statement='Built with the feature tco, the runtime gives every instruction the same effect, follows every transfer of control to the same place, polls for checkpoints at the same points and ends, traps and yields to calls exactly as it does with the loop dispatcher, so results, traps, memory, globals and checkpoints of every program are the same.',
  over=['configurations', 'programs', 'inputs'], qtext='both dispatchers, all operand values and control transfers of the contracts, generated programs',
  why='Each dispatcher is tested on the same fixed programs; an instruction executed twice or skipped after a poll, a missing poll or a lost trap in one of them shows only for particular sequences.',
  files=['src/execution/dispatch_tco.rs', 'src/execution/dispatch.rs', 'src/execution/handlers.rs', 'src/execution/runtime.rs'],
  mech=[('tail-call dispatcher', 'src/execution/dispatch_tco.rs execute_instructions'), ('advance! and next_handler', 'src/execution/handlers.rs')],
  technique=KT + ', with the crate built with feature tco', level='proof',
  note='Both dispatchers are proved against the same contracts. With tco: the dispatcher, next_handler and the poll, and a selection of handler contracts of every family; the remaining contracts and whole programs are executed on seeded inputs (bounded, not counted). Bounded stack use is not expressible.'),
 dict(id='C13', title='Instantiation builds exactly the module that was described',
  statement='Instantiating a module creates one function, table, memory and global per definition with the declared sizes and initial values, applies active element and data segments in order to exactly their ranges, drops them, keeps passive ones, runs the start function, and exports each name as the entity it designates. A segment that does not fit makes instantiation trap instead of writing anywhere.',
  over=['inputs', 'programs'], qtext='all constants, segment contents, lengths and offsets, memory sizes; generated modules for the composition',
  why='The tests instantiate a few modules whose segments fit and lie at small offsets; overlapping or empty segments, segments at the very end, null entries and aliased exports are not among them.',
  files=['src/execution/module.rs', 'src/execution/mem.rs', 'src/execution/table.rs', 'src/execution/global.rs', 'src/execution/elem.rs', 'src/execution/data.rs', 'src/parser.rs'],
  mech=[('instantiation', 'src/execution/module.rs ModuleInst::new'), ('segment application', 'src/execution/mem.rs MemAddr::init, src/execution/table.rs TableAddr::init'), ('section decoding', 'src/parser.rs')],
  hook='re-export of the private instance types (cfg chiwawa_verif)',
  technique=KT, level='proof',
  note='Data segments: every memory size, segment, offset. Tables up to four entries, element segments up to two (bounded in the number of entries). Globals: ModuleInst::new for all constants of all four types. Memories, tables, segments and exports together, and the section decoders, are executed on seeded modules (bounded, not counted). Known finding: the start function is never executed.'),
 dict(id='C14', title='References and tables hold exactly what was stored',
  statement='ref.null, ref.is_null, reference locals, select on references, table.get, table.set and table.fill move references without changing their identity, touch exactly the addressed elements, and trap when any addressed element is outside the table.',
  over=['inputs'], qtext='all table contents, indices, lengths and reference values',
  why='Tests use few elements and never check neighbouring ones.',
  files=['src/execution/handlers.rs', 'src/execution/table.rs', 'src/execution/regs.rs'],
  mech=[('reference and table handlers', 'src/execution/handlers.rs'), ('table instance', 'src/execution/table.rs')],
  technique=KT, level='proof',
  note='Tables of three elements, all contents over null and two functions, all 32-bit indices and lengths. Two tables, to show the other is untouched. table.grow/size/copy/init, elem.drop and ref.func are not supported by chiwawa (its parser rejects them).'),
 dict(id='C15', title='Locals, globals and select',
  statement='global.get, global.set and select of every numeric type read and write exactly the addressed variable, every holder of a global observes its new value, and nothing else changes.',
  over=['inputs'], qtext='all values, conditions, indices within a module of two globals, register and local destinations',
  why='The suite does not read a global of another index or type after a write, nor both arms of select for every type and placement.',
  files=['src/execution/handlers.rs', 'src/execution/global.rs', 'src/execution/operand.rs'],
  mech=[('global and select handlers', 'src/execution/handlers.rs'), ('global instance', 'src/execution/global.rs')],
  technique=KT, level='proof',
  note='All values of all four numeric types; modules with two globals of the same type; local.get/set/tee for all values are proved in C01 (placements).'),
]
