From 444b80ae7b17587a19332bdad7f49a8741b74e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 01/22] verif: re-export private instance types under
 cfg(chiwawa_verif)

---
 src/execution.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/execution.rs b/src/execution.rs
index 36e4aac..a7ca5eb 100644
--- a/src/execution.rs
+++ b/src/execution.rs
@@ -22,3 +22,13 @@ mod table;
 #[cfg(feature = "trace")]
 pub mod trace;
 pub mod value;
+
+/// Re-exports for the deductive verification harnesses (`--cfg chiwawa_verif`).
+#[cfg(chiwawa_verif)]
+pub mod verif {
+    pub use super::data::{DataAddr, DataInst};
+    pub use super::elem::{ElemAddr, ElemInst};
+    pub use super::export::ExportInst;
+    pub use super::global::{GlobalAddr, GlobalInst};
+    pub use super::table::{TableAddr, TableInst};
+}
-- 
2.43.0


From a33c74bf630aac90da48ceb1712d3665a1c24a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 02/22] fix: memory.grow treats its operand as an unsigned page
 count

A delta >= 2^31 trapped instead of returning -1, the page sum could
overflow i32, and growing to exactly 65536 pages wrapped to a zero-length
memory on 32-bit hosts.
---
 src/execution/handlers.rs |  9 +--------
 src/execution/mem.rs      | 27 ++++++++++++++-------------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 2a40f8d..ce55063 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1997,14 +1997,7 @@ pub fn mem_grow(state: &mut VmState) -> Outcome {
         }
     };
     let delta = state.reg_file().get_i32(args[0].index());
-    let delta_u32: u32 = match delta.try_into() {
-        Ok(v) => v,
-        Err(_) => {
-            state.trap = Some(RuntimeError::InvalidParameterCount);
-            return trap(state);
-        }
-    };
-    let prev_size = mem_addr.mem_grow(delta_u32 as i32);
+    let prev_size = mem_addr.mem_grow(delta);
     if let Some(d) = dst {
         state.reg_file_mut().set_i32(d.index(), prev_size);
     }
diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index 8c51a29..f6b82ca 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -90,25 +90,26 @@ impl MemAddr {
     /// Grows memory by the given number of pages. Returns previous size or -1 on failure.
     pub fn mem_grow(&self, size: i32) -> i32 {
         let prev_size = self.mem_size();
-        let new = prev_size + size;
+        // `size` is an unsigned page count (memory.grow operand).
+        let new = prev_size as u32 as u64 + size as u32 as u64;
 
         // Safety: Single-threaded access
         let mem = unsafe { &*self.mem_inst.get() };
-        let max_pages = mem._type_.0.max;
+        let max_pages = mem._type_.0.max.map_or(65536, u64::from).min(65536);
 
-        if let Some(max) = max_pages {
-            if new > max as i32 {
-                return -1;
-            }
+        if new > max_pages {
+            return -1;
         }
 
-        if new > 65536 {
-            -1
-        } else {
-            // Safety: Single-threaded access, no overlapping borrows
-            let mem = unsafe { &mut *self.mem_inst.get() };
-            mem.data.resize(new as usize * 65536, 0);
-            prev_size
+        // 65536 pages do not fit the address space of a 32-bit host.
+        match usize::try_from(new * 65536) {
+            Ok(new_len) => {
+                // Safety: Single-threaded access, no overlapping borrows
+                let mem = unsafe { &mut *self.mem_inst.get() };
+                mem.data.resize(new_len, 0);
+                prev_size
+            }
+            Err(_) => -1,
         }
     }
 
-- 
2.43.0


From 9e8d02dee024c712ed11db8e7bc704ded77f2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 03/22] fix: memory.init with an out-of-bounds range and length
 0 traps

---
 src/execution/handlers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index ce55063..bb3dbad 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -2052,9 +2052,8 @@ pub fn mem_init(state: &mut VmState) -> Outcome {
     let dest = regs.get_i32(args[0].index()) as usize;
     let offset = regs.get_i32(args[1].index()) as usize;
     let len = regs.get_i32(args[2].index()) as usize;
-    if len > 0 {
-        mem_addr.init(dest, &data_bytes[offset..offset + len]);
-    }
+    // Out-of-bounds ranges trap (via the slice checks) even when `len` is 0.
+    mem_addr.init(dest, &data_bytes[offset..offset + len]);
     state.pc += 1;
     advance!(state)
 }
-- 
2.43.0


From dd1e71effb6c94f1253b2760476199501bcb16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 04/22] fix: i32.trunc_f32_s/u trap at 2^31 and 2^32

i32::MAX and u32::MAX are not representable in f32; the rounded-up bound
let the first out-of-range value through.
---
 src/execution/handlers.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index bb3dbad..78fe21f 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -1166,7 +1166,8 @@ conv_trap!(
     write_dst_i32,
     f32,
     i32::MIN as f32,
-    i32::MAX as f32,
+    // largest f32 below 2^31 (`i32::MAX as f32` rounds up to 2^31)
+    2147483520.0_f32,
     |t: f32| t as i32
 );
 conv_trap!(
@@ -1175,7 +1176,8 @@ conv_trap!(
     write_dst_i32,
     f32,
     0.0_f32,
-    u32::MAX as f32,
+    // largest f32 below 2^32 (`u32::MAX as f32` rounds up to 2^32)
+    4294967040.0_f32,
     |t: f32| (t as u32) as i32
 );
 conv_trap!(
-- 
2.43.0


From a8dcd52bbf167cade0feb9d7815021baa1fa9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:40 +0000
Subject: [PATCH 05/22] fix: do not defer an operand past a unary consumer

The two-instruction lookahead deferred a constant or local.get when the
instruction after the next producer was foldable, even if that instruction
is unary and takes only the intervening value; the deferred operand was then
left for an unrelated later consumer.
---
 src/parser.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 73a4004..457c3cd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -152,7 +152,7 @@ fn can_fold_i32<'a>(
             wasmparser::Operator::I32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i32_foldable_consumer(next_next_op)
+                is_i32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -181,7 +181,7 @@ fn can_fold_i64<'a>(
             wasmparser::Operator::I64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_i64_foldable_consumer(next_next_op)
+                is_i64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -210,7 +210,7 @@ fn can_fold_f32<'a>(
             wasmparser::Operator::F32Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f32_foldable_consumer(next_next_op)
+                is_f32_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -239,7 +239,7 @@ fn can_fold_f64<'a>(
             wasmparser::Operator::F64Const { .. } | wasmparser::Operator::LocalGet { .. }
         ) {
             if let Some(Ok((next_next_op, _))) = ops.peek() {
-                is_f64_foldable_consumer(next_next_op)
+                is_f64_foldable_consumer(next_next_op) && !is_unary_consumer(next_next_op)
             } else {
                 false
             }
@@ -292,6 +292,38 @@ fn is_i32_foldable_consumer(op: &wasmparser::Operator) -> bool {
     )
 }
 
+/// Check if a foldable consumer takes a single operand.
+/// In the 2-ahead lookahead such a consumer takes only the intervening value,
+/// so the value below it must not be deferred.
+#[inline]
+fn is_unary_consumer(op: &wasmparser::Operator) -> bool {
+    matches!(
+        op,
+        wasmparser::Operator::I32Clz
+            | wasmparser::Operator::I32Ctz
+            | wasmparser::Operator::I32Popcnt
+            | wasmparser::Operator::I32Eqz
+            | wasmparser::Operator::I64Clz
+            | wasmparser::Operator::I64Ctz
+            | wasmparser::Operator::I64Popcnt
+            | wasmparser::Operator::I64Eqz
+            | wasmparser::Operator::F32Abs
+            | wasmparser::Operator::F32Neg
+            | wasmparser::Operator::F32Ceil
+            | wasmparser::Operator::F32Floor
+            | wasmparser::Operator::F32Trunc
+            | wasmparser::Operator::F32Nearest
+            | wasmparser::Operator::F32Sqrt
+            | wasmparser::Operator::F64Abs
+            | wasmparser::Operator::F64Neg
+            | wasmparser::Operator::F64Ceil
+            | wasmparser::Operator::F64Floor
+            | wasmparser::Operator::F64Trunc
+            | wasmparser::Operator::F64Nearest
+            | wasmparser::Operator::F64Sqrt
+    )
+}
+
 /// Check if the instruction is a memory load (addr is I32, single operand)
 #[inline]
 fn is_memory_load(op: &wasmparser::Operator) -> bool {
-- 
2.43.0


From a07584b453de43518f80925cabc054a81ae03cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 06/22] fix: a branch to the function level keeps its operands

br, br_if and br_table whose label is the function body copied no registers
and jumped past (br_table: to the start of) the body, so the function returned
no results. They now move their operands to the function's result registers
and continue at the final End, which returns them.
---
 src/parser.rs | 66 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 457c3cd..5b78331 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1371,8 +1371,8 @@ fn preprocess_instructions(
 
         if current_control_stack_pass2.len() <= current_fixup_depth {
             // Depth exceeds control stack - this is a branch to function level (return)
-            // Set target_ip to end of function (processed.len())
-            let function_end_ip = processed.len();
+            // Set target_ip to the function's final End, which returns the results
+            let function_end_ip = processed.len() - 1;
             if let Some(instr_to_patch) = processed.get_mut(current_fixup_pc) {
                 if let ProcessedInstr::BrReg {
                     target_ip: ref mut tip,
@@ -1544,7 +1544,12 @@ fn preprocess_instructions(
                     for (rel_depth, _, result_regs) in targets_clone.iter() {
                         let depth = *rel_depth as usize;
                         if current_control_stack_pass3.len() <= depth {
-                            resolved_reg_targets.push((*rel_depth, 0, result_regs.clone())); // Invalid
+                            // Branch to the function level: the function's final End
+                            resolved_reg_targets.push((
+                                *rel_depth,
+                                processed.len() - 1,
+                                result_regs.clone(),
+                            ));
                             continue;
                         }
                         let target_stack_level = current_control_stack_pass3.len() - 1 - depth;
@@ -1562,7 +1567,8 @@ fn preprocess_instructions(
                     // Compute target_ip for default target
                     // Note: block_end_map already stores End + 1 position
                     let default_target_ip = if current_control_stack_pass3.len() <= default_depth {
-                        0 // Invalid
+                        // Branch to the function level: the function's final End
+                        processed.len() - 1
                     } else {
                         let target_stack_level =
                             current_control_stack_pass3.len() - 1 - default_depth;
@@ -1921,6 +1927,19 @@ fn decode_processed_instrs_and_fixups<'a>(
     use crate::execution::regs::RegAllocator;
     let mut reg_allocator = Some(RegAllocator::new(locals));
 
+    // Registers holding the function results: a branch to the function level copies
+    // its operands there, and the function-level End returns them.
+    let function_result_regs: Vec<Reg> = reg_allocator
+        .as_ref()
+        .map(|allocator| {
+            let mut state = allocator.save_state();
+            result_types
+                .iter()
+                .map(|vtype| state.next_reg_for_type(vtype))
+                .collect()
+        })
+        .unwrap_or_default();
+
     // Track allocator state at block entry for proper restoration on block exit
     let mut allocator_state_stack: Vec<crate::execution::regs::RegAllocatorState> = Vec::new();
 
@@ -5173,15 +5192,15 @@ fn decode_processed_instrs_and_fixups<'a>(
                     )
                 }
                 wasmparser::Operator::End => {
-                    let result_type_vec = if let Some(block_info) = control_info_stack.last() {
-                        get_block_result_types(&block_info.block_type, module)
+                    let source_regs = if let Some(block_info) = control_info_stack.last() {
+                        // Get the top N registers based on result types
+                        let result_type_vec =
+                            get_block_result_types(&block_info.block_type, module);
+                        allocator.peek_regs_for_types(&result_type_vec)
                     } else {
-                        result_types.to_vec()
+                        function_result_regs.clone()
                     };
 
-                    // Get the top N registers based on result types
-                    let source_regs = allocator.peek_regs_for_types(&result_type_vec);
-
                     // Get target_result_regs from ControlBlockInfo BEFORE restoring state
                     let target_result_regs = if let Some(block_info) = control_info_stack.last() {
                         block_info.result_regs.clone()
@@ -5511,6 +5530,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for branch
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                     );
@@ -5541,6 +5561,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for branch
                     let (source_regs, target_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         *relative_depth as usize,
                         reg_allocator.as_ref(),
                     );
@@ -5578,6 +5599,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     for depth in target_depths.iter() {
                         let (_, target_result_regs) = compute_branch_regs(
                             &control_info_stack,
+                            &function_result_regs,
                             *depth as usize,
                             reg_allocator.as_ref(),
                         );
@@ -5592,6 +5614,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                     // Compute source and target registers for default target
                     let (source_regs, default_result_regs) = compute_branch_regs(
                         &control_info_stack,
+                        &function_result_regs,
                         targets.default() as usize,
                         reg_allocator.as_ref(),
                     );
@@ -7340,23 +7363,24 @@ fn decode_processed_instrs_and_fixups<'a>(
 /// target_result_regs: where to copy them (the target block's result registers, or param_regs for loops)
 fn compute_branch_regs(
     control_info_stack: &[ControlBlockInfo],
+    function_result_regs: &[Reg],
     relative_depth: usize,
     reg_allocator: Option<&RegAllocator>,
 ) -> (Vec<Reg>, Vec<Reg>) {
     // Get target block from control_info_stack
     let stack_len = control_info_stack.len();
-    if stack_len == 0 || relative_depth >= stack_len {
-        return (Vec::new(), Vec::new());
-    }
-
-    let target_idx = stack_len - 1 - relative_depth;
-    let target_block = &control_info_stack[target_idx];
-    // For loops, use param_regs (branch provides parameters)
-    // For blocks/if, use result_regs (branch provides results)
-    let target_result_regs = if target_block.is_loop {
-        target_block.param_regs.clone()
+    let target_result_regs = if relative_depth >= stack_len {
+        // Branch to the function level (return)
+        function_result_regs.to_vec()
     } else {
-        target_block.result_regs.clone()
+        let target_block = &control_info_stack[stack_len - 1 - relative_depth];
+        // For loops, use param_regs (branch provides parameters)
+        // For blocks/if, use result_regs (branch provides results)
+        if target_block.is_loop {
+            target_block.param_regs.clone()
+        } else {
+            target_block.result_regs.clone()
+        }
     };
 
     // Compute source_regs from current allocator state
-- 
2.43.0


From b1e59a486662f9d8fcb80176230ce65e539c79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 07/22] fix: branches carrying values of several types copy the
 right registers

compute_branch_regs offset every type's depth by the total number of label
values instead of by the number of values of that type.
---
 src/parser.rs | 45 +++------------------------------------------
 1 file changed, 3 insertions(+), 42 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5b78331..5def708 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7383,49 +7383,10 @@ fn compute_branch_regs(
         }
     };
 
-    // Compute source_regs from current allocator state
+    // Source registers are the topmost stack values of the label's types
     let source_regs = if let Some(allocator) = reg_allocator {
-        // Get the registers at stack top matching result types
-        let result_count = target_result_regs.len();
-        if result_count == 0 {
-            Vec::new()
-        } else {
-            // Get current state and compute source registers
-            let state = allocator.save_state();
-            target_result_regs
-                .iter()
-                .enumerate()
-                .map(|(i, target_reg)| {
-                    // Source register is at current_depth - result_count + i
-                    match target_reg {
-                        Reg::I32(_) => {
-                            let src_idx = state.i32_depth.saturating_sub(result_count - i);
-                            Reg::I32(src_idx as u16)
-                        }
-                        Reg::I64(_) => {
-                            let src_idx = state.i64_depth.saturating_sub(result_count - i);
-                            Reg::I64(src_idx as u16)
-                        }
-                        Reg::F32(_) => {
-                            let src_idx = state.f32_depth.saturating_sub(result_count - i);
-                            Reg::F32(src_idx as u16)
-                        }
-                        Reg::F64(_) => {
-                            let src_idx = state.f64_depth.saturating_sub(result_count - i);
-                            Reg::F64(src_idx as u16)
-                        }
-                        Reg::Ref(_) => {
-                            let src_idx = state.ref_depth.saturating_sub(result_count - i);
-                            Reg::Ref(src_idx as u16)
-                        }
-                        Reg::V128(_) => {
-                            let src_idx = state.v128_depth.saturating_sub(result_count - i);
-                            Reg::V128(src_idx as u16)
-                        }
-                    }
-                })
-                .collect()
-        }
+        let label_types: Vec<ValueType> = target_result_regs.iter().map(Reg::value_type).collect();
+        allocator.peek_regs_for_types(&label_types)
     } else {
         Vec::new()
     };
-- 
2.43.0


From fdb39e9811c6ec032db8c684965b261c0c8799d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 08/22] fix: a branch to a loop with parameters copies its
 operands

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5def708..e30c45c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -5260,9 +5260,11 @@ fn decode_processed_instrs_and_fixups<'a>(
                     };
 
                     // Push params back - they're still on the stack inside the block
-                    for vtype in param_types.iter() {
-                        allocator.push(*vtype);
-                    }
+                    // (a branch to a loop has to put its operands there)
+                    let param_regs: Vec<Reg> = param_types
+                        .iter()
+                        .map(|vtype| allocator.push(*vtype))
+                        .collect();
 
                     let arity = result_types.len();
                     let param_count = param_types.len();
@@ -5272,7 +5274,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         block_type: *blockty,
                         is_loop,
                         result_regs: result_regs.into(),
-                        param_regs: Vec::new(),
+                        param_regs,
                     });
 
                     let instr = ProcessedInstr::BlockReg {
-- 
2.43.0


From 68ed6ac358a58234418fe3102934d4668feeca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 09/22] fix: select on references uses the reference registers

A typed select on funcref/externref was dispatched to the i64 handler, which
read and wrote the i64 bank.
---
 src/execution/handlers.rs | 3 +++
 src/execution/stats.rs    | 3 ++-
 src/execution/trace.rs    | 3 ++-
 src/parser.rs             | 2 +-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/execution/handlers.rs b/src/execution/handlers.rs
index 78fe21f..556486b 100644
--- a/src/execution/handlers.rs
+++ b/src/execution/handlers.rs
@@ -266,6 +266,7 @@ pub const HANDLER_IDX_SELECT_I32: usize = 0xF0;
 pub const HANDLER_IDX_SELECT_I64: usize = 0xF1;
 pub const HANDLER_IDX_SELECT_F32: usize = 0xF2;
 pub const HANDLER_IDX_SELECT_F64: usize = 0xF3;
+pub const HANDLER_IDX_SELECT_REF: usize = 0xEF;
 
 // Type-specialized global.get handler constants
 pub const HANDLER_IDX_GLOBAL_GET_I32: usize = 0xF4;
@@ -1393,6 +1394,7 @@ select!(select_i32, get_i32, set_i32);
 select!(select_i64, get_i64, set_i64);
 select!(select_f32, get_f32, set_f32);
 select!(select_f64, get_f64, set_f64);
+select!(select_ref, get_ref, set_ref);
 
 // ============================================================================
 // Nop / Unreachable
@@ -2292,6 +2294,7 @@ pub fn select_handler(instr: &ProcessedInstr) -> Handler {
             HANDLER_IDX_SELECT_I64 => select_i64,
             HANDLER_IDX_SELECT_F32 => select_f32,
             HANDLER_IDX_SELECT_F64 => select_f64,
+            HANDLER_IDX_SELECT_REF => select_ref,
             _ => invalid,
         },
         ProcessedInstr::GlobalGetReg { handler_index, .. } => match *handler_index {
diff --git a/src/execution/stats.rs b/src/execution/stats.rs
index 9381a3c..76a531e 100644
--- a/src/execution/stats.rs
+++ b/src/execution/stats.rs
@@ -52,7 +52,8 @@ impl ExecutionStats {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/execution/trace.rs b/src/execution/trace.rs
index c45a8b8..fdc0328 100644
--- a/src/execution/trace.rs
+++ b/src/execution/trace.rs
@@ -325,7 +325,8 @@ impl Tracer {
             HANDLER_IDX_SELECT_I32
             | HANDLER_IDX_SELECT_I64
             | HANDLER_IDX_SELECT_F32
-            | HANDLER_IDX_SELECT_F64 => "select",
+            | HANDLER_IDX_SELECT_F64
+            | HANDLER_IDX_SELECT_REF => "select",
 
             // Variable Instructions
             HANDLER_IDX_LOCAL_GET => "local.get",
diff --git a/src/parser.rs b/src/parser.rs
index e30c45c..fdbddb2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7099,7 +7099,7 @@ fn decode_processed_instrs_and_fixups<'a>(
                         ValueType::NumType(NumType::I64) => HANDLER_IDX_SELECT_I64,
                         ValueType::NumType(NumType::F32) => HANDLER_IDX_SELECT_F32,
                         ValueType::NumType(NumType::F64) => HANDLER_IDX_SELECT_F64,
-                        ValueType::RefType(_) => HANDLER_IDX_SELECT_I64,
+                        ValueType::RefType(_) => HANDLER_IDX_SELECT_REF,
                         ValueType::VecType(_) => panic!("VecType not supported for Select"),
                     };
 
-- 
2.43.0


From 1d24346e9f40a947b06a6cf64beac62b5cfbae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:28 +0000
Subject: [PATCH 10/22] fix: locals of reference type start as null in called
 functions

---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 8795437..b56d064 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -12,7 +12,7 @@ use crate::execution::state::{Frame, FrameStack, Label, LabelStack, ModuleLevelI
 use crate::execution::stats::ExecutionStats;
 #[cfg(feature = "trace")]
 use crate::execution::trace::{TraceConfig, Tracer};
-use crate::execution::value::{Num, Val, Vec_};
+use crate::execution::value::{Num, Ref, Val, Vec_};
 use crate::structure::module::WasiFuncType;
 use crate::structure::types::{NumType, ValueType, VecType};
 use crate::wasi::{WasiError, WasiResult};
@@ -1045,7 +1045,7 @@ impl Val {
             ValueType::NumType(NumType::F32) => Ok(Val::Num(Num::F32(0.0))),
             ValueType::NumType(NumType::F64) => Ok(Val::Num(Num::F64(0.0))),
             ValueType::VecType(VecType::V128) => Ok(Val::Vec_(Vec_::V128(0))),
-            ValueType::RefType(_) => todo!("Default value for RefType"),
+            ValueType::RefType(_) => Ok(Val::Ref(Ref::RefNull)),
         }
     }
 }
-- 
2.43.0


From e598bec9bacf3b7d09b8f56a69e7dccfb1a181bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 11/22] fix: the checkpoint poll counter survives frame changes

It restarted at 0 on every call and return, so a program that never runs 1024
instructions in a row inside one frame never noticed the checkpoint trigger.
---
 src/execution/runtime.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index b56d064..85a3445 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -32,6 +32,8 @@ pub struct Runtime {
     #[cfg_attr(not(feature = "stats"), allow(dead_code))]
     enable_stats: bool,
     enable_checkpoint: bool,
+    /// Instructions executed since the last file poll; carried across frames.
+    checkpoint_poll_counter: u32,
 }
 
 impl Drop for Runtime {
@@ -82,6 +84,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         })
     }
 
@@ -120,6 +123,7 @@ impl Runtime {
             tracer,
             enable_stats,
             enable_checkpoint,
+            checkpoint_poll_counter: 0,
         }
     }
 
@@ -169,10 +173,11 @@ impl Runtime {
             yielded: None,
             return_result_regs: return_result_regs_ptr,
             enable_checkpoint,
-            checkpoint_poll_counter: 0,
+            checkpoint_poll_counter: self.checkpoint_poll_counter,
         };
 
         let outcome = dispatch::execute_instructions(&mut state);
+        self.checkpoint_poll_counter = state.checkpoint_poll_counter;
 
         let idx = state.current_label_idx;
         if idx < state.label_stack().len() {
-- 
2.43.0


From a96fe6df49e6b8a021b72a55f3d05391d59254fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 12/22] fix: every restored frame can be checkpointed again

Only the outermost frame got the checkpoint flag after a restore, so the
trigger was ignored until all inner restored frames had returned.
---
 src/execution/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index 85a3445..e044818 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -224,8 +224,8 @@ impl Runtime {
             }
         }
 
-        // Set checkpoint enabled flag for initial frame stack
-        if let Some(frame_stack) = self.stacks.activation_frame_stack.first_mut() {
+        // Set checkpoint enabled flag for the initial frame stack (all restored frames)
+        for frame_stack in self.stacks.activation_frame_stack.iter_mut() {
             frame_stack.enable_checkpoint = self.enable_checkpoint;
         }
 
-- 
2.43.0


From fd2ed59f8c12309ca76abdd3993c18251cf3c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 13/22] verif: entry point and stand-ins for WASI calls under
 cfg(chiwawa_verif)

---
 src/execution/runtime.rs | 12 ++++++++
 src/wasi/passthrough.rs  | 66 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/src/execution/runtime.rs b/src/execution/runtime.rs
index e044818..9285e6c 100644
--- a/src/execution/runtime.rs
+++ b/src/execution/runtime.rs
@@ -1054,3 +1054,15 @@ impl Val {
         }
     }
 }
+
+/// Entry point for the deductive verification harnesses (`--cfg chiwawa_verif`).
+#[cfg(chiwawa_verif)]
+impl Runtime {
+    pub fn verif_call_wasi(
+        &self,
+        func_type: &WasiFuncType,
+        params: &[Val],
+    ) -> WasiResult<Option<Val>> {
+        self.call_wasi_function(func_type, params)
+    }
+}
diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 9b44f41..6e58546 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -1263,3 +1263,69 @@ impl PassthroughWasiImpl {
         Ok(wasi_errno as i32)
     }
 }
+
+/// Stand-ins for the host functions that take an iovec list, whose type is private to this module
+/// (`--cfg chiwawa_verif`).
+#[cfg(chiwawa_verif)]
+#[allow(private_interfaces, static_mut_refs)]
+pub mod verif {
+    use super::WasiIovec;
+    /// (function, fd, list, length, offset or flags, result pointers)
+    pub static mut HOST: fn(u8, u32, *const u8, u32, u64, [*mut u32; 2]) -> u16 =
+        |_, _, _, _, _, _| 0;
+    const NONE: *mut u32 = std::ptr::null_mut();
+
+    pub unsafe extern "C" fn fd_write(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        out: *mut u32,
+    ) -> u16 {
+        HOST(0, fd, iovs as *const u8, n, 0, [out, NONE])
+    }
+    pub unsafe extern "C" fn fd_read(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        out: *mut u32,
+    ) -> u16 {
+        HOST(1, fd, iovs as *const u8, n, 0, [out, NONE])
+    }
+    pub unsafe extern "C" fn fd_pread(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        offset: u64,
+        out: *mut u32,
+    ) -> u16 {
+        HOST(2, fd, iovs as *const u8, n, offset, [out, NONE])
+    }
+    pub unsafe extern "C" fn fd_pwrite(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        offset: u64,
+        out: *mut u32,
+    ) -> u16 {
+        HOST(3, fd, iovs as *const u8, n, offset, [out, NONE])
+    }
+    pub unsafe extern "C" fn sock_recv(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        flags: u32,
+        out: *mut u32,
+        out2: *mut u32,
+    ) -> u16 {
+        HOST(4, fd, iovs as *const u8, n, flags as u64, [out, out2])
+    }
+    pub unsafe extern "C" fn sock_send(
+        fd: u32,
+        iovs: *const WasiIovec,
+        n: u32,
+        flags: u32,
+        out: *mut u32,
+    ) -> u16 {
+        HOST(5, fd, iovs as *const u8, n, flags as u64, [out, NONE])
+    }
+}
-- 
2.43.0


From c93f90d69e5eaedf73c6c0fc010255404cf22b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 14/22] fix: args_get and environ_get write exactly one pointer
 per string

---
 src/wasi/passthrough.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index 6e58546..fdd6b83 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -356,7 +356,7 @@ impl PassthroughWasiImpl {
         }
 
         // Calculate pointer offsets relative to environ_buf_ptr
-        let mut ptr_data = Vec::with_capacity((environ_count as usize + 1) * 4);
+        let mut ptr_data = Vec::with_capacity(environ_count as usize * 4);
         for i in 0..environ_count as usize {
             if !environ_ptrs[i].is_null() {
                 // Calculate offset from the start of environ_buf
@@ -367,9 +367,6 @@ impl PassthroughWasiImpl {
                 ptr_data.extend_from_slice(&0u32.to_le_bytes());
             }
         }
-        // Null terminator for environ array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(environ_ptr as i32, &ptr_data);
 
@@ -412,7 +409,7 @@ impl PassthroughWasiImpl {
 
         // Build the argument buffer and pointer array
         let mut argv_buf = Vec::with_capacity(total_len);
-        let mut ptr_data = Vec::with_capacity((args.len() + 1) * 4); // +1 for null terminator
+        let mut ptr_data = Vec::with_capacity(args.len() * 4);
 
         for arg in args {
             // Store pointer to current position in buffer (relative to argv_buf_ptr)
@@ -424,9 +421,6 @@ impl PassthroughWasiImpl {
             argv_buf.push(0); // null terminator
         }
 
-        // Add null terminator for the argv array
-        ptr_data.extend_from_slice(&0u32.to_le_bytes());
-
         // Write pointer array to WebAssembly memory
         memory.store_bytes(argv_ptr as i32, &ptr_data);
 
-- 
2.43.0


From 7314b4ab15ab754f61144004a9bb149d721d46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:35 +0000
Subject: [PATCH 15/22] fix: sock_recv and sock_send translate the guest's
 iovec list

---
 src/wasi/passthrough.rs | 49 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/wasi/passthrough.rs b/src/wasi/passthrough.rs
index fdd6b83..d6fe51e 100644
--- a/src/wasi/passthrough.rs
+++ b/src/wasi/passthrough.rs
@@ -1199,6 +1199,47 @@ impl PassthroughWasiImpl {
         Ok(wasi_errno as i32)
     }
 
+    /// Translates a list of guest iovecs into host iovecs.
+    fn read_iovecs(memory: &MemAddr, iovs_ptr: Ptr, iovs_len: Size) -> Vec<WasiIovec> {
+        let memory_guard = memory.get_memory_direct_access();
+        let memory_base = memory_guard.data.as_ptr();
+
+        let mut iovecs = Vec::with_capacity(iovs_len as usize);
+
+        for i in 0..iovs_len {
+            // Each iovec is 8 bytes: buf_ptr (4 bytes) + buf_len (4 bytes)
+            let iovec_offset = iovs_ptr as usize + (i as usize * 8);
+
+            let buf_ptr = u32::from_le_bytes([
+                memory_guard.data[iovec_offset],
+                memory_guard.data[iovec_offset + 1],
+                memory_guard.data[iovec_offset + 2],
+                memory_guard.data[iovec_offset + 3],
+            ]);
+
+            let buf_len = u32::from_le_bytes([
+                memory_guard.data[iovec_offset + 4],
+                memory_guard.data[iovec_offset + 5],
+                memory_guard.data[iovec_offset + 6],
+                memory_guard.data[iovec_offset + 7],
+            ]);
+
+            if buf_len == 0 {
+                iovecs.push(WasiIovec {
+                    buf: std::ptr::null(),
+                    buf_len: 0,
+                });
+            } else {
+                iovecs.push(WasiIovec {
+                    buf: unsafe { memory_base.add(buf_ptr as usize) },
+                    buf_len,
+                });
+            }
+        }
+
+        iovecs
+    }
+
     pub fn sock_recv(
         &self,
         memory: &MemAddr,
@@ -1212,10 +1253,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let ri_data = Self::read_iovecs(memory, ri_data_ptr, ri_data_len);
+
         let wasi_errno = unsafe {
             __wasi_sock_recv(
                 fd,
-                memory_base.add(ri_data_ptr as usize) as *const WasiIovec,
+                ri_data.as_ptr(),
                 ri_data_len,
                 ri_flags,
                 memory_base.add(ro_datalen_ptr as usize) as *mut u32,
@@ -1238,10 +1281,12 @@ impl PassthroughWasiImpl {
         let memory_guard = memory.get_memory_direct_access();
         let memory_base = memory_guard.data.as_ptr();
 
+        let si_data = Self::read_iovecs(memory, si_data_ptr, si_data_len);
+
         let wasi_errno = unsafe {
             __wasi_sock_send(
                 fd,
-                memory_base.add(si_data_ptr as usize) as *const WasiIovec,
+                si_data.as_ptr(),
                 si_data_len,
                 si_flags,
                 memory_base.add(so_datalen_ptr as usize) as *mut u32,
-- 
2.43.0


From 77a3b1e118812b3fc1707384f6bb2bf406d437b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:51 +0000
Subject: [PATCH 16/22] fix: table.fill traps when the range wraps or an empty
 range starts beyond the table

---
 src/execution/table.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index ca359ee..0419bd0 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -57,9 +57,8 @@ impl TableAddr {
     /// Out-of-bounds panics; host runtime traps.
     pub fn fill(&self, i: usize, val: Val, n: usize) {
         let mut inst = self.0.borrow_mut();
-        for idx in i..i + n {
-            inst.elem[idx] = val.clone();
-        }
+        let end = i.checked_add(n).expect("out of bounds table access");
+        inst.elem[i..end].fill(val);
     }
 
     /// Gets function address at index for call_indirect.
-- 
2.43.0


From 9b804b1e47543a2c78a90ba2fde84da4e10f4b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 17/22] fix: checkpoints keep tables, dropped data segments and
 function references

---
 src/execution/func.rs      |  5 ++++
 src/execution/migration.rs | 45 ++++++++++++++++++++++++-------
 src/execution/table.rs     | 13 ++-------
 src/execution/value.rs     | 54 +++++++++++++++++++++++++++++++++++---
 4 files changed, 94 insertions(+), 23 deletions(-)

diff --git a/src/execution/func.rs b/src/execution/func.rs
index bd6c98c..21d6878 100644
--- a/src/execution/func.rs
+++ b/src/execution/func.rs
@@ -73,6 +73,11 @@ impl Debug for FuncInst {
 }
 
 impl FuncAddr {
+    /// Whether both handles denote the same function instance.
+    pub fn same(&self, other: &FuncAddr) -> bool {
+        Rc::ptr_eq(&self.0, &other.0)
+    }
+
     /// Allocates a placeholder function (replaced later during instantiation).
     pub fn alloc_empty() -> FuncAddr {
         FuncAddr(Rc::new(UnsafeCell::new(FuncInst::RuntimeFunc {
diff --git a/src/execution/migration.rs b/src/execution/migration.rs
index 0543d7a..fcb2604 100644
--- a/src/execution/migration.rs
+++ b/src/execution/migration.rs
@@ -9,13 +9,13 @@
 //! - Activation frame stack with register file and per-frame locals
 //! - Linear memory contents (LZ4 compressed)
 //! - Global variable values
+//! - Table elements and dropped data segments
 //! - Per-frame function indices (used to rebuild skipped `Rc` fields on restore)
 //!
 //! `FrameStack` fields that are derived from the module instance
 //! (`handlers`, `processed_instrs`, `primary_mem`, `cached_mem_ptr`) are
-//! `#[serde(skip)]` and reconstructed during `restore`. Tables are excluded:
-//! they are deterministically initialized from element segments during
-//! module instantiation.
+//! `#[serde(skip)]` and reconstructed during `restore`. Function references
+//! (in tables, globals, locals and registers) are saved as function indices.
 //!
 //! ## Trigger Mechanisms
 //!
@@ -42,7 +42,7 @@ use crate::execution::global::GlobalAddr;
 use crate::execution::mem::MemAddr;
 use crate::execution::module::ModuleInst;
 use crate::execution::state::{Stacks, VmState};
-use crate::execution::value::Val;
+use crate::execution::value::{FuncRefScope, Val};
 use serde::{Deserialize, Serialize};
 use std::fs::File;
 use std::io::{Read, Write};
@@ -144,15 +144,16 @@ const CHECKPOINT_POLL_MASK: u32 = 0x3FF;
 /// - Call stack and register state
 /// - Linear memory contents (LZ4 compressed)
 /// - Global variable values
-///
-/// Tables are excluded: they are deterministically initialized from element
-/// segments during module instantiation.
+/// - Table elements (function references as function indices)
+/// - Which data segments have been dropped
 #[derive(Serialize, Deserialize, Debug)]
 pub struct SerializableState {
     pub stacks: Stacks,
     pub memory_data_compressed: Vec<u8>,
     pub global_values: Vec<Val>,
     pub frame_func_indices: Vec<u32>,
+    pub table_elems: Vec<Vec<Val>>,
+    pub data_dropped: Vec<bool>,
 }
 
 /// Serializes runtime state to a checkpoint file.
@@ -205,7 +206,20 @@ pub fn checkpoint<P: AsRef<Path>>(
         })
         .collect::<Vec<u32>>();
 
-    // 4. Assemble state
+    // 4. Gather table elements and dropped data segments
+    let _func_refs = FuncRefScope::new(&module_inst.func_addrs);
+    let table_elems = module_inst
+        .table_addrs
+        .iter()
+        .map(|table_addr| table_addr.read_lock().elem.clone())
+        .collect::<Vec<Vec<Val>>>();
+    let data_dropped = module_inst
+        .data_addrs
+        .iter()
+        .map(|data_addr| data_addr.get_data().is_empty())
+        .collect::<Vec<bool>>();
+
+    // 5. Assemble state
     // Note: Register file is already compact because restore_offsets() truncates
     // register vectors on function return, so no checkpoint-time compaction needed.
     let state = SerializableState {
@@ -213,6 +227,8 @@ pub fn checkpoint<P: AsRef<Path>>(
         memory_data_compressed,
         global_values,
         frame_func_indices,
+        table_elems,
+        data_dropped,
     };
 
     // 6. Serialize and write (with per-component size diagnostics)
@@ -289,6 +305,7 @@ pub fn restore<P: AsRef<Path>>(
         .map_err(|e| RuntimeError::CheckpointLoadError(e.to_string()))?;
 
     // 2. Deserialize the state using bincode
+    let _func_refs = FuncRefScope::new(&module_inst.func_addrs);
     let mut state: SerializableState = bincode::deserialize(&encoded[..])
         .map_err(|e| RuntimeError::DeserializationError(e.to_string()))?;
 
@@ -318,7 +335,17 @@ pub fn restore<P: AsRef<Path>>(
         );
     }
 
-    // 5. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
+    // 5. Restore tables and dropped data segments
+    for (table_addr, elems) in module_inst.table_addrs.iter().zip(state.table_elems) {
+        table_addr.set_elements(elems);
+    }
+    for (data_addr, dropped) in module_inst.data_addrs.iter().zip(state.data_dropped) {
+        if dropped {
+            data_addr.drop_data();
+        }
+    }
+
+    // 6. Reconstruct skipped fields in Stacks (Frame::module, primary_mem, processed_instrs)
     let primary_mem = module_inst.mem_addrs.first().cloned();
     for (frame_stack, &func_idx) in state
         .stacks
diff --git a/src/execution/table.rs b/src/execution/table.rs
index 0419bd0..bc785a5 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -5,7 +5,6 @@ use super::{
     module::*,
     value::{self, Val},
 };
-use crate::error::RuntimeError;
 use crate::structure::types::*;
 use std::cell::{Ref, RefCell};
 use std::rc::Rc;
@@ -73,16 +72,8 @@ impl TableAddr {
     }
 
     /// Replaces all elements (used during restore).
-    pub fn set_elements(&self, elems: Vec<Option<FuncAddr>>) -> Result<(), RuntimeError> {
-        let mut guard = self.0.borrow_mut();
-        guard.elem = elems
-            .into_iter()
-            .map(|opt_func| match opt_func {
-                Some(func_addr) => Val::Ref(value::Ref::FuncAddr(func_addr)),
-                None => Val::Ref(value::Ref::RefNull),
-            })
-            .collect();
-        Ok(())
+    pub fn set_elements(&self, elems: Vec<Val>) {
+        self.0.borrow_mut().elem = elems;
     }
 
     /// Returns a borrow of the underlying table instance.
diff --git a/src/execution/value.rs b/src/execution/value.rs
index afeab3b..d3aab56 100644
--- a/src/execution/value.rs
+++ b/src/execution/value.rs
@@ -103,14 +103,62 @@ pub enum Vec_ {
 pub enum Ref {
     /// Null reference.
     RefNull,
-    /// Function reference.
-    #[serde(skip)]
-    FuncAddr(FuncAddr),
+    /// Function reference (saved as an index into the module's functions).
+    FuncAddr(#[serde(with = "func_ref")] FuncAddr),
     /// External reference.
     #[serde(skip)]
     RefExtern(ExternAddr),
 }
 
+/// Serialization of function references as indices into the functions of the
+/// module whose state is being saved or restored (see `FuncRefScope`).
+mod func_ref {
+    use super::FuncAddr;
+    use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+    use std::cell::RefCell;
+
+    thread_local! {
+        static FUNCS: RefCell<Vec<FuncAddr>> = const { RefCell::new(Vec::new()) };
+    }
+
+    pub fn set_funcs(funcs: &[FuncAddr]) {
+        FUNCS.with(|f| *f.borrow_mut() = funcs.to_vec());
+    }
+
+    pub fn serialize<S: Serializer>(func: &FuncAddr, s: S) -> Result<S::Ok, S::Error> {
+        let index = FUNCS.with(|f| f.borrow().iter().position(|g| g.same(func)));
+        match index {
+            Some(i) => (i as u32).serialize(s),
+            None => Err(ser::Error::custom("reference to a function of no module")),
+        }
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<FuncAddr, D::Error> {
+        let index = u32::deserialize(d)?;
+        FUNCS
+            .with(|f| f.borrow().get(index as usize).cloned())
+            .ok_or_else(|| de::Error::custom("function index out of range"))
+    }
+}
+
+/// While this guard lives, function references are serialized as indices into
+/// the given functions.
+pub struct FuncRefScope(());
+
+impl FuncRefScope {
+    /// Starts saving or restoring references to the given functions.
+    pub fn new(funcs: &[FuncAddr]) -> Self {
+        func_ref::set_funcs(funcs);
+        FuncRefScope(())
+    }
+}
+
+impl Drop for FuncRefScope {
+    fn drop(&mut self) {
+        func_ref::set_funcs(&[]);
+    }
+}
+
 use std::hash::{Hash, Hasher};
 
 impl Hash for Ref {
-- 
2.43.0


From f1bbdf63dbb4133489613e9cb27ad47c6094c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:25 +0000
Subject: [PATCH 18/22] fix: active data segments are dropped after
 instantiation

---
 src/execution/module.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/execution/module.rs b/src/execution/module.rs
index 6826a00..2f62495 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -168,7 +168,8 @@ impl ModuleInst {
 
         for data in &module.datas {
             let init: Vec<u8> = data.init.iter().map(|x| x.0).collect();
-            module_inst.data_addrs.push(DataAddr::new(&init));
+            let data_addr = DataAddr::new(&init);
+            module_inst.data_addrs.push(data_addr.clone());
 
             if data.mode == DataMode::Active {
                 let offset_res = match &data.offset {
@@ -186,6 +187,8 @@ impl ModuleInst {
                 };
 
                 module_inst.mem_addrs[idx as usize].init(offset as usize, &init);
+                // An active segment is dropped once it has been copied
+                data_addr.drop_data();
             }
         }
 
-- 
2.43.0


From 2fc9e2fed5f5e54daa97d27f2480534e446b74dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:43 +0000
Subject: [PATCH 19/22] fix: an empty active element segment beyond the table
 traps

---
 src/execution/table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/execution/table.rs b/src/execution/table.rs
index bc785a5..f40787f 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -36,6 +36,12 @@ impl TableAddr {
     /// Initializes table elements from function indices.
     pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
         let mut addr_self = self.0.borrow_mut();
+        let end = offset
+            .checked_add(init.len())
+            .expect("out of bounds table access");
+        if end > addr_self.elem.len() {
+            panic!("out of bounds table access");
+        }
         for (index, f) in init.iter().enumerate() {
             addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
                 funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-- 
2.43.0


From d1be35dc1abba85c307c1e14187456a3d4c31fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:45 +0000
Subject: [PATCH 20/22] fix: a memory of 65536 pages fails to instantiate
 instead of being empty

---
 src/execution/mem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution/mem.rs b/src/execution/mem.rs
index f6b82ca..57f1052 100644
--- a/src/execution/mem.rs
+++ b/src/execution/mem.rs
@@ -23,7 +23,9 @@ pub struct MemInst {
 impl MemAddr {
     /// Creates a new memory instance with initial size from type.
     pub fn new(type_: &MemType) -> MemAddr {
-        let min = (type_.0.min * 65536) as usize;
+        let min = (type_.0.min as usize)
+            .checked_mul(65536)
+            .expect("memory too large");
         let max = type_.0.max.map(|max| max);
         MemAddr {
             mem_inst: Rc::new(UnsafeCell::new(MemInst {
-- 
2.43.0


From 877d2499aef8940e187ce8cce3a89981cfc99e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:53 +0000
Subject: [PATCH 21/22] fix: element segments given as expressions initialise
 tables

---
 src/execution/elem.rs   | 10 +++-------
 src/execution/module.rs | 25 +++++++++++++++++--------
 src/execution/table.rs  | 11 ++++-------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/execution/elem.rs b/src/execution/elem.rs
index f7d98e1..28f457b 100644
--- a/src/execution/elem.rs
+++ b/src/execution/elem.rs
@@ -1,6 +1,6 @@
 //! Element segment instances for table initialization.
 
-use super::{func::FuncAddr, module::*, value::Ref};
+use super::value::Ref;
 use crate::structure::types::*;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -18,12 +18,8 @@ pub struct ElemInst {
 }
 
 impl ElemAddr {
-    /// Creates a new element segment from function indices.
-    pub fn new(type_: &RefType, funcs: &Vec<FuncAddr>, init: &Vec<i32>) -> ElemAddr {
-        let elem: Vec<Ref> = init
-            .into_iter()
-            .map(|i| Ref::FuncAddr(funcs.get_by_idx(FuncIdx(*i as u32)).clone()))
-            .collect();
+    /// Creates a new element segment from references.
+    pub fn new(type_: &RefType, elem: Vec<Ref>) -> ElemAddr {
         ElemAddr(Rc::new(RefCell::new(ElemInst {
             _type_: *type_,
             _elem: elem,
diff --git a/src/execution/module.rs b/src/execution/module.rs
index 2f62495..0a69e1e 100644
--- a/src/execution/module.rs
+++ b/src/execution/module.rs
@@ -134,15 +134,25 @@ impl ModuleInst {
             if elem.type_ == RefType::ExternalRef {
                 panic!();
             }
-            let mut init: Vec<i32> = Vec::new();
+            let mut init: Vec<Ref> = Vec::new();
             if let Some(idxes) = &elem.idxes {
                 for idx in idxes {
-                    init.push(idx.0 as i32);
+                    init.push(Ref::FuncAddr(
+                        module_inst.func_addrs.get_by_idx(FuncIdx(idx.0)).clone(),
+                    ));
+                }
+            }
+            if let Some(exprs) = &elem.init {
+                for expr in exprs {
+                    match module_inst.expr_to_const(expr) {
+                        Some(Val::Ref(r)) => init.push(r),
+                        _ => return Err(RuntimeError::InvalidConstantExpression),
+                    }
                 }
             }
             module_inst
                 .elem_addrs
-                .push(ElemAddr::new(&elem.type_, &module_inst.func_addrs, &init));
+                .push(ElemAddr::new(&elem.type_, init.clone()));
 
             if elem.mode == ElemMode::Active {
                 let offset_res = match &elem.offset {
@@ -158,11 +168,7 @@ impl ModuleInst {
                     Some(i) => i.0,
                     None => 0,
                 };
-                module_inst.table_addrs[table_idx as usize].init(
-                    offset as usize,
-                    &module_inst.func_addrs,
-                    &init,
-                );
+                module_inst.table_addrs[table_idx as usize].init(offset as usize, &init);
             }
         }
 
@@ -256,6 +262,9 @@ impl ModuleInst {
             &[Instr::F64Const(i)] => Some(Val::Num(Num::F64(i as f64))),
             &[Instr::V128Const(i)] => Some(Val::Vec_(Vec_::V128(i))),
             &[Instr::RefNull(_)] => Some(Val::Ref(Ref::RefNull)),
+            [Instr::RefFunc(i)] => Some(Val::Ref(Ref::FuncAddr(
+                self.func_addrs.get_by_idx(FuncIdx(i.0)).clone(),
+            ))),
             [Instr::GlobalGet(i)] => Some(self.global_addrs.get_by_idx(*i).get()),
             _ => None,
         }
diff --git a/src/execution/table.rs b/src/execution/table.rs
index f40787f..8684acf 100644
--- a/src/execution/table.rs
+++ b/src/execution/table.rs
@@ -2,7 +2,6 @@
 
 use super::{
     func::FuncAddr,
-    module::*,
     value::{self, Val},
 };
 use crate::structure::types::*;
@@ -33,8 +32,8 @@ impl TableAddr {
             },
         })))
     }
-    /// Initializes table elements from function indices.
-    pub fn init(&self, offset: usize, funcs: &Vec<FuncAddr>, init: &Vec<i32>) {
+    /// Initializes table elements from the references of an element segment.
+    pub fn init(&self, offset: usize, init: &[value::Ref]) {
         let mut addr_self = self.0.borrow_mut();
         let end = offset
             .checked_add(init.len())
@@ -42,10 +41,8 @@ impl TableAddr {
         if end > addr_self.elem.len() {
             panic!("out of bounds table access");
         }
-        for (index, f) in init.iter().enumerate() {
-            addr_self.elem[index + offset] = Val::Ref(value::Ref::FuncAddr(
-                funcs.get_by_idx(FuncIdx(*f as u32)).clone(),
-            ));
+        for (index, r) in init.iter().enumerate() {
+            addr_self.elem[index + offset] = Val::Ref(r.clone());
         }
     }
     /// Gets element at index. Out-of-bounds panics; host runtime traps.
-- 
2.43.0


From c8d03436e9fda71a46fdab15e7d318a01e0ea2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:56 +0000
Subject: [PATCH 22/22] parser: verification access to the folding lookaheads
 (cfg chiwawa_verif)

---
 src/parser.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index fdbddb2..3c04d49 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -7507,3 +7507,58 @@ pub fn parse_bytecode(
 
     Ok(())
 }
+
+#[cfg(chiwawa_verif)]
+pub mod verif {
+    use super::*;
+    use wasmparser::{BinaryReaderError, Operator};
+
+    /// Asks one of the folding lookaheads about the given upcoming operators.
+    pub fn can_fold<'a>(
+        which: u8,
+        ops: impl Iterator<Item = Result<(Operator<'a>, usize), BinaryReaderError>>,
+    ) -> bool {
+        let mut ops = itertools::multipeek(ops);
+        match which {
+            0 => can_fold_i32(&mut ops),
+            1 => can_fold_i64(&mut ops),
+            2 => can_fold_f32(&mut ops),
+            3 => can_fold_f64(&mut ops),
+            4 => can_fold_for_load(&mut ops),
+            _ => can_fold_for_store(&mut ops),
+        }
+    }
+
+    /// Asks one of the classifications behind the lookaheads about an operator.
+    pub fn consumes(which: u8, op: &Operator) -> bool {
+        match which {
+            0 => is_i32_foldable_consumer(op),
+            1 => is_i64_foldable_consumer(op),
+            2 => is_f32_foldable_consumer(op),
+            3 => is_f64_foldable_consumer(op),
+            4 => is_memory_load(op),
+            5 => is_memory_store(op),
+            _ => is_unary_consumer(op),
+        }
+    }
+
+    pub fn local_type(params: &[ValueType], locals: &[(u32, ValueType)], index: u32) -> ValueType {
+        get_local_type(params, locals, index)
+    }
+
+    /// Asks one of the destination folding lookaheads about the given upcoming operators.
+    pub fn try_fold_dst<'a>(
+        which: u8,
+        ops: impl Iterator<Item = Result<(Operator<'a>, usize), BinaryReaderError>>,
+        params: &[ValueType],
+        locals: &[(u32, ValueType)],
+    ) -> Option<u16> {
+        let mut ops = itertools::multipeek(ops);
+        match which {
+            0 => try_fold_dst_i32(&mut ops, params, locals),
+            1 => try_fold_dst_i64(&mut ops, params, locals),
+            2 => try_fold_dst_f32(&mut ops, params, locals),
+            _ => try_fold_dst_f64(&mut ops, params, locals),
+        }
+    }
+}
-- 
2.43.0

