From ad95fcbe24afd7d27aabf68516e752b5023559c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:08 +0000
Subject: [PATCH 01/27] fix: lower every unsigned integer comparison to wasm

arith.cmpi with ule/ugt/uge, and ult on i64, was left unlowered by
arith_to_wasm although intrinsic lowering emits these for Nat comparisons.
---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From 942af3850744ad33e7f28379dfdcb4f332f8c721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:24 +0000
Subject: [PATCH 02/27] fix: qualify nested-module functions by sym_name in
 global DCE

---
 crates/trunk-ir/src/transforms/global_dce.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/trunk-ir/src/transforms/global_dce.rs b/crates/trunk-ir/src/transforms/global_dce.rs
index 7f77398..ec4b285 100644
--- a/crates/trunk-ir/src/transforms/global_dce.rs
+++ b/crates/trunk-ir/src/transforms/global_dce.rs
@@ -73,7 +73,6 @@ struct Syms {
     callee: Symbol,
     func_ref: Symbol,
     func_attr: Symbol,
-    name_attr: Symbol,
     abi: Symbol,
     main: Symbol,
     start: Symbol,
@@ -95,7 +94,6 @@ impl Syms {
             callee: Symbol::new("callee"),
             func_ref: Symbol::new("func_ref"),
             func_attr: Symbol::new("func"),
-            name_attr: Symbol::new("name"),
             abi: Symbol::new("abi"),
             main: Symbol::new("main"),
             start: Symbol::new("_start"),
@@ -296,7 +294,7 @@ impl GlobalDcePass {
         op: OpRef,
         current_path: &[Symbol],
     ) -> Vec<Symbol> {
-        let nested_name = self.extract_symbol_attr(ctx, op, &self.syms.name_attr);
+        let nested_name = self.extract_symbol_attr(ctx, op, &self.syms.sym_name);
         if let Some(n) = nested_name {
             let mut p = current_path.to_vec();
             p.push(n);
-- 
2.43.0


From fe964796fd1a8c98b7a1b394e2dfb535e7fa95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:49 +0000
Subject: [PATCH 03/27] fix: keep functions referenced from nested modules in
 non-recursive global DCE

---
 crates/trunk-ir/src/transforms/global_dce.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/trunk-ir/src/transforms/global_dce.rs b/crates/trunk-ir/src/transforms/global_dce.rs
index ec4b285..bf2c583 100644
--- a/crates/trunk-ir/src/transforms/global_dce.rs
+++ b/crates/trunk-ir/src/transforms/global_dce.rs
@@ -160,6 +160,14 @@ impl GlobalDcePass {
                         for &region in &ctx.op(op).regions {
                             self.analyze_module_region(ctx, region, &new_path);
                         }
+                    } else {
+                        // The nested module is kept as it is, so whatever its
+                        // functions refer to must stay reachable.
+                        let nested = self
+                            .extract_symbol_attr(ctx, op, &self.syms.sym_name)
+                            .unwrap_or(self.syms.module);
+                        self.reachability_roots.insert(nested);
+                        self.analyze_function_body(ctx, op, nested);
                     }
                     continue;
                 }
-- 
2.43.0


From 6c04cfb82eaa7c4ab8bbadf603934e411ce71594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:07 +0000
Subject: [PATCH 04/27] fix: retain values that a jump passes on while they
 stay live or are passed twice

---
 .../tribute-passes/src/native/rc_insertion.rs | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..99822dd 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1283,6 +1283,34 @@ fn insert_rc_in_block(
         }
     }
 
+    // A jump hands one reference per argument to the target block's parameters.
+    // The value's own reference covers one of them only if the value dies here.
+    if let Some((op_idx, &op)) = ops.iter().enumerate().next_back()
+        && clif::Jump::matches(ctx, op)
+    {
+        let args: Vec<ValueRef> = ctx.op_operands(op).to_vec();
+        let mut passed: Vec<(ValueRef, ValueRef, usize)> = Vec::new();
+        for arg in args {
+            let owned = ptr_alias_map.get(&arg).copied().unwrap_or(arg);
+            if !ptr_values.contains(&owned) {
+                continue;
+            }
+            match passed.iter_mut().find(|(value, _, _)| *value == owned) {
+                Some((_, _, count)) => *count += 1,
+                None => passed.push((owned, arg, 1)),
+            }
+        }
+        for (owned, arg, count) in passed {
+            let dies_here = !live_out.contains(&owned)
+                && !borrow_info.parameters.contains(&owned)
+                && !borrow_info.temporaries.contains(&owned);
+            for _ in usize::from(dies_here)..count {
+                let retain = tribute_rt::retain(ctx, ctx.op(op).location, arg, ptr_ty);
+                plan.before.entry(op_idx).or_default().push(retain.op_ref());
+            }
+        }
+    }
+
     // --- Retain insertions ---
 
     // 1. Entry block: retain each ptr parameter
-- 
2.43.0


From 7c7d75967fcb3925b3795dafe2ab1ac0313117e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:33 +0000
Subject: [PATCH 05/27] fix: release values that die on a control-flow edge

---
 .../tribute-passes/src/native/rc_insertion.rs | 67 ++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 99822dd..4c3fcd4 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -35,7 +35,7 @@
 
 use std::collections::{HashMap, HashSet};
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
+use trunk_ir::context::{BlockData, IrContext};
 use trunk_ir::dialect::clif;
 use trunk_ir::dialect::core;
 use trunk_ir::dominance::DominatorTree;
@@ -830,6 +830,71 @@ fn insert_rc_in_function(
             call_contracts,
         );
     }
+    release_edge_deaths(ctx, body, &blocks, &liveness, &borrow_info);
+}
+
+/// Release values that are live out of a block but not live into one of its
+/// successors (e.g. used in only one arm of a branch).
+fn release_edge_deaths(
+    ctx: &mut IrContext,
+    body: RegionRef,
+    blocks: &[BlockRef],
+    liveness: &LivenessInfo,
+    borrow_info: &RcBorrowInfo<'_>,
+) {
+    let mut edge_count: HashMap<BlockRef, usize> = HashMap::new();
+    for &block in blocks {
+        if let Some(&last_op) = ctx.block(block).ops.last() {
+            for &successor in &ctx.op(last_op).successors {
+                *edge_count.entry(successor).or_default() += 1;
+            }
+        }
+    }
+
+    for &block in blocks {
+        let Some(&last_op) = ctx.block(block).ops.last() else {
+            continue;
+        };
+        let successors: Vec<BlockRef> = ctx.op(last_op).successors.to_vec();
+        for (idx, successor) in successors.into_iter().enumerate() {
+            let mut dying: Vec<ValueRef> = liveness.live_out[&block]
+                .iter()
+                .copied()
+                .filter(|v| {
+                    !liveness.live_in[&successor].contains(v)
+                        && !borrow_info.parameters.contains(v)
+                        && !borrow_info.temporaries.contains(v)
+                })
+                .collect();
+            if dying.is_empty() {
+                continue;
+            }
+            dying.sort();
+
+            let loc = ctx.block(successor).location;
+            let (target, before) = if edge_count[&successor] == 1 {
+                (successor, ctx.block(successor).ops[0])
+            } else {
+                // Critical edge: the other predecessors do not hold these values.
+                let split = ctx.create_block(BlockData {
+                    location: loc,
+                    args: vec![],
+                    ops: Default::default(),
+                    parent_region: Some(body),
+                });
+                ctx.region_mut(body).blocks.push(split);
+                let jump = clif::jump(ctx, loc, std::iter::empty(), successor).op_ref();
+                ctx.push_op(split, jump);
+                ctx.op_mut(last_op).successors[idx] = split;
+                (split, jump)
+            };
+            for v in dying {
+                let alloc_size = infer_alloc_size(ctx, v);
+                let release = tribute_rt::release(ctx, loc, v, alloc_size).op_ref();
+                ctx.insert_op_before(target, before, release);
+            }
+        }
+    }
 }
 
 fn analyze_temporary_borrows(
-- 
2.43.0


From 63f8a71c79e07ff57c6e8f8f2b7f1475b5b5706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:13 +0000
Subject: [PATCH 06/27] fix: keep the retain of a loaded reference across other
 releases

---
 .../src/native/rc_optimization.rs             | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_optimization.rs b/crates/tribute-passes/src/native/rc_optimization.rs
index 6b315c7..3ad595d 100644
--- a/crates/tribute-passes/src/native/rc_optimization.rs
+++ b/crates/tribute-passes/src/native/rc_optimization.rs
@@ -8,11 +8,11 @@
 
 use tribute_ir::dialect::tribute_rt;
 use trunk_ir::context::IrContext;
-use trunk_ir::dialect::clif;
+use trunk_ir::dialect::{clif, core};
 use trunk_ir::ops::DialectOp;
 use trunk_ir::rewrite::Module;
 use trunk_ir::rewrite::helpers::erase_op;
-use trunk_ir::{BlockRef, OpRef, RegionRef, ValueRef};
+use trunk_ir::{BlockRef, OpRef, RegionRef, ValueDef, ValueRef};
 
 /// Eliminate provably redundant retain/release pairs in `module`.
 pub fn eliminate_paired_rc(ctx: &mut IrContext, module: Module) {
@@ -74,6 +74,12 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         return true;
     }
 
+    // A loaded reference is only kept alive by the object it was loaded from.
+    // Any other release may free that object, so the pair has to stay.
+    if tribute_rt::Release::matches(ctx, op) && is_loaded_reference(ctx, ptr) {
+        return true;
+    }
+
     ctx.op_operands(op)
         .iter()
         .enumerate()
@@ -83,6 +89,20 @@ fn is_barrier_for(ctx: &IrContext, op: OpRef, ptr: ValueRef, retained: ValueRef)
         })
 }
 
+/// Whether `value` was read from memory, possibly through casts.
+fn is_loaded_reference(ctx: &IrContext, mut value: ValueRef) -> bool {
+    while let ValueDef::OpResult(op, _) = ctx.value_def(value) {
+        if clif::Load::matches(ctx, op) {
+            return true;
+        }
+        match ctx.op_operands(op) {
+            [input] if core::UnrealizedConversionCast::matches(ctx, op) => value = *input,
+            _ => return false,
+        }
+    }
+    false
+}
+
 fn is_proven_non_escaping_use(ctx: &IrContext, op: OpRef, operand_index: usize) -> bool {
     // Reading through a reference does not transfer ownership.
     if clif::Load::matches(ctx, op) {
-- 
2.43.0


From 6f24f926010613134b1d5fcd9bdff00cb4a4e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:49 +0000
Subject: [PATCH 07/27] fix: lowering a retain whose result is used no longer
 panics

The uses of the result were redirected only after the retain had been
erased, and erasing an operation whose results are still used panics.
---
 crates/tribute-passes/src/native/rc_lowering.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tribute-passes/src/native/rc_lowering.rs b/crates/tribute-passes/src/native/rc_lowering.rs
index 236ced1..5d4e94a 100644
--- a/crates/tribute-passes/src/native/rc_lowering.rs
+++ b/crates/tribute-passes/src/native/rc_lowering.rs
@@ -205,12 +205,12 @@ fn lower_rc_in_block(ctx: &mut IrContext, region: RegionRef, block: BlockRef) {
                 ctx.push_op(skip_block, remaining_op);
             }
 
-            // Erase the retain op
-            erase_op(ctx, op);
-
             // RAUW: retain result → original ptr
             ctx.replace_all_uses(retain_result, ptr);
 
+            // Erase the retain op
+            erase_op(ctx, op);
+
             // Add new blocks to region (after current_block)
             let region_blocks = &mut ctx.region_mut(region).blocks;
             let pos = region_blocks
-- 
2.43.0


From 318ad8d42497a6a385e446cd6281fe5255a49a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:50 +0000
Subject: [PATCH 08/27] fix: abilities applied to different nominal types get
 different runtime ids

---
 crates/tribute-ir/src/dialect/ability.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/tribute-ir/src/dialect/ability.rs b/crates/tribute-ir/src/dialect/ability.rs
index aecff48..a5a50a1 100644
--- a/crates/tribute-ir/src/dialect/ability.rs
+++ b/crates/tribute-ir/src/dialect/ability.rs
@@ -237,6 +237,8 @@ fn hash_type(ctx: &IrContext, ty: TypeRef) -> u32 {
     let mut hasher = rustc_hash::FxHasher::default();
     data.dialect.hash(&mut hasher);
     data.name.hash(&mut hasher);
+    // Nominal types (e.g. `adt.typeref`) differ only in their name attribute.
+    data.attrs.get_symbol("name").hash(&mut hasher);
     data.params.len().hash(&mut hasher);
 
     for &param in data.params.iter() {
-- 
2.43.0


From 8d638e350eb6ba1ef4358c8d8b97b946777a2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:37 +0000
Subject: [PATCH 09/27] fix: keep the value of a wasm.if whose then region
 leaves it

Only the then region was asked for a result value, so an if whose then
region ends in a return, branch or trap was emitted without a result and
the value of its else region was lost.
---
 .../src/emit/handlers/control_flow_handlers.rs     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
index fbdb6bc..3ba5996 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
@@ -73,14 +73,16 @@ pub(crate) fn handle_if(
     let operands = ctx.op_operands(op);
     let result_ty = ctx.op_result_types(op).first().copied();
 
-    // Check if we can actually get a result value from the then region
+    // Check if we can actually get a result value from either region: one of
+    // them may leave the `if` by a branch, a return or a trap instead.
     let regions = &ctx.op(op).regions;
-    let then_region_result = regions.first().and_then(|r| region_result_value(ctx, *r));
-    let then_has_result_value = then_region_result.is_some();
+    let has_result_value = regions
+        .iter()
+        .any(|r| region_result_value(ctx, *r).is_some());
 
     debug!(
-        "wasm.if: then_has_result_value={}, result_ty={:?}",
-        then_has_result_value,
+        "wasm.if: has_result_value={}, result_ty={:?}",
+        has_result_value,
         result_ty.map(|ty| {
             let data = ctx.types.get(ty);
             format!("{}.{}", data.dialect, data.name)
@@ -90,7 +92,7 @@ pub(crate) fn handle_if(
     // Determine if we should use a result type
     // Use IR result type directly - type variables are resolved at AST level
     let has_result =
-        then_has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
+        has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
 
     let block_type = compute_block_type(ctx, has_result, result_ty, module_info)?;
 
-- 
2.43.0


From f0bf8938c8548fb07bb97e88b0f15beaa8fd04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:55 +0000
Subject: [PATCH 10/27] fix: emit nothing for a wasm.nop of nil type

A null reference was pushed and never stored, which left a value on the
stack and made a block that contains such a nop invalid.
---
 crates/trunk-ir-wasm-backend/src/emit.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 1b7001e..b9097ac 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -958,12 +958,9 @@ fn emit_op_nested(
                 }));
                 set_result_local(ctx, op, emit_ctx, function)?;
             } else if is_nil_type(ctx, result_ty) {
-                debug!("wasm.nop: emitting ref.null none for nil type");
-                function.instruction(&Instruction::RefNull(HeapType::Abstract {
-                    shared: false,
-                    ty: AbstractHeapType::None,
-                }));
-                set_result_local(ctx, op, emit_ctx, function)?;
+                // Nil results are never stored, and the local of a nil value
+                // starts as a null reference.
+                debug!("wasm.nop: nothing to emit for nil type");
             } else {
                 debug!("wasm.nop: skipping (unknown primitive type)");
             }
-- 
2.43.0


From 467e5b39ddf27988ba39398a3170de74b31d190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:46 +0000
Subject: [PATCH 11/27] fix: emit the operands of wasm.array_new in the order
 of array.new

The operands are the size and the initial value; array.new takes the
value first and then the length.
---
 .../src/emit/handlers/array_handlers.rs                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
index 6d08524..749de8b 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/array_handlers.rs
@@ -22,8 +22,10 @@ pub(crate) fn handle_array_new(
     function: &mut Function,
 ) -> CompilationResult<()> {
     let op = array_new_op.op_ref();
-    let operands = ctx.op_operands(op);
-    emit_operands(ctx, operands, emit_ctx, function)?;
+    // IR operand order: [size, init]
+    // WebAssembly stack order: [init, size]
+    let operands = [array_new_op.init(ctx), array_new_op.size(ctx)];
+    emit_operands(ctx, &operands, emit_ctx, function)?;
 
     function.instruction(&Instruction::ArrayNew(array_new_op.type_idx(ctx)));
     set_result_local(ctx, op, emit_ctx, function)?;
-- 
2.43.0


From 058b8a56c09f2fb9fdafe3344d02599685ad1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:53 +0000
Subject: [PATCH 12/27] fix: refuse a table entry that names an unknown
 function

The entry was left out, which moved the following entries to other table
indices than the code uses.
---
 crates/trunk-ir-wasm-backend/src/emit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index b9097ac..5677814 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -497,11 +497,12 @@ pub fn emit_wasm(ctx: &mut IrContext, module: IrModule) -> CompilationResult<Vec
     }
 
     for elem_def in &module_info.elements {
-        let func_idxs: Vec<u32> = elem_def
+        // The position of an entry is its table index, so none may be left out.
+        let func_idxs = elem_def
             .funcs
             .iter()
-            .filter_map(|name| module_info.func_indices.get(name).copied())
-            .collect();
+            .map(|name| resolve_callee(*name, &module_info))
+            .collect::<CompilationResult<Vec<u32>>>()?;
         if !func_idxs.is_empty() {
             let offset = ConstExpr::i32_const(elem_def.offset);
             element_section.active(
-- 
2.43.0


From 5e24288db0b536293fb56ec206dea68daf4dd86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:17 +0000
Subject: [PATCH 13/27] fix: resolve the function type of wasm.call_indirect
 instead of trusting the placeholder index

---
 .../src/emit/handlers/call_handlers.rs        | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..3f9d77a 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,36 +192,28 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
-    let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
+    // Type indices only exist once the type section has been laid out, so the
+    // index is always resolved here: `func_to_wasm` leaves `type_idx` as a
+    // placeholder (0, which is a built-in GC struct and never a function type).
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            debug!(
+                "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
+                func_type
+            );
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
     // WebAssembly stack order: [arg1, arg2, ..., table_idx]
+    let attrs = &ctx.op(op).attributes;
     let table = match attrs.get("table") {
         Some(_) => attr_u32(attrs, Symbol::new("table"))?,
         None => 0,
-- 
2.43.0


From d81d731c1919ebacd5e58f4d22c12c6182878383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:18 +0000
Subject: [PATCH 14/27] fix: emit a named reference as a structref local, as in
 signatures and struct fields

---
 crates/trunk-ir-wasm-backend/src/emit/helpers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 1fffc9b..590745d 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -236,6 +236,16 @@ pub(crate) fn type_to_valtype(
             nullable: true,
             heap_type: HeapType::Concrete(CLOSURE_STRUCT_IDX),
         }))
+    } else if is_type(ctx, ty, "adt", "typeref") {
+        // A reference to a named struct or enum is a structref wherever it
+        // crosses a function signature or a struct field.
+        Ok(ValType::Ref(RefType {
+            nullable: true,
+            heap_type: HeapType::Abstract {
+                shared: false,
+                ty: AbstractHeapType::Struct,
+            },
+        }))
     } else if ctx.types.get(ty).dialect == Symbol::new("adt") {
         Ok(ValType::Ref(RefType::ANYREF))
     } else if is_nil_type(ctx, ty) {
-- 
2.43.0


From 19334e264a560439f60da875a6bafbff1799d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:06 +0000
Subject: [PATCH 15/27] fix: branch to the loop that encloses scf.break and
 scf.continue at any depth

---
 .../src/passes/scf_to_wasm.rs                 | 52 ++++++++++++-------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
index 3d0c1c3..d650deb 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
@@ -4,8 +4,8 @@
 //! - `scf.if` -> `wasm.if`
 //! - `scf.loop` -> `wasm.block(wasm.loop(...))`
 //! - `scf.yield` -> `wasm.yield` (tracks region result value)
-//! - `scf.continue` -> `wasm.br(target=1)` (branch to loop)
-//! - `scf.break` -> `wasm.br(target=2)` (branch to outer block, past if and loop)
+//! - `scf.continue` -> `wasm.br` to the enclosing loop
+//! - `scf.break` -> `wasm.br` to the block around the enclosing loop
 
 use trunk_ir::context::{BlockData, IrContext, RegionData};
 use trunk_ir::dialect::core;
@@ -76,7 +76,7 @@ impl RewritePattern for ScfIfPattern {
 /// Pattern for `scf.loop` -> `wasm.block(wasm.loop(...))`
 ///
 /// The loop is wrapped in a block to provide a break target.
-/// From inside a `wasm.if` within the loop body:
+/// From inside a `wasm.if` directly within the loop body:
 /// - `wasm.br(target=1)` branches to the loop (continue)
 /// - `wasm.br(target=2)` branches to the block (break)
 struct ScfLoopPattern;
@@ -179,11 +179,23 @@ impl RewritePattern for ScfYieldPattern {
     }
 }
 
-/// Pattern for `scf.continue` -> `wasm.br(target=1)`
-///
-/// Branches to the enclosing wasm.loop. Depth 1 is correct because
-/// `scf.continue` is always inside a `scf.if` (depth 0 = wasm.if,
-/// depth 1 = wasm.loop) within a `scf.loop`.
+/// Number of labels between `op` and its enclosing loop, which is the branch
+/// depth of that loop seen from `op`.
+fn loop_depth(ctx: &IrContext, op: OpRef) -> Option<u32> {
+    let mut depth = 0;
+    let mut current = op;
+    loop {
+        let block = ctx.op(current).parent_block?;
+        let region = ctx.block(block).parent_region?;
+        current = ctx.region(region).parent_op?;
+        if scf::Loop::matches(ctx, current) || wasm_dialect::Loop::matches(ctx, current) {
+            return Some(depth);
+        }
+        depth += 1;
+    }
+}
+
+/// Pattern for `scf.continue` -> `wasm.br` to the enclosing `wasm.loop`.
 struct ScfContinuePattern;
 
 impl RewritePattern for ScfContinuePattern {
@@ -196,6 +208,9 @@ impl RewritePattern for ScfContinuePattern {
         if !scf::Continue::matches(ctx, op) {
             return false;
         }
+        let Some(depth) = loop_depth(ctx, op) else {
+            return false;
+        };
 
         let loc = ctx.op(op).location;
 
@@ -208,17 +223,17 @@ impl RewritePattern for ScfContinuePattern {
 
         if values.is_empty() {
             // No loop-carried values -- simple branch
-            let br_op = wasm_dialect::br(ctx, loc, 1);
+            let br_op = wasm_dialect::br(ctx, loc, depth);
             rewriter.replace_op(br_op.op_ref());
             return true;
         }
 
-        // Emit wasm.yield(value) + wasm.br(1) for each loop-carried value.
+        // Emit wasm.yield(value) + wasm.br for each loop-carried value.
         // The emit layer will translate yield+br targeting a loop into
         // local.set for the loop arg followed by br.
         let value = values[0];
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
-        let br_op = wasm_dialect::br(ctx, loc, 1);
+        let br_op = wasm_dialect::br(ctx, loc, depth);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
@@ -226,12 +241,10 @@ impl RewritePattern for ScfContinuePattern {
     }
 }
 
-/// Pattern for `scf.break` -> `wasm.yield(value) + wasm.br(target=2)`
+/// Pattern for `scf.break` -> `wasm.yield(value) + wasm.br`
 ///
-/// Branches to the enclosing wasm.block with a result value.
-/// `scf.break` is always inside a `scf.if` within a `scf.loop`, so after
-/// lowering the nesting is: wasm.block > wasm.loop > wasm.if. From inside
-/// the wasm.if, depth 2 targets the outer wasm.block (break out of loop).
+/// Branches to the wasm.block around the enclosing wasm.loop with a result
+/// value, which is one label further out than the loop itself.
 ///
 /// According to WASM spec, `br` instruction takes no operands - values are
 /// passed via the stack. We use `wasm.yield` to mark the break value as the
@@ -248,6 +261,9 @@ impl RewritePattern for ScfBreakPattern {
         let Ok(break_op) = scf::Break::from_op(ctx, op) else {
             return false;
         };
+        let Some(depth) = loop_depth(ctx, op) else {
+            return false;
+        };
 
         let loc = ctx.op(op).location;
         let value = break_op.value(ctx);
@@ -255,8 +271,8 @@ impl RewritePattern for ScfBreakPattern {
         // Emit the break value via wasm.yield (marks it as region result)
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
 
-        // Branch to outer block (depth 2: if=0, loop=1, block=2)
-        let br_op = wasm_dialect::br(ctx, loc, 2);
+        // Branch to the block just outside the loop
+        let br_op = wasm_dialect::br(ctx, loc, depth + 1);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
-- 
2.43.0


From 56ab368fc5a1e5e160b631f7f8476710902a52f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:26 +0000
Subject: [PATCH 16/27] fix: give built-in structs their own type in signatures
 and locals

---
 .../trunk-ir-wasm-backend/src/emit/helpers.rs | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 590745d..e829449 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -13,7 +13,10 @@ use trunk_ir::types::{Attribute, AttributeMap};
 use wasm_encoder::{AbstractHeapType, HeapType, RefType, ValType};
 
 use crate::errors::CompilationErrorKind;
-use crate::gc_types::{BYTES_ARRAY_IDX, BYTES_STRUCT_IDX, CLOSURE_STRUCT_IDX, STEP_IDX};
+use crate::gc_types::{
+    BYTES_ARRAY_IDX, BYTES_STRUCT_IDX, CLOSURE_STRUCT_IDX, CONTINUATION_IDX, MARKER_IDX,
+    RESUME_WRAPPER_IDX, STEP_IDX,
+};
 use crate::{CompilationError, CompilationResult};
 
 // ============================================================================
@@ -82,6 +85,19 @@ pub(crate) fn is_step_type(ctx: &IrContext, ty: TypeRef) -> bool {
     is_named_adt_struct(ctx, ty, "_Step")
 }
 
+/// Type index of a built-in struct, which is known by its name alone.
+fn builtin_struct_idx(ctx: &IrContext, ty: TypeRef) -> Option<u32> {
+    [
+        ("_closure", CLOSURE_STRUCT_IDX),
+        ("_Step", STEP_IDX),
+        ("_Marker", MARKER_IDX),
+        ("_Continuation", CONTINUATION_IDX),
+        ("_ResumeWrapper", RESUME_WRAPPER_IDX),
+    ]
+    .into_iter()
+    .find_map(|(name, idx)| is_named_adt_struct(ctx, ty, name).then_some(idx))
+}
+
 /// Check if a type should be normalized to anyref in polymorphic contexts.
 pub(crate) fn should_normalize_to_anyref(ctx: &IrContext, ty: TypeRef) -> bool {
     is_type(ctx, ty, "wasm", "anyref")
@@ -231,10 +247,10 @@ pub(crate) fn type_to_valtype(
         }))
     } else if is_type(ctx, ty, "core", "func") {
         Ok(ValType::Ref(RefType::FUNCREF))
-    } else if is_closure_struct_type(ctx, ty) {
+    } else if let Some(type_idx) = builtin_struct_idx(ctx, ty) {
         Ok(ValType::Ref(RefType {
             nullable: true,
-            heap_type: HeapType::Concrete(CLOSURE_STRUCT_IDX),
+            heap_type: HeapType::Concrete(type_idx),
         }))
     } else if is_type(ctx, ty, "adt", "typeref") {
         // A reference to a named struct or enum is a structref wherever it
-- 
2.43.0


From 30b83b5bd5165842d60b5c04831b31e3658d7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:11 +0000
Subject: [PATCH 17/27] fix: keep locals named by index apart from the locals
 of values

---
 crates/trunk-ir-wasm-backend/src/emit.rs | 38 ++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/emit.rs b/crates/trunk-ir-wasm-backend/src/emit.rs
index 5677814..d8a02e1 100644
--- a/crates/trunk-ir-wasm-backend/src/emit.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit.rs
@@ -749,6 +749,7 @@ fn emit_function(
 
     let param_count = params_refs.len() as u32;
 
+    reserve_indexed_locals(ctx, region, param_count, &mut locals, module_info)?;
     assign_locals_in_region(
         ctx,
         region,
@@ -767,6 +768,43 @@ fn emit_function(
     Ok(function)
 }
 
+/// Set aside the locals that `wasm.local_*` operations name by index, so that
+/// no SSA value is stored in one of them.
+fn reserve_indexed_locals(
+    ctx: &IrContext,
+    region: RegionRef,
+    param_count: u32,
+    locals: &mut Vec<ValType>,
+    module_info: &ModuleInfo,
+) -> CompilationResult<()> {
+    for &block_ref in &ctx.region(region).blocks {
+        for &op in &ctx.block(block_ref).ops {
+            let named = if let Ok(get) = wasm_dialect::LocalGet::from_op(ctx, op) {
+                Some((get.index(ctx), ctx.op_result_types(op).first().copied()))
+            } else if let Ok(set) = wasm_dialect::LocalSet::from_op(ctx, op) {
+                Some((set.index(ctx), Some(ctx.value_ty(set.value(ctx)))))
+            } else if let Ok(tee) = wasm_dialect::LocalTee::from_op(ctx, op) {
+                Some((tee.index(ctx), Some(ctx.value_ty(tee.value(ctx)))))
+            } else {
+                None
+            };
+            if let Some((index, Some(ty))) = named
+                && index >= param_count
+            {
+                let slot = (index - param_count) as usize;
+                if locals.len() <= slot {
+                    locals.resize(slot + 1, ValType::I32);
+                }
+                locals[slot] = type_to_valtype(ctx, ty, &module_info.type_idx_by_type)?;
+            }
+            for &nested in &ctx.op(op).regions {
+                reserve_indexed_locals(ctx, nested, param_count, locals, module_info)?;
+            }
+        }
+    }
+    Ok(())
+}
+
 fn assign_locals_in_region(
     ctx: &IrContext,
     region: RegionRef,
-- 
2.43.0


From 2ee01669a945c2a7b19413f83c8f4e52aa112bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:33 +0000
Subject: [PATCH 18/27] fix: find the innermost handler of an ability in the
 wasm evidence lookup

---
 .../src/wasm/evidence_to_wasm.rs              | 282 +++++-------------
 1 file changed, 78 insertions(+), 204 deletions(-)

diff --git a/crates/tribute-passes/src/wasm/evidence_to_wasm.rs b/crates/tribute-passes/src/wasm/evidence_to_wasm.rs
index c110bed..62cb9de 100644
--- a/crates/tribute-passes/src/wasm/evidence_to_wasm.rs
+++ b/crates/tribute-passes/src/wasm/evidence_to_wasm.rs
@@ -682,118 +682,26 @@ fn generate_evidence_lookup_function(ctx: &mut IrContext, location: Location) ->
     let high_init = wasm_dialect::local_set(ctx, location, len_op.result(ctx), locals::HIGH);
     ctx.push_op(body_block, high_init.op_ref());
 
-    // Build the search loop
-    let nil_ty = trunk_ir::dialect::core::nil(ctx).as_type_ref();
-    let loop_region = build_lookup_loop_body(ctx, location, ev_val, target_id_val, i32_ty);
-    let loop_op = wasm_dialect::r#loop(ctx, location, [], nil_ty, loop_region);
-    ctx.push_op(body_block, loop_op.op_ref());
-
-    // unreachable after loop (should never reach here - loop always returns)
-    let unreachable_op = wasm_dialect::unreachable(ctx, location);
-    ctx.push_op(body_block, unreachable_op.op_ref());
+    // Find the first marker whose ability_id is not less than the target. Extending
+    // inserts a marker before those with the same id, so this is the innermost one.
+    let search_op = build_search(ctx, location, ev_val, target_id_val, i32_ty);
+    ctx.push_op(body_block, search_op);
 
-    let body = ctx.create_region(RegionData {
-        location,
-        blocks: smallvec![body_block],
-        parent_op: None,
-    });
-
-    let func_op = wasm_dialect::func(
-        ctx,
-        location,
-        Symbol::new(evidence_abi::LOOKUP),
-        func_ty,
-        body,
-    );
-    func_op.op_ref()
-}
-
-/// Build the loop body for binary search lookup.
-fn build_lookup_loop_body(
-    ctx: &mut IrContext,
-    location: Location,
-    ev_val: ValueRef,
-    target_id_val: ValueRef,
-    i32_ty: TypeRef,
-) -> RegionRef {
+    // marker = array.get(ev, LOW); traps if every ability_id is less than the target
     let nil_ty = trunk_ir::dialect::core::nil(ctx).as_type_ref();
-    let marker_ty = ability::marker_adt_type_ref(ctx);
-
-    let block = ctx.create_block(BlockData {
-        location,
-        args: vec![],
-        ops: smallvec![],
-        parent_region: None,
-    });
-
-    // low = local.get LOW
-    let get_low = wasm_dialect::local_get(ctx, location, i32_ty, locals::LOW);
-    let low = get_low.result(ctx);
-    ctx.push_op(block, get_low.op_ref());
-
-    // high = local.get HIGH
-    let get_high = wasm_dialect::local_get(ctx, location, i32_ty, locals::HIGH);
-    let high = get_high.result(ctx);
-    ctx.push_op(block, get_high.op_ref());
-
-    // Check low >= high -> unreachable (ability not found = compiler bug)
-    let ge_check = wasm_dialect::i32_ge_s(ctx, location, low, high, i32_ty);
-    ctx.push_op(block, ge_check.op_ref());
-
-    let unreachable_then = {
-        let inner_block = ctx.create_block(BlockData {
-            location,
-            args: vec![],
-            ops: smallvec![],
-            parent_region: None,
-        });
-        let unreachable_op = wasm_dialect::unreachable(ctx, location);
-        ctx.push_op(inner_block, unreachable_op.op_ref());
-        ctx.create_region(RegionData {
-            location,
-            blocks: smallvec![inner_block],
-            parent_op: None,
-        })
-    };
-    let empty_else = {
-        let inner_block = ctx.create_block(BlockData {
-            location,
-            args: vec![],
-            ops: smallvec![],
-            parent_region: None,
-        });
-        ctx.create_region(RegionData {
-            location,
-            blocks: smallvec![inner_block],
-            parent_op: None,
-        })
-    };
-    let bound_check_if = wasm_dialect::r#if(
+    let get_found_idx = wasm_dialect::local_get(ctx, location, i32_ty, locals::LOW);
+    let found_idx = get_found_idx.result(ctx);
+    ctx.push_op(body_block, get_found_idx.op_ref());
+    let marker_op = wasm_dialect::array_get(
         ctx,
         location,
-        ge_check.result(ctx),
-        nil_ty,
-        unreachable_then,
-        empty_else,
+        ev_val,
+        found_idx,
+        marker_sig_ty,
+        EVIDENCE_IDX,
     );
-    ctx.push_op(block, bound_check_if.op_ref());
-
-    // mid = (low + high) / 2
-    let add_op = wasm_dialect::i32_add(ctx, location, low, high, i32_ty);
-    ctx.push_op(block, add_op.op_ref());
-    let two = wasm_dialect::i32_const(ctx, location, i32_ty, 2);
-    ctx.push_op(block, two.op_ref());
-    let mid_op =
-        wasm_dialect::i32_div_u(ctx, location, add_op.result(ctx), two.result(ctx), i32_ty);
-    let mid = mid_op.result(ctx);
-    ctx.push_op(block, mid_op.op_ref());
-
-    // marker = array.get(ev, mid)
-    let marker_op = wasm_dialect::array_get(ctx, location, ev_val, mid, marker_ty, EVIDENCE_IDX);
     let marker = marker_op.result(ctx);
-    ctx.push_op(block, marker_op.op_ref());
-
-    // marker_ability_id = struct.get(marker, MarkerField::AbilityId)
+    ctx.push_op(body_block, marker_op.op_ref());
     let marker_id_op = wasm_dialect::struct_get(
         ctx,
         location,
@@ -803,115 +711,66 @@ fn build_lookup_loop_body(
         MarkerField::AbilityId.index(),
     );
     let marker_id = marker_id_op.result(ctx);
-    ctx.push_op(block, marker_id_op.op_ref());
-
-    // Check marker_ability_id == target -> return marker
-    let eq_check = wasm_dialect::i32_eq(ctx, location, marker_id, target_id_val, i32_ty);
-    ctx.push_op(block, eq_check.op_ref());
+    ctx.push_op(body_block, marker_id_op.op_ref());
 
-    let found_then = {
-        // Return marker
+    // Check marker_ability_id != target -> unreachable (ability not found = compiler bug)
+    let ne_check = wasm_dialect::i32_ne(ctx, location, marker_id, target_id_val, i32_ty);
+    ctx.push_op(body_block, ne_check.op_ref());
+    let unreachable_then = {
         let inner_block = ctx.create_block(BlockData {
             location,
             args: vec![],
             ops: smallvec![],
             parent_region: None,
         });
-        let return_op = wasm_dialect::r#return(ctx, location, [marker]);
-        ctx.push_op(inner_block, return_op.op_ref());
+        let unreachable_op = wasm_dialect::unreachable(ctx, location);
+        ctx.push_op(inner_block, unreachable_op.op_ref());
         ctx.create_region(RegionData {
             location,
             blocks: smallvec![inner_block],
             parent_op: None,
         })
     };
-
-    let continue_else = {
-        // marker_ability_id < target ? low = mid + 1 : high = mid
+    let empty_else = {
         let inner_block = ctx.create_block(BlockData {
             location,
             args: vec![],
             ops: smallvec![],
             parent_region: None,
         });
-
-        let lt_check = wasm_dialect::i32_lt_s(ctx, location, marker_id, target_id_val, i32_ty);
-        ctx.push_op(inner_block, lt_check.op_ref());
-
-        let update_low = {
-            // low = mid + 1
-            let ub = ctx.create_block(BlockData {
-                location,
-                args: vec![],
-                ops: smallvec![],
-                parent_region: None,
-            });
-            let one = wasm_dialect::i32_const(ctx, location, i32_ty, 1);
-            ctx.push_op(ub, one.op_ref());
-            let add_one = wasm_dialect::i32_add(ctx, location, mid, one.result(ctx), i32_ty);
-            ctx.push_op(ub, add_one.op_ref());
-            let set_low = wasm_dialect::local_set(ctx, location, add_one.result(ctx), locals::LOW);
-            ctx.push_op(ub, set_low.op_ref());
-            ctx.create_region(RegionData {
-                location,
-                blocks: smallvec![ub],
-                parent_op: None,
-            })
-        };
-
-        let update_high = {
-            // high = mid
-            let ub = ctx.create_block(BlockData {
-                location,
-                args: vec![],
-                ops: smallvec![],
-                parent_region: None,
-            });
-            let set_high = wasm_dialect::local_set(ctx, location, mid, locals::HIGH);
-            ctx.push_op(ub, set_high.op_ref());
-            ctx.create_region(RegionData {
-                location,
-                blocks: smallvec![ub],
-                parent_op: None,
-            })
-        };
-
-        let update_if = wasm_dialect::r#if(
-            ctx,
-            location,
-            lt_check.result(ctx),
-            nil_ty,
-            update_low,
-            update_high,
-        );
-        ctx.push_op(inner_block, update_if.op_ref());
-
-        // br $loop (target = 0, since loop is innermost)
-        let br_loop = wasm_dialect::br(ctx, location, 0);
-        ctx.push_op(inner_block, br_loop.op_ref());
-
         ctx.create_region(RegionData {
             location,
             blocks: smallvec![inner_block],
             parent_op: None,
         })
     };
-
-    let found_if = wasm_dialect::r#if(
+    let not_found_if = wasm_dialect::r#if(
         ctx,
         location,
-        eq_check.result(ctx),
+        ne_check.result(ctx),
         nil_ty,
-        found_then,
-        continue_else,
+        unreachable_then,
+        empty_else,
     );
-    ctx.push_op(block, found_if.op_ref());
+    ctx.push_op(body_block, not_found_if.op_ref());
 
-    ctx.create_region(RegionData {
+    let return_op = wasm_dialect::r#return(ctx, location, [marker]);
+    ctx.push_op(body_block, return_op.op_ref());
+
+    let body = ctx.create_region(RegionData {
         location,
-        blocks: smallvec![block],
+        blocks: smallvec![body_block],
         parent_op: None,
-    })
+    });
+
+    let func_op = wasm_dialect::func(
+        ctx,
+        location,
+        Symbol::new(evidence_abi::LOOKUP),
+        func_ty,
+        body,
+    );
+    func_op.op_ref()
 }
 
 /// Generate the `__tribute_evidence_extend` function implementation.
@@ -976,24 +835,8 @@ fn generate_evidence_extend_function(ctx: &mut IrContext, location: Location) ->
 
     // Binary search loop to find insertion point
     // After loop, LOW contains the insertion index
-    let search_loop = build_extend_search_loop(ctx, location, ev_val, marker_id, i32_ty);
-    let loop_op = wasm_dialect::r#loop(ctx, location, [], nil_ty, search_loop);
-
-    // Wrap loop in block for br_if(..., 1) target
-    let loop_wrapper_block = ctx.create_block(BlockData {
-        location,
-        args: vec![],
-        ops: smallvec![],
-        parent_region: None,
-    });
-    ctx.push_op(loop_wrapper_block, loop_op.op_ref());
-    let loop_region = ctx.create_region(RegionData {
-        location,
-        blocks: smallvec![loop_wrapper_block],
-        parent_op: None,
-    });
-    let block_op = wasm_dialect::block(ctx, location, nil_ty, loop_region);
-    ctx.push_op(body_block, block_op.op_ref());
+    let search_op = build_search(ctx, location, ev_val, marker_id, i32_ty);
+    ctx.push_op(body_block, search_op);
 
     // insert_idx = local.get LOW
     let get_insert_idx = wasm_dialect::local_get(ctx, location, i32_ty, locals::LOW);
@@ -1161,11 +1004,42 @@ fn generate_evidence_extend_function(ctx: &mut IrContext, location: Location) ->
     func_op.op_ref()
 }
 
-/// Build the search loop for finding insertion position in evidence_extend.
+/// Build the search between LOW and HIGH for an ability_id.
+///
+/// After the returned operation, LOW contains the first index where
+/// ev[i].ability_id >= marker_id.
+fn build_search(
+    ctx: &mut IrContext,
+    location: Location,
+    ev_val: ValueRef,
+    marker_id: ValueRef,
+    i32_ty: TypeRef,
+) -> OpRef {
+    let nil_ty = trunk_ir::dialect::core::nil(ctx).as_type_ref();
+    let search_loop = build_search_loop(ctx, location, ev_val, marker_id, i32_ty);
+    let loop_op = wasm_dialect::r#loop(ctx, location, [], nil_ty, search_loop);
+
+    // Wrap loop in block for br_if(..., 1) target
+    let loop_wrapper_block = ctx.create_block(BlockData {
+        location,
+        args: vec![],
+        ops: smallvec![],
+        parent_region: None,
+    });
+    ctx.push_op(loop_wrapper_block, loop_op.op_ref());
+    let loop_region = ctx.create_region(RegionData {
+        location,
+        blocks: smallvec![loop_wrapper_block],
+        parent_op: None,
+    });
+    wasm_dialect::block(ctx, location, nil_ty, loop_region).op_ref()
+}
+
+/// Build the loop of the search between LOW and HIGH.
 ///
 /// This is a binary search that finds the first index where ev[i].ability_id >= marker_id.
-/// After the loop, LOW contains the insertion index.
-fn build_extend_search_loop(
+/// After the loop, LOW contains that index.
+fn build_search_loop(
     ctx: &mut IrContext,
     location: Location,
     ev_val: ValueRef,
-- 
2.43.0


From 80124c60307ef564be6b9b6c53f6d7660579dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:38 +0000
Subject: [PATCH 19/27] fix: give the evidence array its own type in signatures
 and locals

---
 .../trunk-ir-wasm-backend/src/emit/helpers.rs   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index e829449..65a6ae2 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -14,8 +14,8 @@ use wasm_encoder::{AbstractHeapType, HeapType, RefType, ValType};
 
 use crate::errors::CompilationErrorKind;
 use crate::gc_types::{
-    BYTES_ARRAY_IDX, BYTES_STRUCT_IDX, CLOSURE_STRUCT_IDX, CONTINUATION_IDX, MARKER_IDX,
-    RESUME_WRAPPER_IDX, STEP_IDX,
+    BYTES_ARRAY_IDX, BYTES_STRUCT_IDX, CLOSURE_STRUCT_IDX, CONTINUATION_IDX, EVIDENCE_IDX,
+    MARKER_IDX, RESUME_WRAPPER_IDX, STEP_IDX,
 };
 use crate::{CompilationError, CompilationResult};
 
@@ -98,6 +98,14 @@ fn builtin_struct_idx(ctx: &IrContext, ty: TypeRef) -> Option<u32> {
     .find_map(|(name, idx)| is_named_adt_struct(ctx, ty, name).then_some(idx))
 }
 
+/// Check if a type is the evidence array, an array of `_Marker` structs.
+fn is_evidence_array(ctx: &IrContext, ty: TypeRef) -> bool {
+    let data = ctx.types.get(ty);
+    is_type(ctx, ty, "core", "array")
+        && data.params.len() == 1
+        && is_named_adt_struct(ctx, data.params[0], "_Marker")
+}
+
 /// Check if a type should be normalized to anyref in polymorphic contexts.
 pub(crate) fn should_normalize_to_anyref(ctx: &IrContext, ty: TypeRef) -> bool {
     is_type(ctx, ty, "wasm", "anyref")
@@ -237,6 +245,11 @@ pub(crate) fn type_to_valtype(
                 name
             )))
         }
+    } else if is_evidence_array(ctx, ty) {
+        Ok(ValType::Ref(RefType {
+            nullable: true,
+            heap_type: HeapType::Concrete(EVIDENCE_IDX),
+        }))
     } else if is_type(ctx, ty, "core", "array") {
         Ok(ValType::Ref(RefType {
             nullable: true,
-- 
2.43.0


From d2495c8360a20b8fd060ef67629346fc6207516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:41 +0000
Subject: [PATCH 20/27] fix: skip nested pass targets that an earlier pass
 erased

---
 crates/trunk-ir/src/pass.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..de476c0 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,10 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op. All targets but the parent itself were
+            // attached when they were collected.
+            let op = target.op_ref();
+            if !target_still_alive::<T>(ctx, op, op != parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
-- 
2.43.0


From 887a65907a080da6ea2cdc1c1fd0425ae906bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 21/27] fix: print_int, print_nat, print_float and print_bytes
 write everything

They ignored the result of write(2), so output was lost when the system
wrote only a part of it or was interrupted.
---
 crates/tribute-runtime/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/crates/tribute-runtime/src/lib.rs b/crates/tribute-runtime/src/lib.rs
index 1520e5b..a8c5fd7 100644
--- a/crates/tribute-runtime/src/lib.rs
+++ b/crates/tribute-runtime/src/lib.rs
@@ -141,10 +141,8 @@ unsafe extern "C" {
 pub extern "C" fn __tribute_print_int(value: i32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print an unsigned 32-bit integer to stdout, followed by a newline.
@@ -156,10 +154,8 @@ pub extern "C" fn __tribute_print_int(value: i32) {
 pub extern "C" fn __tribute_print_nat(value: u32) {
     let mut buf = itoa::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print a 64-bit float to stdout, followed by a newline.
@@ -171,10 +167,8 @@ pub extern "C" fn __tribute_print_nat(value: u32) {
 pub extern "C" fn __tribute_print_float(value: f64) {
     let mut buf = zmij::Buffer::new();
     let s = buf.format(value);
-    unsafe {
-        write(1, s.as_ptr(), s.len());
-        write(1, b"\n".as_ptr(), 1);
-    }
+    write_stdout_all(s.as_bytes());
+    write_stdout_all(b"\n");
 }
 
 /// Print raw bytes to stdout (no newline appended).
@@ -197,9 +191,7 @@ pub unsafe extern "C" fn __tribute_print_bytes(ptr: *const u8, len: u64) {
     let Ok(len) = usize::try_from(len) else {
         return;
     };
-    unsafe {
-        write(1, ptr, len);
-    }
+    write_stdout_all(unsafe { core::slice::from_raw_parts(ptr, len) });
 }
 
 /// Print a newline character to stdout.
-- 
2.43.0


From 8bed8b74146dfd2e8d4072426e15dc7d027207bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:46 +0000
Subject: [PATCH 22/27] fix: keep a function's attributes when its function
 parameters become closures

PrepareClosureLowering rebuilt func.func from name, type and body only, so
abi and calling convention were lost, and it panicked on declarations, which
have no body. Retype the function in place instead.
---
 crates/tribute-passes/src/closure_lower.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/tribute-passes/src/closure_lower.rs b/crates/tribute-passes/src/closure_lower.rs
index d74f85f..263600a 100644
--- a/crates/tribute-passes/src/closure_lower.rs
+++ b/crates/tribute-passes/src/closure_lower.rs
@@ -78,7 +78,7 @@ impl RewritePattern for UpdateFuncSignatureArena {
         &self,
         ctx: &mut IrContext,
         op: OpRef,
-        rewriter: &mut PatternRewriter<'_>,
+        _rewriter: &mut PatternRewriter<'_>,
     ) -> bool {
         let Ok(func_op) = func::Func::from_op(ctx, op) else {
             return false;
@@ -121,19 +121,19 @@ impl RewritePattern for UpdateFuncSignatureArena {
         let return_ty = new_params[0];
         let new_func_ty = core::func(ctx, return_ty, new_params[1..].iter().copied()).as_type_ref();
 
-        // Rebuild the function with new type
-        let func_name = func_op.sym_name(ctx);
-        let body = func_op.body(ctx);
-        let loc = ctx.op(op).location;
-        if let Some(entry) = ctx.region(body).blocks.first().copied() {
+        // Retype the function in place: it keeps its other attributes, and a
+        // declaration has no body to retype.
+        if let Some(&body) = ctx.op(op).regions.first()
+            && let Some(entry) = ctx.region(body).blocks.first().copied()
+        {
             let arg_count = ctx.block_args(entry).len();
             for (idx, &new_ty) in new_params[1..].iter().enumerate().take(arg_count) {
                 ctx.set_block_arg_type(entry, idx as u32, new_ty);
             }
         }
-        ctx.detach_region(body);
-        let new_op = func::func(ctx, loc, func_name, new_func_ty, body).op_ref();
-        rewriter.replace_op(new_op);
+        ctx.op_mut(op)
+            .attributes
+            .insert(Symbol::new("type"), Attribute::Type(new_func_ty));
         true
     }
 
-- 
2.43.0


From 248a0b0520da9315b5855a6e8f216047ca91760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:02 +0000
Subject: [PATCH 23/27] fix: replace only evidence when call arguments get the
 evidence in scope

resolve_evidence replaced the first argument of every indirect call in a
function with evidence, even the environment of a closure that takes none,
prepended evidence to calls in handler roots that already pass it, and
dropped the attributes of the calls it rebuilt.
---
 crates/tribute-passes/src/resolve_evidence.rs | 66 +++++++------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..621f8d8 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -358,6 +358,13 @@ fn has_evidence_first_param(ctx: &IrContext, func_ty: TypeRef) -> bool {
     ability::is_evidence_type_ref(ctx, params[0])
 }
 
+/// Check if operand `index` of `op` exists and is an evidence value.
+fn is_evidence_operand(ctx: &IrContext, op: OpRef, index: usize) -> bool {
+    ctx.op_operands(op)
+        .get(index)
+        .is_some_and(|&value| ability::is_evidence_type_ref(ctx, ctx.value_ty(value)))
+}
+
 /// Collect handler-root functions (contain push_prompt but no evidence param).
 fn collect_handler_root_functions(
     ctx: &IrContext,
@@ -867,24 +874,12 @@ fn transform_shifts_in_block(
                         && results[0] == yr_operand
                         && func::CallIndirect::from_op(ctx, candidate).is_ok()
                     {
-                        let operands = ctx.op_operands(candidate).to_vec();
                         // Replace evidence arg (index 1: [table_idx, evidence, ...rest])
-                        if operands.len() >= 2 {
-                            let new_call = func::call_indirect(
-                                ctx,
-                                loc,
-                                operands[0],
-                                std::iter::once(current_ev)
-                                    .chain(operands[2..].iter().copied())
-                                    .collect::<Vec<_>>(),
-                                ctx.op_result_types(candidate)[0],
-                            );
-                            let old_result = ctx.op_result(candidate, 0);
-                            let new_result = ctx.op_result(new_call.op_ref(), 0);
-                            ctx.replace_all_uses(old_result, new_result);
-                            // Insert new call before handle_dispatch (after evidence extension)
-                            ctx.insert_op_before(block, op, new_call.op_ref());
-                            erase_op(ctx, candidate);
+                        // and move the call after the evidence extension.
+                        if is_evidence_operand(ctx, candidate, 1) {
+                            ctx.set_op_operand(candidate, 1, current_ev);
+                            ctx.detach_op(candidate);
+                            ctx.insert_op_before(block, op, candidate);
                         }
                         break;
                     }
@@ -910,7 +905,11 @@ fn transform_shifts_in_block(
             if fns_with_evidence.contains(&callee) {
                 let current_operands = ctx.op_operands(op).to_vec();
                 let first_arg = current_operands.first().copied();
-                if first_arg != Some(ev_value) {
+                if is_evidence_operand(ctx, op, 0) {
+                    // The frontend already passes evidence: replace it with
+                    // the evidence in scope.
+                    ctx.set_op_operand(op, 0, ev_value);
+                } else if first_arg != Some(ev_value) {
                     let loc = ctx.op(op).location;
                     let result_ty = ctx
                         .op_result_types(op)
@@ -949,32 +948,11 @@ fn transform_shifts_in_block(
 
         // Handle func.call_indirect: replace evidence argument (index 1)
         if func::CallIndirect::from_op(ctx, op).is_ok() {
-            let current_operands = ctx.op_operands(op).to_vec();
-            if current_operands.len() >= 2 {
-                let current_ev = current_operands[1];
-                if current_ev != ev_value {
-                    let loc = ctx.op(op).location;
-                    let result_ty = ctx
-                        .op_result_types(op)
-                        .first()
-                        .copied()
-                        .unwrap_or_else(|| core::nil(ctx).as_type_ref());
-                    let table_idx = current_operands[0];
-                    let mut new_args = vec![ev_value];
-                    new_args.extend(current_operands[2..].iter().copied());
-
-                    let new_call = func::call_indirect(ctx, loc, table_idx, new_args, result_ty);
-
-                    if !ctx.op_results(op).is_empty() {
-                        let old_result = ctx.op_result(op, 0);
-                        let new_result = ctx.op_result(new_call.op_ref(), 0);
-                        ctx.replace_all_uses(old_result, new_result);
-                    }
-
-                    ctx.insert_op_before(block, op, new_call.op_ref());
-                    erase_op(ctx, op);
-                    continue;
-                }
+            // Callees without evidence have their environment or an ordinary
+            // argument there.
+            if is_evidence_operand(ctx, op, 1) {
+                ctx.set_op_operand(op, 1, ev_value);
+                continue;
             }
         }
 
-- 
2.43.0


From 1c00dcfd65429f48fcd48de584992a9d5314aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:02 +0000
Subject: [PATCH 24/27] fix: run the completion of a handle with the evidence
 outside it

Calls in the completion region got the extended evidence, so operations
performed there reached the handler that had already finished.
---
 crates/tribute-passes/src/resolve_evidence.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index 621f8d8..ca07560 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -887,12 +887,13 @@ fn transform_shifts_in_block(
             }
 
             // Always transform handler body region, even when abilities is
-            // empty, so that any shifts inside are properly resolved.
+            // empty, so that any shifts inside are properly resolved. The
+            // completion runs outside the handler, with the outer evidence.
             let handler_body = dispatch_op.body(ctx);
             transform_shifts_in_region(
                 ctx,
                 handler_body,
-                current_ev,
+                ev_value,
                 fns_with_evidence,
                 prepend_evidence,
             )?;
-- 
2.43.0


From 804d5852ddb5d22fe50df19f16b54ede38b510f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:02 +0000
Subject: [PATCH 25/27] fix: dispatch operations in a handler's body with the
 evidence it receives

lower_ability_perform used the evidence of the enclosing function for
operations directly inside ability.handle_dispatch, bypassing the handler.
---
 .../tribute-passes/src/lower_ability_perform.rs   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/tribute-passes/src/lower_ability_perform.rs b/crates/tribute-passes/src/lower_ability_perform.rs
index 2e68ae0..0d56885 100644
--- a/crates/tribute-passes/src/lower_ability_perform.rs
+++ b/crates/tribute-passes/src/lower_ability_perform.rs
@@ -365,7 +365,8 @@ fn is_in_func_body(ctx: &IrContext, block: BlockRef) -> bool {
     func::Func::matches(ctx, parent_op)
 }
 
-/// Find the evidence parameter by walking up from the op to its enclosing func.
+/// Find the evidence in scope by walking up from the op to its enclosing handler
+/// body or func.
 fn find_evidence_from_op(ctx: &IrContext, op: OpRef) -> Option<ValueRef> {
     let mut current_op = op;
     loop {
@@ -382,6 +383,18 @@ fn find_evidence_from_op(ctx: &IrContext, op: OpRef) -> Option<ValueRef> {
                 .find(|&&arg| ability::is_evidence_type_ref(ctx, ctx.value_ty(arg)))
                 .copied();
         }
+        if ability::HandleDispatch::matches(ctx, parent) {
+            // The body of a handler runs with the evidence it receives.
+            let evidence = ctx
+                .region(region)
+                .blocks
+                .first()
+                .and_then(|&entry| ctx.block_args(entry).first().copied())
+                .filter(|&arg| ability::is_evidence_type_ref(ctx, ctx.value_ty(arg)));
+            if evidence.is_some() {
+                return evidence;
+            }
+        }
         current_op = parent;
     }
 }
-- 
2.43.0


From 997d0be4061870003414c6a1e5fe374931e83d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:22 +0000
Subject: [PATCH 26/27] fix: zero-extend bytes read by __bytes_get_or_panic on
 native

---
 .../src/native/intrinsic_to_native.rs         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..7aba585 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -19,7 +19,7 @@ use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::TypeDataBuilder;
+use trunk_ir::types::{Attribute, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -77,7 +77,8 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
 ///   %addr = arith.addi %data_ptr, %index : core.ptr
 ///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+///   %extended = arith.extend %byte : result_ty (Nat/i32)
+///   %result = arith.and %extended, 255 : result_ty
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -129,9 +130,20 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
         rewriter.insert_op(byte_val.op_ref());
 
-        // Zero-extend i8 → result type (Nat = i32)
+        // Zero-extend i8 → result type (Nat = i32). `arith.extend` extends the
+        // sign of an i8, so the sign bits are masked off again.
         let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+        rewriter.insert_op(extended.op_ref());
+        let mask = trunk_ir::dialect::arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        rewriter.insert_op(mask.op_ref());
+        let zero_extended = trunk_ir::dialect::arith::and(
+            ctx,
+            loc,
+            extended.result(ctx),
+            mask.result(ctx),
+            result_ty,
+        );
+        rewriter.replace_op(zero_extended.op_ref());
 
         true
     }
-- 
2.43.0


From 630a6b08e9f95d920eb9225bf8e469e2d4fa817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:43 +0000
Subject: [PATCH 27/27] fix: check bounds in __bytes_get_or_panic on native

---
 .../src/native/intrinsic_to_native.rs         | 111 ++++++++++++++----
 1 file changed, 86 insertions(+), 25 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 7aba585..d2bf26f 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -10,16 +10,16 @@ use std::collections::HashSet;
 use std::rc::Rc;
 
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
-use trunk_ir::dialect::func;
-use trunk_ir::dialect::mem;
+use trunk_ir::context::{BlockData, IrContext, RegionData};
+use trunk_ir::dialect::{arith, func, mem, scf};
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::{Attribute, TypeDataBuilder};
+use trunk_ir::smallvec::smallvec;
+use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -74,11 +74,18 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   offset 8: len (u64)       - 8 bytes
 ///
 /// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %extended = arith.extend %byte : result_ty (Nat/i32)
-///   %result = arith.and %extended, 255 : result_ty
+///   %len = mem.load %bytes, offset=8 : core.i64
+///   %in_bounds = arith.cmpi ult %index, %len
+///   %result = scf.if %in_bounds {
+///     %data_ptr = mem.load %bytes, offset=0 : core.ptr
+///     %addr = arith.addi %data_ptr, %index : core.ptr
+///     %byte = mem.load %addr, offset=0 : core.i8
+///     %extended = arith.extend %byte : result_ty (Nat/i32)
+///     %zero_extended = arith.and %extended, 255 : result_ty
+///     scf.yield %zero_extended
+///   } else {
+///     func.unreachable
+///   }
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -108,47 +115,101 @@ impl RewritePattern for BytesGetOrPanicPattern {
             .types
             .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
 
-        // Load data pointer from TributeBytes (offset 0)
+        // Bounds check: the extended index must be below the length (offset 8).
+        let i64_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i64")).build());
+        let i1_ty = ctx
+            .types
+            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i1")).build());
+        let len = mem::load(ctx, loc, bytes, i64_ty, 8);
+        rewriter.insert_op(len.op_ref());
+        let index_i64 = arith::extend(ctx, loc, index, i64_ty);
+        rewriter.insert_op(index_i64.op_ref());
+        let in_bounds = arith::cmpi(
+            ctx,
+            loc,
+            index_i64.result(ctx),
+            len.result(ctx),
+            i1_ty,
+            Symbol::new("ult"),
+        );
+        rewriter.insert_op(in_bounds.op_ref());
+
+        // In bounds: load the data pointer from TributeBytes (offset 0)
         let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
 
         // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
-        rewriter.insert_op(index_ext.op_ref());
+        let index_ext = arith::extend(ctx, loc, index, ptr_ty);
 
         // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
+        let addr = arith::addi(
             ctx,
             loc,
             data_ptr.result(ctx),
             index_ext.result(ctx),
             ptr_ty,
         );
-        rewriter.insert_op(addr.op_ref());
 
         // Load byte (i8) from computed address
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
 
         // Zero-extend i8 → result type (Nat = i32). `arith.extend` extends the
         // sign of an i8, so the sign bits are masked off again.
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.insert_op(extended.op_ref());
-        let mask = trunk_ir::dialect::arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
-        rewriter.insert_op(mask.op_ref());
-        let zero_extended = trunk_ir::dialect::arith::and(
+        let extended = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
+        let mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        let zero_extended = arith::and(ctx, loc, extended.result(ctx), mask.result(ctx), result_ty);
+        let yield_op = scf::r#yield(ctx, loc, [zero_extended.result(ctx)]);
+        let load_region = single_block_region(
+            ctx,
+            loc,
+            &[
+                data_ptr.op_ref(),
+                index_ext.op_ref(),
+                addr.op_ref(),
+                byte_val.op_ref(),
+                extended.op_ref(),
+                mask.op_ref(),
+                zero_extended.op_ref(),
+                yield_op.op_ref(),
+            ],
+        );
+
+        // Out of bounds: trap
+        let trap = func::unreachable(ctx, loc);
+        let trap_region = single_block_region(ctx, loc, &[trap.op_ref()]);
+
+        let checked = scf::r#if(
             ctx,
             loc,
-            extended.result(ctx),
-            mask.result(ctx),
+            in_bounds.result(ctx),
             result_ty,
+            load_region,
+            trap_region,
         );
-        rewriter.replace_op(zero_extended.op_ref());
+        rewriter.replace_op(checked.op_ref());
 
         true
     }
 }
 
+fn single_block_region(ctx: &mut IrContext, loc: Location, ops: &[OpRef]) -> RegionRef {
+    let block = ctx.create_block(BlockData {
+        location: loc,
+        args: vec![],
+        ops: smallvec![],
+        parent_region: None,
+    });
+    for &op in ops {
+        ctx.push_op(block, op);
+    }
+    ctx.create_region(RegionData {
+        location: loc,
+        blocks: smallvec![block],
+        parent_op: None,
+    })
+}
+
 /// Pattern that removes `func.func` declarations for bytes intrinsics.
 struct BytesIntrinsicFuncDeclPattern {
     intrinsic_names: Rc<HashSet<Symbol>>,
-- 
2.43.0

