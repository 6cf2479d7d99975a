From cc43f3a26a8e0d5e0f27598726c636e14d158a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 01/41] verification hooks: collections on request, overwriting
 of swept storage (TIRO_VERIF_HOOKS)

---
 src/api/vm.cpp         | 19 +++++++++++++++++++
 src/vm/heap/chunks.cpp | 10 ++++++++++
 src/vm/heap/heap.cpp   | 15 +++++++++++++++
 3 files changed, 44 insertions(+)

diff --git a/src/api/vm.cpp b/src/api/vm.cpp
index b4852f8..b6bd9fd 100644
--- a/src/api/vm.cpp
+++ b/src/api/vm.cpp
@@ -204,3 +204,22 @@ tiro_vm_t tiro_global_get_vm(tiro_handle_t global) {
         return vm_from_context(*ctx);
     });
 }
+
+#ifdef TIRO_VERIF_HOOKS
+// Verification only: control over the garbage collector, see src/vm/heap/heap.cpp.
+extern unsigned long tiro_verif_gc_period;
+extern unsigned long tiro_verif_gc_counter;
+
+extern "C" void tiro_verif_set_gc_period(unsigned long period) {
+    tiro_verif_gc_period = period;
+    tiro_verif_gc_counter = 0;
+}
+
+extern "C" void tiro_verif_collect(tiro_vm_t vm) {
+    vm->ctx.heap().collector().collect(vm::GcReason::Automatic);
+}
+
+extern "C" size_t tiro_verif_heap_total(tiro_vm_t vm) {
+    return vm->ctx.heap().stats().total_bytes;
+}
+#endif
diff --git a/src/vm/heap/chunks.cpp b/src/vm/heap/chunks.cpp
index cc84ad5..d7cc52e 100644
--- a/src/vm/heap/chunks.cpp
+++ b/src/vm/heap/chunks.cpp
@@ -3,6 +3,10 @@
 #include "vm/heap/heap.hpp"
 #include "vm/objects/value.hpp"
 
+#ifdef TIRO_VERIF_HOOKS
+#    include <cstring>
+#endif
+
 namespace tiro::vm {
 
 NotNull<Page*> Page::from_address(const void* address, Heap& heap) {
@@ -142,6 +146,12 @@ void Page::sweep(SweepStats& stats, FreeSpace& free_space) {
                                                              : total_cells - current_free;
             TIRO_DEBUG_ASSERT(free_size > 0, "empty free block");
 
+#ifdef TIRO_VERIF_HOOKS
+            // Overwrite free storage so that stale references into it become visible.
+            std::memset(static_cast<void*>(cells().data() + current_free), 0xd5,
+                free_size * sizeof(Cell));
+#endif
+
             // register the coalesced block with the free space.
             free_space.insert_free(cells().subspan(current_free, free_size));
             free_cells += free_size;
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..ba7626e 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -8,6 +8,16 @@
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
 
+#ifdef TIRO_VERIF_HOOKS
+// Verification only: collect before every n-th allocation (0: never). See tiro_verif_set_gc_period().
+unsigned long tiro_verif_gc_period = 0;
+unsigned long tiro_verif_gc_counter = 0;
+
+static bool tiro_verif_gc_due() {
+    return tiro_verif_gc_period != 0 && ++tiro_verif_gc_counter % tiro_verif_gc_period == 0;
+}
+#endif
+
 namespace tiro::vm {
 
 #if 0
@@ -204,6 +214,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     TIRO_DEBUG_ASSERT(!collector_.running(), "collector must not be running");
     TIRO_DEBUG_ASSERT(bytes_request > 0, "zero sized allocation");
 
+#ifdef TIRO_VERIF_HOOKS
+    if (tiro_verif_gc_due())
+        collector_.collect(GcReason::Automatic);
+#endif
+
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
-- 
2.43.0


From 2f32cc79ef364114fdb1eba6e78d16d6c79f963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 02/41] fix: sealing a block must not use its incomplete phis
 after the map was modified

---
 src/compiler/ir_gen/func.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..7905cf7 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -458,13 +458,13 @@ void FunctionIRGen::seal(BlockId block_id) {
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
+        // Adding operands may create new incomplete phis in other blocks, which invalidates `pos`.
+        const auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
 
-        auto& phis = pos->second;
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From c4618db83ec91ee43217e60999fc6fa094c7aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 03/41] fix: named local functions initialise their variable

---
 src/compiler/ir_gen/compile_expr.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..424ca37 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -518,13 +518,21 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     auto env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
-    if (env) {
-        auto env_id = bb.compile_env(env);
-        return bb.compile_value(Value::make_make_closure(env_id, func_id));
-    }
+    auto func_inst = [&]() {
+        if (env) {
+            auto env_id = bb.compile_env(env);
+            return bb.compile_value(Value::make_make_closure(env_id, func_id));
+        }
+
+        auto lvalue = LValue::make_module(func_id);
+        return bb.compile_value(Value::make_read(lvalue));
+    }();
+
+    // Named functions declare a variable in the surrounding scope.
+    const auto symbol_id = symbols().get_decl(decl->id());
+    if (decl->name() && !ctx().module_gen().is_static(symbol_id))
+        bb.compile_assign(symbol_id, func_inst);
 
-    auto lvalue = LValue::make_module(func_id);
-    auto func_inst = bb.compile_value(Value::make_read(lvalue));
     return func_inst;
 }
 
-- 
2.43.0


From 348f0a5f9bd1acbab29a32dcb121eda58cc04f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 04/41] fix: deferred expressions use the closure environments
 of their scope

Exception handlers access closure environments through observed assignments instead of
instructions that do not dominate them, exits from nested loops evaluate deferred expressions
in the environment of the scope (and not of the innermost loop), and environments of scopes within
deferred expressions are entered once for every compiled version.
---
 src/compiler/ir_gen/compile_stmt.cpp |  5 ++-
 src/compiler/ir_gen/func.cpp         | 51 +++++++++++++++++++++++++---
 src/compiler/ir_gen/func.hpp         | 12 +++++++
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..702c7d4 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -83,14 +83,13 @@ OkResult StmtCompiler::visit_defer_stmt(NotNull<AstDeferStmt*> stmt, CurrentBloc
     // point to that handler (handler edge), until the scope exit or until another defer statement is encountered.
     // NOTE: the new handler block inherits the current exception handler from the ctx.
     auto handler_block = ctx().make_handler_block(strings().insert("defer-panic"));
-    [&] {
-        CurrentBlock nested = ctx().make_current(handler_block);
+    ctx().compile_handler(handler_block, [&](CurrentBlock& nested) {
         auto expr_result = nested.compile_expr(expr, ExprOptions::MaybeInvalid);
         if (!expr_result)
             return;
 
         nested.end(Terminator::make_rethrow(ctx().result().exit()));
-    }();
+    });
 
     // Normal control flow: the expression is remembered and compiled by the scope exit (ExprCompiler::visit_block_expr).
     {
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 7905cf7..e24ca58 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -14,6 +14,8 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <algorithm>
+
 namespace tiro::ir {
 
 void CurrentBlock::advance(InternedString label) {
@@ -367,6 +369,16 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
     ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
     ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
 
+    // Deferred expressions are evaluated in the closure environment of their scope, which is not
+    // necessarily the innermost one: control flow may also leave the scope from within a nested loop.
+    const auto inner_envs = std::find_if(local_env_stack_.begin(), local_env_stack_.end(),
+        [&](const EnvContext& ctx) { return ctx.region_count > scope_id.value(); });
+    const std::vector<EnvContext> removed_envs(inner_envs, local_env_stack_.end());
+    local_env_stack_.erase(inner_envs, local_env_stack_.end());
+    ScopeExit restore_envs = [&] {
+        local_env_stack_.insert(local_env_stack_.end(), removed_envs.begin(), removed_envs.end());
+    };
+
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
         BlockId handler;
@@ -410,6 +422,24 @@ OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock&
     return ok;
 }
 
+void FunctionIRGen::compile_handler(
+    BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body) {
+    auto bb = make_current(handler_id);
+
+    auto original_locations = local_env_locations_;
+    ScopeExit restore_locations = [&] { local_env_locations_ = std::move(original_locations); };
+
+    if (outer_env_)
+        local_env_locations_[outer_env_] = bb.define_new(Value::OuterEnvironment{});
+
+    for (const auto& context : local_env_stack_) {
+        local_env_locations_[context.env] = bb.define_new(
+            Value::make_observe_assign(context.symbol, {}));
+    }
+
+    compile_body(bb);
+}
+
 BlockId FunctionIRGen::make_block(InternedString label) {
     Block block(label);
     block.handler(current_handler());
@@ -655,16 +685,27 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
 
     const u32 captured_count = checked_cast<u32>(captured.size());
     const ClosureEnvId parent = current_env();
-    const ClosureEnvId env = envs_->make(ClosureEnv(parent, checked_cast<u32>(captured.size())));
-    for (u32 i = 0; i < captured.size(); ++i) {
-        envs_->write_location(captured[i], ClosureEnvLocation(env, i));
-    }
+    const ClosureEnvId env = [&]() {
+        // Deferred expressions (and the scopes within) are compiled more than once. The contents of their
+        // environments are always the same, closure functions are shared between all compiled versions.
+        if (auto loc = envs_->read_location(captured.front()))
+            return loc->env;
+
+        const auto new_env = envs_->make(ClosureEnv(parent, captured_count));
+        for (u32 i = 0; i < captured_count; ++i) {
+            envs_->write_location(captured[i], ClosureEnvLocation(new_env, i));
+        }
+        return new_env;
+    }();
 
     const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
-    local_env_stack_.push_back({env, parent_scope_id});
+    local_env_stack_.push_back({env, parent_scope_id, active_regions_.size(), captured.front()});
     local_env_locations_[env] = env_inst;
+
+    // Exception handlers must be able to find the environment.
+    bb.define_new(Value::make_publish_assign(captured.front(), env_inst));
 }
 
 void FunctionIRGen::exit_env(ScopeId parent_scope) {
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..d7014a7 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -108,6 +108,13 @@ private:
 struct EnvContext {
     ClosureEnvId env;
     ScopeId starter;
+
+    // Number of active regions when this environment was entered.
+    size_t region_count;
+
+    // Identifies the environment in publish/observe instructions. This is one of the captured
+    // symbols, which are otherwise never used as ssa variables.
+    SymbolId symbol;
 };
 
 /// Compilation options for expressions.
@@ -298,6 +305,11 @@ public:
     /// Emits code required to leave the given scope.
     OkResult compile_scope_exit(RegionId scope_id, CurrentBlock& bb);
 
+    /// Executes `compile_body` to fill the given handler block.
+    /// Instructions of the normal control flow do not dominate the handler block, so the active closure
+    /// environments are made available through instructions in the handler itself.
+    void compile_handler(BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body);
+
     /// Emits code to leave all scopes until the target region has been reached.
     /// This *does not* include the target region. The target may be invalid, in which
     /// case all scopes will be exited.
-- 
2.43.0


From af47424430bfe4e994731a44bff047996098abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 05/41] fix: panic handlers of deferred expressions stay active
 after nested jumps

A return, break or continue in a nested block disabled the handlers for all blocks
that were compiled after it, and handlers of a block whose end is not reachable remained active.
---
 src/compiler/ir_gen/compile_expr.cpp | 7 +++++++
 src/compiler/ir_gen/func.cpp         | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 424ca37..a20b915 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -426,6 +427,12 @@ InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBl
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
+    // The handlers of this scope's deferred expressions are no longer active outside of the block,
+    // even if its end is not reachable.
+    ScopeExit restore_handler = [&, original_handler = ctx().current_handler()] {
+        ctx().current_handler(original_handler);
+    };
+
     auto& stmts = expr->stmts();
 
     bool has_value = can_use_as_value(get_type(expr));
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index e24ca58..1df7abf 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -407,6 +407,11 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
 OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock& bb) {
     TIRO_DEBUG_ASSERT(!target || target.value() < active_regions_.size(), "Invalid target index.");
 
+    // Code following the jump instruction (in other blocks) remains in its current scope.
+    ScopeExit restore_handler = [&, original_handler = current_handler()] {
+        current_handler(original_handler);
+    };
+
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
     for (size_t i = active_regions_.size(); i-- > until;) {
-- 
2.43.0


From bb55444f95d900cbe61e654df872321dec2710ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 06/41] fix: operators on constants that panic are not dead
 code

---
 src/compiler/ir_passes/dead_code_elimination.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..0554111 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -55,17 +55,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operators may panic, even if all operands are constants (e.g. division by zero). Operations on
+        // constants that do not panic have already been evaluated at compile time.
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
-- 
2.43.0


From 3448678ac242440de48fcdcc623763ab96617d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 07/41] fix: -1 raised to a negative even power is 1

---
 src/compiler/ir_gen/const_eval.cpp | 7 +++++--
 src/vm/math.cpp                    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..3e2d012 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -228,8 +228,11 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
     constexpr auto intop = [](i64 a, i64 b) -> EvalResult {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
-        if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+        if (b < 0) {
+            if (a == -1)
+                return make_int(b % 2 == 0 ? 1 : -1);
+            return make_int(a == 1 ? 1 : 0);
+        }
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..1c926e4 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -83,8 +83,11 @@ struct pow_op {
         if (TIRO_UNLIKELY(a == 0 && b < 0))
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
-        if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+        if (b < 0) {
+            if (a == -1)
+                return b % 2 == 0 ? 1 : -1;
+            return a == 1 ? 1 : 0;
+        }
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From 826f8f881f89f7dc2064a1bc80d0e039fdd4da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 08/41] fix: overflow check of the unary minus operator

---
 src/vm/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 1c926e4..6661ad5 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -184,7 +184,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From 1f4fc739c5d02c454a6c69df85757ca6f92d7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:59 +0000
Subject: [PATCH 09/41] fix: implement the bitwise and shift instructions

They were compiled (and evaluated for constants) but raised an internal error at run time.
---
 src/vm/interpreter.cpp | 14 ++++++++----
 src/vm/math.cpp        | 48 ++++++++++++++++++++++++++++++++++++++++++
 src/vm/math.hpp        |  7 ++++++
 3 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..857a8d1 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -464,15 +464,21 @@ void BytecodeInterpreter::run() {
         case BytecodeOp::UNeg:
             TIRO_UNOP(unary_minus);
             break;
-
-        // TODO
         case BytecodeOp::LSh:
+            TIRO_BINOP(left_shift);
+            break;
         case BytecodeOp::RSh:
+            TIRO_BINOP(right_shift);
+            break;
         case BytecodeOp::BAnd:
+            TIRO_BINOP(bitwise_and);
+            break;
         case BytecodeOp::BOr:
+            TIRO_BINOP(bitwise_or);
+            break;
         case BytecodeOp::BXor:
-            TIRO_ERROR("instruction not implemented yet: {}", op);
-
+            TIRO_BINOP(bitwise_xor);
+            break;
         case BytecodeOp::BNot:
             TIRO_UNOP(bitwise_not);
             break;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 6661ad5..8cc638c 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -172,6 +172,54 @@ Fallible<Number> pow(Context& ctx, Handle<Value> a, Handle<Value> b) {
     return binary_op(ctx, a, b, pow_op());
 }
 
+template<typename Operation>
+static Fallible<Integer> bitwise_op(
+    Context& ctx, std::string_view name, Handle<Value> left, Handle<Value> right, Operation&& op) {
+    if (TIRO_UNLIKELY(!left->is<Integer>()))
+        return invalid_operand_type_exception(ctx, name, left);
+    if (TIRO_UNLIKELY(!right->is<Integer>()))
+        return invalid_operand_type_exception(ctx, name, right);
+
+    i64 a = left.must_cast<Integer>()->value();
+    i64 b = right.must_cast<Integer>()->value();
+    return ctx.get_integer(op(a, b));
+}
+
+// Shifts operate on the (unsigned) bits of the left operand.
+template<typename Operation>
+static Fallible<Integer> shift_op(
+    Context& ctx, std::string_view name, Handle<Value> left, Handle<Value> right, Operation&& op) {
+    if (right->is<Integer>() && left->is<Integer>()) {
+        i64 count = right.must_cast<Integer>()->value();
+        if (TIRO_UNLIKELY(count < 0))
+            return TIRO_FORMAT_EXCEPTION(ctx, "negative operand in operation '{}'", name);
+        if (TIRO_UNLIKELY(count > 63))
+            return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in operation '{}'", name);
+    }
+    return bitwise_op(ctx, name, left, right,
+        [&](i64 a, i64 b) { return static_cast<i64>(op(static_cast<u64>(a), b)); });
+}
+
+Fallible<Integer> left_shift(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return shift_op(ctx, "<<"sv, a, b, [](u64 value, i64 count) { return value << count; });
+}
+
+Fallible<Integer> right_shift(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return shift_op(ctx, ">>"sv, a, b, [](u64 value, i64 count) { return value >> count; });
+}
+
+Fallible<Integer> bitwise_and(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "&"sv, a, b, [](i64 lhs, i64 rhs) { return lhs & rhs; });
+}
+
+Fallible<Integer> bitwise_or(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "|"sv, a, b, [](i64 lhs, i64 rhs) { return lhs | rhs; });
+}
+
+Fallible<Integer> bitwise_xor(Context& ctx, Handle<Value> a, Handle<Value> b) {
+    return bitwise_op(ctx, "^"sv, a, b, [](i64 lhs, i64 rhs) { return lhs ^ rhs; });
+}
+
 Fallible<Number> unary_plus([[maybe_unused]] Context& ctx, Handle<Value> v) {
     if (TIRO_UNLIKELY(!v->is<Number>()))
         return invalid_operand_type_exception(ctx, "unary +"sv, v);
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index 0b87caf..27be5b6 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -14,6 +14,13 @@ Fallible<Number> div(Context& ctx, Handle<Value> a, Handle<Value> b);
 Fallible<Number> mod(Context& ctx, Handle<Value> a, Handle<Value> b);
 Fallible<Number> pow(Context& ctx, Handle<Value> a, Handle<Value> b);
 
+// Implements the binary bitwise operations.
+Fallible<Integer> left_shift(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> right_shift(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_and(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_or(Context& ctx, Handle<Value> a, Handle<Value> b);
+Fallible<Integer> bitwise_xor(Context& ctx, Handle<Value> a, Handle<Value> b);
+
 // Implements the unary arithmetic operations.
 Fallible<Number> unary_plus(Context& ctx, Handle<Value> v);
 Fallible<Number> unary_minus(Context& ctx, Handle<Value> v);
-- 
2.43.0


From 24e60c221102da7c35b29568bb374ff9e9bf657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 10/41] fix: jump expressions in if expressions, assert
 messages, optional paths and loop conditions

The blocks following such an expression were left without a terminator (or received a second one).
---
 src/compiler/ir_gen/compile_expr.cpp |  8 +++++++-
 src/compiler/ir_gen/compile_stmt.cpp | 25 +++++++++++++++----------
 src/compiler/ir_gen/func.cpp         |  8 +++++---
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index a20b915..a2798c9 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -188,7 +188,8 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
@@ -605,6 +606,11 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
     }
+    if (!then_result && !else_result) {
+        // The end block cannot be reached, but every block needs a terminator.
+        bb.end(Terminator::make_never(result().exit()));
+        return else_result;
+    }
     if (!then_result)
         return else_result;
     if (!else_result)
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index 702c7d4..aa7406d 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,11 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
 
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        // Control flow continues in the ok block, even if the message expression leaves the function.
+        if (message_result)
+            nested.end(
+                Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
@@ -137,12 +138,16 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     bb.end(Terminator::make_jump(cond_block));
 
     // Compile condition.
-    auto cond_result = [&]() -> OkResult {
-        CurrentBlock cond_bb = ctx().make_current(cond_block);
-        return compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
-    }();
+    CurrentBlock cond_bb = ctx().make_current(cond_block);
+    auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
+    if (!cond_result) {
+        // The loop (and the code following it) cannot be reached.
+        ctx().seal(cond_block);
+        bb.assign(cond_bb.id());
+        return cond_result;
+    }
 
-    if (cond_result) {
+    {
         // Compile loop body.
         // Condition is the only item that jumps to the body block.
         ctx().seal(body_block);
@@ -189,7 +194,7 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
-    return cond_result;
+    return ok;
 }
 
 OkResult StmtCompiler::visit_for_each_stmt(NotNull<AstForEachStmt*> stmt, CurrentBlock& bb) {
@@ -276,7 +281,7 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            bb.assign(cond_bb.id());
             return cond_result;
         }
     }
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 1df7abf..c41d08f 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -251,9 +251,11 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return
+                          || result_[bb.id()].terminator().type() == TerminatorType::Never,
+        "The last block must perform a return (or be unreachable).");
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::Return
+                          || result_[bb.id()].terminator().as_return().target == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
-- 
2.43.0


From ea1d78fdb61c62749d226bd990647c15e5330254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:31 +0000
Subject: [PATCH 11/41] fix: panic handlers observe all assignments of loops
 and nested handlers

---
 .../ir_passes/assignment_observers.cpp        | 163 ++++++------------
 1 file changed, 50 insertions(+), 113 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..bdb5dac 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -13,7 +13,7 @@ namespace {
 
 using ValueSet = absl::flat_hash_set<InstId, UseHasher>;
 
-using ValueList = absl::InlinedVector<InstId, 3>;
+using BlockSet = absl::flat_hash_set<BlockId, UseHasher>;
 
 class Pass {
 public:
@@ -31,28 +31,15 @@ private:
     // in the exception handler's observe_assign instructions.
     void link_instructions();
 
-    // Gathers all assignments for that block + symbol combination.
-    void fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the start of the block.
-    // CAREFUL: in_values must not modified, pointer references unstable hash map memory.
-    ValueList* in_values(BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the end of the block.
-    // CAREFUL: out_values must not modified, pointer references unstable hash map memory.
-    ValueList* out_values(BlockId block_id, SymbolId symbol_id);
+    // Gathers all assignments to the symbol that can be observed by a handler with the given source blocks.
+    void fill_operand_set(
+        ValueSet& operands, const std::vector<BlockId>& source_ids, SymbolId symbol_id);
 
 private:
     Function& func_;
 
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
-
-    // Memoized values for the symbol's value at the start of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> in_values_;
-
-    // Memoized values for the symbol's value at the end of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> out_values_;
 };
 
 } // namespace
@@ -101,11 +88,7 @@ void Pass::link_instructions() {
 
             // Construct operand set
             operand_set.clear();
-            for (auto source_id : source_ids) {
-                TIRO_DEBUG_ASSERT(
-                    func_[source_id].handler() == handler_id, "Inconsistent block handler.");
-                fill_operand_set(operand_set, source_id, obs.symbol);
-            }
+            fill_operand_set(operand_set, source_ids, obs.symbol);
 
 #if TIRO_DEBUG
             for (const auto op_inst_id : operand_set) {
@@ -123,108 +106,62 @@ void Pass::link_instructions() {
     }
 }
 
-void Pass::fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id) {
-    TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
-
-    // Ensure initial value is available to the exception handler.
-    {
-        ValueList* pred_values = in_values(block_id, symbol_id);
-        operands.insert(pred_values->begin(), pred_values->end());
-    }
+void Pass::fill_operand_set(
+    ValueSet& operands, const std::vector<BlockId>& source_ids, SymbolId symbol_id) {
+    // Blocks whose initial values are observable. The control flow graph may contain cycles, every
+    // block is therefore visited only once.
+    BlockSet visited;
+    absl::InlinedVector<BlockId, 16> stack;
+    auto visit_start = [&](BlockId block_id) {
+        if (visited.insert(block_id).second)
+            stack.push_back(block_id);
+    };
 
-    // Simulate assignments in this block.
-    const auto& block = func_[block_id];
-    for (auto inst_id : block.insts()) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
+    // Every instruction in a source block may jump to the handler: all assignments and the initial values
+    // are observable.
+    auto visit_source = [&](BlockId block_id) {
+        for (auto inst_id : func_[block_id].insts()) {
+            const auto& value = func_[inst_id].value();
+            if (value.type() == ValueType::PublishAssign
+                && value.as_publish_assign().symbol == symbol_id)
                 operands.insert(inst_id);
-            break;
-        }
-        default:
-            break;
         }
-    }
-}
-
-ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = in_values_.find({block_id, symbol_id}); it != in_values_.end()) {
-        return &it->second;
-    }
-
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(in_values_[{block_id, symbol_id}] = std::move(set));
+        visit_start(block_id);
     };
 
-    auto block = func_.ptr_to(block_id);
-
-    // Must also take handler edges into account here.
-    if (block->is_handler()) {
-        const auto reverse_it = reverse_handlers_.find(block_id);
-        TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
-            "There must be reverse edges for every handler block.");
-
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
-        ValueSet set;
-        write({}); // Place a sentinel to stop recursion in control flow loops.
-        for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
+    // The last assignment in a normal predecessor is observable.
+    auto visit_predecessor = [&](BlockId block_id) {
+        for (auto inst_id : reverse_view(func_[block_id].insts())) {
+            const auto& value = func_[inst_id].value();
+            if (value.type() == ValueType::PublishAssign
+                && value.as_publish_assign().symbol == symbol_id) {
+                operands.insert(inst_id);
+                return;
+            }
         }
-        return write(ValueList(set.begin(), set.end()));
-    }
+        visit_start(block_id);
+    };
 
-    // Not a handler, inspect normal predecessors.
-    const auto pred_count = block->predecessor_count();
-    if (pred_count == 0)
-        return write({});
-    if (pred_count == 1)
-        return write(*out_values(block->predecessor(0), symbol_id));
-
-    ValueSet set;
-    write({}); // Place a sentinel to stop recursion in control flow loops.
-    for (const auto pred_id : block->predecessors()) {
-        ValueList* pred_values = out_values(pred_id, symbol_id);
-        set.insert(pred_values->begin(), pred_values->end());
-    }
-    return write(ValueList(set.begin(), set.end()));
-}
+    for (auto source_id : source_ids)
+        visit_source(source_id);
 
-ValueList* Pass::out_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = out_values_.find({block_id, symbol_id}); it != out_values_.end()) {
-        return &it->second;
-    }
+    while (!stack.empty()) {
+        auto block_id = stack.back();
+        stack.pop_back();
 
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(out_values_[{block_id, symbol_id}] = std::move(set));
-    };
-
-    auto block = func_.ptr_to(block_id);
-
-    // Simulate assignments to the symbol.
-    for (const auto& inst_id : reverse_view(block->insts())) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            const auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                return write({inst_id});
-            break;
-        }
-        default:
-            break;
+        TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
+        const auto& block = func_[block_id];
+        if (block.is_handler()) {
+            // Handlers of unreachable blocks do not have any sources.
+            if (auto it = reverse_handlers_.find(block_id); it != reverse_handlers_.end()) {
+                for (auto source_id : it->second)
+                    visit_source(source_id);
+            }
+        } else {
+            for (auto pred_id : block.predecessors())
+                visit_predecessor(pred_id);
         }
     }
-
-    // No assignment found in this block, lookup in the predecessors.
-    return write(*in_values(block_id, symbol_id));
 }
 
 void connect_assignment_observers(Function& func) {
-- 
2.43.0


From 960d63f3c2e3c9ca2202e76398f4e4a7ada3a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 12/41] fix: code following if expressions and endless loops
 that never complete is unreachable

---
 src/compiler/ir_gen/compile_expr.cpp | 8 ++++----
 src/compiler/ir_gen/compile_stmt.cpp | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index a2798c9..a1332bc 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -602,15 +602,15 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
-    if (!has_value) {
-        TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
-        return InstId();
-    }
     if (!then_result && !else_result) {
         // The end block cannot be reached, but every block needs a terminator.
         bb.end(Terminator::make_never(result().exit()));
         return else_result;
     }
+    if (!has_value) {
+        TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
+        return InstId();
+    }
     if (!then_result)
         return else_result;
     if (!else_result)
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index aa7406d..eb66817 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -194,6 +194,11 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
+    if (ctx().result()[end_block].predecessor_count() == 0) {
+        // Endless loop without a break.
+        bb.end(Terminator::make_never(ctx().result().exit()));
+        return unreachable;
+    }
     return ok;
 }
 
-- 
2.43.0


From d369d61c278deea5039520df2239ee28590b0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 13/41] fix: comparisons and hashes of integers and floats
 agree with their equality

---
 src/common/math.hpp                | 17 +++++++++++++++++
 src/compiler/ir_gen/const_eval.cpp | 16 ++++++++--------
 src/vm/hash.cpp                    | 10 +++++++---
 src/vm/math.cpp                    | 15 +++++++++++++++
 src/vm/objects/value.cpp           | 12 ++++--------
 5 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/common/math.hpp b/src/common/math.hpp
index fece8b3..d6260d8 100644
--- a/src/common/math.hpp
+++ b/src/common/math.hpp
@@ -262,6 +262,23 @@ To checked_cast(From from) {
     }
 }
 
+/// Compares an integer with a floating point number without loss of precision.
+/// Returns a negative, zero or positive value (like `lhs <=> rhs`).
+/// \pre `rhs` must not be nan.
+constexpr int compare_int_float(i64 lhs, f64 rhs) {
+    if (rhs >= 0x1p63)
+        return -1;
+    if (rhs < -0x1p63)
+        return 1;
+
+    const i64 rhs_int = static_cast<i64>(rhs);
+    if (lhs != rhs_int)
+        return lhs < rhs_int ? -1 : 1;
+
+    const f64 rhs_fraction = rhs - static_cast<f64>(rhs_int);
+    return rhs_fraction > 0 ? -1 : (rhs_fraction < 0 ? 1 : 0);
+}
+
 } // namespace tiro
 
 #endif // TIRO_COMMON_MATH_HPP
diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 3e2d012..66b79c3 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -1,5 +1,6 @@
 #include "compiler/ir_gen/const_eval.hpp"
 
+#include "common/math.hpp"
 #include "common/safe_int.hpp"
 
 #include <cmath>
@@ -103,14 +104,7 @@ static i64 to_signed(u64 v) {
 }
 
 static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return !std::isnan(rhs) && compare_int_float(lhs, rhs) == 0;
 }
 
 static bool is_equal(const Constant& lhs, const Constant& rhs) {
@@ -312,6 +306,12 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
         return make_bool(test(0));
     }
 
+    // Mixed comparisons must be exact, otherwise they would contradict the operators == and !=.
+    if (is_integer(lhs) && is_float(rhs) && !std::isnan(get_float(rhs)))
+        return make_bool(test(compare_int_float(get_int(lhs), get_float(rhs))));
+    if (is_float(lhs) && is_integer(rhs) && !std::isnan(get_float(lhs)))
+        return make_bool(test(-compare_int_float(get_int(rhs), get_float(lhs))));
+
     // Apply normal int / float promotion rules.
     auto op = [&](auto a, auto b) -> EvalResult {
         return make_bool(test(a < b ? -1 : (a > b ? 1 : 0)));
diff --git a/src/vm/hash.cpp b/src/vm/hash.cpp
index cbd3fba..018f820 100644
--- a/src/vm/hash.cpp
+++ b/src/vm/hash.cpp
@@ -57,9 +57,13 @@ static_assert(std::numeric_limits<f64>::has_quiet_NaN,
 static constexpr f64 canonic_nan = std::numeric_limits<f64>::quiet_NaN();
 
 size_t float_hash(f64 data) {
-    // Ensure that both -0.0 and 0.0 hash to the same value.
-    if (data == 0)
-        return fnv1a(raw_span<u64>(0));
+    // Floats that are equal to an integer must have the same hash as that integer.
+    // This also ensures that both -0.0 and 0.0 hash to the same value.
+    if (data >= -0x1p63 && data < 0x1p63) {
+        const i64 data_int = static_cast<i64>(data);
+        if (static_cast<f64>(data_int) == data)
+            return integer_hash(static_cast<u64>(data_int));
+    }
 
     // All nans hash to the same value to enable their usage in hash tables.
     if (std::isnan(data))
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 8cc638c..2d313e9 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -1,10 +1,13 @@
 #include "vm/math.hpp"
 
+#include "common/math.hpp"
 #include "vm/context.hpp"
 #include "vm/objects/exception.hpp"
 #include "vm/objects/primitives.hpp"
 #include "vm/type_system.hpp"
 
+#include <cmath>
+
 namespace tiro::vm {
 
 namespace {
@@ -273,6 +276,18 @@ Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
         return 1;
 
     auto cmp = [](auto lhs, auto rhs) {
+        using lhs_t = decltype(lhs);
+        using rhs_t = decltype(rhs);
+
+        // Mixed comparisons must be exact, otherwise they would contradict the equality operator.
+        if constexpr (std::is_same_v<lhs_t, i64> && std::is_same_v<rhs_t, f64>) {
+            if (!std::isnan(rhs))
+                return compare_int_float(lhs, rhs);
+        } else if constexpr (std::is_same_v<lhs_t, f64> && std::is_same_v<rhs_t, i64>) {
+            if (!std::isnan(lhs))
+                return -compare_int_float(rhs, lhs);
+        }
+
         if (lhs > rhs)
             return 1;
         if (lhs < rhs)
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..c8be27a 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -1,8 +1,11 @@
 #include "vm/objects/value.hpp"
 
+#include "common/math.hpp"
 #include "vm/hash.hpp"
 #include "vm/objects/all.hpp"
 
+#include <cmath>
+
 #include <type_traits>
 
 namespace tiro::vm {
@@ -203,14 +206,7 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
-        return false;
-
-    // Check whether converting the float to int and back preserves the value.
-    // If that is the case, the two integers can be equal.
-    i64 rhs_int = rhs;
-    f64 rhs_roundtrip = rhs_int;
-    return rhs_roundtrip == rhs && lhs == rhs_int;
+    return !std::isnan(rhs) && compare_int_float(lhs, rhs) == 0;
 }
 
 // TODO think about float / integer equality.
-- 
2.43.0


From 0eab013494a8983e909f2faae8cea2d9397a426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 14/41] fix: removal from a hash table shifts back all
 following entries of the chain

---
 src/vm/objects/hash_table.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..1e1bd40 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,10 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+
+            // Continue with the hole left behind by the moved entry.
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From db3211558add5532ff471f944e260c0236d03be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:35 +0000
Subject: [PATCH 15/41] fix: register sizes of mutually dependent phi functions

---
 src/compiler/bytecode_gen/alloc_registers.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..10920a0 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -126,6 +126,9 @@ private:
     // recursive call (0 is never a valid value in this map).
     absl::flat_hash_map<InstId, u32, UseHasher> phi_sizes_;
 
+    // Phi functions visited by the current traversal whose size could not be determined yet.
+    std::vector<InstId> unresolved_phis_;
+
     // Implements parallel copy -> sequential copy algorithm.
     ParallelCopyAlgorithm parallel_copies_;
 };
@@ -435,6 +438,9 @@ void RegisterAllocator::deallocate_register(BytecodeRegister reg, RegisterContex
 
 u32 RegisterAllocator::allocated_size(InstId inst_id) {
     auto size = allocated_size_recursive(inst_id);
+    for (const auto& phi_id : unresolved_phis_)
+        phi_sizes_.erase(phi_id);
+    unresolved_phis_.clear();
     TIRO_CHECK(size, "Register size of instruction could not be computed.");
     return *size;
 }
@@ -483,7 +489,11 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
+        if (!resolved) {
+            // All operands are part of the current (recursive) traversal, they are resolved by a caller.
+            unresolved_phis_.push_back(inst_id);
+            return {};
+        }
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
     }
-- 
2.43.0


From 784928391269ede06afdac5f72f87b8ed96abc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 16/41] fix: tiro_coroutine_set_callback must not call a
 missing cleanup function

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 33a22325dd3249c7bab73c154986d5dbaca3fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 17/41] fix: tiro_resumable_frame_invoke accepts argument
 tuples and refuses other values

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 26d1c0fe8cad6e215e7e6408174cfcfff94dab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 18/41] fix: resume tokens of async calls that finish without
 yielding must not stay valid

---
 src/vm/objects/native.cpp | 6 ++++++
 src/vm/objects/native.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..04d0200 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -181,9 +181,15 @@ NotNull<ResumableFrame*> ResumableFrameContext::frame() const {
 AsyncResumeToken AsyncFrameContext::resume_token() {
     Context& ctx = parent_.ctx();
     UniqueExternal token(ctx.externals().allocate(parent_.resume_token()));
+    has_token_ = true;
     return AsyncResumeToken(std::move(token));
 }
 
+void AsyncFrameContext::finish() {
+    if (has_token_ && parent_.cont().action() != ResumableFrameContinuation::YIELD)
+        parent_.coro()->reset_token();
+}
+
 UnownedAsyncResumeToken::UnownedAsyncResumeToken(External<CoroutineToken> token)
     : token_(std::move(token)) {}
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..7914f30 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -246,6 +246,10 @@ public:
     AsyncResumeToken resume_token();
     void yield() { parent_.yield(AsyncFrameContext::STATE_RESUME); }
 
+    /// Called when the native function has returned. A token that was handed out must not be used to resume
+    /// the coroutine later on (at a different place) if the function did not yield.
+    void finish();
+
     template<typename T>
     void return_or_panic(Fallible<T> fallible) {
         parent_.return_or_panic(fallible);
@@ -253,6 +257,7 @@ public:
 
 private:
     ResumableFrameContext& parent_;
+    bool has_token_ = false;
 };
 
 class UnownedAsyncResumeToken final {
@@ -501,6 +506,7 @@ private:
                 func(async);
                 if (frame.cont().action() == ResumableFrameContinuation::NONE)
                     frame.return_value(Value::null());
+                async.finish();
                 return;
             }
             case AsyncFrameContext::STATE_RESUME: {
-- 
2.43.0


From e914120394277b709eb143fea0594b354744d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 19/41] fix: do not link imports of modules whose
 initialization failed

---
 src/vm/modules/registry.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..5aae8b4 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -154,7 +154,7 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                         continue;
                     }
 
-                    // Search for the imported module and link it into the members tuple on success.
+                    // Search for the imported module.
                     imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
                     if (auto found = find_module(*imported_name)) {
                         imported_module = *found;
@@ -162,14 +162,16 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                         TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
                             "module '{}' was not found", imported_name->view());
                     }
-                    current_members->unchecked_set(i, *imported_module);
-                    ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
-                    // the `frame` is invalidated!
+                    // the `frame` is invalidated! The import is linked after the imported
+                    // module has been initialized: if that fails, it must remain unresolved.
                     if (recurse(imported_module)) {
                         goto next;
                     }
+
+                    current_members->unchecked_set(i, *imported_module);
+                    ++i;
                 }
             }
             frame.state_ = Init;
-- 
2.43.0


From 38b835dfe57e86f277240d2325a51b025dbaa99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:20 +0000
Subject: [PATCH 20/41] fix: module initializers requested during a run must
 not be scheduled

---
 src/vm/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..1bf8abf 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -125,6 +125,10 @@ bool Context::has_ready() {
 }
 
 Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
+    // Must not leave a scheduled coroutine behind that would run the initializer later.
+    if (running_)
+        TIRO_ERROR("already running, nested calls are not allowed");
+
     Scope sc(*this);
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
-- 
2.43.0


From afaf941c3b89726b730cd64d69de8e4061b011ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 21/41] fix: break and continue must not leave a nested
 function

---
 src/compiler/semantics/structure_check.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..0da2aae 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -115,6 +115,7 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    auto reset_loop = replace_value(current_loop_, nullptr); // Loops do not extend into functions.
     visit_decl(decl);
 }
 
-- 
2.43.0


From 7d02dc037de83aad272dd1cab46222f56768fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:55 +0000
Subject: [PATCH 22/41] fix: report deferred uses of uninitialized variables
 instead of failing

---
 src/compiler/ir_gen/func.cpp                  |  3 ++-
 .../ir_passes/assignment_observers.cpp        | 19 ++++++++++++++-----
 .../ir_passes/assignment_observers.hpp        |  6 +++++-
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index c41d08f..e908a9b 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -264,7 +264,8 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
     seal(result_.exit());
 
     // Needed for exception handlers.
-    connect_assignment_observers(result_);
+    connect_assignment_observers(
+        result_, [&](SymbolId symbol_id) { undefined_variable(symbol_id); });
 
     // Not really optional anymore because it removes useless publish_assign statements
     // that are not referenced by any exception handlers.
diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index bdb5dac..ad284d1 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -17,8 +17,9 @@ using BlockSet = absl::flat_hash_set<BlockId, UseHasher>;
 
 class Pass {
 public:
-    explicit Pass(Function& func)
-        : func_(func) {}
+    explicit Pass(Function& func, FunctionRef<void(SymbolId)> uninitialized)
+        : func_(func)
+        , uninitialized_(uninitialized) {}
 
     void run();
 
@@ -37,6 +38,8 @@ private:
 
 private:
     Function& func_;
+    FunctionRef<void(SymbolId)> uninitialized_;
+    absl::flat_hash_set<SymbolId, UseHasher> reported_;
 
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
@@ -149,7 +152,13 @@ void Pass::fill_operand_set(
         auto block_id = stack.back();
         stack.pop_back();
 
-        TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
+        // The start of the function can be reached without an assignment.
+        if (block_id == func_.entry()) {
+            if (reported_.insert(symbol_id).second)
+                uninitialized_(symbol_id);
+            continue;
+        }
+
         const auto& block = func_[block_id];
         if (block.is_handler()) {
             // Handlers of unreachable blocks do not have any sources.
@@ -164,8 +173,8 @@ void Pass::fill_operand_set(
     }
 }
 
-void connect_assignment_observers(Function& func) {
-    Pass pass(func);
+void connect_assignment_observers(Function& func, FunctionRef<void(SymbolId)> uninitialized) {
+    Pass pass(func, uninitialized);
     pass.run();
 }
 
diff --git a/src/compiler/ir_passes/assignment_observers.hpp b/src/compiler/ir_passes/assignment_observers.hpp
index 479a936..80a9092 100644
--- a/src/compiler/ir_passes/assignment_observers.hpp
+++ b/src/compiler/ir_passes/assignment_observers.hpp
@@ -1,7 +1,9 @@
 #ifndef TIRO_COMPILER_IR_PASSES_ASSIGNMENT_OBSERVERS_HPP
 #define TIRO_COMPILER_IR_PASSES_ASSIGNMENT_OBSERVERS_HPP
 
+#include "common/adt/function_ref.hpp"
 #include "compiler/ir/fwd.hpp"
+#include "compiler/semantics/symbol_table.hpp"
 
 namespace tiro::ir {
 
@@ -24,7 +26,9 @@ namespace tiro::ir {
 /// `publish_assign` and `observe_assign` provide the necessary infrastructure for that.
 /// Note that explicit control flow edges are not used to implement exceptions, because almost every
 /// statement in tiro could potentially throw an exception.
-void connect_assignment_observers(Function& func);
+///
+/// The callback is invoked (once) for every symbol that may be observed before it has been initialized.
+void connect_assignment_observers(Function& func, FunctionRef<void(SymbolId)> uninitialized);
 
 } // namespace tiro::ir
 
-- 
2.43.0


From 5af03c495f21699b0856e1e7f7235afbaf4d3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:40 +0000
Subject: [PATCH 23/41] fix: operators at the very end of a file must not fail
 the lexer

---
 src/compiler/syntax/lexer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..ef2bd17 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -199,6 +199,9 @@ TokenType Lexer::lex_symbol() {
 std::optional<TokenType> Lexer::lex_operator() {
     TIRO_DEBUG_ASSERT(!eof(), "Already at the end of file.");
 
+    // Operators may be at the very end of the file.
+    auto next = [&]() -> CodePoint { return eof() ? 0 : current(); };
+
     switch (current()) {
 
 #define TIRO_OP(c, ...) \
@@ -221,7 +224,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +234,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +242,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +250,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +294,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +302,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (next()) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From b1d9b62ab7e14f060e85b9d5a430965cf37f5339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 24/41] fix: report sizes that do not fit the heap's cell
 counter instead of truncating them

---
 src/vm/heap/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index ba7626e..50e4e43 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -227,6 +227,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
         collector_ran = true;
     }
 
+    // The number of cells must be representable, even if there is no memory limit.
+    constexpr size_t max_cells = std::numeric_limits<u32>::max();
+    if (TIRO_UNLIKELY(bytes_request > max_cells * cell_size))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "object size too large");
+
     // Objects of large size get an allocation of their own.
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
-- 
2.43.0


From 2f8dcc835958719ce875b29322ce96b1779f05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 25/41] fix: account for heap memory only when the allocation
 succeeded

---
 src/vm/heap/heap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 50e4e43..6c28313 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -318,11 +318,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
     void* result = alloc_.allocate_aligned(size, align);
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     return result;
 }
 
-- 
2.43.0


From ecc83fdedb371c7e1ba7d929dff8e3bb72f1ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:33 +0000
Subject: [PATCH 26/41] fix: tiro_boolean_value must not dereference a missing
 handle

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index 4daaf5e..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 9ee98495fdf4056274788ee310d2477dcfe5d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 27/41] fix: allow native frames with the maximum number of
 locals

---
 src/vm/objects/coroutine_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine_stack.cpp b/src/vm/objects/coroutine_stack.cpp
index 1c73bb7..a425403 100644
--- a/src/vm/objects/coroutine_stack.cpp
+++ b/src/vm/objects/coroutine_stack.cpp
@@ -315,7 +315,7 @@ CoroutineStack::push_frame(u8 flags, u32 argc, u32 locals, Params&&... additiona
 void* CoroutineStack::allocate_frame(u32 frame_size, u32 locals) {
     Layout* data = layout();
     TIRO_DEBUG_ASSERT(data->top <= data->end, "invalid stack top");
-    TIRO_DEBUG_ASSERT(locals < max_locals, "too many locals");
+    TIRO_DEBUG_ASSERT(locals <= max_locals, "too many locals");
     TIRO_DEBUG_ASSERT(locals <= (std::numeric_limits<u32>::max() - frame_size) / sizeof(Value),
         "integer overflow in frame allocation");
 
-- 
2.43.0


From 40cb6462378373c3acf12c1eb8895c9fc536e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 28/41] fix: run all finalizers before releasing any heap
 storage

Finalizing an object reads the type of the object, which is stored on another
page. When the heap was destroyed, that page could already be released, e.g.
for large native objects, which crashed.
---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 6c28313..b91dd41 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -197,16 +197,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // All finalizers must run before any storage is released: finalizing an object
+    // accesses the object's type, which is stored on some other page.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From 58f64e1d70bf7c41e512335829d1257d34e480c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 29/41] fix: collect garbage before an allocation fails because
 of the heap limit

Large objects (and the first page) failed with an allocation error when the
limit was reached, although the heap consisted of unreachable objects.
---
 src/vm/heap/heap.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index b91dd41..88f3d02 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -223,7 +223,6 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 #endif
 
     // TODO: Improve the decision when the collector runs.
-    //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
     if (stats_.allocated_bytes >= collector_.next_threshold()) {
         collector_.collect(GcReason::Automatic);
@@ -235,9 +234,15 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     if (TIRO_UNLIKELY(bytes_request > max_cells * cell_size))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "object size too large");
 
+    auto exceeds_limit = [&](size_t bytes) { return bytes > max_size_ - stats_.total_bytes; };
+
     // Objects of large size get an allocation of their own.
     const u32 cells_request = ceil_div(bytes_request, cell_size);
     if (cells_request >= layout_.large_object_cells) {
+        // Run collector if the allocation would exceed the memory limit.
+        if (!collector_ran && exceeds_limit(LargeObject::dynamic_size(cells_request)))
+            collector_.collect(GcReason::AllocFailure);
+
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
         stats_.allocated_bytes += bytes_request;
@@ -251,7 +256,7 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     void* result = try_allocate();
 
     // Run collector if initial allocation fails.
-    if (!pages_.empty() && !result && !collector_ran) {
+    if (!result && !collector_ran && (!pages_.empty() || exceeds_limit(layout_.page_size))) {
         collector_.collect(GcReason::AllocFailure);
         collector_ran = true;
         result = try_allocate();
-- 
2.43.0


From b866a1df3bd1505a8a4702cf25b26e363b267a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 30/41] verification hooks: failing allocations

---
 src/api/vm.cpp       | 9 +++++++++
 src/vm/heap/heap.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/api/vm.cpp b/src/api/vm.cpp
index b6bd9fd..4c5f8f8 100644
--- a/src/api/vm.cpp
+++ b/src/api/vm.cpp
@@ -209,12 +209,21 @@ tiro_vm_t tiro_global_get_vm(tiro_handle_t global) {
 // Verification only: control over the garbage collector, see src/vm/heap/heap.cpp.
 extern unsigned long tiro_verif_gc_period;
 extern unsigned long tiro_verif_gc_counter;
+extern unsigned long tiro_verif_fail_countdown;
 
 extern "C" void tiro_verif_set_gc_period(unsigned long period) {
     tiro_verif_gc_period = period;
     tiro_verif_gc_counter = 0;
 }
 
+extern "C" void tiro_verif_fail_after(unsigned long count) {
+    tiro_verif_fail_countdown = count;
+}
+
+extern "C" unsigned long tiro_verif_fail_remaining() {
+    return tiro_verif_fail_countdown;
+}
+
 extern "C" void tiro_verif_collect(tiro_vm_t vm) {
     vm->ctx.heap().collector().collect(vm::GcReason::Automatic);
 }
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 88f3d02..44a5f63 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -16,6 +16,13 @@ unsigned long tiro_verif_gc_counter = 0;
 static bool tiro_verif_gc_due() {
     return tiro_verif_gc_period != 0 && ++tiro_verif_gc_counter % tiro_verif_gc_period == 0;
 }
+
+// Verification only: the n-th allocation from now fails as if the heap limit was reached (0: none).
+unsigned long tiro_verif_fail_countdown = 0;
+
+static bool tiro_verif_fail_due() {
+    return tiro_verif_fail_countdown != 0 && --tiro_verif_fail_countdown == 0;
+}
 #endif
 
 namespace tiro::vm {
@@ -220,6 +227,8 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 #ifdef TIRO_VERIF_HOOKS
     if (tiro_verif_gc_due())
         collector_.collect(GcReason::Automatic);
+    if (tiro_verif_fail_due())
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation failure requested");
 #endif
 
     // TODO: Improve the decision when the collector runs.
-- 
2.43.0


From 985750e476aa6e782a117de54c6dc1476777afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 31/41] fix: verify the index registers of load_index and
 store_index

---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From 148fa87d6fa6e34d6a285d7d963c4255065da09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 32/41] fix: verify that function and record schema references
 are in bounds

---
 src/vm/modules/verify.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5f3d8a0..27b67c3 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -272,6 +272,10 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
+    if (!module_.functions().in_bounds(f.id)) {
+        fail(fmt::format("function reference out of bounds (in member {})", id.value()));
+    }
+
     const auto& func = module_[f.id];
     if (auto name_id = func.name()) {
         const auto& name = check_reference(func.name(), id);
@@ -290,6 +294,10 @@ void ModuleVerifier::visit_record_schema(
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
+    if (!module_.records().in_bounds(r.id)) {
+        fail(fmt::format("record schema reference out of bounds (in member {})", id.value()));
+    }
+
     const auto& tmpl = module_[r.id];
     for (auto key_id : tmpl.keys()) {
         const auto& key = check_reference(key_id, id);
-- 
2.43.0


From 2d3c99ce32128b46b13101c50b955e87445caddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 33/41] fix: keep the existing callback of a coroutine when
 registering another one fails

---
 src/vm/context.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 1bf8abf..6ab59a0 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,6 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0


From 90213514d7857ba1bb7189d70ff7832c46354024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 34/41] fix: report invalid utf8 instead of failing with an
 internal error

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..df5b8eb 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -138,7 +138,8 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
     };
 
     if (auto res = validate_utf8(source); !res.ok) {
-        SyntaxTree tree(source);
+        // The tree of an empty file: later stages expect a valid root.
+        auto tree = parse({});
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
         return tree;
-- 
2.43.0


From cdf92358cbba7c11471ca9a918c8b5c73c2b6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 35/41] fix: do not abort when catch_panic is called with
 additional arguments

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 857a8d1..7cd6bf6 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1093,7 +1093,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From 5e693440c71cc13d16e4cb35309c52753ab4bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 36/41] fix: debug_repr of strings that are not valid utf8

---
 src/vm/builtins/dump.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vm/builtins/dump.cpp b/src/vm/builtins/dump.cpp
index 7c79999..db9b68d 100644
--- a/src/vm/builtins/dump.cpp
+++ b/src/vm/builtins/dump.cpp
@@ -97,8 +97,20 @@ struct EscapedString {
 
     void format(FormatStream& stream) const {
         stream.format("\"");
-        for (auto cp : CodePointRange(str)) {
-            format_escaped(cp, stream);
+        auto remaining = str;
+        while (!remaining.empty()) {
+            // Strings may contain arbitrary bytes
+            const auto [ok, error_offset] = validate_utf8(remaining);
+            const size_t valid = ok ? remaining.size() : error_offset;
+            for (auto cp : CodePointRange(remaining.substr(0, valid))) {
+                format_escaped(cp, stream);
+            }
+            remaining.remove_prefix(valid);
+
+            if (!remaining.empty()) {
+                stream.format("\\x{:02X}", static_cast<u8>(remaining.front()));
+                remaining.remove_prefix(1);
+            }
         }
         stream.format("\"");
     }
-- 
2.43.0


From d1bb0ed85c8bcb834a4e48ac23f66f0132420914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:36 +0000
Subject: [PATCH 37/41] fix: number coroutines, their default names were all
 the same

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 7cd6bf6..653a121 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -932,7 +932,7 @@ void Interpreter::init(Context& ctx) {
 Coroutine Interpreter::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> arguments) {
     Scope sc(ctx());
     Local stack = sc.local(CoroutineStack::make(ctx(), CoroutineStack::initial_size));
-    Local name = sc.local(String::format(ctx(), "Coroutine-{}", next_id_));
+    Local name = sc.local(String::format(ctx(), "Coroutine-{}", next_id_++));
     return Coroutine::make(ctx(), name, func, arguments, stack);
 }
 
-- 
2.43.0


From 715012aa49adf5550177aa8c5e389cd6173f1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:04 +0000
Subject: [PATCH 38/41] fix: round decimal float literals to the nearest value

---
 src/compiler/syntax/grammar/literals.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/grammar/literals.cpp b/src/compiler/syntax/grammar/literals.cpp
index ec685d7..2239cd6 100644
--- a/src/compiler/syntax/grammar/literals.cpp
+++ b/src/compiler/syntax/grammar/literals.cpp
@@ -4,6 +4,9 @@
 #include "common/text/code_point_range.hpp"
 
 #include <algorithm>
+#include <charconv>
+#include <iterator>
+#include <string>
 
 namespace tiro {
 
@@ -101,7 +104,6 @@ std::optional<i64> parse_integer_value(
     return {};
 }
 
-// TODO: Algorithm is not very correct nor fast
 std::optional<f64>
 parse_float_value(std::string_view float_source, FunctionRef<void(std::string_view)> error_sink) {
     const auto [base, has_explicit_base] = read_base(float_source);
@@ -160,6 +162,19 @@ parse_float_value(std::string_view float_source, FunctionRef<void(std::string_vi
         error_sink("expected at least one digit");
         return {};
     }
+
+    // The sum of the digits is exact for powers of two. Decimal literals must be rounded once,
+    // otherwise the result is not the closest representable value.
+    if (base == 10) {
+        std::string digits;
+        std::copy_if(float_source.begin(), float_source.end(), std::back_inserter(digits),
+            [](char c) { return c != '_'; });
+
+        f64 value = 0;
+        auto result = std::from_chars(digits.data(), digits.data() + digits.size(), value);
+        if (result.ec == std::errc())
+            return value;
+    }
     return int_value + frac_value;
 }
 
-- 
2.43.0


From 6d351ffc4f1cbb1018986bf97faf726889a75c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:47 +0000
Subject: [PATCH 39/41] fix: keep the sign of negative zero when constants are
 folded

---
 src/compiler/ir_gen/compile_value.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..74121c3 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -13,6 +14,16 @@ namespace tiro::ir {
 
 namespace {
 
+/// Positive and negative zero compare equal, i.e. they would share the same constant.
+/// The operations that result in negative zero are computed at runtime instead.
+bool is_negative_zero(const Constant& c) {
+    if (c.type() != ConstantType::Float)
+        return false;
+
+    const f64 value = c.as_float().value;
+    return value == 0 && std::signbit(value);
+}
+
 /// Takes a value and compiles it down to an instruction. Implements some
 /// ad-hoc peephole optimizations:
 ///
@@ -319,6 +330,8 @@ std::optional<Constant> ValueCompiler::try_eval_binary(BinaryOpType op, InstId l
         report("binary operation", result);
         return {};
     }
+    if (is_negative_zero(*result))
+        return {};
     return *result;
 }
 
@@ -332,6 +345,8 @@ std::optional<Constant> ValueCompiler::try_eval_unary(UnaryOpType op, InstId ope
         report("unary operation", result);
         return {};
     }
+    if (is_negative_zero(*result))
+        return {};
     return *result;
 }
 
-- 
2.43.0


From 886644d927f8e76fc52b1744199e1495907faefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:35 +0000
Subject: [PATCH 40/41] fix: do not destroy a coroutine callback twice if it
 cannot be registered

---
 include/tiropp/objects.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 62923ac..5bde273 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -810,9 +810,10 @@ public:
             in_place_t(), std::forward<Callback>(on_complete));
 
         detail::check_handles(raw_vm(), *this);
+
+        // The cleanup function is always invoked, i.e. even if the call itself fails.
         tiro_coroutine_set_callback(raw_vm(), raw_handle(), &wrapper_type::invoke,
-            &wrapper_type::cleanup, wrapper.get(), error_adapter());
-        wrapper.release();
+            &wrapper_type::cleanup, wrapper.release(), error_adapter());
     }
 
     /// Starts this coroutine's execution.
-- 
2.43.0


From 5c69b0d4cbf1d25dfa12890bf952fa673c113b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:45 +0000
Subject: [PATCH 41/41] fix: a compiler run aborted by the message callback
 must not provide a module

---
 src/api/compiler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/compiler.cpp b/src/api/compiler.cpp
index e1e52bb..0f7b9d2 100644
--- a/src/api/compiler.cpp
+++ b/src/api/compiler.cpp
@@ -170,6 +170,8 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
         comp->result = compiler.run();
         for (const auto& message : compiler.diag().messages()) {
             if (!report(comp, compiler, message)) {
+                // Only successful runs provide a module.
+                comp->result->module.reset();
                 return TIRO_REPORT(
                     err, TIRO_ERROR_BAD_STATE, [&] { return "fatal error in message callback"; });
             }
-- 
2.43.0

