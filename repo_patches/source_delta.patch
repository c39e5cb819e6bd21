From 8414efa406bea87dbfe1c6e0697a65dc1771f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 01/57] gc: add PSCM_SIM-guarded simulation seams (off by
 default)

---
 src/c/gc.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..8fe67dc 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -15,6 +15,14 @@
 #include <cstdlib>
 #include <cstring>
 
+#ifdef PSCM_SIM
+// Deterministic-simulation seams, compiled in only by the verification builds:
+// the simulator decides when a collection is due in addition to the normal
+// threshold, and is told about every block a sweep hands back.
+extern "C" bool pscm_sim_gc_due(size_t size);
+extern "C" void pscm_sim_reclaimed(int tag, void *obj, size_t size);
+#endif
+
 // =========================================================================
 // Constants
 // =========================================================================
@@ -218,6 +226,11 @@ void *gc_alloc(TypeTag tag, size_t size) {
   if (g_allocated_since_gc >= g_gc_threshold) {
     run_gc();
   }
+#ifdef PSCM_SIM
+  if (pscm_sim_gc_due(size)) {
+    run_gc();
+  }
+#endif
   g_allocated_since_gc += total_size;
 
   GCBlock *block = nullptr;
@@ -447,6 +460,9 @@ static void sweep_phase() {
         if (tag < GC_TYPE_COUNT && sweep_fns[tag]) {
           sweep_fns[tag](block);
         }
+#ifdef PSCM_SIM
+        pscm_sim_reclaimed(tag, block_to_obj(block), block->size);
+#endif
         free_to_list(block);
       }
 
-- 
2.43.0


From 9f132c2687a287e77c9e6ae5d0d413c7b95842e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 02/57] fix: never read a block header outside an allocated
 heap segment during the conservative scan

A stack word equal to the start of the heap, or pointing into a hole between
two segments, made the collector dereference unmapped memory.
---
 src/c/gc.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 8fe67dc..2dd3415 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -324,6 +324,19 @@ void gc_register_root(SCM **ptr, const char *name) {
 // Conservative root scanning
 // =========================================================================
 
+// True when a block header at ADDR lies inside the allocated part of some heap
+// segment.  A word found on the stack may equal g_heap_start itself (the header
+// would then lie below the heap) or point into a hole between two segments, so
+// the overall heap bounds alone do not make a header safe to read.
+static bool in_allocated_segment(uintptr_t addr) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (addr >= (uintptr_t)seg->start && addr + GC_HEADER_SIZE <= (uintptr_t)seg->bump) {
+      return true;
+    }
+  }
+  return false;
+}
+
 static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (!ptr) return;
   char *cptr = (char *)ptr;
@@ -335,6 +348,7 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
 
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
+  if (!in_allocated_segment(block_addr)) return;
 
   GCBlock *block = (GCBlock *)block_addr;
   if (block->gc_magic == GC_MAGIC) {
-- 
2.43.0


From e17b6b1756cd58d0f31e13ee382abe29a2ed2c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 03/57] fix: trace the captured registers and stack of a
 continuation

Objects reachable only through a saved continuation were reclaimed by a
collection between capture and re-entry.
---
 src/c/gc.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 2dd3415..4df07ad 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -105,6 +105,7 @@ static void trace_promise(GCBlock *, MarkStack *);
 static void trace_macro(GCBlock *, MarkStack *);
 static void trace_variable(GCBlock *, MarkStack *);
 static void trace_smob(GCBlock *, MarkStack *);
+static void mark_if_valid_block(void *ptr, MarkStack *stack);
 
 // =========================================================================
 // Helper: convert an arbitrary pointer to a GCBlock and push if valid
@@ -578,7 +579,19 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+
+  // The captured registers and C stack are what the continuation runs on once it
+  // is resumed, so whatever they point to is live.  Scan them conservatively,
+  // exactly like the active stack.
+  for (size_t i = 0; i + sizeof(void *) <= sizeof(cont->cont_jump_buffer); i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)((char *)&cont->cont_jump_buffer + i), stack);
+  }
+  if (cont->stack_data) {
+    void **words = (void **)cont->stack_data;
+    for (size_t i = 0; i < cont->stack_len; i++) {
+      mark_if_valid_block(words[i], stack);
+    }
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 427e69694ed53cf65ef727264c76548d525b578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 04/57] fix: leave a reclaimed vector or hash table with no
 elements to trace

---
 src/c/gc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 4df07ad..19800cd 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -729,6 +729,7 @@ static void sweep_vector(GCBlock *block) {
   if (vec->elements) {
     delete[] vec->elements;
     vec->elements = nullptr;
+    vec->length = 0; // a stale conservative root may still trace this block
   }
 }
 
@@ -738,6 +739,7 @@ static void sweep_hash(GCBlock *block) {
   if (ht->buckets) {
     free(ht->buckets);
     ht->buckets = nullptr;
+    ht->capacity = 0; // a stale conservative root may still trace this block
   }
 }
 
-- 
2.43.0


From 205e5479e32b77f961bc7546466db2131d467319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 05/57] fix: report heap exhaustion instead of using a null
 block

---
 src/c/gc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 19800cd..6864e53 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -185,9 +185,9 @@ static void *bump_allocate(size_t total_size) {
     }
 
     if (g_next_seg >= MAX_SEGMENTS) {
-      fprintf(stderr, "WARNING: gc heap segment pool exhausted (max %d), allocation failed\n", MAX_SEGMENTS);
+      fprintf(stderr, "FATAL: gc heap segment pool exhausted (max %d), allocation failed\n", MAX_SEGMENTS);
       fflush(stderr);
-      return nullptr;
+      abort();
     }
     HeapSegment *seg = &g_seg_pool[g_next_seg++];
     seg->start = (char *)mem;
-- 
2.43.0


From 48061fe4f428bf06366f2259d2f75778d42c767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/57] fix: do not let a re-entered continuation change an
 already returned argument or map list

---
 src/c/eval.cc | 19 ++++++++---
 src/c/map.cc  | 93 +++++++++++++++++++++------------------------------
 2 files changed, 52 insertions(+), 60 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..7a51031 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -18,16 +18,25 @@ SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM_List *eval_list_with_env(SCM_Environment *env, SCM_List *l) {
-  SCM_List dummy = make_list_dummy();
-  SCM_List *it = &dummy;
+  // Collect the values without ever modifying a list cell once it is built: a
+  // continuation captured by one of the expressions may be re-entered later, and
+  // must not change the list an earlier pass already returned.
+  SCM_List *reversed = nullptr;
   while (l) {
     auto val = eval_with_env(env, l->data);
     auto next = make_list(val);
-    it->next = next;
-    it = it->next;
+    next->next = reversed;
+    reversed = next;
     l = l->next;
   }
-  return dummy.next;
+  SCM_List *values = nullptr;
+  while (reversed) {
+    auto next = make_list(reversed->data);
+    next->next = values;
+    values = next;
+    reversed = reversed->next;
+  }
+  return values;
 }
 
 
diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..8aad7df 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -40,60 +40,46 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: first argument must be a procedure");
   }
   
-  // Collect all list arguments
-  SCM_List *list_args_head = l->next->next;
-  int num_lists = 0;
-  SCM_List *temp = list_args_head;
-  while (temp) {
-    num_lists++;
-    temp = temp->next;
-  }
-  
-  if (num_lists == 0) {
-    eval_error("map: requires at least one list argument");
-  }
-  
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
-  temp = list_args_head;
-  for (int i = 0; i < num_lists; i++) {
-    // Always evaluate list arguments
-    SCM *list_arg = eval_with_env(env, temp->data);
-    // Check if list_arg is a list
-    if (!is_pair(list_arg) && !is_nil(list_arg)) {
+  // Evaluate all list arguments.  The cursors live in a GC-managed list (they are
+  // the only reference to the lists while proc runs) and are replaced rather than
+  // advanced in place, so that a continuation captured in proc can be re-entered.
+  SCM_List *cursors = eval_list_with_env(env, l->next->next);
+  for (SCM_List *c = cursors; c; c = c->next) {
+    if (!is_pair(c->data) && !is_nil(c->data)) {
       eval_error("map: list arguments must be lists");
     }
-    list_ptrs[i] = is_nil(list_arg) ? nullptr : cast<SCM_List>(list_arg);
-    temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
+  // Results so far, last one first
+  SCM_List *results = nullptr;
   
   // Continue until the shortest list is exhausted
-  bool all_non_empty = true;
-  for (int i = 0; i < num_lists; i++) {
-    if (!list_ptrs[i]) {
-      all_non_empty = false;
-      break;
-    }
-  }
-  
-  while (all_non_empty) {
+  while (true) {
     // Collect one element from each list
     // Wrap each element in quote to prevent evaluation
     SCM_List args_dummy = make_list_dummy();
     SCM_List *args_tail = &args_dummy;
+    SCM_List rest_dummy = make_list_dummy();
+    SCM_List *rest_tail = &rest_dummy;
+    bool all_non_empty = true;
     
-    for (int i = 0; i < num_lists; i++) {
+    for (SCM_List *c = cursors; c; c = c->next) {
+      if (is_nil(c->data)) {
+        all_non_empty = false;
+        break;
+      }
+      SCM_List *cell = cast<SCM_List>(c->data);
       // Wrap element in (quote element) to prevent evaluation
-      SCM *quoted_elem = scm_list2(scm_sym_quote(), list_ptrs[i]->data);
-      SCM_List *node = make_list(quoted_elem);
-      args_tail->next = node;
-      args_tail = node;
-      list_ptrs[i] = list_ptrs[i]->next;
+      SCM *quoted_elem = scm_list2(scm_sym_quote(), cell->data);
+      args_tail->next = make_list(quoted_elem);
+      args_tail = args_tail->next;
+      rest_tail->next = make_list(cell->next ? wrap(cell->next) : scm_nil());
+      rest_tail = rest_tail->next;
+    }
+    if (!all_non_empty) {
+      break;
     }
+    cursors = rest_dummy.next;
     
     // Apply proc to collected arguments
     SCM *result;
@@ -113,23 +99,20 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     
     // Add result to result list
     SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
-    
-    // Check if all lists still have elements
-    all_non_empty = true;
-    for (int i = 0; i < num_lists; i++) {
-      if (!list_ptrs[i]) {
-        all_non_empty = false;
-        break;
-      }
-    }
+    node->next = results;
+    results = node;
   }
   
-  delete[] list_ptrs;
+  // Put the results in order
+  SCM_List *ordered = nullptr;
+  for (; results; results = results->next) {
+    SCM_List *node = make_list(results->data);
+    node->next = ordered;
+    ordered = node;
+  }
   
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (ordered) {
+    return wrap(ordered);
   }
   return scm_nil();
 }
-- 
2.43.0


From 2652a2dc71e3c26cb5d3d4fa9eb66be98f2f8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/57] fix: give every re-entry into an argument evaluation
 bindings of its own

---
 src/c/eval.cc      |  7 +++++--
 src/c/procedure.cc | 14 +++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 7a51031..bd4f7fb 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -682,8 +682,11 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    // Pass the values in a list of their own: l may be part of the program text.
+    SCM_List func_call = make_list_dummy();
+    func_call.data = l->data;
+    func_call.next = func_argl;
+    SCM *result = eval_with_func(func, &func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..00d2d12 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -97,12 +97,16 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
 
 // Helper function to apply procedure with arguments
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+  // Evaluate the arguments before there is an environment to bind them in: a
+  // continuation captured by one of them must get bindings of its own each time it
+  // is re-entered.
+  SCM_List *arg_values = eval_list_with_env(env, args);
   auto proc_env = make_env(proc->env);
   auto args_l = proc->args;
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
+  SCM_List *args_iter = arg_values; // Use separate iterator for the loop
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
@@ -145,7 +149,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
+      SCM *arg_val = args_iter->data;
       SCM_List *node = make_list(arg_val);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -179,7 +183,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -194,7 +198,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       SCM_List rest_args_dummy = make_list_dummy();
       SCM_List *rest_args_tail = &rest_args_dummy;
       while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
+        SCM *arg_val = args_iter->data;
         SCM_List *node = make_list(arg_val);
         rest_args_tail->next = node;
         rest_args_tail = node;
@@ -226,7 +230,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
-- 
2.43.0


From 7a80574d043b95dd281d7896e02378284a098aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/57] fix: pass already evaluated arguments of apply and
 scm_call_N as values

---
 src/c/apply.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..2ca2869 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -290,7 +290,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Quoted, like the elements of the last list, to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
-- 
2.43.0


From e334edc741453bedca542c6f822acd1455592283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 09/57] fix: keep pending do step values where the collector
 can see them

---
 src/c/do.cc | 47 +++++++++++++----------------------------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..7bfeac7 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -5,50 +5,30 @@
 // All update expressions are evaluated first (in parallel), then all variables are updated
 // This implements Scheme's parallel binding semantics for do loops
 void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
+  // The new values are collected in a GC-managed list, latest first.  It is their
+  // only reference, and it is never modified once built, so a continuation captured
+  // by an update expression can be re-entered.
+  SCM_List *updates = nullptr;
   
   // First pass: evaluate ALL update expressions BEFORE updating any variables
   // This ensures all update expressions see the old values of all variables
   // This is critical for correct parallel binding semantics
-  it = var_update_list;
+  auto it = var_update_list;
   while (it->next) {
     it = it->next;
     auto list_wrapped = it->data;
     if (!is_pair(list_wrapped)) {
       eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
       return;
     }
     // list_wrapped is (var_name var_update_step)
     auto var_update_expr = cast<SCM_List>(list_wrapped);
     if (!var_update_expr->next) {
       eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
       return;
     }
     if (!is_sym(var_update_expr->data)) {
       eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
       return;
     }
     auto var_name = cast<SCM_Symbol>(var_update_expr->data);
@@ -58,8 +38,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     // This ensures all update expressions see the old values of all variables
     auto new_var_val = eval_with_env(do_env, var_update_step);
     if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
+      // Evaluation error occurred
       return;
     }
     
@@ -70,19 +49,19 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
       print_ast(new_var_val);
       printf("\n");
     }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
+    auto update = make_list(wrap(var_name), new_var_val);
+    auto update_node = make_list(wrap(update));
+    update_node->next = updates;
+    updates = update_node;
   }
   
   // Second pass: update all variables with the pre-computed values
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+  for (; updates; updates = updates->next) {
+    auto update = cast<SCM_List>(updates->data);
+    scm_env_insert(do_env, cast<SCM_Symbol>(update->data), update->next->data);
   }
-  
-  delete[] updates;
 }
 
 // Helper function for do special form
-- 
2.43.0


From 763b06720a650ae657ee1ee81f940fb5718633df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 10/57] fix: run dynamic-wind guards innermost-out and
 outermost-in, each in its surrounding extent

---
 src/c/dynwind.cc | 127 ++++++++++++++---------------------------------
 1 file changed, 36 insertions(+), 91 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..00f58e8 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -24,86 +24,45 @@ SCM_List *copy_wind_chain(SCM_List *chain) {
   return new_chain;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+// Number of entries in a wind chain
+static int wind_chain_length(SCM_List *chain) {
+  int length = 0;
+  while (chain) {
+    length++;
+    chain = chain->next;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+  return length;
+}
+
+// Find the part two wind chains have in common.
+// The innermost entry comes first, so chains that share their outer extents share a
+// tail.  Entries are compared by their data pointer (the (in_guard . out_guard) pair).
+// Returns the common tail of chain1.
+SCM_List *find_common_tail(SCM_List *chain1, SCM_List *chain2) {
+  int length1 = wind_chain_length(chain1);
+  int length2 = wind_chain_length(chain2);
+  for (; length1 > length2; length1--) {
+    chain1 = chain1->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
+  for (; length2 > length1; length2--) {
+    chain2 = chain2->next;
   }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  while (chain1 && chain1->data != chain2->data) {
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  return common;
+  return chain1;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
+// Unwind wind chain: call out_guard for each entry that is not part of target,
+// innermost first.  Each guard runs in the dynamic extent that surrounds its entry.
+// Returns the common tail
 SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
+  int common_length = wind_chain_length(find_common_tail(g_wind_chain, target));
   
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
+  while (wind_chain_length(g_wind_chain) > common_length) {
+    SCM *entry = g_wind_chain->data;
+    g_wind_chain = g_wind_chain->next;
     if (is_pair(entry)) {
       SCM_List *pair = cast<SCM_List>(entry);
       if (pair->next && pair->next->data) {
@@ -115,36 +74,22 @@ SCM_List *unwind_wind_chain(SCM_List *target) {
         }
       }
     }
-    to_unwind = to_unwind->next;
   }
   
-  // Update wind chain to common prefix
-  g_wind_chain = common;
-  return common;
+  return g_wind_chain;
 }
 
 // Rewind wind chain: call in_guard for each entry from common to target
 void rewind_wind_chain(SCM_List *common, SCM_List *target) {
   // Build list of entries to rewind (from target, excluding common)
   SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
   
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
+  // The common entries are the last ones of target
+  SCM_List *c = target;
+  int rewind_count = wind_chain_length(target) - wind_chain_length(common);
   
   // Collect entries to rewind (in reverse order)
-  while (c) {
+  while (rewind_count-- > 0) {
     auto new_entry = make_list(c->data);
     new_entry->next = to_rewind;
     to_rewind = new_entry;
-- 
2.43.0


From 66b83a3889f3bb48e8c73cb0913ae7f9e90e59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 11/57] fix: record the size a large block really occupies, so
 that the sweep finds the next one

---
 src/c/gc.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 6864e53..4f135e5 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -273,9 +273,11 @@ void *gc_alloc(TypeTag tag, size_t size) {
     }
 
     if (!block) {
-      // No suitable free block -- bump-allocate fresh.
-      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + size);
-      block->size = size;
+      // No suitable free block -- bump-allocate fresh.  Blocks are laid out in
+      // 16-byte units, and the sweep finds the next header by the size field.
+      size_t aligned_size = (size + 15) & ~(size_t)15;
+      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + aligned_size);
+      block->size = aligned_size;
     } else {
       // Use the block as-is with its original size.  The sequential
       // layout during sweep depends on each block's size field
-- 
2.43.0


From 9c60babc2ff575d4f5cc11239204d0d0a6039ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 12/57] fix: leave dynamic-winds, inner catches and the module
 when a throw or continuation leaves them

---
 src/c/continuation.cc |  5 ++++
 src/c/dynwind.cc      |  2 ++
 src/c/pscm_types.h    |  1 +
 src/c/throw.cc        | 62 ++++++++++++++++++++++++++++++++-----------
 src/c/throw.h         |  7 +++++
 5 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..726251c 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -51,6 +52,9 @@ SCM *scm_make_continuation(int *first) {
   // Save current wind chain
   cont->wind_chain = copy_wind_chain(g_wind_chain);
   
+  // Save active catches
+  cont->catches = scm_active_catches();
+  
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
   
@@ -59,6 +63,7 @@ SCM *scm_make_continuation(int *first) {
     return data;
   }
   else {
+    scm_set_active_catches(cont->catches);
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 00f58e8..25d50cc 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -63,6 +64,7 @@ SCM_List *unwind_wind_chain(SCM_List *target) {
   while (wind_chain_length(g_wind_chain) > common_length) {
     SCM *entry = g_wind_chain->data;
     g_wind_chain = g_wind_chain->next;
+    scm_leave_inner_catches();
     if (is_pair(entry)) {
       SCM_List *pair = cast<SCM_List>(entry);
       if (pair->next && pair->next->data) {
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..bcff7f9 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  struct catch_info *catches; // Catches active when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..c5fb112 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,9 +9,12 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
+// Innermost active catch (shared between scm_c_catch and scm_throw).  The entries
+// live on the C stack, so a continuation saves and restores them along with it.
+static struct catch_info *g_catch_top = nullptr;
+
+// The wind chain functions are in dynwind.cc
+SCM_List *unwind_wind_chain(SCM_List *target);
 
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
@@ -27,8 +30,35 @@ struct catch_info {
   struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  SCM_List *wind_chain;   // Wind chain the catch was entered with
+  struct catch_info *outer;  // Next outer catch
 };
 
+// Catches active at this point, for a continuation to save and to restore
+struct catch_info *scm_active_catches() {
+  return g_catch_top;
+}
+
+void scm_set_active_catches(struct catch_info *catches) {
+  g_catch_top = catches;
+}
+
+static int wind_depth(SCM_List *chain) {
+  int depth = 0;
+  for (; chain; chain = chain->next) {
+    depth++;
+  }
+  return depth;
+}
+
+// Leave every catch that was entered inside a dynamic-wind that is no longer active
+void scm_leave_inner_catches() {
+  int depth = wind_depth(g_wind_chain);
+  while (g_catch_top && wind_depth(g_catch_top->wind_chain) > depth) {
+    g_catch_top = g_catch_top->outer;
+  }
+}
+
 // Structure to hold lazy catch handler information
 struct lazy_catch_data {
   SCM *tag;
@@ -98,18 +128,20 @@ SCM *scm_c_catch(SCM *tag,
   // Actually, let's use a different approach: store catch_info in the wind chain
   // by creating a special marker. We can use a special symbol or a special list structure.
   
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
+  info.wind_chain = g_wind_chain;
+  info.outer = g_catch_top;
+  SCM *saved_module = scm_current_module();
 
   // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
+  g_catch_top = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
+    g_catch_top = info.outer;  // Pop from stack, with every catch inside this one
+    if (saved_module) {
+      scm_set_current_module(saved_module);
+    }
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -124,7 +156,7 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top--;
+    g_catch_top = info.outer;
     
     return result;
   }
@@ -174,11 +206,11 @@ SCM *scm_throw(SCM *key, SCM *args) {
   
   // Then, find matching catch in the catch stack (normal catch with stack unwinding)
   // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
+  for (struct catch_info *info = g_catch_top; info; info = info->outer) {
+    if (info->jbr && info->jbr->active && tags_match(info->tag, key)) {
+      // Found matching catch - leave the dynamic-winds entered inside it, set throw
+      // info and jump
+      unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..0ae695c 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -16,6 +16,13 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data);
 
+// Active catches: saved by and restored with a continuation
+struct catch_info *scm_active_catches();
+void scm_set_active_catches(struct catch_info *catches);
+
+// Leave every catch that was entered inside a dynamic-wind that is no longer active
+void scm_leave_inner_catches();
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From 272010f44fbac4e1e94b8d376c4b772dac647227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 13/57] fix: report write, flush and close failures on file
 output ports

---
 src/c/port.cc   | 17 ++++++++++++-----
 src/c/string.cc |  8 ++++----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..df6720f 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -171,8 +171,15 @@ SCM *scm_c_close_output_port(SCM *port) {
       call_soft_port_thunk(close_proc);
     }
   } else if (p->file) {
-    fclose(p->file);
+    // Written data may still be buffered, so the close itself can fail.
+    FILE *file = p->file;
+    bool failed = ferror(file) != 0;
     p->file = nullptr;
+    p->is_closed = true;
+    if (fclose(file) != 0 || failed) {
+      eval_error("close-output-port: write error on output port");
+      return nullptr;
+    }
   } else if (p->output_buffer) {
     // For string output ports, buffer is kept for get-output-string
   }
@@ -351,8 +358,8 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
+    if (port->file && fputc((unsigned char)ch, port->file) == EOF) {
+      eval_error("write error on output port");
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
     if (port->output_len + 1 >= port->output_capacity) {
@@ -396,8 +403,8 @@ static void flush_port(SCM_Port *port) {
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fflush(port->file);
+    if (port->file && fflush(port->file) != 0) {
+      eval_error("force-output: write error on output port");
     }
   } else if (port->port_type == PORT_SOFT && !port->is_input) {
     // Call procedure at index 2 (flush output thunk)
diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..dc10db5 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -124,8 +124,8 @@ static void write_string_to_port(SCM_Port *port, const char *str) {
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputs(str, port->file);
+    if (port->file && fputs(str, port->file) == EOF) {
+      eval_error("write error on output port");
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
     int len = strlen(str);
@@ -146,8 +146,8 @@ static void write_char_to_port_string(SCM_Port *port, char ch) {
   }
   
   if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
+    if (port->file && fputc((unsigned char)ch, port->file) == EOF) {
+      eval_error("write error on output port");
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
     if (port->output_len + 1 >= port->output_capacity) {
-- 
2.43.0


From 06949214d99f92ee35e05af3de9da2b6a986b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 14/57] fix: do not send display and write for a port to stdout
 when no temporary file can be made

---
 src/c/string.cc | 89 ++++++++++++++++---------------------------------
 1 file changed, 29 insertions(+), 60 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index dc10db5..81ca16e 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -159,6 +159,33 @@ static void write_char_to_port_string(SCM_Port *port, char ch) {
   }
 }
 
+// Print obj into memory, then hand the text to the port. A failure is reported
+// before anything reaches the port or the real stdout.
+static void print_ast_to_port(SCM_Port *port, SCM *obj, bool write_mode) {
+  char *buffer = nullptr;
+  size_t size = 0;
+  FILE *mem = open_memstream(&buffer, &size);
+  if (!mem) {
+    eval_error("%s: memory allocation failed", write_mode ? "write" : "display");
+    return;
+  }
+  FILE *old_stdout = stdout;
+  stdout = mem;
+  print_ast(obj, write_mode);
+  stdout = old_stdout;
+  bool failed = fflush(mem) != 0 || ferror(mem);
+  fclose(mem);
+  if (failed) {
+    free(buffer);
+    eval_error("%s: memory allocation failed", write_mode ? "write" : "display");
+    return;
+  }
+  // The port may leave by a throw, so the text lives in a collected string.
+  SCM *text = scm_from_c_string(buffer, (int)size);
+  free(buffer);
+  write_string_to_port(port, cast<SCM_String>(text)->data);
+}
+
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
 SCM *scm_c_display(SCM_List *args) {
@@ -183,36 +210,7 @@ SCM *scm_c_display(SCM_List *args) {
       eval_error("display: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, false);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, false);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("display: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    print_ast_to_port(port, obj, false);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
   }
@@ -243,36 +241,7 @@ SCM *scm_c_write(SCM_List *args) {
       eval_error("write: expected output port");
       return nullptr;
     }
-    FILE *old_stdout = stdout;
-    FILE *tmp_file = tmpfile();
-    if (!tmp_file) {
-      print_ast(obj, true);
-      return scm_none();
-    }
-    stdout = tmp_file;
-    print_ast(obj, true);
-    fflush(tmp_file);
-    long file_size = ftell(tmp_file);
-    rewind(tmp_file);
-    size_t buf_size = (file_size > 0) ? (size_t)file_size + 1 : 4096;
-    char *buffer = (char *)malloc(buf_size);
-    if (!buffer) {
-      stdout = old_stdout;
-      fclose(tmp_file);
-      eval_error("write: memory allocation failed");
-      return nullptr;
-    }
-    size_t total = 0;
-    while (total < buf_size - 1) {
-      size_t n = fread(buffer + total, 1, buf_size - 1 - total, tmp_file);
-      if (n == 0) break;
-      total += n;
-    }
-    buffer[total] = '\0';
-    stdout = old_stdout;
-    fclose(tmp_file);
-    write_string_to_port(port, buffer);
-    free(buffer);
+    print_ast_to_port(port, obj, true);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
   }
-- 
2.43.0


From 6a27be56f83e8324376388a4a1ec6a4ff6619c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 15/57] fix: deliver display, write and newline to soft output
 ports

---
 src/c/port.cc   | 62 ++++++++++++++++++++++++++++++++-----------------
 src/c/string.cc | 45 ++++++++++++++++-------------------
 2 files changed, 61 insertions(+), 46 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index df6720f..5237bca 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -39,6 +39,30 @@ static SCM *call_soft_port_thunk(SCM *proc) {
   return nullptr;
 }
 
+// Helper function to call a soft port procedure with one (self-evaluating) argument
+// Returns false if there is no such procedure
+static bool call_soft_port_procedure(SCM *proc, SCM *arg) {
+  SCM_List proc_args;
+  proc_args.data = arg;
+  proc_args.next = nullptr;
+  proc_args.is_dotted = false;
+  if (proc && is_proc(proc)) {
+    SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
+    apply_procedure(g_env.parent ? g_env.parent : &g_env, proc_obj, &proc_args);
+    return true;
+  }
+  if (proc && is_func(proc)) {
+    SCM_Function *func = cast<SCM_Function>(proc);
+    SCM_List func_call;
+    func_call.data = proc;
+    func_call.next = &proc_args;
+    func_call.is_dotted = false;
+    eval_with_func(func, &func_call);
+    return true;
+  }
+  return false;
+}
+
 // EOF object singleton
 static SCM *g_eof_object = nullptr;
 
@@ -368,31 +392,27 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT) {
     // Call procedure at index 0 (accept one character for output)
     if (!port->soft_procedures || port->soft_procedures->length < 1) {
       return;
     }
-    SCM *write_char_proc = port->soft_procedures->elements[0];
-    if (!write_char_proc || is_falsy(write_char_proc)) {
-      return;
-    }
-    // Call the procedure with the character
-    SCM *char_obj = scm_from_char(ch);
-    SCM_List proc_args;
-    proc_args.data = char_obj;
-    proc_args.next = nullptr;
-    proc_args.is_dotted = false;
-    if (is_proc(write_char_proc)) {
-      SCM_Procedure *proc = cast<SCM_Procedure>(write_char_proc);
-      apply_procedure(g_env.parent ? g_env.parent : &g_env, proc, &proc_args);
-    } else if (is_func(write_char_proc)) {
-      SCM_Function *func = cast<SCM_Function>(write_char_proc);
-      SCM_List func_call;
-      func_call.data = write_char_proc;
-      func_call.next = &proc_args;
-      eval_with_func(func, &func_call);
-    }
+    call_soft_port_procedure(port->soft_procedures->elements[0], scm_from_char(ch));
+  }
+}
+
+// Helper function to write a string to a soft port (used by string.cc)
+void write_string_to_soft_port(SCM_Port *port, SCM *text) {
+  // Call procedure at index 1 (accept a string for output), or else the
+  // character procedure for every character
+  if (!port->soft_procedures || port->soft_procedures->length < 2) {
+    return;
+  }
+  if (call_soft_port_procedure(port->soft_procedures->elements[1], text)) {
+    return;
+  }
+  for (int i = 0; i < cast<SCM_String>(text)->len; i++) {
+    write_char_to_port_string(port, cast<SCM_String>(text)->data[i]);
   }
 }
 
diff --git a/src/c/string.cc b/src/c/string.cc
index 81ca16e..3555dd9 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -117,12 +117,25 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
+// Defined in port.cc
+void write_char_to_port_string(SCM_Port *port, char ch);
+void write_string_to_soft_port(SCM_Port *port, SCM *text);
+
+// A soft port made with both modes is an input port that also takes output.
+static bool port_accepts_output(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'w') != nullptr;
+  }
+  return !port->is_input;
+}
+
 // Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
+static void write_string_to_port(SCM_Port *port, SCM *text) {
   if (!port || port->is_closed) {
     return;
   }
   
+  const char *str = cast<SCM_String>(text)->data;
   if (port->port_type == PORT_FILE_OUTPUT) {
     if (port->file && fputs(str, port->file) == EOF) {
       eval_error("write error on output port");
@@ -136,26 +149,8 @@ static void write_string_to_port(SCM_Port *port, const char *str) {
     memcpy(port->output_buffer + port->output_len, str, len);
     port->output_len += len;
     port->output_buffer[port->output_len] = '\0';
-  }
-}
-
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file && fputc((unsigned char)ch, port->file) == EOF) {
-      eval_error("write error on output port");
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
+  } else if (port->port_type == PORT_SOFT) {
+    write_string_to_soft_port(port, text);
   }
 }
 
@@ -183,7 +178,7 @@ static void print_ast_to_port(SCM_Port *port, SCM *obj, bool write_mode) {
   // The port may leave by a throw, so the text lives in a collected string.
   SCM *text = scm_from_c_string(buffer, (int)size);
   free(buffer);
-  write_string_to_port(port, cast<SCM_String>(text)->data);
+  write_string_to_port(port, text);
 }
 
 // display: Output the argument using display format (without quotes for strings)
@@ -206,7 +201,7 @@ SCM *scm_c_display(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_accepts_output(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
@@ -237,7 +232,7 @@ SCM *scm_c_write(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_accepts_output(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
@@ -261,7 +256,7 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!port_accepts_output(port)) {
       eval_error("newline: expected output port");
       return nullptr;
     }
-- 
2.43.0


From 720e3bf5553779cbe73ca5816e301c1946c6a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 16/57] fix: report a failed read on an input port instead of
 end of file

---
 src/c/port.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index 5237bca..f8d7c0c 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -289,6 +289,15 @@ SCM *scm_c_get_output_string(SCM *port) {
   return scm_from_c_string_port(p->output_buffer, p->output_len);
 }
 
+// An EOF from stdio is either the end of the file or a failed read, which must
+// not pass for a short file
+static void check_read_error(SCM_Port *port, int ch) {
+  if (ch == EOF && ferror(port->file)) {
+    clearerr(port->file);
+    eval_error("read error on input port");
+  }
+}
+
 // Helper function to read a character from a port
 static int read_char_from_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -299,7 +308,9 @@ static int read_char_from_port(SCM_Port *port) {
     if (!port->file) {
       return EOF;
     }
-    return fgetc(port->file);
+    int ch = fgetc(port->file);
+    check_read_error(port, ch);
+    return ch;
   } else if (port->port_type == PORT_STRING_INPUT) {
     if (port->string_pos >= port->string_len) {
       return EOF;
@@ -364,6 +375,7 @@ static int peek_char_from_port(SCM_Port *port) {
     if (ch != EOF) {
       ungetc(ch, port->file);
     }
+    check_read_error(port, ch);
     return ch;
   } else if (port->port_type == PORT_STRING_INPUT) {
     if (port->string_pos >= port->string_len) {
-- 
2.43.0


From f72ec81701287090574b0453cb1b4fbc86aae478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 17/57] fix: read expressions longer than 4095 characters from
 a port

---
 src/c/port.cc | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index f8d7c0c..2f1927f 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -602,14 +602,12 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     return scm_eof_object();
   }
   
-  // Build a buffer with the expression
-  // Use dynamic allocation for large expressions
-  size_t buffer_size = 4096;
-  char *buffer = (char *)malloc(buffer_size);
-  if (!buffer) {
-    eval_error("read: out of memory");
-    return scm_eof_object();
-  }
+  // Build a buffer with the expression. It is a collected string, so that it
+  // goes away with this call even when the port leaves by a throw.
+  int buffer_size = 4096;
+  SCM_String *text = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
+  text->data = new char[buffer_size];
+  text->len = 0;
   int pos = 0;
   int paren_depth = 0;
   bool in_string = false;
@@ -661,30 +659,26 @@ static SCM *read_expr_from_port(SCM_Port *port) {
   }
   
   // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
+  while (true) {
     int ch = read_char_from_port(port);
     if (ch == EOF) {
       if (paren_depth == 0 && !in_string) {
         break;
       }
       // Incomplete expression
-      free(buffer);
       return scm_eof_object();
     }
     
     // Resize buffer if needed
-    if (pos >= (int)buffer_size - 1) {
+    if (pos >= buffer_size - 1) {
+      char *larger = new char[buffer_size * 2];
+      memcpy(larger, text->data, pos);
+      delete[] text->data;
+      text->data = larger;
       buffer_size *= 2;
-      char *new_buffer = (char *)realloc(buffer, buffer_size);
-      if (!new_buffer) {
-        free(buffer);
-        eval_error("read: out of memory");
-        return scm_eof_object();
-      }
-      buffer = new_buffer;
     }
     
-    buffer[pos++] = (char)ch;
+    text->data[pos++] = (char)ch;
     
     if (escaped) {
       escaped = false;
@@ -724,14 +718,11 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     }
   }
   
-  buffer[pos] = '\0';
-  
-  // Parse the expression
-  SCM *result = parse(buffer);
-  
-  // Free the buffer
-  free(buffer);
+  text->data[pos] = '\0';
   
+  // Parse the expression; the text stays in use until the parser is done
+  SCM *result = parse(text->data);
+  text->len = pos;
   return result;
 }
 
-- 
2.43.0


From 25bf187042d0f50f02bbd89734ae714973ea186d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 18/57] fix: peek-char and read on a soft input port

---
 src/c/port.cc      | 10 ++++++++++
 src/c/pscm_types.h |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/c/port.cc b/src/c/port.cc
index 2f1927f..5f11309 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -317,6 +317,11 @@ static int read_char_from_port(SCM_Port *port) {
     }
     return (unsigned char)port->string_data[port->string_pos++];
   } else if (port->port_type == PORT_SOFT && port->is_input) {
+    if (port->soft_peeked != EOF) {
+      int ch = port->soft_peeked;
+      port->soft_peeked = EOF;
+      return ch;
+    }
     // Call procedure at index 3 (get one character)
     if (!port->soft_procedures || port->soft_procedures->length < 4) {
       return EOF;
@@ -382,6 +387,10 @@ static int peek_char_from_port(SCM_Port *port) {
       return EOF;
     }
     return (unsigned char)port->string_data[port->string_pos];
+  } else if (port->port_type == PORT_SOFT) {
+    int ch = read_char_from_port(port);
+    port->soft_peeked = ch;
+    return ch;
   }
   
   return EOF;
@@ -1193,6 +1202,7 @@ SCM *scm_c_make_soft_port(SCM_List *args) {
   port->output_buffer = nullptr;
   port->output_len = 0;
   port->output_capacity = 0;
+  port->soft_peeked = EOF;
   port->soft_procedures = pv;  // Store reference to the vector
   // Store modes string for checking read/write capabilities
   port->soft_modes = (char*)malloc(modes->len + 1);
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index bcff7f9..7050215 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -163,6 +163,7 @@ struct SCM_Port {
   // [5] = (optional) thunk for computing number of characters available
   SCM_Vector *soft_procedures;  // Vector of procedures for soft port
   char *soft_modes;              // Modes string for soft port ("r", "w", "rw")
+  int soft_peeked;               // Character peeked from a soft port, or EOF
 };
 
 struct SCM_Environment {
-- 
2.43.0


From 3b455f7bb0c9623d2b2b901524c2a859857de68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 19/57] fix: report a file that cannot be read instead of
 evaluating its beginning

---
 src/c/parse.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..39b63b5 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1396,15 +1396,28 @@ static char *read_file_content(const char *filename) {
   }
   
   // Get file size
-  fseek(f, 0, SEEK_END);
-  long size = ftell(f);
-  fseek(f, 0, SEEK_SET);
+  long size = -1;
+  if (fseek(f, 0, SEEK_END) == 0) {
+    size = ftell(f);
+  }
+  if (size < 0 || fseek(f, 0, SEEK_SET) != 0) {
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    fclose(f);
+    return nullptr;
+  }
   
   // Allocate buffer
   char *buffer = new char[size + 1];
   size_t read = fread(buffer, 1, size, f);
   buffer[read] = '\0';
+  bool failed = ferror(f) != 0;
   fclose(f);
+  if (failed) {
+    // Do not hand out the beginning of a file that could not be read
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    delete[] buffer;
+    return nullptr;
+  }
   
   return buffer;
 }
-- 
2.43.0


From 63920566beb35033ef417591caa1e87e9f3c0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 20/57] fix: forget a module whose file fails to load, and keep
 its path through re-entry

---
 src/c/module.cc | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..88d3db0 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -9,6 +10,9 @@ static SCM *g_current_module = nullptr;
 // when the binder body triggers symbol lookup in the same module
 static bool g_in_binder_call = false;
 
+// Defined in hash_table.cc
+SCM *scm_c_hash_remove_equal(SCM *table, SCM *key);
+
 // Module registry: module name -> module object
 static SCM_HashTable *g_module_registry = nullptr;
 
@@ -293,6 +297,24 @@ static bool file_exists(const char *path) {
   return false;
 }
 
+// The load of one module file, run under a catch
+struct module_load {
+  SCM *path;
+  SCM_Environment *env;
+  SCM_List *name;
+};
+
+static SCM *load_module_body(void *data) {
+  struct module_load *load = (struct module_load *)data;
+  return scm_c_primitive_load_with_env(cast<SCM_String>(load->path)->data, load->env);
+}
+
+static SCM *load_module_failed(void *data, SCM *tag, SCM *args) {
+  struct module_load *load = (struct module_load *)data;
+  scm_c_hash_remove_equal(wrap(g_module_registry), wrap(load->name));
+  return scm_throw(tag, args);
+}
+
 // Resolve module name, return module object
 SCM *scm_resolve_module(SCM_List *name) {
   // Initialize registry if needed
@@ -413,16 +435,19 @@ SCM *scm_resolve_module(SCM_List *name) {
     // to decide where to insert bindings).
     scm_set_current_module(module);
 
-    // Load and evaluate file in module-aware environment
-    scm_c_primitive_load_with_env(found_path, module_env);
+    // Load and evaluate file in module-aware environment. A module whose file
+    // fails to load is forgotten, so that the next resolve starts over instead
+    // of finding a half-loaded module.
+    // The load may be left and re-entered through a continuation, so the path
+    // is a collected string.
+    struct module_load load = { scm_from_c_string(full_path, (int)strlen(full_path)), module_env, name };
+    free(full_path);
+    scm_c_catch(scm_bool_true(), load_module_body, &load, load_module_failed, &load);
 
     // Restore current module
     scm_set_current_module(old_module);
-
-    if (full_path) {
-      free(full_path);
-    }
   } else {
+    free(full_path);
     // File not found: warn if module was just created (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
     if (!module_exists) {
-- 
2.43.0


From e6d2edf9162f87352627c48fca30dbbb4bfae018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 21/57] fix: try an autoload again after its module failed to
 load

---
 src/c/module.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 88d3db0..01b6775 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -91,6 +91,25 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// The load of one autoload target, run under a catch
+struct autoload {
+  SCM_Module *module;
+  SCM *spec;
+  SCM_List *name;
+};
+
+static SCM *autoload_body(void *data) {
+  return scm_resolve_module(((struct autoload *)data)->name);
+}
+
+static SCM *autoload_failed(void *data, SCM *tag, SCM *args) {
+  struct autoload *load = (struct autoload *)data;
+  SCM_List *node = make_list(load->spec);
+  node->next = load->module->autoload_specs;
+  load->module->autoload_specs = node;
+  return scm_throw(tag, args);
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -166,8 +185,10 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
             } else {
               module->autoload_specs = specs->next;
             }
-            // Load the module and re-search
-            SCM *mod_scm = scm_resolve_module(mod_name);
+            // Load the module and re-search. When the load fails, the spec is
+            // put back, so that a later reference tries again.
+            struct autoload load = { module, spec, mod_name };
+            SCM *mod_scm = scm_c_catch(scm_bool_true(), autoload_body, &load, autoload_failed, &load);
             if (mod_scm && is_module(mod_scm)) {
               // Add loaded module to current module's uses
               SCM_Module *loaded = cast<SCM_Module>(mod_scm);
-- 
2.43.0


From cc3153908241ae9ef1232a57333be562a0b8e1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 22/57] fix: keep consulting a module binder after a throw or
 continuation left it

---
 src/c/continuation.cc | 2 ++
 src/c/module.cc       | 5 +++++
 src/c/pscm.h          | 2 ++
 src/c/pscm_types.h    | 1 +
 src/c/throw.cc        | 2 ++
 5 files changed, 12 insertions(+)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 726251c..7c464e3 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -57,6 +57,7 @@ SCM *scm_make_continuation(int *first) {
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
+  cont->in_binder_call = scm_in_binder_call();
   
   *first = !setjmp(cont->cont_jump_buffer);
   if (*first) {
@@ -68,6 +69,7 @@ SCM *scm_make_continuation(int *first) {
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
     }
+    scm_set_in_binder_call(cont->in_binder_call);
     auto ret = cont->arg;
     return ret;
   }
diff --git a/src/c/module.cc b/src/c/module.cc
index 01b6775..21bcf27 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -10,6 +10,11 @@ static SCM *g_current_module = nullptr;
 // when the binder body triggers symbol lookup in the same module
 static bool g_in_binder_call = false;
 
+// The guard belongs to the dynamic extent of the binder call: a throw or a
+// continuation that leaves the extent restores it (throw.cc, continuation.cc)
+bool scm_in_binder_call() { return g_in_binder_call; }
+void scm_set_in_binder_call(bool in_call) { g_in_binder_call = in_call; }
+
 // Defined in hash_table.cc
 SCM *scm_c_hash_remove_equal(SCM *table, SCM *key);
 
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..4b79769 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1019,6 +1019,8 @@ SCM *scm_c_hash_get_handle_equal(SCM *table, SCM *key);
 SCM *scm_make_module(SCM_List *name, int obarray_size);
 SCM *scm_current_module();
 SCM *scm_set_current_module(SCM *module);
+bool scm_in_binder_call();
+void scm_set_in_binder_call(bool in_call);
 SCM *scm_module_variable(SCM_Module *module, SCM_Symbol *sym, bool definep);
 SCM *scm_resolve_module(SCM_List *name);
 void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 7050215..e17f9d6 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  bool in_binder_call;  // Whether a module binder was running at that time
   struct catch_info *catches; // Catches active when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
diff --git a/src/c/throw.cc b/src/c/throw.cc
index c5fb112..676b449 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -131,6 +131,7 @@ SCM *scm_c_catch(SCM *tag,
   info.wind_chain = g_wind_chain;
   info.outer = g_catch_top;
   SCM *saved_module = scm_current_module();
+  bool saved_in_binder_call = scm_in_binder_call();
 
   // Push catch_info onto stack
   g_catch_top = &info;
@@ -142,6 +143,7 @@ SCM *scm_c_catch(SCM *tag,
     if (saved_module) {
       scm_set_current_module(saved_module);
     }
+    scm_set_in_binder_call(saved_in_binder_call);
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
-- 
2.43.0


From 0c04c8dbf4c5a552b06dcddb4e2ef5b9bbb374bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 23/57] fix: return NULL from pscm_parse_file on a parse error
 instead of ending the host

---
 src/c/pscm_api.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..2502dbf 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -106,7 +106,15 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  // The catch passes the expression list through as an opaque pointer
+  return (SCM_List *)scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        return (SCM *)parse_file((const char *)data);
+      },
+      (void *)filename,
+      scm_api_catch_handler,
+      nullptr);
 }
 
 // Get the global environment
-- 
2.43.0


From d18bc1aebbea042313c855bd04fc57877e1cedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 24/57] fix: drop the parse context when a parse error leaves
 the parser

---
 src/c/parse.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 39b63b5..1ed4a9a 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -253,6 +253,12 @@ static void parse_error(Parser *p, const char *msg) {
     }
   }
   
+  // The error leaves the parser: its frames point into an input that need not
+  // outlive it
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+  
   fflush(stderr);
   eval_error("Parse error: %s", msg);
 }
-- 
2.43.0


From 7a3df6f1f0d37d9e569a7b19a70b783bfe3d416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 25/57] fix: raise a type error for a non-number operand
 instead of aborting

---
 src/c/number.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..f345941 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -103,8 +103,14 @@ struct BinaryOperator {
       }
     } else {
       // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
+      if (!is_num(lhs)) {
+        type_error(lhs, "number");
+        return nullptr;
+      }
+      if (!is_num(rhs)) {
+        type_error(rhs, "number");
+        return nullptr;
+      }
       int64_t n_lhs = (int64_t)lhs->value;
       int64_t n_rhs = (int64_t)rhs->value;
       auto ret = Op::run(n_lhs, n_rhs);
@@ -492,7 +498,10 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (!is_num(arg)) {
+    type_error(arg, "number");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
@@ -742,8 +751,10 @@ SCM *scm_c_min(SCM_List *args) {
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  if (!is_num(base) || !is_num(exp)) {
+    type_error(is_num(base) ? exp : base, "number");
+    return nullptr;
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
-- 
2.43.0


From b13a2a2a0b2180d6b9a13a4fb5f80b5410161e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 26/57] fix: pass no arguments to a catch handler when throw
 has none

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 676b449..6f50eec 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -489,7 +489,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
         if (!current->next) break;
         current = current->next;
       }
-    } else {
+    } else if (!is_nil(args)) {
       arg_list->next = make_list(args);
     }
   }
-- 
2.43.0


From 67ca4dff3c90dc25ec55f1bd66e5dfd824f26e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 27/57] gc: tell the simulation about every block handed out
 (PSCM_SIM only)

---
 src/c/gc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 4f135e5..eeb27f9 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -18,8 +18,10 @@
 #ifdef PSCM_SIM
 // Deterministic-simulation seams, compiled in only by the verification builds:
 // the simulator decides when a collection is due in addition to the normal
-// threshold, and is told about every block a sweep hands back.
+// threshold, and is told about every block handed out and every block a sweep
+// hands back.
 extern "C" bool pscm_sim_gc_due(size_t size);
+extern "C" void pscm_sim_allocated(int tag, void *obj, size_t size);
 extern "C" void pscm_sim_reclaimed(int tag, void *obj, size_t size);
 #endif
 
@@ -301,6 +303,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
   char *obj_start = (char *)block_to_obj(block);
   memset(obj_start, 0, size);
 
+#ifdef PSCM_SIM
+  pscm_sim_allocated(tag, obj_start, size);
+#endif
   return obj_start;
 }
 
-- 
2.43.0


From d129529432ac334b00b3a85c695c974ba9fa08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 28/57] fix: hash tables find keys by the same equivalence as
 eq?, eqv? and equal?

Numbers, characters, booleans and vectors were hashed by address, so a key
was only found again through the same object, and (1 . 2) and (1 2) were one key.
---
 src/c/hash_table.cc | 141 +++++++++++++++++++-------------------------
 1 file changed, 62 insertions(+), 79 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..f6e2e74 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -1,6 +1,8 @@
 #include "pscm.h"
 #include "eval.h"
+#include "smob.h"
 
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 
 // Helper function to compute content-based hash for symbols and strings
 static inline unsigned long hash_string_content(const char *data, int len) {
@@ -11,123 +13,104 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
+// Hash numbers by value. Exact and inexact numbers can be equal to each other,
+// so equal numbers of different types must hash to the same value.
+static unsigned long hash_number(SCM *key) {
+  double val = scm_to_double(key);
+  if (val >= -9.2e18 && val <= 9.2e18 && val == (double)(int64_t)val) {
+    return (unsigned long)(int64_t)val;
+  }
+  unsigned long bits = 0;
+  memcpy(&bits, &val, sizeof(val) < sizeof(bits) ? sizeof(val) : sizeof(bits));
+  return bits;
+}
+
+// Hash function for eq? and eqv?
+// Symbols, strings, numbers, characters, booleans and the empty list are compared
+// by value by both predicates, everything else is compared by address.
 static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
+  switch (key->type) {
+  case SCM::SYM: {
     auto sym = cast<SCM_Symbol>(key);
     return hash_string_content(sym->data, sym->len);
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
-}
-
-// Hash function for eqv? (value equality for numbers/chars)
-static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  case SCM::STR: {
+    auto str = cast<SCM_String>(key);
+    return hash_string_content(str->data, str->len);
   }
-  if (is_char(key)) {
+  case SCM::NUM:
+  case SCM::FLOAT:
+  case SCM::RATIO:
+    return hash_number(key);
+  case SCM::CHAR:
     return (unsigned char)ptr_to_char(key->value);
-  }
-  if (is_bool(key)) {
+  case SCM::BOOL:
     return is_true(key) ? 1 : 0;
+  case SCM::NONE:
+  case SCM::NIL:
+    return key->type;
+  default:
+    return (unsigned long)(uintptr_t)key;
   }
-  // Fallback to pointer hash
+}
+
+static unsigned long scm_hash_code_eqv(SCM *key) {
   return scm_hash_code_eq(key);
 }
 
+static unsigned long scm_hash_code_equal(SCM *key);
+
 // Hash function for equal? (deep equality)
 // Helper function to compute hash code for a list recursively
 static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
   auto l = cast<SCM_List>(list);
   unsigned long hash = 0;
   while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
+    hash = hash * 31 + scm_hash_code_equal(l->data);
+    if (l->next && l->next->is_dotted) {
+      // (a . (b c)) is equal to (a b c), so continue with the cdr if it is a list
+      SCM *cdr = l->next->data;
+      if (!is_pair(cdr)) {
+        return is_nil(cdr) ? hash : hash * 31 + scm_hash_code_equal(cdr);
+      }
+      l = cast<SCM_List>(cdr);
     } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
+      l = l->next;
     }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
   }
   return hash;
 }
 
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
-  if (is_str(key)) {
-    auto str = cast<SCM_String>(key);
-    return hash_string_content(str->data, str->len);
-  }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  // For lists, use content-based hash
   if (is_pair(key)) {
     return hash_list_content(key);
   }
-  // Fallback to pointer hash
+  if (key->type == SCM::VECTOR) {
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = vec->length;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
+    }
+    return hash;
+  }
+  if (key->type == SCM::SMOB) {
+    // Instances are compared by their type's own predicate
+    return cast<SCM_Smob>(key)->tag;
+  }
   return scm_hash_code_eq(key);
 }
 
 // Comparison functions
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
-  return _eq(lhs, rhs);
+  return is_true(scm_c_is_equal(lhs, rhs));
 }
 
 // Helper function to validate hash table and compute bucket index
-- 
2.43.0


From 30283d13b748b1a3c2dbfc34fc4d60b90fd16136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 29/57] fix: a hash table value set through a handle is kept
 whole

set-cdr! on a handle with a list value made hash-ref return only the list's
first element, a later hash-set! write into that list, and hash-fold skip the
entry when the value was the empty list.
---
 src/c/hash_table.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index f6e2e74..5638ff3 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -130,15 +130,23 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
+  // set-cdr! on a handle can have made the cdr a list of its own, which must not be written to
+  if (entry->next && entry->next->is_dotted) {
     entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
   } else {
     entry->next = make_list(value);
     entry->next->is_dotted = true;  // Mark as dotted pair's cdr
   }
 }
 
+// Helper function to get the value (the cdr) of an entry
+static SCM *entry_value(SCM_List *entry) {
+  if (!entry->next) {
+    return scm_nil();
+  }
+  return entry->next->is_dotted ? entry->next->data : wrap(entry->next);
+}
+
 // Helper function to find entry in bucket
 static SCM_List *find_entry_in_bucket(SCM *bucket, SCM *key, bool (*cmp_func)(SCM *, SCM *)) {
   if (!bucket || is_nil(bucket)) {
@@ -280,15 +288,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return entry_value(entry);
   }
   
   return scm_bool_false();
@@ -372,9 +372,9 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;
-            SCM *value = entry->next->data;
+            SCM *value = entry_value(entry);
             
             // Call proc with (key value result)
             // Build call expression: (proc key value result)
-- 
2.43.0


From b6d1ec3eef4c3653d329dda1e7c2b97fab76c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 30/57] fix: hash-create-handle! leaves an existing association
 alone

It overwrote the value with the initial value and returned a copy of the handle.
---
 src/c/hash_table.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 5638ff3..b49028d 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -327,9 +327,8 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    // An existing handle is returned as it is
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
-- 
2.43.0


From db3ecb310fbf46f910ce3b28df1acaf5100eaf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 31/57] fix: make-hash-table reports a size it cannot allocate

A negative or huge size crashed the process.
---
 src/c/hash_table.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index b49028d..bc10f2f 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -236,6 +236,10 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       return nullptr;
     }
     capacity = (size_t)(int64_t)size_arg->value;
+    if ((int64_t)size_arg->value < 0) {
+      eval_error("make-hash-table: size must not be negative");
+      return nullptr;
+    }
     if (capacity == 0) {
       capacity = 31;
     }
@@ -245,6 +249,11 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
   hash_table->capacity = capacity;
   hash_table->size = 0;
   hash_table->buckets = (SCM **)calloc(capacity, sizeof(SCM *));
+  if (!hash_table->buckets) {
+    hash_table->capacity = 0;
+    eval_error("make-hash-table: cannot allocate %zu buckets", capacity);
+    return nullptr;
+  }
   // Initialize all buckets to nil
   // Note: calloc initializes to 0, but we need scm_nil() which may not be 0
   for (size_t i = 0; i < capacity; i++) {
-- 
2.43.0


From acf1bd53ed7b5040c74a8bfeea262a6c2770e498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 32/57] fix: importers see what a module exports, however early
 it is exported

A name exported before its definition, or by #:export with a list, was not
exported, and importers kept the value a binding had when it was exported.
---
 src/c/module.cc | 50 +++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 21bcf27..06a33db 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -75,8 +75,7 @@ SCM *scm_set_current_module(SCM *module) {
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
-SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
-  
+static SCM *own_binding_lookup(SCM_Module *module, SCM_Symbol *sym) {
   SCM *handle = scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
   // hash-get-handle returns #f if key not found, or (key . value) if found
   // We check if handle is #f (not found) vs. a pair (found, value could be #f)
@@ -96,6 +95,38 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return nullptr;  // Not found
 }
 
+// The module whose exports an interface module presents, or nullptr
+static SCM_Module *interface_target(SCM_Module *module) {
+  if (module->kind && strcmp(module->kind->data, "interface") == 0) {
+    return module->public_interface;
+  }
+  return nullptr;
+}
+
+static bool is_exported(SCM_Module *module, SCM_Symbol *sym) {
+  for (SCM_List *exp = module->exports; exp; exp = exp->next) {
+    if (exp->data && is_sym(exp->data) && strcmp(cast<SCM_Symbol>(exp->data)->data, sym->data) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
+// Helper function to lookup variable in module
+// An interface presents the current binding of its module, which may have been
+// defined or changed after it was exported; its own copy serves re-exports.
+SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
+  SCM *copy = own_binding_lookup(module, sym);
+  SCM_Module *target = interface_target(module);
+  if (target) {
+    SCM *var = own_binding_lookup(target, sym);
+    if (var && (copy || is_exported(target, sym))) {
+      return var;
+    }
+  }
+  return copy;
+}
+
 // The load of one autoload target, run under a catch
 struct autoload {
   SCM_Module *module;
@@ -235,6 +266,11 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
     if (is_module(use_module_scm)) {
       SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
       if (module_obarray_lookup(use_module, sym)) {
+        // An imported binding belongs to the module behind the interface
+        SCM_Module *target = interface_target(use_module);
+        if (target && own_binding_lookup(target, sym)) {
+          return target;
+        }
         return use_module;  // Found in use module
       }
     }
@@ -839,7 +875,17 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
       }
       else if (strcmp(kw_name, "export") == 0) {
         // #:export sym ...
+        // #:export (sym ...)
         opts = opts->next;
+        if (opts && opts->data && is_pair(opts->data)) {
+          for (SCM_List *exp = cast<SCM_List>(opts->data); exp; exp = exp->next) {
+            if (exp->data && is_sym(exp->data)) {
+              scm_module_export(cast<SCM_Module>(module_scm), cast<SCM_Symbol>(exp->data));
+            }
+          }
+          opts = opts->next;
+          continue; // already advanced past the list
+        }
         while (opts && opts->data && is_sym(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
-- 
2.43.0


From 73259548216b80f1ee408ec1091e319329570298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 33/57] fix: set! in a module's procedure changes the module's
 own variable

Called from another module it changed a variable of the caller's module with
the same name, or nothing.
---
 src/c/eval.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index bd4f7fb..a419d95 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -101,11 +101,20 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     if (entry) {
       entry->value = val;
     } else {
-      // Not found in environment, check if it's in the current module
+      // Not found in environment, check the module the code was loaded in (like
+      // lookup_symbol does), then the current module
+      SCM_Module *var_module = nullptr;
+      for (SCM_Environment *e = env; e; e = e->parent) {
+        if (e->module) {
+          var_module = module_find_variable_module(e->module, sym);
+          break;
+        }
+      }
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
+      if (var_module || (current_mod && is_module(current_mod))) {
+        if (!var_module) {
+          var_module = module_find_variable_module(cast<SCM_Module>(current_mod), sym);
+        }
         if (var_module) {
           // Variable exists in a module, update it
           scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
-- 
2.43.0


From 3cfde821f3b753367874210e544b06fcdb849fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 34/57] fix: look again for a module no file was found for

A module whose file was missing or could not be opened was registered empty
and never looked for again, even by a later use-modules or autoload.
---
 src/c/module.cc    | 54 ++++++++++++++++++++++++++++++----------------
 src/c/pscm_types.h |  1 +
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 06a33db..41c98c7 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -43,6 +43,7 @@ SCM *scm_make_module(SCM_List *name, int obarray_size) {
   module->public_interface = nullptr;
   module->exports = nullptr;
   module->autoload_specs = nullptr;
+  module->no_code = false;
 
   return wrap(module);
 }
@@ -127,6 +128,8 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return copy;
 }
 
+static SCM_Module *imported_view(SCM_Module *module);
+
 // The load of one autoload target, run under a catch
 struct autoload {
   SCM_Module *module;
@@ -225,10 +228,17 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
             // put back, so that a later reference tries again.
             struct autoload load = { module, spec, mod_name };
             SCM *mod_scm = scm_c_catch(scm_bool_true(), autoload_body, &load, autoload_failed, &load);
+            if (mod_scm && is_module(mod_scm) && cast<SCM_Module>(mod_scm)->no_code) {
+              // Nothing was found to load: a later reference tries again
+              SCM_List *node = make_list(spec);
+              node->next = module->autoload_specs;
+              module->autoload_specs = node;
+              return nullptr;
+            }
             if (mod_scm && is_module(mod_scm)) {
               // Add loaded module to current module's uses
               SCM_Module *loaded = cast<SCM_Module>(mod_scm);
-              SCM_Module *interface = loaded->public_interface ? loaded->public_interface : loaded;
+              SCM_Module *interface = imported_view(loaded);
               SCM_List *new_use = make_list(wrap(interface));
               new_use->next = module->uses;
               module->uses = new_use;
@@ -395,6 +405,8 @@ SCM *scm_resolve_module(SCM_List *name) {
   // Use equal? comparison for module names (lists), not eq?
   SCM *module = scm_c_hash_ref_equal(wrap(g_module_registry), name_key);
   bool module_exists = (module && !is_falsy(module) && is_module(module));
+  // A module nothing was found for is looked for again
+  bool module_loaded = module_exists && !cast<SCM_Module>(module)->no_code;
   
   // 2. Try to load from file system
   // Convert module name to file path
@@ -478,12 +490,15 @@ SCM *scm_resolve_module(SCM_List *name) {
     // Register module (before loading, so define-module can register it)
     scm_c_hash_set_equal(wrap(g_module_registry), wrap(name), module);
   }
+  if (!module_loaded) {
+    cast<SCM_Module>(module)->no_code = !found_path;
+  }
   
   // If file found AND module didn't already exist, load it.
   // Only load once — re-loading on every scm_resolve_module call causes
   // infinite loops with circular module dependencies (e.g. logic-bind ↔ logic-unify).
   // Guile 1.8 uses the same idempotent approach.
-  if (found_path && !module_exists) {
+  if (found_path && !module_loaded) {
     // Save current module
     SCM *old_module = scm_current_module();
 
@@ -510,9 +525,9 @@ SCM *scm_resolve_module(SCM_List *name) {
     scm_set_current_module(old_module);
   } else {
     free(full_path);
-    // File not found: warn if module was just created (no code for module)
+    // File not found: warn (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
-    if (!module_exists) {
+    if (!module_loaded) {
       fprintf(stderr, "[module] Warning: no code for module (");
       // Print module name manually
       SCM_List *name_it = name;
@@ -566,6 +581,16 @@ static SCM_Module *scm_ensure_public_interface(SCM_Module *module) {
   return iface;
 }
 
+// What a module that uses this one gets to see: the public interface, or
+// everything when it exports nothing. A module whose code is still to be found
+// may export something later.
+static SCM_Module *imported_view(SCM_Module *module) {
+  if (module->no_code && module->obarray->size == 0) {
+    return scm_ensure_public_interface(module);
+  }
+  return module->public_interface ? module->public_interface : module;
+}
+
 // Helper function to export symbol
 void scm_module_export(SCM_Module *module, SCM_Symbol *sym) {
   // Add to export list
@@ -843,6 +868,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
   if (mod_exists) {
     // Module already exists (e.g., created by scm_resolve_module), use it
     module_scm = existing;
+    cast<SCM_Module>(existing)->no_code = false;
   } else {
     // Create new module
     module_scm = scm_make_module(name, 31);
@@ -865,7 +891,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           SCM *resolved = scm_resolve_module(cast<SCM_List>(mod_name));
           if (resolved && is_module(resolved)) {
             SCM_Module *use_mod = cast<SCM_Module>(resolved);
-            SCM_Module *iface = use_mod->public_interface ? use_mod->public_interface : use_mod;
+            SCM_Module *iface = imported_view(use_mod);
             SCM_List *node = make_list(wrap(iface));
             node->next = cast<SCM_Module>(module_scm)->uses;
             cast<SCM_Module>(module_scm)->uses = node;
@@ -960,11 +986,7 @@ SCM *eval_use_modules(SCM_Environment *env, SCM_List *l) {
       SCM_Module *module = cast<SCM_Module>(module_scm);
       
       // Get module's public interface
-      SCM_Module *interface = module->public_interface;
-      if (!interface) {
-        // If no public interface, use module itself
-        interface = module;
-      }
+      SCM_Module *interface = imported_view(module);
       
       // Add to uses list
       SCM_List *new_use = make_list(wrap(interface));
@@ -1183,11 +1205,7 @@ SCM *scm_c_module_use(SCM_List *args) {
   SCM_Module *use_mod = cast<SCM_Module>(use_module);
   
   // Get module's public interface
-  SCM_Module *interface = use_mod->public_interface;
-  if (!interface) {
-    // If no public interface, use module itself
-    interface = use_mod;
-  }
+  SCM_Module *interface = imported_view(use_mod);
   
   // Add to uses list
   SCM_List *new_use = make_list(wrap(interface));
@@ -1230,6 +1248,7 @@ SCM *scm_c_define_module(const char *name,
     return nullptr;
   }
 
+  cast<SCM_Module>(module)->no_code = false;
   if (init) {
     SCM *old = scm_current_module();
     g_current_module = module;
@@ -1271,10 +1290,7 @@ void scm_c_use_module(const char *name) {
 
   // Resolve through public_interface (like eval_use_modules and scm_c_module_use do)
   SCM_Module *use_mod = cast<SCM_Module>(module);
-  SCM_Module *interface = use_mod->public_interface;
-  if (!interface) {
-    interface = use_mod;
-  }
+  SCM_Module *interface = imported_view(use_mod);
 
   // Add to uses list (prepend)
   SCM_List *node = make_list(wrap(interface));
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index e17f9d6..8608c13 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -132,6 +132,7 @@ struct SCM_Module {
   SCM_List *name;               // Module name list, e.g. (guile-user)
   SCM_Symbol *kind;             // Module type: 'module, 'interface, 'directory
   SCM_Module *public_interface; // Public interface module (points to another module object)
+  bool no_code;                 // No file was found for it and nothing else defined it yet
   SCM_List *exports;            // List of exported symbols (for public interface)
   SCM_List *autoload_specs;     // List of (mod-name . sym-list) for autoload
 };
-- 
2.43.0


From 0bb3011d92394c320e1b8c0f6cf61ac9b59a6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 35/57] fix: read files to load in growing pieces instead of
 trusting the reported size

A directory can be opened for reading and reports a size of LONG_MAX;
loading one (or a module whose file name is one) ended the program with
bad_alloc instead of an error that can be caught.
---
 src/c/parse.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 1ed4a9a..8daff0b 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1401,20 +1401,23 @@ static char *read_file_content(const char *filename) {
     return nullptr;
   }
   
-  // Get file size
-  long size = -1;
-  if (fseek(f, 0, SEEK_END) == 0) {
-    size = ftell(f);
-  }
-  if (size < 0 || fseek(f, 0, SEEK_SET) != 0) {
-    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
-    fclose(f);
-    return nullptr;
+  // Read up to the end of the file: its size cannot be known beforehand
+  // (a directory, for one, can be opened and reports an absurd size).
+  size_t capacity = 4096;
+  size_t read = 0;
+  char *buffer = new char[capacity];
+  while (true) {
+    size_t n = fread(buffer + read, 1, capacity - 1 - read, f);
+    read += n;
+    if (read < capacity - 1) {
+      break;
+    }
+    char *bigger = new char[capacity * 2];
+    memcpy(bigger, buffer, read);
+    delete[] buffer;
+    buffer = bigger;
+    capacity *= 2;
   }
-  
-  // Allocate buffer
-  char *buffer = new char[size + 1];
-  size_t read = fread(buffer, 1, size, f);
   buffer[read] = '\0';
   bool failed = ferror(f) != 0;
   fclose(f);
-- 
2.43.0


From 0f28e18a50e50dc0a2bb2249c70e269981eb1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 36/57] fix: report malformed special forms as errors instead
 of aborting

(set! 5 3), (if), (let), (cond), (do) and the like failed an assertion or
dereferenced a null pointer and ended the program that evaluates them; they
raise an error that can be caught now.
---
 src/c/alist.cc    |  6 +++++-
 src/c/case.cc     | 15 +++++++++++++--
 src/c/cond.cc     | 18 ++++++++++++++++--
 src/c/define.cc   |  4 ++++
 src/c/do.cc       | 13 ++++++++++---
 src/c/dynwind.cc  |  5 ++++-
 src/c/eval.cc     | 23 ++++++++++++++++++-----
 src/c/for_each.cc |  5 ++++-
 src/c/let.cc      | 47 ++++++++++++++++++++++++++++++++---------------
 9 files changed, 106 insertions(+), 30 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..3ef4135 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,4 +1,5 @@
 #include "pscm.h"
+#include "eval.h"
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
 
@@ -245,7 +246,10 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 SCM *scm_c_assv(SCM *key, SCM *alist) {
   assert(key);
   assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
+  if (!is_pair(alist) && !is_nil(alist)) {
+    eval_error("assv: second argument must be a list");
+    return nullptr;
+  }
   if (is_nil(alist)) {
     return scm_bool_false();
   }
diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..6601074 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,10 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  if (!l->next) {
+    eval_error("case: missing key expression");
+    return nullptr;
+  }
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,6 +38,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    if (!is_pair(clause_it->data) || !cast<SCM_List>(clause_it->data)->next) {
+      eval_error("case: each clause must be a list of data and an expression");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
@@ -51,7 +58,11 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     
     // Regular clause: (datum1 datum2 ...)
     // Check if key matches any datum in this clause
-    auto datums = cast<SCM_List>(clause->data);
+    if (!is_pair(clause->data) && !is_nil(clause->data)) {
+      eval_error("case: the data of a clause must be a list");
+      return nullptr;
+    }
+    auto datums = is_nil(clause->data) ? nullptr : cast<SCM_List>(clause->data);
     
     if (value_in_datums(key, datums)) {
       // Key matches this clause, execute the expressions
diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..e924f7a 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,15 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("cond: expected at least one clause");
+    return nullptr;
+  }
   for (auto it = l->next; it; it = it->next) {
+    if (!is_pair(it->data)) {
+      eval_error("cond: each clause must be a list");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -18,6 +25,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       printf("\n");
     }
     if (is_sym_val(clause->data, "else")) {
+      if (!clause->next) {
+        eval_error("cond: missing expression after else");
+        return nullptr;
+      }
       return eval_with_list(env, clause->next);
     }
     auto pred = eval_with_env(env, clause->data);
@@ -35,7 +46,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        if (!clause->next->next) {
+          eval_error("cond: missing procedure after =>");
+          return nullptr;
+        }
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..b36e6d0 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -59,6 +59,10 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   
   // Handle curried form: (define ((name args1...) args2...) body...)
   // Convert to: (define name (lambda (args1...) (lambda (args2...) body...)))
+  if (!l->next || !is_pair(l->next->data)) {
+    eval_error("define: expected a variable or a procedure signature");
+    return nullptr;
+  }
   SCM *key = l->next->data;
   SCM_List *val_list = l->next->next;
   
diff --git a/src/c/do.cc b/src/c/do.cc
index 7bfeac7..169fff6 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -68,7 +68,14 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("do: missing variables or test clause");
+    return nullptr;
+  }
+  if (!is_pair(l->next->data) && !is_nil(l->next->data)) {
+    eval_error("do: variables must be a list");
+    return nullptr;
+  }
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
@@ -138,11 +145,11 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     var_init_it = var_init_it->next;
   }
 
-  auto test_clause_list = cast<SCM_List>(test_clause);
-  if (!test_clause_list) {
+  if (!is_pair(test_clause)) {
     eval_error("do: test clause must be a list");
     return nullptr;
   }
+  auto test_clause_list = cast<SCM_List>(test_clause);
   
   if (debug_enabled) {
     SCM_DEBUG_EVAL("do: test_clause_list: ");
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 25d50cc..ed6311d 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -124,7 +124,10 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  if (!l->next || !l->next->next || !l->next->next->next) {
+    eval_error("dynamic-wind: expected three arguments");
+    return nullptr;
+  }
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index a419d95..b936720 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,8 +8,8 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
-  SCM *ret = nullptr;
+  // A body without expressions has no value
+  SCM *ret = scm_none();
   while (l) {
     ret = eval_with_env(env, l->data);
     l = l->next;
@@ -79,7 +79,10 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  if (!l->next || !is_sym(l->next->data) || !l->next->next) {
+    eval_error("set!: expected a variable and a value");
+    return nullptr;
+  }
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -140,6 +143,10 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  if (!l->next) {
+    eval_error("lambda: missing parameters");
+    return nullptr;
+  }
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -184,7 +191,10 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next || !l->next->next) {
+    eval_error("if: expected a test and a consequent");
+    return nullptr;
+  }
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -250,7 +260,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("call/cc: missing procedure");
+    return nullptr;
+  }
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..7b49156 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,10 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("for-each: missing procedure");
+    return nullptr;
+  }
   auto f = eval_with_env(env, l->next->data);
   int arg_count;
   
diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..ed9f76d 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,10 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let: missing bindings or body");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +43,10 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    if (!l->next->next->next) {
+      eval_error("let: missing body");
+      return nullptr;
+    }
     auto argl = l->next->next->data;
     auto body = l->next->next->next->data;
     
@@ -187,13 +192,17 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("let: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data) || !cast<SCM_List>(argl->data)->next) {
+        eval_error("let: each binding must be a list of a variable and a value");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -245,8 +254,10 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let*: missing bindings or body");
+    return nullptr;
+  }
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -354,8 +365,10 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("letrec: missing bindings or body");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -377,13 +390,17 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("letrec: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data) || !cast<SCM_List>(argl->data)->next) {
+        eval_error("letrec: each binding must be a list of a variable and a value");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From 3e9a56b5880466731af760d0e46b04b59ab68f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 37/57] fix: take the base of continuations from the API call
 in progress

It was taken from the first call ever made.  A continuation captured in a
later call made from higher up the stack had a negative size.
---
 src/c/eval.cc     | 6 ++----
 src/c/pscm.h      | 9 +++++++++
 src/c/pscm_api.cc | 6 ++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index b936720..458becf 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -54,10 +54,8 @@ SCM *scm_c_eval_string(const char *expr) {
   }
   
   // Evaluate all expressions, return the last result
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_set_cont_base(&stack_base);
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 4b79769..a342481 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -999,6 +999,15 @@ inline SCM_List *g_wind_chain = nullptr; // Global wind chain for dynamic-wind
 inline SCM *g_root_module = nullptr;     // Root module (pscm-user)
 inline long *cont_base = nullptr;        // Stack base pointer for continuations
 
+// Called with a local of each evaluation entry point: a continuation has to
+// hold every frame between itself and the entry point in progress, and a later
+// call may come from higher up the stack than the first one did.
+inline void scm_set_cont_base(long *frame) {
+  if (!cont_base || frame > cont_base) {
+    cont_base = frame;
+  }
+}
+
 /*
  * Hash table functions
  */
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 2502dbf..822108e 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -30,10 +30,8 @@ SCM *pscm_eval(SCM *ast) {
   if (!ast) {
     return nullptr;
   }
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_set_cont_base(&stack_base);
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
-- 
2.43.0


From bc757a0d48d6b098e946d7210f3ebf94f7a5dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 38/57] fix: scan the whole stack of a program that embeds the
 interpreter

Only pscm's own main told the collector where the stack ends.  In any other
program the stack was not scanned at all, and data in use by a running
evaluation was reclaimed.
---
 src/c/gc.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index eeb27f9..c88d1d6 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "gc.h"
 
+#include <pthread.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -317,6 +318,28 @@ void gc_set_stack_top(void *marker) {
   g_gc_stack_top = (char *)marker;
 }
 
+// The far end of the calling thread's stack: what has to be scanned up to when
+// the program that embeds the interpreter has set no marker of its own.
+static char *thread_stack_top() {
+#if defined(__APPLE__)
+  return (char *)pthread_get_stackaddr_np(pthread_self());
+#else
+#if defined(__linux__)
+  pthread_attr_t attr;
+  if (pthread_getattr_np(pthread_self(), &attr) == 0) {
+    void *addr = nullptr;
+    size_t size = 0;
+    int err = pthread_attr_getstack(&attr, &addr, &size);
+    pthread_attr_destroy(&attr);
+    if (err == 0) {
+      return (char *)addr + size;
+    }
+  }
+#endif
+  return (char *)__builtin_frame_address(0);
+#endif
+}
+
 void gc_register_root(SCM **ptr, const char *name) {
   if (g_num_roots >= MAX_ROOTS) {
     fprintf(stderr, "WARNING: too many GC roots (max %d), root registration skipped for %s\n", MAX_ROOTS, name);
@@ -808,6 +831,9 @@ static void trace_smob(GCBlock *, MarkStack *) {
 // =========================================================================
 
 void gc_init() {
+  if (!g_gc_stack_top) {
+    g_gc_stack_top = thread_stack_top();
+  }
   // 1. Allocate the initial heap segment.
   long page_size = sysconf(_SC_PAGESIZE);
   size_t seg_size = (INITIAL_HEAP_SIZE + page_size - 1) & ~(size_t)(page_size - 1);
-- 
2.43.0


From 041f22d8b3149813016363e4dbc83c9f877b5eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 39/57] fix: keep the interactive session going

A syntax error, two expressions on one line or an unmatched closing
parenthesis ended the session or blocked it for good; lines of 4095 characters
were truncated, strings could not span lines, and an interrupted read ended
the session.
---
 src/c/repl.cc | 148 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 94 insertions(+), 54 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..db82c17 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -1,17 +1,30 @@
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
+#include "error.h"
 #include "pscm.h"
+#include "pscm_api.h"
+#include "throw.h"
 
-// Check if parentheses are balanced in the input string
-static bool is_balanced(const char *s) {
+// Whether the input can be handed to the parser: no list or string is left
+// open.  Input with a closing parenthesis too many is complete as well: no
+// further line can mend it, and the parser reports it.
+static bool is_complete(const char *s) {
   int depth = 0;
   bool in_string = false;
   bool escaped = false;
   bool in_comment = false;
   
   for (const char *p = s; *p; p++) {
+    if (in_comment) {
+      if (*p == '\n') {
+        in_comment = false;
+      }
+      continue;
+    }
+    
     if (escaped) {
       escaped = false;
       continue;
@@ -22,13 +35,6 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
-    if (in_comment) {
-      if (*p == '\n') {
-        in_comment = false;
-      }
-      continue;
-    }
-    
     if (*p == '"') {
       in_string = !in_string;
       continue;
@@ -48,18 +54,68 @@ static bool is_balanced(const char *s) {
     } else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true;  // Unmatched closing parenthesis
       }
     }
   }
   
-  return depth == 0;
+  return depth == 0 && !in_string;
 }
 
+static void report_error() {
+  const char *key = pscm_get_last_error_key();
+  const char *message = pscm_get_last_error_message();
+  fflush(stdout);
+  if (message) {
+    fprintf(stderr, "ERROR: %s\n", message);
+  } else {
+    fprintf(stderr, "ERROR: uncaught throw to '%s'\n", key ? key : "?");
+  }
+}
+
+struct ReplInput {
+  const char *text;
+  SCM_List *exprs;
+  bool parsed;
+};
+
+// Evaluate every expression of a complete input.  An error ends the expression
+// it happens in, not the session.
+static void eval_input(const char *text) {
+  ReplInput input = {text, nullptr, false};
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        auto input = (ReplInput *)data;
+        input->exprs = parse_string(input->text);
+        input->parsed = true;
+        return scm_none();
+      },
+      &input,
+      scm_api_catch_handler,
+      nullptr);
+  if (!input.parsed) {
+    report_error();
+    return;
+  }
+  for (SCM_List *it = input.exprs; it; it = it->next) {
+    print_ast(it->data);
+    printf("\n");
+    auto val = pscm_eval(it->data);
+    if (!val) {
+      report_error();
+      continue;
+    }
+    printf(" --> ");
+    print_ast(val);
+    printf("\n");
+  }
+}
 
 void repl() {
-  char line_buffer[4096];  // Buffer for each line
+  char line_buffer[4096];  // Buffer for (a part of) each line
   size_t total_size = 4096;
+  size_t len = 0;
   char *input_buffer = (char *)malloc(total_size);
   if (!input_buffer) {
     fprintf(stderr, "ERROR: failed to allocate memory\n");
@@ -69,28 +125,25 @@ void repl() {
   
   while (true) {
     // Show prompt: "pscm> " for first line, "  ...> " for continuation
-    if (input_buffer[0] == '\0') {
+    if (len == 0) {
       printf("pscm> ");
     } else {
       printf("  ...> ");
     }
     
-    if (fgets(line_buffer, sizeof(line_buffer), stdin) != NULL) {
-      // Check if input line is too long
-      size_t line_len = strlen(line_buffer);
-      if (line_len > 0 && line_buffer[line_len - 1] != '\n') {
-        // Input was truncated, clear remaining input
-        int c;
-        while ((c = getchar()) != '\n' && c != EOF) {
-          // Discard remaining characters
+    // Append a line, however long, to the input buffer
+    bool got_input = false;
+    while (true) {
+      if (fgets(line_buffer, sizeof(line_buffer), stdin) == NULL) {
+        if (ferror(stdin) && errno == EINTR) {
+          clearerr(stdin);
+          continue;
         }
-        printf("Warning: input line too long, truncated\n");
+        break;
       }
-      
-      // Append line to input buffer
-      size_t current_len = strlen(input_buffer);
-      size_t needed_size = current_len + line_len + 1;
-      
+      got_input = true;
+      size_t line_len = strlen(line_buffer);
+      size_t needed_size = len + line_len + 1;
       if (needed_size > total_size) {
         // Reallocate buffer if needed
         total_size = needed_size * 2;
@@ -102,45 +155,32 @@ void repl() {
         }
         input_buffer = new_buffer;
       }
-      
-      strcat(input_buffer, line_buffer);
-      
-      // Check if parentheses are balanced
-      if (is_balanced(input_buffer)) {
-        // Skip whitespace to check if input is empty
-        const char *p = input_buffer;
-        while (*p && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) {
-          p++;
-        }
-        
-        // Only parse if there's actual content
-        if (*p != '\0') {
-          // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
-          printf("\n");
-          auto val = eval(ast);
-          printf(" --> ");
-          print_ast(val);
-          printf("\n");
-        }
+      memcpy(input_buffer + len, line_buffer, line_len + 1);
+      len += line_len;
+      if (line_len > 0 && line_buffer[line_len - 1] == '\n') {
+        break;
+      }
+    }
+    
+    if (got_input) {
+      // Otherwise, continue reading more lines
+      if (is_complete(input_buffer)) {
+        eval_input(input_buffer);
         
         // Reset buffer for next expression
         input_buffer[0] = '\0';
+        len = 0;
       }
-      // Otherwise, continue reading more lines
     }
     else {
       // EOF or error
       if (feof(stdin)) {
         printf("\n");
-        free(input_buffer);
-        return;  // Normal exit
+      } else {
+        printf("read failed\n");
       }
-      printf("read failed\n");
       free(input_buffer);
       return;
     }
   }
 }
-
-- 
2.43.0


From b9f989397960fceb7563fc6a0892ade52a97912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:23 +0000
Subject: [PATCH 40/57] fix: leave an error behind when a file cannot be parsed

pscm_parse_file and pscm_eval_file returned null for an unreadable or empty file without any retrievable error.
---
 src/c/pscm_api.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 822108e..8c6df61 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -108,7 +108,11 @@ SCM_List *pscm_parse_file(const char *filename) {
   return (SCM_List *)scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
-        return (SCM *)parse_file((const char *)data);
+        auto exprs = parse_file((const char *)data);
+        if (!exprs) {
+          eval_error("cannot read any expression from file: %s", (const char *)data);
+        }
+        return (SCM *)exprs;
       },
       (void *)filename,
       scm_api_catch_handler,
-- 
2.43.0


From 6a18fa77adeaae7244722ee00d5f50b1f4ae4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 41/57] fix: drop the parse contexts of an input when its
 parsing ends

Reading an empty list, a vector or a quoted character left its context on the
parse stack; the report of a syntax error in a later input then read text
through it that was no longer there.
---
 src/c/parse.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 8daff0b..342c9e0 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -642,6 +642,8 @@ static SCM *parse_vector(Parser *p) {
   p->pos++; // consume ')'
   p->column++;
   
+  pop_parse_stack();  // Successfully parsed vector
+  
   // Convert list to vector
   int count = 0;
   SCM_List *current = dummy.next;
@@ -878,6 +880,8 @@ static SCM *parse_quote(Parser *p) {
       parse_error(p, "expected character literal after '#\\");
     }
     
+    pop_parse_stack();  // Successfully parsed quote
+    
     // Build (quote char)
     SCM *quote_sym = scm_sym_quote();
     SCM_List *list = make_list(quote_sym, quoted);
@@ -1058,6 +1062,7 @@ static SCM *parse_list(Parser *p) {
   if (*p->pos == ')') {
     p->pos++; // consume ')'
     p->column++;
+    pop_parse_stack();  // Successfully parsed empty list
     SCM *result = scm_nil();
     set_source_location(result, p->filename, start_line, start_column);
     return result;
@@ -1330,6 +1335,12 @@ static SCM *parse_expr(Parser *p) {
 
 // Parse a single expression from input
 SCM *parse(const char *s) {
+  // Frames of an earlier input, which need not be there any more, do not
+  // describe this one
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+
   Parser p;
   p.input = s;
   p.pos = s;
-- 
2.43.0


From b1c722d5b8098eb1d5ac47170e203623faa82c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:54 +0000
Subject: [PATCH 42/57] fix: refuse to call a symbol or a list instead of
 evaluating it as a program

The value of an operator was evaluated again when it was a symbol or a list:
calling a variable bound to its own name never came back, and a list was run
as code.
---
 src/c/eval.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 458becf..738b022 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -283,6 +283,17 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
 }
 
 
+// The value of an operator is applied, never evaluated once more: a symbol or
+// a list is an error there, even if it names or describes a procedure
+static void check_operator(SCM *val) {
+  if (is_sym(val)) {
+    eval_error("wrong type to apply: %s", cast<SCM_Symbol>(val)->data);
+  }
+  if (is_pair(val)) {
+    eval_error("wrong type to apply: a list");
+  }
+}
+
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -567,6 +578,7 @@ entry:
         return nullptr;
       }
       
+      check_operator(val);
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -712,6 +724,7 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    check_operator(f);
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 5a00e92b3976870363a77a65adb86b6a1fe126ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:17 +0000
Subject: [PATCH 43/57] fix: keep what an interrupted read had already taken of
 a line

fgets drops the characters it has read when a later read of the same line is interrupted.
---
 src/c/repl.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index db82c17..6607b76 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -113,7 +113,6 @@ static void eval_input(const char *text) {
 }
 
 void repl() {
-  char line_buffer[4096];  // Buffer for (a part of) each line
   size_t total_size = 4096;
   size_t len = 0;
   char *input_buffer = (char *)malloc(total_size);
@@ -134,7 +133,8 @@ void repl() {
     // Append a line, however long, to the input buffer
     bool got_input = false;
     while (true) {
-      if (fgets(line_buffer, sizeof(line_buffer), stdin) == NULL) {
+      int c = getc(stdin);
+      if (c == EOF) {
         if (ferror(stdin) && errno == EINTR) {
           clearerr(stdin);
           continue;
@@ -142,11 +142,9 @@ void repl() {
         break;
       }
       got_input = true;
-      size_t line_len = strlen(line_buffer);
-      size_t needed_size = len + line_len + 1;
-      if (needed_size > total_size) {
+      if (len + 2 > total_size) {
         // Reallocate buffer if needed
-        total_size = needed_size * 2;
+        total_size *= 2;
         char *new_buffer = (char *)realloc(input_buffer, total_size);
         if (!new_buffer) {
           fprintf(stderr, "ERROR: failed to reallocate memory\n");
@@ -155,9 +153,9 @@ void repl() {
         }
         input_buffer = new_buffer;
       }
-      memcpy(input_buffer + len, line_buffer, line_len + 1);
-      len += line_len;
-      if (line_len > 0 && line_buffer[line_len - 1] == '\n') {
+      input_buffer[len++] = (char)c;
+      input_buffer[len] = '\0';
+      if (c == '\n') {
         break;
       }
     }
-- 
2.43.0


From 49877d5986fbe4868ca1e13c7ff25f15eeeafcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 44/57] fix: let the input of the prompt go on after a quote at
 the end of a line

---
 src/c/repl.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 6607b76..3fc30c5 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -9,13 +10,14 @@
 #include "throw.h"
 
 // Whether the input can be handed to the parser: no list or string is left
-// open.  Input with a closing parenthesis too many is complete as well: no
+// open and no quote stands last, without what it quotes.  Input with a closing parenthesis too many is complete as well: no
 // further line can mend it, and the parser reports it.
 static bool is_complete(const char *s) {
   int depth = 0;
   bool in_string = false;
   bool escaped = false;
   bool in_comment = false;
+  bool after_quote = false;
   
   for (const char *p = s; *p; p++) {
     if (in_comment) {
@@ -32,11 +34,13 @@ static bool is_complete(const char *s) {
     
     if (*p == '\\') {
       escaped = true;
+      after_quote = false;
       continue;
     }
     
     if (*p == '"') {
       in_string = !in_string;
+      after_quote = false;
       continue;
     }
     
@@ -49,6 +53,12 @@ static bool is_complete(const char *s) {
       continue;
     }
     
+    if (*p == '\'' || *p == '`' || *p == ',') {
+      after_quote = true;
+    } else if (!isspace((unsigned char)*p) && !(*p == '@' && after_quote)) {
+      after_quote = false;
+    }
+    
     if (*p == '(') {
       depth++;
     } else if (*p == ')') {
@@ -59,7 +69,7 @@ static bool is_complete(const char *s) {
     }
   }
   
-  return depth == 0 && !in_string;
+  return depth == 0 && !in_string && !after_quote;
 }
 
 static void report_error() {
-- 
2.43.0


From dda31499eae876b2c4dc35a0047ea661613b6acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:33 +0000
Subject: [PATCH 45/57] fix: do not evaluate the first half of a line the rest
 of which cannot be read

---
 src/c/repl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 3fc30c5..6ea2fc5 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -149,6 +149,9 @@ void repl() {
           clearerr(stdin);
           continue;
         }
+        if (ferror(stdin)) {
+          got_input = false;  // a line cut short by a failure is not evaluated
+        }
         break;
       }
       got_input = true;
-- 
2.43.0


From 47fec9ffad983223ad2c7c75f5c80db5a5dfe537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:28 +0000
Subject: [PATCH 46/57] fix: do not end a displayed string at a null character

---
 src/c/print.cc  | 2 +-
 src/c/string.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..13c2073 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -155,7 +155,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
diff --git a/src/c/string.cc b/src/c/string.cc
index 3555dd9..543ec4b 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -136,12 +136,12 @@ static void write_string_to_port(SCM_Port *port, SCM *text) {
   }
   
   const char *str = cast<SCM_String>(text)->data;
+  int len = cast<SCM_String>(text)->len;
   if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file && fputs(str, port->file) == EOF) {
+    if (port->file && fwrite(str, 1, len, port->file) != (size_t)len) {
       eval_error("write error on output port");
     }
   } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
     while (port->output_len + len + 1 >= port->output_capacity) {
       port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
       port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-- 
2.43.0


From 1e730fbddd512e9f1b59490c6409090c7cd10770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 47/57] fix: do not let a re-entered continuation change a list
 module-map already returned

---
 src/c/module.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 41c98c7..f3d90d7 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1104,8 +1104,9 @@ SCM *scm_c_module_map(SCM_List *args) {
   SCM_Module *mod = cast<SCM_Module>(module);
   
   // Collect results by iterating over module's obarray
-  SCM_List *result_head = nullptr;
-  SCM_List *result_tail = nullptr;
+  // The results so far, latest first: proc may be re-entered later, which must not
+  // change a list that has been returned
+  SCM_List *results = nullptr;
   
   // Iterate over all buckets in the hash table
   for (size_t i = 0; i < mod->obarray->capacity; i++) {
@@ -1144,13 +1145,8 @@ SCM *scm_c_module_map(SCM_List *args) {
             
             // Append result to result list
             SCM_List *new_node = make_list(proc_result);
-            if (!result_head) {
-              result_head = new_node;
-              result_tail = new_node;
-            } else {
-              result_tail->next = new_node;
-              result_tail = new_node;
-            }
+            new_node->next = results;
+            results = new_node;
           }
         }
         l = l->next;
@@ -1158,6 +1154,12 @@ SCM *scm_c_module_map(SCM_List *args) {
     }
   }
   
+  SCM_List *result_head = nullptr;
+  for (; results; results = results->next) {
+    SCM_List *new_node = make_list(results->data);
+    new_node->next = result_head;
+    result_head = new_node;
+  }
   return result_head ? wrap(result_head) : scm_nil();
 }
 
-- 
2.43.0


From d41b70145d243a08ca41f3bc09d63819c0e092dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 48/57] fix: do not let a re-entered continuation change the
 values apply already delivered

---
 src/c/apply.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 2ca2869..ed85ba7 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -219,20 +219,21 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
       eval_error("apply: last argument must be a list");
     }
     
-    // Build combined list: args_before_last elements + last_arg elements
-    SCM_List args_dummy = make_list_dummy();
-    SCM_List *args_tail = &args_dummy;
-    
-    // Add all arguments before the last one
+    // Evaluate the other arguments, latest first: one of them may be re-entered
+    // later, which must not change a list that has been delivered
+    SCM_List *evaluated = nullptr;
     current = args_before_last;
     while (current != last_arg_node) {
-      SCM *arg_val = eval_with_env(env, current->data);
-      SCM_List *node = make_list(arg_val);
-      args_tail->next = node;
-      args_tail = node;
+      SCM_List *node = make_list(eval_with_env(env, current->data));
+      node->next = evaluated;
+      evaluated = node;
       current = current->next;
     }
     
+    // Build combined list: args_before_last elements + last_arg elements
+    SCM_List args_dummy = make_list_dummy();
+    SCM_List *args_tail = &args_dummy;
+    
     // Append all elements from the last argument list
     if (is_pair(last_arg)) {
       SCM_List *last_list = cast<SCM_List>(last_arg);
@@ -245,6 +246,12 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
       }
     }
     
+    for (; evaluated; evaluated = evaluated->next) {
+      SCM_List *node = make_list(evaluated->data);
+      node->next = args_dummy.next;
+      args_dummy.next = node;
+    }
+    
     // Pass the combined list to continuation
     SCM *combined_list = args_dummy.next ? wrap(args_dummy.next) : scm_nil();
     scm_dynthrow(proc, combined_list);
-- 
2.43.0


From aeeb9f5f505d058e221cb851bac1ab0033dad34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:08 +0000
Subject: [PATCH 49/57] fix: let importers see the current value of a
 re-exported variable

---
 src/c/module.cc | 50 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index f3d90d7..571d5f2 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,4 +1,6 @@
 #include "pscm.h"
+#include <algorithm>
+#include <vector>
 #include "eval.h"
 #include "throw.h"
 
@@ -113,19 +115,40 @@ static bool is_exported(SCM_Module *module, SCM_Symbol *sym) {
   return false;
 }
 
-// Helper function to lookup variable in module
+// The module whose own table holds what sym means as a name of this one, or nullptr.
 // An interface presents the current binding of its module, which may have been
-// defined or changed after it was exported; its own copy serves re-exports.
-SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
+// defined or changed after it was exported, and passes a re-exported name on to
+// the module it comes from; its own copy serves where that is no longer found.
+// Modules may re-export from one another in a circle: seen are those searched already.
+static SCM_Module *binding_module(SCM_Module *module, SCM_Symbol *sym, std::vector<SCM_Module *> &seen) {
   SCM *copy = own_binding_lookup(module, sym);
   SCM_Module *target = interface_target(module);
-  if (target) {
-    SCM *var = own_binding_lookup(target, sym);
-    if (var && (copy || is_exported(target, sym))) {
-      return var;
+  if (target && (copy || is_exported(target, sym))) {
+    if (own_binding_lookup(target, sym)) {
+      return target;
+    }
+    if (std::find(seen.begin(), seen.end(), target) == seen.end()) {
+      seen.push_back(target);
+      for (SCM_List *use = target->uses; use; use = use->next) {
+        SCM_Module *found = is_module(use->data) ? binding_module(cast<SCM_Module>(use->data), sym, seen) : nullptr;
+        if (found) {
+          return found;
+        }
+      }
     }
   }
-  return copy;
+  return copy ? module : nullptr;
+}
+
+static SCM_Module *binding_module(SCM_Module *module, SCM_Symbol *sym) {
+  std::vector<SCM_Module *> seen;
+  return binding_module(module, sym, seen);
+}
+
+// Helper function to lookup variable in module
+SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
+  SCM_Module *owner = binding_module(module, sym);
+  return owner ? own_binding_lookup(owner, sym) : nullptr;
 }
 
 static SCM_Module *imported_view(SCM_Module *module);
@@ -275,13 +298,10 @@ SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym) {
     SCM *use_module_scm = uses->data;
     if (is_module(use_module_scm)) {
       SCM_Module *use_module = cast<SCM_Module>(use_module_scm);
-      if (module_obarray_lookup(use_module, sym)) {
-        // An imported binding belongs to the module behind the interface
-        SCM_Module *target = interface_target(use_module);
-        if (target && own_binding_lookup(target, sym)) {
-          return target;
-        }
-        return use_module;  // Found in use module
+      // An imported binding belongs to the module behind the interface
+      SCM_Module *owner = binding_module(use_module, sym);
+      if (owner) {
+        return owner;  // Found in use module
       }
     }
     uses = uses->next;
-- 
2.43.0


From c0b3dfb7fa43768dda6483271e99012d052d2af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:28 +0000
Subject: [PATCH 50/57] fix: collect before giving up when the heap cannot grow

A refused mmap ended the program even when most of the heap was garbage.
---
 src/c/gc.cc | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c88d1d6..693fdb3 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -160,6 +160,9 @@ static void free_to_list(GCBlock *block) {
 // Bump allocation (within the current segment)
 // =========================================================================
 
+// Returns nullptr when the heap has to grow and cannot, for the reason in g_heap_full.
+static const char *g_heap_full = nullptr;
+
 static void *bump_allocate(size_t total_size) {
   // Align total_size up to 16 bytes.
   if (total_size & 15) {
@@ -182,15 +185,14 @@ static void *bump_allocate(size_t total_size) {
     void *mem = mmap(nullptr, grow_sz, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
     if (mem == MAP_FAILED) {
-      fprintf(stderr, "FATAL: gc heap mmap failed\n");
-      fflush(stderr);
-      abort();
+      g_heap_full = "mmap failed";
+      return nullptr;
     }
 
     if (g_next_seg >= MAX_SEGMENTS) {
-      fprintf(stderr, "FATAL: gc heap segment pool exhausted (max %d), allocation failed\n", MAX_SEGMENTS);
-      fflush(stderr);
-      abort();
+      g_heap_full = "segment pool exhausted";
+      munmap(mem, grow_sz);
+      return nullptr;
     }
     HeapSegment *seg = &g_seg_pool[g_next_seg++];
     seg->start = (char *)mem;
@@ -223,6 +225,21 @@ static void *bump_allocate(size_t total_size) {
 // gc_alloc
 // =========================================================================
 
+// The heap cannot grow, so the request has to be met with what a collection reclaims
+static void *alloc_after_collection(TypeTag tag, size_t size) {
+  static bool collected = false;
+  if (collected) {
+    fprintf(stderr, "FATAL: gc heap %s\n", g_heap_full);
+    fflush(stderr);
+    abort();
+  }
+  collected = true;
+  run_gc();
+  void *obj = gc_alloc(tag, size);
+  collected = false;
+  return obj;
+}
+
 void *gc_alloc(TypeTag tag, size_t size) {
   size_t total_size = sizeof(GCBlock) + size;
 
@@ -252,6 +269,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
     } else {
       // Bump-allocate a new block of the appropriate fixed size.
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + class_size);
+      if (!block) {
+        return alloc_after_collection(tag, size);
+      }
     }
 
     // Ensure the block header size field matches the class.
@@ -280,6 +300,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
       // 16-byte units, and the sweep finds the next header by the size field.
       size_t aligned_size = (size + 15) & ~(size_t)15;
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + aligned_size);
+      if (!block) {
+        return alloc_after_collection(tag, size);
+      }
       block->size = aligned_size;
     } else {
       // Use the block as-is with its original size.  The sequential
-- 
2.43.0


From 7ecb53049960da293235fca9feb33032bcd8ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:08 +0000
Subject: [PATCH 51/57] fix: let memory outside the heap bring on a collection

Vectors, strings, hash tables, string ports and captured stacks keep their contents
outside the heap, and a loop that dropped large ones grew by gigabytes before the
few bytes each takes inside the heap reached the threshold.
---
 src/c/continuation.cc |  1 +
 src/c/gc.cc           | 11 ++++++++++-
 src/c/gc.h            |  4 ++++
 src/c/hash_table.cc   |  1 +
 src/c/port.cc         |  3 +++
 src/c/string.cc       |  5 +++++
 src/c/vector.cc       |  1 +
 7 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 7c464e3..96cf608 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -34,6 +34,7 @@ SCM *scm_make_continuation(int *first) {
   SCM_DEBUG_CONT("stack_len: %ld\n", stack_size);
   src = cont_base;
   src -= stack_size;
+  gc_note_external(sizeof(long) * stack_size);
   auto cont = make_cont(stack_size, (long *)malloc(sizeof(long) * stack_size), src);
   auto data = wrap(cont);
 #if defined(__has_feature) && __has_feature(address_sanitizer)
diff --git a/src/c/gc.cc b/src/c/gc.cc
index 693fdb3..ea4f570 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -42,6 +42,9 @@ static const int    NUM_BUCKETS       = 5;
 // Minimum GC threshold.
 static const size_t MIN_THRESHOLD = 2 * 1024 * 1024; // 2 MB
 
+// Memory allocated outside the heap between two collections.
+static const size_t EXTERNAL_THRESHOLD = 32 * 1024 * 1024; // 32 MB
+
 // =========================================================================
 // Global GC state (definitions for externs in gc.h)
 // =========================================================================
@@ -84,6 +87,7 @@ static GCBlock *free_lists[NUM_BUCKETS] = { nullptr };
 // =========================================================================
 
 static size_t g_allocated_since_gc = 0;  // bytes allocated since last GC
+static size_t g_external_since_gc  = 0;  // bytes allocated outside the heap since last GC
 static size_t g_last_live_bytes    = 0;  // live bytes after last GC
 static size_t g_gc_threshold       = 0;  // threshold to trigger next GC
 
@@ -244,7 +248,7 @@ void *gc_alloc(TypeTag tag, size_t size) {
   size_t total_size = sizeof(GCBlock) + size;
 
   // Trigger GC if threshold exceeded.
-  if (g_allocated_since_gc >= g_gc_threshold) {
+  if (g_allocated_since_gc >= g_gc_threshold || g_external_since_gc >= EXTERNAL_THRESHOLD) {
     run_gc();
   }
 #ifdef PSCM_SIM
@@ -554,6 +558,11 @@ void run_gc() {
   mark_phase();
   sweep_phase();
   g_allocated_since_gc = 0;
+  g_external_since_gc = 0;
+}
+
+void gc_note_external(size_t size) {
+  g_external_since_gc += size;
 }
 
 SCM *scm_gc() {
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..0f1f579 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -122,6 +122,10 @@ void gc_init();
 // Returns a pointer to the object data area (after the GCBlock header).
 void *gc_alloc(TypeTag tag, size_t size);
 
+// Count SIZE bytes allocated outside the heap on behalf of an object in it, so that
+// large vectors, strings, captured stacks and the like bring on a collection as well.
+void gc_note_external(size_t size);
+
 // Run a full mark-sweep cycle.
 void run_gc();
 
diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index bc10f2f..a812ae2 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -245,6 +245,7 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
     }
   }
   
+  gc_note_external(capacity * sizeof(SCM *));
   auto hash_table = (SCM_HashTable *)gc_alloc(GC_HASH, sizeof(SCM_HashTable));
   hash_table->capacity = capacity;
   hash_table->size = 0;
diff --git a/src/c/port.cc b/src/c/port.cc
index 5f11309..e082061 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -226,6 +226,7 @@ SCM *scm_c_open_input_string(SCM *str) {
   port->is_closed = false;
   port->file = nullptr;
   port->string_data = new char[s->len + 1];
+  gc_note_external(s->len);
   memcpy(port->string_data, s->data, s->len);
   port->string_data[s->len] = '\0';
   port->string_pos = 0;
@@ -259,6 +260,7 @@ SCM *scm_c_open_output_string() {
 static SCM *scm_from_c_string_port(const char *data, int len) {
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_note_external(len);
   memcpy(s->data, data, len);
   s->data[len] = '\0';
   s->len = len;
@@ -410,6 +412,7 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     if (port->output_len + 1 >= port->output_capacity) {
       port->output_capacity *= 2;
       port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
+      gc_note_external(port->output_capacity);
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
diff --git a/src/c/string.cc b/src/c/string.cc
index 543ec4b..6b6605f 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -43,6 +43,7 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_note_external(len);
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
@@ -145,6 +146,7 @@ static void write_string_to_port(SCM_Port *port, SCM *text) {
     while (port->output_len + len + 1 >= port->output_capacity) {
       port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
       port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
+      gc_note_external(port->output_capacity);
     }
     memcpy(port->output_buffer + port->output_len, str, len);
     port->output_len += len;
@@ -605,6 +607,7 @@ SCM *scm_c_substring(SCM *str, SCM *start, SCM *end) {
   int64_t len = end_idx - start_idx;
   SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   result->data = new char[len + 1];
+  gc_note_external(len);
   memcpy(result->data, s->data + start_idx, len);
   result->data[len] = '\0';
   result->len = len;
@@ -650,6 +653,7 @@ SCM *scm_c_string_append(SCM_List *args) {
   // Create result string
   SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   result->data = new char[total_len + 1];
+  gc_note_external(total_len);
   result->len = total_len;
   
   // Copy strings
@@ -1002,6 +1006,7 @@ SCM *scm_from_c_string(const char *data, int len) {
   }
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_note_external(len);
   memcpy(s->data, data, len);
   s->data[len] = '\0';
   s->len = len;
diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..75491a3 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -21,6 +21,7 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   vec->length = (size_t)len;
   if (len > 0) {
     vec->elements = new SCM*[len];
+    gc_note_external(len * sizeof(SCM *));
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
-- 
2.43.0


From 126074311f0fa59975b6078d9f0d20d135f462ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:42 +0000
Subject: [PATCH 52/57] fix: close the files of abandoned ports when no more
 can be opened

A loop that dropped its ports ran out of file descriptors long before the memory the
ports take brought on a collection.
---
 src/c/gc.cc     | 10 ++++++++++
 src/c/gc.h      |  5 +++++
 src/c/module.cc |  2 +-
 src/c/parse.cc  |  2 +-
 src/c/port.cc   |  4 ++--
 5 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index ea4f570..52cdc01 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -10,6 +10,7 @@
 #ifndef MAP_ANONYMOUS
 #define MAP_ANONYMOUS MAP_ANON
 #endif
+#include <cerrno>
 #include <csetjmp>
 #include <cstdint>
 #include <cstdio>
@@ -561,6 +562,15 @@ void run_gc() {
   g_external_since_gc = 0;
 }
 
+FILE *gc_fopen(const char *path, const char *mode) {
+  FILE *f = fopen(path, mode);
+  if (!f && (errno == EMFILE || errno == ENFILE)) {
+    run_gc();
+    f = fopen(path, mode);
+  }
+  return f;
+}
+
 void gc_note_external(size_t size) {
   g_external_since_gc += size;
 }
diff --git a/src/c/gc.h b/src/c/gc.h
index 0f1f579..36090ee 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -2,6 +2,7 @@
 
 #include <stddef.h>
 #include <stdint.h>
+#include <stdio.h>
 #include <vector>
 
 struct SCM;
@@ -126,6 +127,10 @@ void *gc_alloc(TypeTag tag, size_t size);
 // large vectors, strings, captured stacks and the like bring on a collection as well.
 void gc_note_external(size_t size);
 
+// Like fopen, but when no more files can be opened, collects the ports that are no
+// longer in use, which closes their files, and tries again.
+FILE *gc_fopen(const char *path, const char *mode);
+
 // Run a full mark-sweep cycle.
 void run_gc();
 
diff --git a/src/c/module.cc b/src/c/module.cc
index 571d5f2..34e117f 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -381,7 +381,7 @@ static char *module_name_to_path(SCM_List *name) {
 
 // Helper function to check if file exists
 static bool file_exists(const char *path) {
-  FILE *f = fopen(path, "r");
+  FILE *f = gc_fopen(path, "r");
   if (f) {
     fclose(f);
     return true;
diff --git a/src/c/parse.cc b/src/c/parse.cc
index 342c9e0..eccec23 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1406,7 +1406,7 @@ SCM *parse(const char *s) {
 
 // Read file content
 static char *read_file_content(const char *filename) {
-  FILE *f = fopen(filename, "r");
+  FILE *f = gc_fopen(filename, "r");
   if (!f) {
     fprintf(stderr, "ERROR: cannot open file: %s\n", filename);
     return nullptr;
diff --git a/src/c/port.cc b/src/c/port.cc
index e082061..ab28fdb 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -89,7 +89,7 @@ SCM *scm_c_open_input_file(SCM *filename) {
   }
   
   SCM_String *s = cast<SCM_String>(filename);
-  FILE *f = fopen(s->data, "r");
+  FILE *f = gc_fopen(s->data, "r");
   if (!f) {
     eval_error("open-input-file: cannot open file: %s", s->data);
     return nullptr;
@@ -118,7 +118,7 @@ SCM *scm_c_open_output_file(SCM *filename) {
   }
   
   SCM_String *s = cast<SCM_String>(filename);
-  FILE *f = fopen(s->data, "w");
+  FILE *f = gc_fopen(s->data, "w");
   if (!f) {
     eval_error("open-output-file: cannot open file: %s", s->data);
     return nullptr;
-- 
2.43.0


From 66fcb55572785168cca93184cc7bc878577970af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:50 +0000
Subject: [PATCH 53/57] fix: do not let stale stack slots chain continuations
 together

A captured stack is traced conservatively.  In a loop it could hold, in a slot no
variable had been stored in yet, the continuation captured by the step before, so
that every continuation kept its predecessor and none was ever reclaimed.
---
 src/c/continuation.cc | 21 +++++++++++++++++++++
 src/c/do.cc           |  1 +
 src/c/for_each.cc     |  1 +
 src/c/map.cc          |  1 +
 src/c/pscm.h          |  1 +
 5 files changed, 25 insertions(+)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 96cf608..e779939 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -17,6 +17,26 @@ SCM_List *copy_wind_chain(SCM_List *chain);
 SCM_List *unwind_wind_chain(SCM_List *target);
 void rewind_wind_chain(SCM_List *common, SCM_List *target);
 
+// Whether a stack was captured since the dead part of the stack was last cleared
+static bool g_captured = false;
+
+__attribute__((noinline)) static void clear_below() {
+  char dead[16384];
+  memset(dead, 0, sizeof(dead));
+  asm volatile("" : : "r"(dead) : "memory");
+}
+
+// A captured stack keeps alive whatever its slots refer to, those no variable has been
+// stored in yet included.  When such slots still hold the continuation captured by the
+// previous step of a loop, every continuation keeps the one before it.  The loops call
+// this before each step, so that the step starts on a cleared stack.
+void scm_clear_dead_stack() {
+  if (g_captured) {
+    g_captured = false;
+    clear_below();
+  }
+}
+
 // no_sanitize("address"): this function reads the entire C stack (from
 // cont_base to the current stack top), crossing multiple independent stack
 // frames. This is UB per the C standard and ASan detects it as
@@ -34,6 +54,7 @@ SCM *scm_make_continuation(int *first) {
   SCM_DEBUG_CONT("stack_len: %ld\n", stack_size);
   src = cont_base;
   src -= stack_size;
+  g_captured = true;
   gc_note_external(sizeof(long) * stack_size);
   auto cont = make_cont(stack_size, (long *)malloc(sizeof(long) * stack_size), src);
   auto data = wrap(cont);
diff --git a/src/c/do.cc b/src/c/do.cc
index 169fff6..ead1634 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -174,6 +174,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   // Main loop: continue while test condition is false
   int loop_count = 0;
   while (is_false(ret)) {
+    scm_clear_dead_stack();
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 7b49156..4fd9eb9 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -84,6 +84,7 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   // Iterate through all lists simultaneously
   // Continue while at least one list has elements
   while (true) {
+    scm_clear_dead_stack();
     // Check if all lists are exhausted (early exit)
     bool all_exhausted = true;
     bool any_exhausted = false;
diff --git a/src/c/map.cc b/src/c/map.cc
index 8aad7df..22cf5b2 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -55,6 +55,7 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   
   // Continue until the shortest list is exhausted
   while (true) {
+    scm_clear_dead_stack();
     // Collect one element from each list
     // Wrap each element in quote to prevent evaluation
     SCM_List args_dummy = make_list_dummy();
diff --git a/src/c/pscm.h b/src/c/pscm.h
index a342481..ee96744 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -739,6 +739,7 @@ void repl();
  * Functions in continuation.cc
  */
 SCM *scm_make_continuation(int *first);
+void scm_clear_dead_stack();
 void scm_dynthrow(SCM *cont, SCM *args);
 
 /*
-- 
2.43.0


From 3ae4c00173e47ddcef1894716a7b6628c40072da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:32 +0000
Subject: [PATCH 54/57] fix: read from a port up to the end of the datum

Comments and character literals inside a list were taken for parentheses and
strings, so that the reader reported an early end of file or a parse error, and
an atom swallowed the character that ends it or the datum that follows it.
---
 src/c/port.cc | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index ab28fdb..954f63c 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -607,6 +607,11 @@ SCM *scm_force_output(SCM_List *args) {
   return scm_none();
 }
 
+// Whether a number, symbol or other atom ends before this character
+static bool ends_atom(int ch) {
+  return isspace(ch) || (ch && strchr("()\";'`,", ch));
+}
+
 // Helper function to read a complete expression from port
 // This reads characters until we have a complete expression
 static SCM *read_expr_from_port(SCM_Port *port) {
@@ -624,6 +629,8 @@ static SCM *read_expr_from_port(SCM_Port *port) {
   int paren_depth = 0;
   bool in_string = false;
   bool escaped = false;
+  bool in_comment = false;
+  bool in_atom = false;
   bool started = false;
   
   // Skip leading whitespace and comments
@@ -670,9 +677,9 @@ static SCM *read_expr_from_port(SCM_Port *port) {
     return scm_eof_object();
   }
   
-  // Read until we have a complete expression
+  // Read until we have a complete expression. What follows it stays in the port.
   while (true) {
-    int ch = read_char_from_port(port);
+    int ch = peek_char_from_port(port);
     if (ch == EOF) {
       if (paren_depth == 0 && !in_string) {
         break;
@@ -681,6 +688,22 @@ static SCM *read_expr_from_port(SCM_Port *port) {
       return scm_eof_object();
     }
     
+    if (in_atom && paren_depth == 0 && !escaped && ends_atom(ch) &&
+        !(ch == '(' && text->data[pos - 1] == '#')) {
+      break;
+    }
+    read_char_from_port(port);
+    
+    // Leave out comments inside the expression
+    if (in_comment) {
+      in_comment = ch != '\n' && ch != '\r';
+      continue;
+    }
+    if (ch == ';' && !in_string && !escaped) {
+      in_comment = true;
+      ch = ' ';
+    }
+    
     // Resize buffer if needed
     if (pos >= buffer_size - 1) {
       char *larger = new char[buffer_size * 2];
@@ -697,13 +720,19 @@ static SCM *read_expr_from_port(SCM_Port *port) {
       continue;
     }
     
-    if (ch == '\\' && in_string) {
+    // The character after a backslash stands for itself, in a string as well
+    // as in a character literal
+    if (ch == '\\' && (in_string || (pos >= 2 && text->data[pos - 2] == '#'))) {
       escaped = true;
       continue;
     }
     
     if (ch == '"') {
       in_string = !in_string;
+      if (!in_string && paren_depth == 0) {
+        // Complete string
+        break;
+      }
       continue;
     }
     
@@ -723,10 +752,8 @@ static SCM *read_expr_from_port(SCM_Port *port) {
         // Complete expression
         break;
       }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
-      break;
+    } else if (!ends_atom(ch) && !(ch == '@' && text->data[pos > 1 ? pos - 2 : 0] == ',')) {
+      in_atom = true;
     }
   }
   
-- 
2.43.0


From 7016bfc5dadb0f006a60faa1a95361b716392452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 55/57] fix: give every iteration of a do loop variables of its
 own

The variables were assigned in place, so that a continuation captured in an
initial value, a step or the body came back to the values of a later iteration.
---
 src/c/do.cc | 101 ++++++++++++++++++----------------------------------
 1 file changed, 34 insertions(+), 67 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index ead1634..d68f709 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,67 +1,43 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Helper function to update do loop variables
-// All update expressions are evaluated first (in parallel), then all variables are updated
-// This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
+// Helper function to step do loop variables
+// Every iteration has variables of its own: what captured those of an earlier one,
+// a procedure or a continuation, keeps them.
+// All step expressions see the old values (parallel binding). Variables without a
+// step keep their value.
+static SCM_Environment *step_do_variables(SCM_Environment *env, SCM_Environment *do_env, SCM_List *var_init_l) {
   // The new values are collected in a GC-managed list, latest first.  It is their
   // only reference, and it is never modified once built, so a continuation captured
-  // by an update expression can be re-entered.
+  // by a step expression can be re-entered.
   SCM_List *updates = nullptr;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  auto it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      return;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
-    auto new_var_val = eval_with_env(do_env, var_update_step);
+  for (; var_init_l; var_init_l = var_init_l->next) {
+    auto var_init_expr = cast<SCM_List>(var_init_l->data);
+    auto var_step = var_init_expr->next->next ? var_init_expr->next->next->data : var_init_expr->data;
+    auto new_var_val = eval_with_env(do_env, var_step);
     if (!new_var_val) {
-      // Evaluation error occurred
-      return;
+      return nullptr;  // Evaluation error
     }
     
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval do step ... ");
-      print_ast(var_update_step);
+      print_ast(var_step);
       printf(" --> ");
       print_ast(new_var_val);
       printf("\n");
     }
-    auto update = make_list(wrap(var_name), new_var_val);
+    auto update = make_list(var_init_expr->data, new_var_val);
     auto update_node = make_list(wrap(update));
     update_node->next = updates;
     updates = update_node;
   }
   
-  // Second pass: update all variables with the pre-computed values
-  // This happens AFTER all update expressions have been evaluated
-  // This implements parallel binding: all variables are updated simultaneously
+  auto next_env = make_env(env);
   for (; updates; updates = updates->next) {
     auto update = cast<SCM_List>(updates->data);
-    scm_env_insert(do_env, cast<SCM_Symbol>(update->data), update->next->data);
+    scm_env_insert(next_env, cast<SCM_Symbol>(update->data), update->next->data, /*search_parent=*/false);
   }
+  return next_env;
 }
 
 // Helper function for do special form
@@ -92,11 +68,8 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     print_list(body_clause);
     printf("\n");
   }
-  auto do_env = make_env(env);
-
   auto var_init_it = var_init_l;
-  SCM_List var_update_dummy = make_list_dummy();
-  auto var_update_it = &var_update_dummy;
+  SCM_List *init_values = nullptr;  // latest first, never modified once built
 
   // Process variable bindings: (var init [step])
   while (var_init_it) {
@@ -112,8 +85,6 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       return nullptr;
     }
     
-    auto var_name = cast<SCM_Symbol>(var_init_expr->data);
-    
     // Evaluate initial value in the parent environment
     if (!var_init_expr->next) {
       eval_error("do: variable binding must have an initial value");
@@ -124,24 +95,10 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       return nullptr;  // Evaluation error
     }
     
-    // Check for optional update step
-    SCM *var_update_step = nullptr;
-    if (var_init_expr->next->next) {
-      var_update_step = var_init_expr->next->next->data;
-    }
-
-    // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
-    
-    // Store update step if provided
-    if (var_update_step) {
-      // Store as a list: (var_name var_update_step)
-      SCM *var_name_wrapped = wrap(var_name);
-      SCM *pair = scm_list2(var_name_wrapped, var_update_step);
-      var_update_it->next = make_list(pair);
-      var_update_it = var_update_it->next;
-      var_update_it->next = nullptr;
-    }
+    auto init = make_list(var_init_expr->data, var_init_val);
+    auto init_node = make_list(wrap(init));
+    init_node->next = init_values;
+    init_values = init_node;
     var_init_it = var_init_it->next;
   }
 
@@ -149,6 +106,13 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     eval_error("do: test clause must be a list");
     return nullptr;
   }
+  
+  auto do_env = make_env(env);
+  for (; init_values; init_values = init_values->next) {
+    auto init = cast<SCM_List>(init_values->data);
+    scm_env_insert(do_env, cast<SCM_Symbol>(init->data), init->next->data, /*search_parent=*/false);
+  }
+  
   auto test_clause_list = cast<SCM_List>(test_clause);
   
   if (debug_enabled) {
@@ -189,8 +153,11 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       eval_list_with_env(do_env, body_clause);
     }
     
-    // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    // Step all variables (parallel binding)
+    do_env = step_do_variables(env, do_env, var_init_l);
+    if (!do_env) {
+      return nullptr;  // Evaluation error
+    }
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From 852e75ff34b9602f482d332a883929f651ad8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:12 +0000
Subject: [PATCH 56/57] fix: report a write to a closed port

The text was dropped and the write returned as if it had succeeded.
---
 src/c/port.cc   | 1 +
 src/c/string.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/c/port.cc b/src/c/port.cc
index 954f63c..da59e7b 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -401,6 +401,7 @@ static int peek_char_from_port(SCM_Port *port) {
 // Helper function to write a character to a port (exported for use in string.cc)
 void write_char_to_port_string(SCM_Port *port, char ch) {
   if (port->is_closed) {
+    eval_error("write to a closed port");
     return;
   }
   
diff --git a/src/c/string.cc b/src/c/string.cc
index 6b6605f..54c710c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -133,6 +133,7 @@ static bool port_accepts_output(SCM_Port *port) {
 // Helper function to write string to port
 static void write_string_to_port(SCM_Port *port, SCM *text) {
   if (!port || port->is_closed) {
+    eval_error("write to a closed port");
     return;
   }
   
-- 
2.43.0


From 96861fd84ca1a0ac1c495d923a399d5d8cab6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:58 +0000
Subject: [PATCH 57/57] fix: pscm_eval_file returns null when an expression
 fails

It went on to the next expression and returned the value of the last one, so
that the caller took a file that failed half-way for a good one.
---
 src/c/pscm_api.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index 8c6df61..f9eceae 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -72,12 +72,15 @@ SCM *pscm_eval_file(const char *filename) {
     return nullptr;
   }
   
-  // Evaluate all expressions, return the last result
+  // Evaluate the expressions up to the first error, return the last result
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
     if (current->data) {
       last_result = pscm_eval(current->data);
+      if (!last_result) {
+        return nullptr;  // The error is available to the caller
+      }
     }
     current = current->next;
   }
-- 
2.43.0

