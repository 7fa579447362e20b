From d1070a76e993e82b3bbfee3af8792c5ca4bdc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 01/43] fix: string comparison mistaken for "incomparable"

buzzobj_cmp() returned the raw value of strcmp(), which the comparison
instructions take to mean "one operand is nil" when it happens to be 2:
"c" == "a" was true.
---
 src/buzz/buzztype.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 35e57b0..793497c 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -133,6 +133,13 @@ int buzzobj_eq(const buzzobj_t a,
 /****************************************/
 /****************************************/
 
+/* Compares two strings, returning -1, 0, or 1 */
+static int buzzobj_strcmp(const char* a,
+                          const char* b) {
+   int res = strcmp(a, b);
+   return (res > 0) - (res < 0);
+}
+
 int buzzobj_cmp(const buzzobj_t a,
                 const buzzobj_t b) {
    /* Nil */
@@ -165,29 +172,29 @@ int buzzobj_cmp(const buzzobj_t a,
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-      return strcmp(a->s.value.str, b->s.value.str);
+      return buzzobj_strcmp(a->s.value.str, b->s.value.str);
    }
 
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_INT) {
       char str[30];
       sprintf(str, "%d", b->i.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
       char str[30];
       sprintf(str, "%f", b->f.value);
-      return strcmp(a->s.value.str, str);
+      return buzzobj_strcmp(a->s.value.str, str);
    }
 
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%d", a->i.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
       char str[30];
       sprintf(str, "%f", a->f.value);
-      return strcmp(str, b->s.value.str);
+      return buzzobj_strcmp(str, b->s.value.str);
    }
    /* Tables */
    if(a->o.type == BUZZTYPE_TABLE || b->o.type == BUZZTYPE_TABLE) {
-- 
2.43.0


From ceb17d0f9a12184df52b5025eb4293b2dfcb69c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 02/43] fix: comparison between nil and another value was
 always true

x == nil, x < nil and so on gave 1 for any x that is not nil. Now nil is
different from every other value, and neither smaller nor larger.
---
 src/buzz/buzzvm.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d8b2dff..cfdfc53 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -124,8 +124,9 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
  * BuzzVM hook functions or buzzvm_step().
  * @param vm The VM data.
  * @param oper The binary operation, e.g. == > >= < <=
+ * @param ifnil The result when exactly one operand is nil
  */
-#define buzzvm_binary_op_cmp(vm, oper)                                  \
+#define buzzvm_binary_op_cmp(vm, oper, ifnil)                           \
    buzzvm_stack_assert((vm), 2);                                        \
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);                              \
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);                              \
@@ -133,7 +134,7 @@ static uint16_t SWARM_BROADCAST_PERIOD = 10;
    buzzdarray_pop(vm->stack);                                           \
    buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_INT);                 \
    int cmp = buzzobj_cmp(op2, op1);                                     \
-   res->i.value = (cmp == 2 || cmp oper 0);                             \
+   res->i.value = (cmp == 2 ? (ifnil) : cmp oper 0);                    \
    return buzzvm_push(vm, res);
 
 /****************************************/
@@ -1632,42 +1633,42 @@ buzzvm_state buzzvm_rshift(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_eq(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, ==);
+   buzzvm_binary_op_cmp(vm, ==, 0);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_neq(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, !=);
+   buzzvm_binary_op_cmp(vm, !=, 1);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_gt(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, >);
+   buzzvm_binary_op_cmp(vm, >, 0);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_gte(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, >=);
+   buzzvm_binary_op_cmp(vm, >=, 0);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_lt(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, <);
+   buzzvm_binary_op_cmp(vm, <, 0);
 }
 
 /****************************************/
 /****************************************/
 
 buzzvm_state buzzvm_lte(buzzvm_t vm) {
-   buzzvm_binary_op_cmp(vm, <=);
+   buzzvm_binary_op_cmp(vm, <=, 0);
 }
 
 /****************************************/
-- 
2.43.0


From 2a01a92716772c5c2624a10958380f12b6b9557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 03/43] fix: modulo of a negative number with mixed integer and
 float operands

The divisor was read with the type of the other operand: -7 % 2.5 gave
1075838976.
---
 src/buzz/buzzvm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index cfdfc53..0dcb6f2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1479,14 +1479,14 @@ buzzvm_state buzzvm_mod(buzzvm_t vm) {
            op2->o.type == BUZZTYPE_FLOAT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->f.value, op1->i.value);
-      if(res->f.value < 0.) res->f.value += op1->f.value;
+      if(res->f.value < 0.) res->f.value += op1->i.value;
       return buzzvm_push(vm, res);
    }
    else if(op1->o.type == BUZZTYPE_FLOAT &&
            op2->o.type == BUZZTYPE_INT) {
       buzzobj_t res = buzzheap_newobj((vm), BUZZTYPE_FLOAT);
       res->f.value = fmodf(op2->i.value, op1->f.value);
-      if(res->f.value < 0.) res->f.value += op1->i.value;
+      if(res->f.value < 0.) res->f.value += op1->f.value;
       return buzzvm_push(vm, res);
    }
    else {
-- 
2.43.0


From 08cc352df5a70436e0804ffe9abd0352a2d242d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 04/43] fix: crash reading a table with an invalid key

The type number was passed where the format expects a string: reading
t[t] crashed instead of reporting a type error.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0dcb6f2..f4dc522 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1323,7 +1323,7 @@ buzzvm_state buzzvm_tget(buzzvm_t vm) {
    if(k->o.type != BUZZTYPE_INT &&
       k->o.type != BUZZTYPE_FLOAT &&
       k->o.type != BUZZTYPE_STRING) {
-      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", k->o.type);
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as table key", buzztype_desc[k->o.type]);
       return vm->state;
    }
    const buzzobj_t* v = buzzdict_get(t->t.value, &k, buzzobj_t);
-- 
2.43.0


From 761113c65ce388a1e382aea7da87fa666fb6fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:28 +0000
Subject: [PATCH 05/43] fix: integer division by zero killed the process

Integer / and % with a null divisor (or INT32_MIN and -1) raised SIGFPE.
They now put the virtual machine in an error state.
---
 src/buzz/buzzvm.c | 21 ++++++++++++++++++++-
 src/buzz/buzzvm.h |  3 ++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index f4dc522..d21c575 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -14,7 +14,7 @@
 
 const char *buzzvm_state_desc[] = { "no code", "ready", "done", "error", "stopped" };
 
-const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id" };
+const char *buzzvm_error_desc[] = { "none", "unknown instruction", "stack error", "wrong number of local variables", "pc out of range", "function id out of range", "type mismatch", "unknown string id", "unknown swarm id", "math error" };
 
 const char *buzzvm_instr_desc[] = {"nop", "done", "pushnil", "dup", "pop", "ret0", "ret1", "add", "sub", "mul", "div", "mod", "pow", "unm", "land", "lor", "lnot", "band", "bor", "bnot", "lshift", "rshift", "eq", "neq", "gt", "gte", "lt", "lte", "gload", "gstore", "pusht", "tput", "tget", "callc", "calls", "pushf", "pushi", "pushs", "pushcn", "pushcc", "pushl", "lload", "lstore", "lremove", "jump", "jumpz", "jumpnz"};
 
@@ -1448,7 +1448,25 @@ buzzvm_state buzzvm_mul(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Makes sure that the integer division of stack(#2) by stack(#1) is defined.
+ * Nothing to check if the operands are not both integers.
+ */
+#define buzzvm_intdiv_assert(vm)                                        \
+   if(buzzvm_stack_at(vm, 1)->o.type == BUZZTYPE_INT &&                 \
+      buzzvm_stack_at(vm, 2)->o.type == BUZZTYPE_INT &&                 \
+      (buzzvm_stack_at(vm, 1)->i.value == 0 ||                          \
+       (buzzvm_stack_at(vm, 1)->i.value == -1 &&                        \
+        buzzvm_stack_at(vm, 2)->i.value == INT32_MIN))) {               \
+      buzzvm_seterror((vm),                                             \
+                      BUZZVM_ERROR_MATH,                                \
+                      "integer division by zero or overflow");          \
+      return (vm)->state;                                               \
+   }
+
 buzzvm_state buzzvm_div(buzzvm_t vm) {
+   buzzvm_stack_assert((vm), 2);
+   buzzvm_intdiv_assert(vm);
    buzzvm_binary_op_arith(vm, /);
 }
 
@@ -1457,6 +1475,7 @@ buzzvm_state buzzvm_div(buzzvm_t vm) {
 
 buzzvm_state buzzvm_mod(buzzvm_t vm) {
    buzzvm_stack_assert((vm), 2);
+   buzzvm_intdiv_assert(vm);
    buzzobj_t op1 = buzzvm_stack_at(vm, 1);
    buzzobj_t op2 = buzzvm_stack_at(vm, 2);
    buzzdarray_pop(vm->stack);
diff --git a/src/buzz/buzzvm.h b/src/buzz/buzzvm.h
index 4f0aa09..7f88125 100644
--- a/src/buzz/buzzvm.h
+++ b/src/buzz/buzzvm.h
@@ -44,7 +44,8 @@ extern "C" {
       BUZZVM_ERROR_FLIST,    // Function call id out of range
       BUZZVM_ERROR_TYPE,     // Type mismatch
       BUZZVM_ERROR_STRING,   // Unknown string id
-      BUZZVM_ERROR_SWARM     // Unknown swarm id
+      BUZZVM_ERROR_SWARM,    // Unknown swarm id
+      BUZZVM_ERROR_MATH      // Undefined result of a math operation
    } buzzvm_error;
    extern const char *buzzvm_error_desc[];
 
-- 
2.43.0


From ecb6670d450e8fab22dcde580dd1715be41eb104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 06/43] fix: calling a C closure executed an extra instruction

A C closure has already returned when buzzvm_callc() is done, but
buzzvm_closure_call() executed at least one more instruction: the next one
of the calling script. foreach(t, print) corrupted the execution.
---
 src/buzz/buzzvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d21c575..64ee21b 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1017,9 +1017,9 @@ buzzvm_state buzzvm_closure_call(buzzvm_t vm,
    uint32_t stacks = buzzdarray_size(vm->stacks);
    /* Call the closure and keep stepping until
     * the stack count is back to the saved value */
-   buzzvm_callc(vm);
-   do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-   while(stacks < buzzdarray_size(vm->stacks));
+   if(buzzvm_callc(vm) != BUZZVM_STATE_READY) return vm->state;
+   while(stacks < buzzdarray_size(vm->stacks))
+      if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    return vm->state;
 }
 
-- 
2.43.0


From db4ee879f2a1c83b579b2b51796ceebcd7d38324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 07/43] fix: calling a function by name with arguments crashed

buzzvm_function_call() passed the closure instead of its address to
buzzdarray_insert().
---
 src/buzz/buzzvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 64ee21b..0193c7f 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1058,9 +1058,10 @@ buzzvm_state buzzvm_function_call(buzzvm_t vm,
    }
    /* Move closure before arguments */
    if(argc > 0) {
+      buzzobj_t c = buzzvm_stack_at(vm, 1);
       buzzdarray_insert(vm->stack,
                         buzzdarray_size(vm->stack) - argc - 1,
-                        buzzvm_stack_at(vm, 1));
+                        &c);
       buzzvm_pop(vm);
    }
    /* Call the closure */
-- 
2.43.0


From dd23ad85e1fe87c5ff564b92b437b6b4885e1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 08/43] fix: registering a C function twice added it twice

The lookup compared the code of the function, not its address, with the
registered functions.
---
 src/buzz/buzzvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0193c7f..51ca6e0 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1080,7 +1080,7 @@ int buzzvm_function_cmp(const void* a, const void* b) {
 uint32_t buzzvm_function_register(buzzvm_t vm,
                                   buzzvm_funp funp) {
    /* Look for function pointer to avoid duplicates */
-   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, funp);
+   uint32_t fpos = buzzdarray_find(vm->flist, buzzvm_function_cmp, &funp);
    if(fpos == buzzdarray_size(vm->flist)) {
       /* Add function to the list */
       buzzdarray_push(vm->flist, &funp);
-- 
2.43.0


From 2cbce08b8ce24d1d0043d385f6198ff243500fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 09/43] fix: call with a negative argument count read outside
 the stack

---
 src/buzz/buzzvm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 51ca6e0..d0856cb 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1098,7 +1098,13 @@ buzzvm_state buzzvm_call(buzzvm_t vm, int isswrm) {
    int32_t argn = buzzvm_stack_at(vm, 1)->i.value;
    buzzvm_pop(vm);
    /* Make sure the stack has enough elements */
-   buzzvm_stack_assert(vm, argn+1);
+   if(argn < 0 || argn >= buzzvm_stack_top(vm)) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_STACK,
+                      "wrong number of arguments %" PRId32,
+                      argn);
+      return vm->state;
+   }
    /* Make sure the closure is where expected */
    buzzvm_type_assert(vm, argn+1, BUZZTYPE_CLOSURE);
    buzzobj_t c = buzzvm_stack_at(vm, argn+1);
-- 
2.43.0


From ac2d251d046bd3c2ce0528cb84c01e89bd2c35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 10/43] fix: crash on return and on local variables in the
 global scope

A script containing a return statement or a block with a local variable
outside of any function crashed the virtual machine. It now reports an error.
---
 src/buzz/buzzvm.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index d0856cb..4c34ac0 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1370,7 +1370,20 @@ buzzvm_state buzzvm_gstore(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/*
+ * Makes sure that there is a function call to return from, and hence a
+ * local symbol table. There is none in the global scope.
+ */
+#define buzzvm_lsyms_assert(vm)                                         \
+   if(!(vm)->lsyms) {                                                   \
+      buzzvm_seterror((vm),                                             \
+                      BUZZVM_ERROR_LNUM,                                \
+                      "no function is being executed");                 \
+      return (vm)->state;                                               \
+   }
+
 buzzvm_state buzzvm_ret0(buzzvm_t vm) {
+   buzzvm_lsyms_assert(vm);
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1401,6 +1414,7 @@ buzzvm_state buzzvm_ret0(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_ret1(buzzvm_t vm) {
+   buzzvm_lsyms_assert(vm);
    /* Pop swarm stack */
    if(vm->lsyms->isswarm)
       buzzdarray_pop(vm->swarmstack);
@@ -1701,6 +1715,7 @@ buzzvm_state buzzvm_lte(buzzvm_t vm) {
 /****************************************/
 
 buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
+   buzzvm_lsyms_assert(vm);
    /* Make sure there are sufficient local symbols in the stack */
    if(buzzvm_lnum(vm) < idx) {
       buzzvm_seterror(vm,
@@ -1718,6 +1733,7 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 /****************************************/
 
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
+   buzzvm_lsyms_assert(vm);
    buzzvm_stack_assert((vm), 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
@@ -1726,6 +1742,7 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 }
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
+   buzzvm_lsyms_assert(vm);
    if(buzzvm_lnum(vm) < num)
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
-- 
2.43.0


From f153e1301c0151924ba3b1f155ef25f84731ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:14 +0000
Subject: [PATCH 11/43] fix: instructions on missing local symbols corrupted
 the symbol table

lremove went on after reporting the error, and lstore past the end left
uninitialized symbols behind.
---
 src/buzz/buzzvm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 4c34ac0..4bf4c25 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -1735,6 +1735,14 @@ buzzvm_state buzzvm_lload(buzzvm_t vm, uint32_t idx) {
 buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
    buzzvm_lsyms_assert(vm);
    buzzvm_stack_assert((vm), 1);
+   /* The local symbols have no holes */
+   if(idx > buzzdarray_size(vm->lsyms->syms)) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_LNUM,
+                      "local symbol %" PRIu32 " out of range",
+                      idx);
+      return vm->state;
+   }
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    buzzvm_pop(vm);
    buzzdarray_set((vm)->lsyms->syms, idx, &o);
@@ -1743,11 +1751,13 @@ buzzvm_state buzzvm_lstore(buzzvm_t vm, uint32_t idx) {
 
 buzzvm_state buzzvm_lremove(buzzvm_t vm, uint32_t num) {
    buzzvm_lsyms_assert(vm);
-   if(buzzvm_lnum(vm) < num)
+   if(buzzvm_lnum(vm) < num) {
       buzzvm_seterror(vm,
                       BUZZVM_ERROR_LNUM,
                       "not enough local symbols in stack"
          );
+      return vm->state;
+   }
   for( uint32_t i =0 ; i < num ; i++ )
     buzzdarray_pop((vm)->lsyms->syms);
    return vm->state;
-- 
2.43.0


From 47fe52814dc8e8dbd808046bbfdb479007620d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:26 +0000
Subject: [PATCH 12/43] fix: malformed bytecode was read past its end

The string section, the function registration and the instruction fetch did
not check the length of the bytecode.
---
 src/buzz/buzzvm.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 4bf4c25..0a544e2 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -656,11 +656,20 @@ int buzzvm_set_bcode(buzzvm_t vm,
                      uint32_t bcode_size) {
    /* Fetch the string count */
    uint16_t count;
+   if(bcode_size < sizeof(uint16_t)) {
+      buzzvm_seterror(vm, BUZZVM_ERROR_PC, "truncated bytecode");
+      return vm->state;
+   }
    memcpy(&count, bcode, sizeof(uint16_t));
    /* Go through the strings and store them */
    uint32_t i = sizeof(uint16_t);
    long int c = 0;
    for(; (c < count) && (i < bcode_size); ++c) {
+      /* Make sure the string is terminated */
+      if(!memchr(bcode + i, 0, bcode_size - i)) {
+         buzzvm_seterror(vm, BUZZVM_ERROR_PC, "truncated bytecode");
+         return vm->state;
+      }
       /* Store string */
       buzzvm_string_register(vm, (char*)(bcode + i), 1);
       /* Advance to first character of next string */
@@ -680,7 +689,8 @@ int buzzvm_set_bcode(buzzvm_t vm,
     * Register function definitions
     * Stop when you find a 'nop'
     */
-   while(vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
+   while(vm->pc >= vm->bcode_size ||
+         vm->bcode[vm->pc] != BUZZVM_INSTR_NOP)
       if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
    buzzvm_step(vm);
    /* Initialize empty neighbors */
@@ -721,6 +731,7 @@ buzzvm_state buzzvm_step(buzzvm_t vm) {
    /* Execute GC */
    buzzheap_gc(vm);
    /* Fetch instruction and (potential) argument */
+   assert_pc(vm->pc);
    uint8_t instr = vm->bcode[vm->pc];
    /* Execute instruction */
    switch(instr) {
-- 
2.43.0


From 0d987c67e0082775eef45873da20bbd65cc76634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:47 +0000
Subject: [PATCH 13/43] fix: malformed values in messages crashed the receiver

An unknown type code indexed past the type names, and a function used as
table key aborted the process while hashing it.
---
 src/buzz/buzztype.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 793497c..1fb88bb 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -586,6 +586,8 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
    uint8_t type;
    p = buzzmsg_deserialize_u8(&type, buf, p);
    if(p < 0) return -1;
+   /* Reject the types that can't be serialized */
+   if(type >= BUZZTYPE_USERDATA) return -1;
    *data = buzzheap_newobj(vm, type);
    switch(type) {
       case BUZZTYPE_NIL: {
@@ -616,6 +618,10 @@ int64_t buzzobj_deserialize(buzzobj_t* data,
             buzzobj_t v;
             p = buzzobj_deserialize(&k, buf, p, vm);
             if(p < 0) return -1;
+            /* Make sure the value can be used as table key */
+            if(k->o.type != BUZZTYPE_INT &&
+               k->o.type != BUZZTYPE_FLOAT &&
+               k->o.type != BUZZTYPE_STRING) return -1;
             p = buzzobj_deserialize(&v, buf, p, vm);
             if(p < 0) return -1;
             buzzdict_set((*data)->t.value, &k, &v);
-- 
2.43.0


From 0b32459b7e2bc9fb61896d48bef283024d59287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:47 +0000
Subject: [PATCH 14/43] fix: malformed broadcast messages crashed the receiver

The results of decoding the topic and the value were used without checking
them, and so was the first byte of an empty message.
---
 src/buzz/buzzvm.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 0a544e2..1de6900 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -247,12 +247,21 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
       uint16_t rid;
       buzzmsg_payload_t msg;
       buzzinmsg_queue_extract(vm, &rid, &msg);
+      /* Ignore empty messages */
+      if(buzzdarray_isempty(msg)) {
+         buzzmsg_payload_destroy(&msg);
+         continue;
+      }
       /* Dispatch the message wrt its type in msg->payload[0] */
       switch(buzzmsg_payload_get(msg, 0)) {
          case BUZZMSG_BROADCAST: {
             /* Deserialize the topic */
             buzzobj_t topic;
             int64_t pos = buzzobj_deserialize(&topic, msg, 1, vm);
+            if(pos < 0 || topic->o.type != BUZZTYPE_STRING) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make sure there's a listener to call */
             const buzzobj_t* l = buzzdict_get(vm->listeners, &topic->s.value.sid, buzzobj_t);
             if(!l) {
@@ -262,6 +271,10 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
             /* Deserialize value */
             buzzobj_t value;
             pos = buzzobj_deserialize(&value, msg, pos, vm);
+            if(pos < 0) {
+               fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_BROADCAST message received\n", vm->robot);
+               break;
+            }
             /* Make an object for the robot id */
             buzzobj_t rido = buzzheap_newobj(vm, BUZZTYPE_INT);
             rido->i.value = rid;
-- 
2.43.0


From 8d1ce33c8652ceaf976af1a710b6dbc73b2c2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:47 +0000
Subject: [PATCH 15/43] fix: truncated swarm lists were used

Decoding stopped at the missing identifier, but the list was recorded with
a garbage entry in its place.
---
 src/buzz/buzzvm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index 1de6900..a7688a4 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -463,6 +463,11 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                   break;
                }
             }
+            if(pos < 0) {
+               /* Ignore a truncated list */
+               buzzdarray_destroy(&sids);
+               break;
+            }
             /* Update the information */
             buzzswarm_members_refresh(vm->swarmmembers, rid, sids);
             break;
-- 
2.43.0


From 9d66e0ba63dd9b3ef0b9cace5f0df467c8805f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:20 +0000
Subject: [PATCH 16/43] fix: comparing a string with a large float overflowed a
 buffer

The decimal text of a float takes up to 48 characters.
---
 src/buzz/buzztype.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 1fb88bb..c48ca98 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -181,7 +181,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(a->s.value.str, str);
    }
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_FLOAT) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", b->f.value);
       return buzzobj_strcmp(a->s.value.str, str);
    }
@@ -192,7 +192,7 @@ int buzzobj_cmp(const buzzobj_t a,
       return buzzobj_strcmp(str, b->s.value.str);
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_STRING) {
-      char str[30];
+      char str[64];
       sprintf(str, "%f", a->f.value);
       return buzzobj_strcmp(str, b->s.value.str);
    }
-- 
2.43.0


From 9cb07fa3a4bb5c82c3d6b6b2b82ea3956e01c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:20 +0000
Subject: [PATCH 17/43] fix: comparing functions killed the process

Operands that can't be compared are now reported as such, as it happens for
nil, instead of aborting.
---
 src/buzz/buzztype.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index c48ca98..bff20ea 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -218,9 +218,8 @@ int buzzobj_cmp(const buzzobj_t a,
       if((uintptr_t)(a->u.value) > (uintptr_t)(b->u.value)) return 1;
       return 0;
    }
-   // TODO better error management
-   fprintf(stderr, "[TODO] %s:%d: Error for comparison between Buzz objects of types %d and %d\n", __FILE__, __LINE__, a->o.type, b->o.type);
-   abort();
+   /* Everything else is not comparable */
+   return 2;
 }
 
 /****************************************/
-- 
2.43.0


From fb61c208cd9d04c130d5134f0003484b6a48807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:24 +0000
Subject: [PATCH 18/43] fix: replacing a conflict manager freed it twice

The closure belongs to the heap, which frees it when it is not used anymore.
---
 src/buzz/buzzvstig.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 9375e3e..b8236ec 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -359,7 +359,6 @@ int buzzvstig_onconflict(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflict) free((*vs)->onconflict);
       (*vs)->onconflict = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
@@ -387,7 +386,6 @@ int buzzvstig_onconflictlost(struct buzzvm_s* vm) {
       buzzvm_lload(vm, 1);
       buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
       /* Clone the closure */
-      if((*vs)->onconflictlost) free((*vs)->onconflictlost);
       (*vs)->onconflictlost = buzzheap_clone(vm, buzzvm_stack_at(vm, 1));
    }
    else {
-- 
2.43.0


From fcc8e119502669639d75f34c95561fe3e996fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 19/43] fix: using a function as stigmergy key killed the
 process

Hashing the key aborted, both when it came from the script and when it came
from a message.
---
 src/buzz/buzzvstig.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index b8236ec..01ba9e5 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -19,6 +19,12 @@
    buzzvm_tget(vm);                                       \
    uint16_t id = buzzvm_stack_at(vm, 1)->i.value;
 
+#define key_assert(k)                                                   \
+   if((k)->o.type == BUZZTYPE_CLOSURE) {                                \
+      buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "a %s value can't be used as stigmergy key", buzztype_desc[(k)->o.type]); \
+      return vm->state;                                                 \
+   }
+
 #define add_field(FIELD, VAL, METHOD)                       \
    buzzvm_dup(vm);                                          \
    buzzvm_pushs(vm, buzzvm_string_register(vm, #FIELD, 1)); \
@@ -137,6 +143,8 @@ int64_t buzzvstig_elem_deserialize(buzzobj_t* key,
    /* Deserialize the key */
    p = buzzobj_deserialize(key, buf, p, vm);
    if(p < 0) return -1;
+   /* A closure can't be a key */
+   if((*key)->o.type == BUZZTYPE_CLOSURE) return -1;
    /* Deserialize the data */
    p = buzzobj_deserialize(&((*data)->data), buf, p, vm);
    if(p < 0) return -1;
@@ -195,6 +203,7 @@ int buzzvstig_put(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Get value */
    buzzvm_lload(vm, 2);
    buzzobj_t v = buzzvm_stack_at(vm, 1);
@@ -311,6 +320,7 @@ int buzzvstig_get(buzzvm_t vm) {
    /* Get key */
    buzzvm_lload(vm, 1);
    buzzobj_t k = buzzvm_stack_at(vm, 1);
+   key_assert(k);
    /* Look for virtual stigmergy */
    const buzzvstig_t* vs = buzzdict_get(vm->vstigs, &id, buzzvstig_t);
    if(vs) {
-- 
2.43.0


From d6c60651d4d658ef3b7c98d2152a66bd5d06f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 20/43] fix: the result of a failed conflict manager was read

After an error the stack might be empty.
---
 src/buzz/buzzvstig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 01ba9e5..0f1b2d5 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -433,7 +433,7 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       add_field(data, rv, push);
       add_field(timestamp, rv, pushi);
       /* Call closure (key, lv, rv on the stack) */
-      buzzvm_closure_call(vm, 3);
+      if(buzzvm_closure_call(vm, 3) != BUZZVM_STATE_READY) return NULL;
       /* Make new entry with return value */
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
-- 
2.43.0


From 9c00769ce68ec1012afbe5d271d09c4981c0f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:20 +0000
Subject: [PATCH 21/43] fix: overflow decoding the smallest mantissa of a float

The absolute value of INT32_MIN is not an int32_t.
---
 src/buzz/buzzmsg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzmsg.c b/src/buzz/buzzmsg.c
index 640c9aa..3ba5439 100644
--- a/src/buzz/buzzmsg.c
+++ b/src/buzz/buzzmsg.c
@@ -153,7 +153,8 @@ int64_t buzzmsg_deserialize_float(float* data,
        * 4. divide by 2, so it's in [0,0.5)
        * 5. Add 0.5, so it's in [0.5,1)
        */
-      *data = (float)(abs(mant) - 1) / (2.0f * MAX_MANTISSA) + 0.5f;
+      uint32_t mag = mant < 0 ? -(uint32_t)mant : (uint32_t)mant;
+      *data = (float)(mag - 1) / (2.0f * MAX_MANTISSA) + 0.5f;
       /* Now use ldexpf() to calculate the absolute value */
       *data = ldexpf(*data, exp);
       /* Finally take care of the sign */
-- 
2.43.0


From 7e5c9aa0dbd636c3fb5c3c21af8845680898c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:00 +0000
Subject: [PATCH 22/43] fix: messages from a robot were delivered in reverse
 order

When a robot's join and leave announcements arrived in the same step, the
join was processed last and the robot stayed a member.
---
 src/buzz/buzzinmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzinmsg.c b/src/buzz/buzzinmsg.c
index 1185491..69195fe 100644
--- a/src/buzz/buzzinmsg.c
+++ b/src/buzz/buzzinmsg.c
@@ -60,8 +60,8 @@ int buzzinmsg_queue_extract(buzzvm_t vm,
       }
    }
    /* Extract payload from array */
-   *payload = buzzdarray_last(q, buzzmsg_payload_t);
-   buzzdarray_pop(q);
+   *payload = buzzdarray_get(q, 0, buzzmsg_payload_t);
+   buzzdarray_remove(q, 0);
    /* If array is empty, remove (id,array entry) from dict */
    if(buzzdarray_isempty(q))
       buzzdict_remove(vm->inmsgs, rid);
-- 
2.43.0


From 9e73fd9e2b1d574ba751e8b0addecc43e38ad89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:58 +0000
Subject: [PATCH 23/43] fix: removing a table element while iterating crashed

foreach(t, function(k,v) { t[k] = nil }) accessed the bucket it had just
removed.
---
 src/buzz/buzzdict.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buzz/buzzdict.c b/src/buzz/buzzdict.c
index acefe98..40c56b6 100644
--- a/src/buzz/buzzdict.c
+++ b/src/buzz/buzzdict.c
@@ -169,7 +169,8 @@ void buzzdict_foreach(buzzdict_t dt,
       /* Is the bucket used? */
       if(dt->buckets[i] != NULL) {
          /* Go through elements in the bucket */
-         for(j = 0; j < buzzdarray_size(dt->buckets[i]); ++j) {
+         /* The function might remove the last one, and the bucket with it */
+         for(j = 0; dt->buckets[i] != NULL && j < buzzdarray_size(dt->buckets[i]); ++j) {
             const struct buzzdict_entry_s* e = &buzzdarray_get(dt->buckets[i], j, struct buzzdict_entry_s);
             fun(e->key, e->data, params);
          }
-- 
2.43.0


From d914f3ab03fe6e4abf1a2399a2c3db526a212e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 24/43] fix: an empty swarm list was ignored

A robot that left all of its swarms announces an empty list; receivers kept
the previous membership until it expired.
---
 src/buzz/buzzvm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvm.c b/src/buzz/buzzvm.c
index a7688a4..313c790 100644
--- a/src/buzz/buzzvm.c
+++ b/src/buzz/buzzvm.c
@@ -452,9 +452,8 @@ void buzzvm_process_inmsgs(buzzvm_t vm) {
                fprintf(stderr, "[WARNING] [ROBOT %u] Malformed BUZZMSG_SWARM_LIST message received\n", vm->robot);
                break;
             }
-            if(nsids < 1) break;
-            /* Deserialize swarm ids */
-            buzzdarray_t sids = buzzdarray_new(nsids, sizeof(uint16_t), NULL);
+            /* Deserialize swarm ids (none if the robot left all of its swarms) */
+            buzzdarray_t sids = buzzdarray_new(nsids > 0 ? nsids : 1, sizeof(uint16_t), NULL);
             uint16_t i;
             for(i = 0; i < nsids; ++i) {
                pos = buzzmsg_deserialize_u16(buzzdarray_makeslot(sids, i), msg, pos);
-- 
2.43.0


From bb26366881648a080e19e3af3682c59431579722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 25/43] fix: swarm.id(0) read outside the swarm stack

Positions below 1 were not limited to the stack top, as those beyond the
bottom are.
---
 src/buzz/buzzswarm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 996ddd9..7176d0a 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -315,7 +315,7 @@ int buzzswarm_id(struct buzzvm_s* vm) {
    }
    else {
       /* Take the stack top by default */
-      uint16_t stackpos = 1;
+      int32_t stackpos = 1;
       /* Do we have an argument? */
       if(buzzvm_lnum(vm) > 1) {
          buzzvm_lload(vm, 1);
@@ -323,7 +323,9 @@ int buzzswarm_id(struct buzzvm_s* vm) {
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
       }
       /* Limit stackpos value to avoid out-of-bounds operations */
-      if(stackpos > buzzdarray_size(vm->swarmstack))
+      if(stackpos < 1)
+         stackpos = 1;
+      if(stackpos > (int64_t)buzzdarray_size(vm->swarmstack))
          stackpos = buzzdarray_size(vm->swarmstack);
       /* Push the swarm id located at stackpos */
       buzzvm_pushi(vm,
-- 
2.43.0


From 5b6a0071e7977c08364957a960a53657b0e4eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 26/43] fix: s.select() ignored the high bits of the condition

s.select(256) left the swarm, because the condition was cut to 8 bits.
---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 7176d0a..4907271 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -456,7 +456,7 @@ int buzzswarm_select(buzzvm_t vm) {
    /* Get the result of the condition check */
    buzzvm_lload(vm, 1);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
-   uint8_t in = buzzvm_stack_at(vm, 1)->i.value;
+   uint8_t in = buzzvm_stack_at(vm, 1)->i.value != 0;
    /* Update the swarm, if known */
    if(buzzdict_exists(vm->swarms, &id)) {
       /* Store membership */
-- 
2.43.0


From 7ad9b81612362c2898d2c44fd58aa101ab9e55f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 27/43] fix: set operations on a wrong argument joined the new
 swarm

buzzswarm_check() returned the error state, which was taken for a membership:
swarm.union(1, 2, 3) failed, but joined swarm 1 and announced it.
---
 src/buzz/buzzswarm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 4907271..86def46 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -526,8 +526,14 @@ static int buzzswarm_check(struct buzzvm_s* vm) {
    /*
     * Assert that the top of the stack element is a valid swarm
     */
-   /* Mke sure it's a table */
-   buzzvm_type_assert(vm, 1, BUZZTYPE_TABLE);
+   /* Make sure it's a table */
+   if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
+      buzzvm_seterror(vm,
+                      BUZZVM_ERROR_TYPE,
+                      "expected a swarm");
+      /* Return error */
+      return -1;
+   }
    /* Get the 'id' element */
    buzzvm_pushs(vm, buzzvm_string_register(vm, "id", 1));
    buzzvm_tget(vm);
-- 
2.43.0


From 3a53d99405517d3656eba75a4e0f9dfa8e0d933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:53 +0000
Subject: [PATCH 28/43] fix: s.exec() of a C function executed an instruction
 too many

A C closure has returned when buzzvm_calls() does; the following step belongs
to the caller. Same as in buzzvm_closure_call().
---
 src/buzz/buzzswarm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 86def46..63c0a3d 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -508,9 +508,9 @@ int buzzswarm_exec(buzzvm_t vm) {
       buzzvm_push(vm, c);
       int32_t numargs = 0;
       buzzvm_pushi(vm, numargs);
-      buzzvm_calls(vm);
-      do if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
-      while(stacks < buzzdarray_size(vm->stacks));
+      if(buzzvm_calls(vm) != BUZZVM_STATE_READY) return vm->state;
+      while(stacks < buzzdarray_size(vm->stacks))
+         if(buzzvm_step(vm) != BUZZVM_STATE_READY) return vm->state;
       return vm->state;
    }
    else {
-- 
2.43.0


From 0d74e06cad4a4e52150a8defb6d1ef6923eb03c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:14 +0000
Subject: [PATCH 29/43] fix: swarm.id() ignored its argument

buzzvm_lnum() does not count the self table, so swarm.id(2) returned the
current swarm instead of its parent's.
---
 src/buzz/buzzswarm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzswarm.c b/src/buzz/buzzswarm.c
index 63c0a3d..4665a66 100644
--- a/src/buzz/buzzswarm.c
+++ b/src/buzz/buzzswarm.c
@@ -317,7 +317,7 @@ int buzzswarm_id(struct buzzvm_s* vm) {
       /* Take the stack top by default */
       int32_t stackpos = 1;
       /* Do we have an argument? */
-      if(buzzvm_lnum(vm) > 1) {
+      if(buzzvm_lnum(vm) > 0) {
          buzzvm_lload(vm, 1);
          buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
          stackpos = buzzvm_stack_at(vm, 1)->i.value;
-- 
2.43.0


From 1893b936aa503b554e8061e850e44866c30539b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:03 +0000
Subject: [PATCH 30/43] fix: conflict managers left values on the stack

Every lost conflict, and every conflict whose manager returned a wrong value,
left one value on the stack of the caller.
---
 src/buzz/buzzvstig.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 0f1b2d5..2822878 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -438,14 +438,17 @@ buzzvstig_elem_t buzzvstig_onconflict_call(buzzvm_t vm,
       /* Make sure it's a table */
       if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_TABLE) {
          fprintf(stderr, "[WARNING] [ROBOT %u] virtual stigmergy onconflict(): Return value type is %s, expected table\n", vm->robot, buzztype_desc[buzzvm_stack_at(vm, 1)->o.type]);
+         buzzvm_pop(vm);
          return NULL;
       }
       /* Get the robot id */
       buzzobj_t ret = buzzvm_stack_at(vm, 1);
       buzzvm_pushs(vm, buzzvm_string_register(vm, "robot", 1));
       buzzvm_tget(vm);
-      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT)
+      if(buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_INT) {
+         buzzvm_pop(vm);
          return NULL;
+      }
       uint16_t robot = buzzvm_stack_at(vm, 1)->i.value;
       buzzvm_pop(vm);
       /* Get the data */
@@ -496,8 +499,9 @@ void buzzvstig_onconflictlost_call(buzzvm_t vm,
       add_field(robot, lv, pushi);
       add_field(data, lv, push);
       add_field(timestamp, lv, pushi);
-      /* Call closure (key and table are on the stack) */
-      buzzvm_closure_call(vm, 2);
+      /* Call closure (key and table are on the stack) and discard its result */
+      if(buzzvm_closure_call(vm, 2) == BUZZVM_STATE_READY)
+         buzzvm_pop(vm);
    }
 }
 
-- 
2.43.0


From a10a2a5a40bf80e84b34be35d2a48dfddf796d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 31/43] fix: wrong comparisons of integers with floats, and
 with NaN

The integer was rounded to a float, so 16777217 == 16777216.0 was true; NaN
was equal to every number.
---
 src/buzz/buzztype.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index bff20ea..4fa0e4a 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -156,19 +156,22 @@ int buzzobj_cmp(const buzzobj_t a,
       return 0;
    }
    if(a->o.type == BUZZTYPE_INT && b->o.type == BUZZTYPE_FLOAT) {
-      if(a->i.value < b->f.value) return -1;
-      if(a->i.value > b->f.value) return 1;
-      return 0;
+      /* A double represents both values exactly; NaN is not comparable */
+      double x = a->i.value, y = b->f.value;
+      if(x < y) return -1;
+      if(x > y) return 1;
+      return x == y ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_INT) {
-      if(a->f.value < b->i.value) return -1;
-      if(a->f.value > b->i.value) return 1;
-      return 0;
+      double x = a->f.value, y = b->i.value;
+      if(x < y) return -1;
+      if(x > y) return 1;
+      return x == y ? 0 : 2;
    }
    if(a->o.type == BUZZTYPE_FLOAT && b->o.type == BUZZTYPE_FLOAT) {
       if(a->f.value < b->f.value) return -1;
       if(a->f.value > b->f.value) return 1;
-      return 0;
+      return a->f.value == b->f.value ? 0 : 2;
    }
    /* String and other types */
    if(a->o.type == BUZZTYPE_STRING && b->o.type == BUZZTYPE_STRING) {
-- 
2.43.0


From 273cf3a23443d2f8d8aef7ce209833cd14b0340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 32/43] fix: t[-20] and t[-20.0] were different fields

The hash of a negative float differed from that of the integer it compares
equal to, and converting it to an unsigned integer is undefined.
---
 src/buzz/buzztype.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index 4fa0e4a..af279e5 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -13,6 +13,11 @@ const char *buzztype_desc[] = { "nil", "integer", "float", "string", "table", "c
 /****************************************/
 /****************************************/
 
+/* Hash of a float: the integer with the same value, if there is one */
+static int32_t buzzobj_float_hash(float f) {
+   return (f >= -2147483648.0f && f < 2147483648.0f) ? (int32_t)f : 0;
+}
+
 uint32_t buzzobj_table_hash(const void* key) {
    buzzobj_t k = *(buzzobj_t*)key;
    switch(k->o.type) {
@@ -20,7 +25,7 @@ uint32_t buzzobj_table_hash(const void* key) {
          return (k->i.value % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_FLOAT: {
-         return ((uint32_t)(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
+         return (buzzobj_float_hash(k->f.value) % BUZZTYPE_TABLE_BUCKETS);
       }
       case BUZZTYPE_STRING: {
          return ((uint32_t)(k->s.value.sid) % BUZZTYPE_TABLE_BUCKETS);
@@ -84,7 +89,7 @@ uint32_t buzzobj_hash(const buzzobj_t o) {
          return buzzdict_int32keyhash(&(o->i.value));
       }
       case BUZZTYPE_FLOAT: {
-         int32_t x = o->f.value;
+         int32_t x = buzzobj_float_hash(o->f.value);
          return buzzdict_int32keyhash(&x);
       }
       case BUZZTYPE_STRING: {
-- 
2.43.0


From 093a233a838a9de3a59db2c52f4f5236f7b3fa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:30 +0000
Subject: [PATCH 33/43] fix: t[5] and t["5"] were sometimes the same field

Comparing a number with a string compares their text, so both were one field
when they happened to fall in the same bucket, and two otherwise.
---
 src/buzz/buzztype.c  | 3 +++
 src/buzz/buzzvstig.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index af279e5..d521791 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -37,6 +37,9 @@ uint32_t buzzobj_table_hash(const void* key) {
 }
 
 int buzzobj_table_keycmp(const void* a, const void* b) {
+   /* A string is never the same key as a number: their hash differs */
+   if(((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING) !=
+      ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING)) return 2;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
diff --git a/src/buzz/buzzvstig.c b/src/buzz/buzzvstig.c
index 2822878..4bbf67b 100644
--- a/src/buzz/buzzvstig.c
+++ b/src/buzz/buzzvstig.c
@@ -56,6 +56,9 @@ uint32_t buzzvstig_key_hash(const void* key) {
 }
 
 int buzzvstig_key_cmp(const void* a, const void* b) {
+   /* A string is never the same key as a number: their hash differs */
+   if(((*(buzzobj_t*)a)->o.type == BUZZTYPE_STRING) !=
+      ((*(buzzobj_t*)b)->o.type == BUZZTYPE_STRING)) return 2;
    return buzzobj_cmp(*(buzzobj_t*)a, *(buzzobj_t*)b);
 }
 
-- 
2.43.0


From cecaf3df9e0311fd8d3e78dca69c56917d801094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:04 +0000
Subject: [PATCH 34/43] fix: removing from a set destroyed the wrong element
 and leaked

---
 src/buzz/buzzset.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/buzz/buzzset.c b/src/buzz/buzzset.c
index 5126bc2..f0e1e9b 100644
--- a/src/buzz/buzzset.c
+++ b/src/buzz/buzzset.c
@@ -80,12 +80,19 @@ static void buzzset_tree_foreach(buzzset_tree_t n,
 /****************************************/
 /****************************************/
 
-/* Finds the smallest node in a tree */
-static buzzset_tree_t buzzset_tree_find_min(buzzset_tree_t n) {
+/* Removes the smallest node from a tree, and gives its data */
+static buzzset_tree_t buzzset_tree_remove_min(buzzset_tree_t n,
+                                              void** data) {
    /* This node has no smaller child */
-   if(n->left == NULL) return n;
+   if(n->left == NULL) {
+      buzzset_tree_t x = n->right;
+      *data = n->data;
+      free(n);
+      return x;
+   }
    /* Go to the smaller child */
-   return buzzset_tree_find_min(n->left);
+   n->left = buzzset_tree_remove_min(n->left, data);
+   return n;
 }
 
 /****************************************/
@@ -114,6 +121,7 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       *removed = 1;
       /* Get rid of the data */
       if(s->dstryf) s->dstryf(n->data, NULL);
+      free(n->data);
       /* If the node has no children, simply remove it */
       if(!n->left && !n->right) {
          free(n);
@@ -133,12 +141,8 @@ static buzzset_tree_t buzzset_tree_remove(buzzset_t s,
       }
       /* Both children exist for this node */
       else {
-         /* Look for the minimum id on the right of the node to eliminate */
-         buzzset_tree_t m = buzzset_tree_find_min(n->right);
-         /* Copy its value over the current root */
-         n->data = m->data;
-         /* Delete the minimum node */
-         n->right = buzzset_tree_remove(s, n->right, m->data, removed);
+         /* Move the minimum on the right of the node to eliminate here */
+         n->right = buzzset_tree_remove_min(n->right, &n->data);
       }
    }
    return n;
-- 
2.43.0


From 1355e347c7cfbccc3aed49fd7ee070284a1d4037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:41 +0000
Subject: [PATCH 35/43] fix: a string identifier in use was given to another
 string

---
 src/buzz/buzzstrman.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/buzz/buzzstrman.c b/src/buzz/buzzstrman.c
index b56a698..1cff2dd 100644
--- a/src/buzz/buzzstrman.c
+++ b/src/buzz/buzzstrman.c
@@ -205,16 +205,19 @@ uint16_t buzzstrman_register(buzzstrman_t sm,
       return *id;
    }
    /* Not found, add a new string */
+   if(buzzdict_size(sm->id2str) > UINT16_MAX) {
+      fprintf(stderr, "Can't register string '%s': no identifier left\n", str);
+      abort();
+   }
+   /* Avoid overwriting existing strings */
+   while(buzzdict_get(sm->id2str, &sm->maxsid, buzzid2strdata_t))
+     ++sm->maxsid;
    uint16_t id2 = sm->maxsid;
    ++sm->maxsid;
 
    /* Avoid id = 0 */
    if( !sm->maxsid ) ++sm->maxsid;
 
-   /* Avoid overwriting existing strings */
-   while(buzzdict_get(sm->id2str, &sm->maxsid, buzzid2strdata_t))
-     ++sm->maxsid;
-
    char* str2 = strdup(str);
    buzzid2strdata_t sd = buzzid2strdata_new(str2, protect);
    buzzdict_set(sm->str2id, &str2, &id2);
-- 
2.43.0


From e85b1a39225533fa895bc1801318b2f1357f148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 36/43] fix: map() and filter() used a removed key

---
 src/buzz/buzzneighbors.c | 17 +++++++++++++----
 src/buzz/buzztype.c      | 27 +++++++++++++++++++--------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/buzz/buzzneighbors.c b/src/buzz/buzzneighbors.c
index b8d07e6..e29738c 100644
--- a/src/buzz/buzzneighbors.c
+++ b/src/buzz/buzzneighbors.c
@@ -395,6 +395,8 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    struct neighbor_map_each_s* d = (struct neighbor_map_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   /* Keep the key on the stack: the closure may remove it from the table */
+   buzzvm_push(d->vm, rid);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
@@ -415,7 +417,8 @@ void neighbor_map_each(const void* key, void* data, void* params) {
    /* Add entry to the return table */
    buzzobj_t retval = buzzvm_stack_at(d->vm, 1);
    buzzdict_set(d->result, &rid, &retval);
-   /* Get rid of return value */
+   /* Get rid of return value and key */
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
@@ -539,12 +542,16 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    struct neighbor_filter_each_s* d = (struct neighbor_filter_each_s*)params;
    if(d->vm->state != BUZZVM_STATE_READY) return;
    buzzobj_t rid = *(buzzobj_t*)key;
+   buzzobj_t val = *(buzzobj_t*)data;
+   /* Keep key and value on the stack: the closure may remove them from the table */
+   buzzvm_push(d->vm, rid);
+   buzzvm_push(d->vm, val);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(d->vm);
    /* Push closure and params (key, value) */
    buzzvm_push(d->vm, d->closure);
    buzzvm_push(d->vm, rid);
-   buzzvm_push(d->vm, *(buzzobj_t*)data);
+   buzzvm_push(d->vm, val);
    /* Call closure */
    d->vm->state = buzzvm_closure_call(d->vm, 2);
    if(d->vm->state != BUZZVM_STATE_READY) return;
@@ -561,9 +568,11 @@ void neighbor_filter_each(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(d->result, &rid, data);
+      buzzdict_set(d->result, &rid, &val);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, key and value */
+   buzzvm_pop(d->vm);
+   buzzvm_pop(d->vm);
    buzzvm_pop(d->vm);
 }
 
diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index d521791..ebe4b9b 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -356,11 +356,14 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_map_params* p = (struct buzzobj_map_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep the key on the stack: the closure may remove it from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzvm_push(p->vm, k);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
+   buzzvm_push(p->vm, k);
    buzzvm_push(p->vm, *(buzzobj_t*)data);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
@@ -376,12 +379,13 @@ void buzzobj_map_entry(const void* key, void* data, void* params) {
    /* Manage return value */
    buzzobj_t r = buzzvm_stack_at(p->vm, 1);
    if(r->o.type != BUZZTYPE_NIL) {
-      buzzdict_set(p->result, key, &r);
+      buzzdict_set(p->result, &k, &r);
    }
    else {
-      buzzdict_remove(p->result, key);
+      buzzdict_remove(p->result, &k);
    }
-   /* Get rid of return value */
+   /* Get rid of return value and key */
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
@@ -476,12 +480,17 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    /* Cast params */
    struct buzzobj_filter_params* p = (struct buzzobj_filter_params*)params;
    if(p->vm->state != BUZZVM_STATE_READY) return;
+   /* Keep key and value on the stack: the closure may remove them from the table */
+   buzzobj_t k = *(buzzobj_t*)key;
+   buzzobj_t d = *(buzzobj_t*)data;
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, d);
    /* Save current stack size */
    uint32_t ss = buzzvm_stack_top(p->vm);
    /* Push closure and params (key and value) */
    buzzvm_push(p->vm, p->fun);
-   buzzvm_push(p->vm, *(buzzobj_t*)key);
-   buzzvm_push(p->vm, *(buzzobj_t*)data);
+   buzzvm_push(p->vm, k);
+   buzzvm_push(p->vm, d);
    /* Call closure */
    p->vm->state = buzzvm_closure_call(p->vm, 2);
    if(p->vm->state != BUZZVM_STATE_READY) return;
@@ -498,9 +507,11 @@ void buzzobj_filter_entry(const void* key, void* data, void* params) {
    if(retval->o.type != BUZZTYPE_NIL &&
       (retval->o.type != BUZZTYPE_INT ||
        retval->i.value != 0)) {
-      buzzdict_set(p->result, key, data);
+      buzzdict_set(p->result, &k, &d);
    }
-   /* Get rid of return value */
+   /* Get rid of return value, key and value */
+   buzzvm_pop(p->vm);
+   buzzvm_pop(p->vm);
    buzzvm_pop(p->vm);
 }
 
-- 
2.43.0


From 0262733064943ec25b1324c5a73bd9b2715133bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 37/43] fix: buzzobj_eq() found equal strings different

---
 src/buzz/buzztype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzztype.c b/src/buzz/buzztype.c
index ebe4b9b..dc068d9 100644
--- a/src/buzz/buzztype.c
+++ b/src/buzz/buzztype.c
@@ -125,7 +125,7 @@ int buzzobj_eq(const buzzobj_t a,
       case BUZZTYPE_NIL:    return 1;
       case BUZZTYPE_INT:    return (a->i.value == b->i.value);
       case BUZZTYPE_FLOAT:  return (a->f.value == b->f.value);
-      case BUZZTYPE_STRING: return 0; // TODO
+      case BUZZTYPE_STRING: return (strcmp(a->s.value.str, b->s.value.str) == 0);
       case BUZZTYPE_TABLE:  return ((uintptr_t)(a->t.value) == (uintptr_t)(b->t.value));
       case BUZZTYPE_CLOSURE:
          return((a->c.value.isnative == b->c.value.isnative) &&
-- 
2.43.0


From 307ec22d32a8ee65bd53c7846222d9ebaec41315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 38/43] fix: math.rng.exponential() read outside the stack

---
 src/buzz/buzzmath.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index a2479cb..17a9287 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -639,6 +639,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
 int buzzmath_rng_exponential(buzzvm_t vm) {
    /* Get the mean */
    buzzvm_lnum_assert(vm, 1);
+   buzzvm_lload(vm, 1);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    float mean;
    if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
-- 
2.43.0


From 66e4301da83ede843c144aee9287149e4c8e4b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 39/43] fix: math.rng.gaussian() ignored its mean and rejected
 one argument

---
 src/buzz/buzzmath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 17a9287..0e196b3 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -594,7 +594,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       }
       if(buzzvm_lnum(vm) == 2) {
          /* Take second argument */
-         buzzvm_lload(vm, 1);
+         buzzvm_lload(vm, 2);
          o = buzzvm_stack_at(vm, 1);
          if(o->o.type == BUZZTYPE_FLOAT)    mean = o->f.value;
          else if(o->o.type == BUZZTYPE_INT) mean = o->i.value;
@@ -608,7 +608,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
             return vm->state;
          }
       }
-      else {
+      else if(buzzvm_lnum(vm) > 2) {
          /* Error */
          buzzvm_seterror(vm,
                          BUZZVM_ERROR_LNUM,
@@ -627,7 +627,7 @@ int buzzmath_rng_gaussian(buzzvm_t vm) {
       n2 = (float)mt_uniform32(vm) * 2.0f / INT_MAX - 1.0;
       sq = n1 * n1 + n2 * n2;
    }
-   while(sq >= 1.0f);
+   while(sq >= 1.0f || sq == 0.0f);
    buzzvm_pushf(vm,
                 mean + stddev * n1 * sqrt(-2.0f * logf(sq) / sq));
    return buzzvm_ret1(vm);
-- 
2.43.0


From 05b8cd7c3d56c7a794e2915a798afc6813a61c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 40/43] fix: math.rng.uniform() left the interval with negative
 or wide bounds

---
 src/buzz/buzzmath.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/buzz/buzzmath.c b/src/buzz/buzzmath.c
index 0e196b3..16fca30 100644
--- a/src/buzz/buzzmath.c
+++ b/src/buzz/buzzmath.c
@@ -475,6 +475,27 @@ int buzzmath_rng_setseed(buzzvm_t vm) {
 /****************************************/
 /****************************************/
 
+/* Draws an integer between a and b (included) */
+static int32_t mt_uniform_int(buzzvm_t vm, int32_t a, int32_t b) {
+   int64_t range = (int64_t)b - a;
+   /* The product fits 64 bits only if unsigned */
+   if(range < 0)
+      return a - (int64_t)((uint64_t)mt_uniform32(vm) * (uint64_t)(-range) / INT_MAX);
+   return a + (int64_t)((uint64_t)mt_uniform32(vm) * (uint64_t)range / INT_MAX);
+}
+
+/* Draws a float between a and b (included) */
+static float mt_uniform_float(buzzvm_t vm, float a, float b) {
+   float min = a < b ? a : b;
+   float max = a < b ? b : a;
+   /* A double can't overflow here */
+   float x = a + mt_uniform32(vm) * ((double)b - a) / INT_MAX;
+   /* Rounding must not leave the interval */
+   if(x < min) return min;
+   if(x > max) return max;
+   return x;
+}
+
 int buzzmath_rng_uniform(buzzvm_t vm) {
    /*
     * - No arguments: return value in [-int_max,int_max]
@@ -501,13 +522,11 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       buzzobj_t max = buzzvm_stack_at(vm, 1);
       if(max->o.type == BUZZTYPE_INT) {
          /* Integer value */
-         buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * max->i.value / INT_MAX);
+         buzzvm_pushi(vm, mt_uniform_int(vm, 0, max->i.value));
       }
       else if(max->o.type == BUZZTYPE_FLOAT) {
          /* Float value */
-         buzzvm_pushf(vm,
-                      mt_uniform32(vm) * max->f.value / INT_MAX);
+         buzzvm_pushf(vm, mt_uniform_float(vm, 0.0f, max->f.value));
       }
       else buzzmath_error(max);
    }
@@ -520,26 +539,22 @@ int buzzmath_rng_uniform(buzzvm_t vm) {
       if(min->o.type == BUZZTYPE_INT &&
          max->o.type == BUZZTYPE_INT) {
          /* Both integers */
-         buzzvm_pushi(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->i.value) / INT_MAX + min->i.value);
+         buzzvm_pushi(vm, mt_uniform_int(vm, min->i.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_INT) {
          /* Min is float, max is integer */
-         buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->i.value - min->f.value) / INT_MAX + min->f.value);
+         buzzvm_pushf(vm, mt_uniform_float(vm, min->f.value, max->i.value));
       }
       else if(min->o.type == BUZZTYPE_INT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Min is integer, max is integer float */
-         buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->i.value) / INT_MAX + min->i.value);
+         buzzvm_pushf(vm, mt_uniform_float(vm, min->i.value, max->f.value));
       }
       else if(min->o.type == BUZZTYPE_FLOAT &&
               max->o.type == BUZZTYPE_FLOAT) {
          /* Both float */
-         buzzvm_pushf(vm,
-                      (uint64_t)mt_uniform32(vm) * (max->f.value - min->f.value) / INT_MAX + min->f.value);
+         buzzvm_pushf(vm, mt_uniform_float(vm, min->f.value, max->f.value));
       }
       else {
          /* Error */
-- 
2.43.0


From 6896883a184ca083d75f79a5d88492ee4c3bcb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 41/43] fix: string.sub() with a negative start read outside
 the string

---
 src/buzz/buzzstring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 288dc7e..1a25d74 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -71,7 +71,7 @@ int buzzstring_sub(buzzvm_t vm) {
    buzzvm_lload(vm, 2);
    buzzvm_type_assert(vm, 1, BUZZTYPE_INT);
    int32_t n = buzzvm_stack_at(vm, 1)->i.value;
-   if(n >= ls) {
+   if(n < 0 || n >= ls) {
       /* Out of bounds */
       buzzvm_pushnil(vm);
       return buzzvm_ret1(vm);
-- 
2.43.0


From 0fd49936128c38d5c14160469b0fa1d250031134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 42/43] fix: string.tostring() of a table, string or nil
 returned garbage

---
 src/buzz/buzzstring.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 1a25d74..6a9bddb 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -152,6 +152,7 @@ int buzzstring_tostring(buzzvm_t vm) {
       o->o.type != BUZZTYPE_FLOAT) {
       /* Can't convert */
       buzzvm_pushnil(vm);
+      return buzzvm_ret1(vm);
    }
    /* Perform conversion */
    char* str;
-- 
2.43.0


From c09c394241f35ed97139195e2b6e5028b399a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:09 +0000
Subject: [PATCH 43/43] fix: string.toint() of a number out of range returned
 another number

---
 src/buzz/buzzstring.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buzz/buzzstring.c b/src/buzz/buzzstring.c
index 6a9bddb..cfd59c3 100644
--- a/src/buzz/buzzstring.c
+++ b/src/buzz/buzzstring.c
@@ -179,10 +179,11 @@ int buzzstring_toint(buzzvm_t vm) {
    /* Convert the string to int */
    char* endptr;
    errno = 0;
-   int32_t i = strtol(s, &endptr, 10);
+   long i = strtol(s, &endptr, 10);
    /* Was the conversion successful? */
-   if((errno != 0 && i == 0) || /* An error occurred */
-      (endptr == s)) {          /* No digit found */
+   if(errno != 0 ||                         /* An error occurred */
+      i < INT32_MIN || i > INT32_MAX ||     /* Not an integer value of Buzz */
+      (endptr == s)) {                      /* No digit found */
       /* Yes, an error occurred */
       buzzvm_pushnil(vm);
    }
-- 
2.43.0

