From ec27cf585f67bd57e5ba39fd496a569f434bebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 01/38] fix: Arm software division of a register by itself
 keeps the sign right

---
 src/arm-codegen.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index c6c020e..63bae9a 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -340,7 +340,10 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
         emit(__srl_amt(__AL, 0, arith_rs, __r9, rm, 31));
         emit(__add_r(__AL, rm, rm, __r9));
         emit(__eor_r(__AL, rm, rm, __r9));
-        if (ph2_ir->op == OP_div)
+        if (ph2_ir->op == OP_div && rn == rm)
+            /* rm was already made absolute, its sign is the one in __r8 */
+            emit(__mov_i(__AL, __r10, 0));
+        else if (ph2_ir->op == OP_div)
             emit(__eor_r(__AL, __r10, __r8, __r9));
         else {
             /* If the requested operation is modulo, the result will be stored
-- 
2.43.0


From 8c3ee046040d0a09943b898978761dce6fa971c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 02/38] fix: Arm conditional branch reaches its target when
 neither successor comes next

---
 src/arm-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 63bae9a..7ab4eb1 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -268,7 +268,7 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
     case OP_branch:
         emit(__teq(rn));
         if (ph2_ir->is_branch_detached) {
-            emit(__b(__NE, 8));
+            emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
             emit(__b(__AL, ph2_ir->else_bb->elf_offset - elf_code_idx));
         } else
             emit(__b(__NE, ph2_ir->then_bb->elf_offset - elf_code_idx));
-- 
2.43.0


From dbd8ee945485c0939640d34379c13f2b5dae7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 03/38] fix: Arm code generator emits a self-move no more than
 its layout reserves

---
 src/arm-codegen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arm-codegen.c b/src/arm-codegen.c
index 7ab4eb1..1907683 100644
--- a/src/arm-codegen.c
+++ b/src/arm-codegen.c
@@ -225,7 +225,9 @@ void emit_ph2_ir(ph2_ir_t *ph2_ir)
             emit(__add_i(__AL, rd, interm, ph2_ir->src0));
         return;
     case OP_assign:
-        emit(__mov_r(__AL, rd, rn));
+        /* no space was reserved for a move to the register itself */
+        if (rd != rn)
+            emit(__mov_r(__AL, rd, rn));
         return;
     case OP_load:
     case OP_global_load:
-- 
2.43.0


From b7107bc58c04484c7b7010a02d7260471e0a555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 04/38] fix: peephole keeps a constant whose register may still
 be in use

---
 src/peephole.c | 53 ++++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/peephole.c b/src/peephole.c
index f6e10de..7f17ccf 100644
--- a/src/peephole.c
+++ b/src/peephole.c
@@ -50,67 +50,61 @@ bool insn_fusion(ph2_ir_t *ph2_ir)
         }
     }
 
+    /* The constants below are kept in 'rn', whose value might be read again by
+     * an instruction behind the pair; only the second one gets cheaper.
+     */
     if (ph2_ir->op == OP_load_constant && ph2_ir->src0 == 0) {
         if (next->op == OP_add &&
             (ph2_ir->dest == next->src0 || ph2_ir->dest == next->src1)) {
-            /* eliminates:
+            /* rewrites:
              * {li rn, 0; add rd, rs1, rn;} or
              * {li rn, 0; add rd, rn, rs1;}
              * reduces to:
-             * {mv rd, rs1;}, based on identity property of addition
+             * {li rn, 0; mv rd, rs1;}, based on identity property of addition
              */
             /* Determine the non-zero source operand */
             int non_zero_src =
                 (ph2_ir->dest == next->src0) ? next->src1 : next->src0;
 
             /* Transform instruction sequence from addition with zero to move */
-            ph2_ir->op = OP_assign;
-            ph2_ir->src0 = non_zero_src;
-            ph2_ir->dest = next->dest;
-            ph2_ir->next = next->next;
+            next->op = OP_assign;
+            next->src0 = non_zero_src;
             return true;
         }
 
         if (next->op == OP_sub) {
             if (ph2_ir->dest == next->src1) {
-                /* eliminates:
+                /* rewrites:
                  * {li rn, 0; sub rd, rs1, rn;}
                  * reduces to:
-                 * {mv rd, rs1;}
+                 * {li rn, 0; mv rd, rs1;}
                  */
-                ph2_ir->op = OP_assign;
-                ph2_ir->src0 = next->src0;
-                ph2_ir->dest = next->dest;
-                ph2_ir->next = next->next;
+                next->op = OP_assign;
                 return true;
             }
 
             if (ph2_ir->dest == next->src0) {
-                /* eliminates:
+                /* rewrites:
                  * {li rn, 0; sub rd, rn, rs1;}
                  * reduces to:
-                 * {negate rd, rs1;}
+                 * {li rn, 0; negate rd, rs1;}
                  */
-                ph2_ir->op = OP_negate;
-                ph2_ir->src0 = next->src1;
-                ph2_ir->dest = next->dest;
-                ph2_ir->next = next->next;
+                next->op = OP_negate;
+                next->src0 = next->src1;
                 return true;
             }
         }
 
         if (next->op == OP_mul &&
             (ph2_ir->dest == next->src0 || ph2_ir->dest == next->src1)) {
-            /* eliminates:
+            /* rewrites:
              * {li rn, 0; mul rd, rs1, rn;} or
              * {li rn, 0; mul rd, rn, rs1;}
              * reduces to:
-             * {li rd, 0}, based on zero property of multiplication
+             * {li rn, 0; li rd, 0;}, based on zero property of multiplication
              */
-            ph2_ir->op = OP_load_constant;
-            ph2_ir->src0 = 0;
-            ph2_ir->dest = next->dest;
-            ph2_ir->next = next->next;
+            next->op = OP_load_constant;
+            next->src0 = 0;
             return true;
         }
     }
@@ -118,16 +112,15 @@ bool insn_fusion(ph2_ir_t *ph2_ir)
     if (ph2_ir->op == OP_load_constant && ph2_ir->src0 == 1) {
         if (next->op == OP_mul &&
             (ph2_ir->dest == next->src0 || ph2_ir->dest == next->src1)) {
-            /* eliminates:
+            /* rewrites:
              * {li rn, 1; mul rd, rs1, rn;} or
              * {li rn, 1; mul rd, rn, rs1;}
              * reduces to:
-             * {li rd, rs1}, based on identity property of multiplication
+             * {li rn, 1; mv rd, rs1;}, based on identity property of
+             * multiplication
              */
-            ph2_ir->op = OP_assign;
-            ph2_ir->src0 = ph2_ir->dest == next->src0 ? next->src1 : next->src0;
-            ph2_ir->dest = next->dest;
-            ph2_ir->next = next->next;
+            next->op = OP_assign;
+            next->src0 = ph2_ir->dest == next->src0 ? next->src1 : next->src0;
             return true;
         }
     }
-- 
2.43.0


From b5acb0299a3c06aeb4bb54dcc023530d28eb9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 05/38] fix: subscripted, member and pointer lvalues step by
 the size of what they designate

p[0] + 3, p[0] += 3, a[i] + 1 and s.arr[i] + 1 scaled the integer operand as
if the element were still a pointer; q[i][j] used the pointer's size for the
second subscript; p++ in an expression moved by one byte.
---
 src/parser.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index cfa0100..597fd74 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1241,6 +1241,8 @@ void read_lvalue(lvalue_t *lvalue,
     var_t *vd;
     bool is_address_got = false;
     bool is_member = false;
+    bool is_array = var->array_size > 0; /* an array not yet subscripted */
+    int elem_size = 1;
 
     /* already peeked and have the variable */
     lex_expect(T_identifier);
@@ -1282,8 +1284,13 @@ void read_lvalue(lvalue_t *lvalue,
                 error("Cannot apply square operator to non-pointer");
 
             /* if nested pointer, still pointer */
-            if (var->is_ptr <= 1 && var->array_size == 0)
-                lvalue->size = lvalue->type->size;
+            if (is_array)
+                is_array = false;
+            else {
+                if (lvalue->is_ptr <= 1)
+                    lvalue->size = lvalue->type->size;
+                lvalue->is_ptr--;
+            }
 
             read_expr(parent, bb);
 
@@ -1370,7 +1377,8 @@ void read_lvalue(lvalue_t *lvalue,
             /* if it is an array, get the address of first element instead of
              * its value.
              */
-            if (var->array_size > 0)
+            is_array = var->array_size > 0;
+            if (is_array)
                 lvalue->is_reference = false;
 
             /* move pointer to offset of structure */
@@ -1401,8 +1409,14 @@ void read_lvalue(lvalue_t *lvalue,
     if (!eval)
         return;
 
-    if (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
-        while (lex_peek(T_plus, NULL) && (var->is_ptr || var->array_size)) {
+    /* size of what the pointer, or the first element of the array, points to */
+    if (lvalue->is_ptr > (is_array ? 0 : 1))
+        elem_size = PTR_SIZE;
+    else if (lvalue->is_ptr || is_array)
+        elem_size = lvalue->type->size;
+
+    if (lex_peek(T_plus, NULL) && (lvalue->is_ptr || is_array)) {
+        while (lex_peek(T_plus, NULL)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
                 ph1_ir = add_ph1_ir(OP_read);
@@ -1414,11 +1428,12 @@ void read_lvalue(lvalue_t *lvalue,
                 opstack_push(vd);
                 add_insn(parent, *bb, OP_read, ph1_ir->dest, ph1_ir->src0, NULL,
                          ph1_ir->size, NULL);
+                lvalue->is_reference = false;
             }
 
             read_expr_operand(parent, bb);
 
-            lvalue->size = lvalue->type->size;
+            lvalue->size = elem_size;
 
             if (lvalue->size > 1) {
                 ph1_ir = add_ph1_ir(OP_load_constant);
@@ -1473,7 +1488,7 @@ void read_lvalue(lvalue_t *lvalue,
             ph1_ir = add_ph1_ir(OP_load_constant);
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = elem_size;
             ph1_ir->dest = vd;
             opstack_push(vd);
             add_insn(parent, *bb, OP_load_constant, ph1_ir->dest, NULL, NULL, 0,
@@ -1512,7 +1527,7 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].op = OP_load_constant;
             vd = require_var(parent);
             strcpy(vd->var_name, gen_name());
-            vd->init_val = 1;
+            vd->init_val = elem_size;
             side_effect[se_idx].dest = vd;
             side_effect[se_idx].src0 = NULL;
             side_effect[se_idx].src1 = NULL;
@@ -1934,7 +1949,8 @@ bool read_body_assignment(char *token,
 
             /* if we have a pointer, shift it by element size */
             if (lvalue.is_ptr)
-                increment_size = lvalue.type->size;
+                increment_size =
+                    lvalue.is_ptr > 1 ? PTR_SIZE : lvalue.type->size;
 
             /* If operand is a reference, read the value and push to stack for
              * the incoming addition/subtraction. Otherwise, use the top element
-- 
2.43.0


From 5e185ecdc2cd1b66565ebababf0000dd526d09be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 06/38] fix: unary * binds tighter than binary +

---
 src/parser.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 597fd74..bb4c4df 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -751,6 +751,7 @@ void read_lvalue(lvalue_t *lvalue,
                  block_t *parent,
                  basic_block_t **bb,
                  bool eval,
+                 bool is_operand,
                  opcode_t op);
 
 /* Maintain a stack of expression values and operators, depending on next
@@ -805,7 +806,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
 
         lex_peek(T_identifier, token);
         var_t *var = find_var(token, parent);
-        read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
+        read_lvalue(&lvalue, var, parent, bb, false, false, OP_generic);
 
         if (!lvalue.is_reference) {
             ph1_ir = add_ph1_ir(OP_address_of);
@@ -825,7 +826,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         int open_bracket = lex_accept(T_open_bracket);
         lex_peek(T_identifier, token);
         var_t *var = find_var(token, parent);
-        read_lvalue(&lvalue, var, parent, bb, true, OP_generic);
+        read_lvalue(&lvalue, var, parent, bb, true, !open_bracket, OP_generic);
         if (open_bracket)
             lex_expect(T_close_bracket);
 
@@ -962,7 +963,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         } else if (var) {
             /* evalue lvalue expression */
             lvalue_t lvalue;
-            read_lvalue(&lvalue, var, parent, bb, true, prefix_op);
+            read_lvalue(&lvalue, var, parent, bb, true, false, prefix_op);
 
             /* is it an indirect call with function pointer? */
             if (lex_peek(T_open_bracket, NULL)) {
@@ -1229,12 +1230,15 @@ void read_expr(block_t *parent, basic_block_t **bb)
  *   x[<expr>] =;
  *   x[expr].field =;
  *   x[expr]->field =;
+ * A pointer which is the operand of a unary operator ('is_operand') is not
+ * combined with the addition behind it: '*p + 1' is '(*p) + 1'.
  */
 void read_lvalue(lvalue_t *lvalue,
                  var_t *var,
                  block_t *parent,
                  basic_block_t **bb,
                  bool eval,
+                 bool is_operand,
                  opcode_t prefix_op)
 {
     ph1_ir_t *ph1_ir;
@@ -1415,7 +1419,8 @@ void read_lvalue(lvalue_t *lvalue,
     else if (lvalue->is_ptr || is_array)
         elem_size = lvalue->type->size;
 
-    if (lex_peek(T_plus, NULL) && (lvalue->is_ptr || is_array)) {
+    if (!is_operand && lex_peek(T_plus, NULL) &&
+        (lvalue->is_ptr || is_array)) {
         while (lex_peek(T_plus, NULL)) {
             lex_expect(T_plus);
             if (lvalue->is_reference) {
@@ -1892,7 +1897,7 @@ bool read_body_assignment(char *token,
         int size = 0;
 
         /* has memory address that we want to set */
-        read_lvalue(&lvalue, var, parent, bb, false, OP_generic);
+        read_lvalue(&lvalue, var, parent, bb, false, false, OP_generic);
         size = lvalue.size;
 
         if (lex_accept(T_increment)) {
-- 
2.43.0


From d6f94dfff1af8e31bcc5cac256139dd766e66f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 07/38] fix: shift operators get their place in the precedence
 table

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index bb4c4df..e2bd31c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -90,6 +90,9 @@ int get_operator_prio(opcode_t op)
     case OP_gt:
     case OP_geq:
         return 10;
+    case OP_lshift:
+    case OP_rshift:
+        return 11;
     case OP_add:
     case OP_sub:
         return 12;
-- 
2.43.0


From 2df6bc02d3a770192f18988eafd9130e4575badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 08/38] fix: unary minus before a parenthesised expression is
 applied

---
 src/parser.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index e2bd31c..5849556 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -775,6 +775,8 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         }
     }
 
+    bool is_num = lex_peek(T_numeric, NULL);
+
     if (lex_peek(T_string, NULL))
         read_literal_param(parent, *bb);
     else if (lex_peek(T_char, NULL))
@@ -1005,17 +1007,18 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             /* unknown expression */
             error("Unrecognized expression token");
         }
+    }
 
-        if (is_neg) {
-            ph1_ir = add_ph1_ir(OP_negate);
-            ph1_ir->src0 = opstack_pop();
-            vd = require_var(parent);
-            strcpy(vd->var_name, gen_name());
-            ph1_ir->dest = vd;
-            opstack_push(vd);
-            add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL,
-                     0, NULL);
-        }
+    /* a number has taken its sign already */
+    if (is_neg && !is_num) {
+        ph1_ir = add_ph1_ir(OP_negate);
+        ph1_ir->src0 = opstack_pop();
+        vd = require_var(parent);
+        strcpy(vd->var_name, gen_name());
+        ph1_ir->dest = vd;
+        opstack_push(vd);
+        add_insn(parent, *bb, OP_negate, ph1_ir->dest, ph1_ir->src0, NULL, 0,
+                 NULL);
     }
 }
 
-- 
2.43.0


From 4364f36a2167214e23dbed4f41ce66c6b9bc8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 09/38] fix: operands of the conditional operator may branch
 themselves

---
 src/parser.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 5849556..f4d9467 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1829,8 +1829,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     basic_block_t *then_ = bb_create(parent);
     basic_block_t *else_ = bb_create(parent);
     basic_block_t *end_ternary = bb_create(parent);
-    bb_connect(then_, end_ternary, NEXT);
-    bb_connect(else_, end_ternary, NEXT);
+    bb_connect(*bb, then_, THEN);
+    bb_connect(*bb, else_, ELSE);
 
     /* true branch */
     ph1_ir = add_ph1_ir(OP_label);
@@ -1838,8 +1838,12 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     strcpy(vd->var_name, true_label);
     ph1_ir->src0 = vd;
 
+    /* the operands may have branches of their own: 'then_' and 'else_' become
+     * the blocks in which their evaluation ends.
+     */
     read_expr(parent, &then_);
-    bb_connect(*bb, then_, THEN);
+    read_ternary_operation(parent, &then_);
+    bb_connect(then_, end_ternary, NEXT);
 
     if (!lex_accept(T_colon)) {
         /* ternary operator in standard C needs three operands */
@@ -1868,7 +1872,8 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     ph1_ir->src0 = vd;
 
     read_expr(parent, &else_);
-    bb_connect(*bb, else_, ELSE);
+    read_ternary_operation(parent, &else_);
+    bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_assign);
     ph1_ir->src0 = opstack_pop();
-- 
2.43.0


From ed7bd5b2dc95b7776ea6f06dcf59970ab09c4299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 10/38] fix: no phi for temporaries whose definition does not
 reach the join

A conditional or logical operator in the unbraced body of an if made the
compiler crash.
---
 src/ssa.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ssa.c b/src/ssa.c
index 0eccec4..52a11c2 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -610,6 +610,15 @@ void solve_phi_insertion()
         for (symbol_t *sym = fn->global_sym_list.head; sym; sym = sym->next) {
             var_t *var = sym->var;
 
+            /* Apart from the results of ternary and logical-and/or operations,
+             * a temporary variable has one definition, which dominates all its
+             * uses. It needs no phi, nor does its definition reach every
+             * predecessor of the blocks in the dominance frontier.
+             */
+            if (var->var_name[0] == '.' && !var->is_ternary_ret &&
+                !var->is_logical_ret)
+                continue;
+
             basic_block_t *work_list[64];
             int work_list_idx = 0;
 
-- 
2.43.0


From 31113073ab107838afc30f0a978f13dd19d1e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 11/38] fix: side effects of ++ and -- take place at the
 sequence points of C

Those in a condition were left for a later statement, those in a skipped
operand of &&, || or ?: were applied all the same.
---
 src/parser.c | 72 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index f4d9467..12cd5d8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -749,6 +749,43 @@ void read_indirect_call(block_t *parent, basic_block_t **bb)
 ph1_ir_t side_effect[10];
 int se_idx = 0;
 
+/* Where the pending side effects of the expression being read, and of the last
+ * one read completely, begin.
+ */
+int se_base = 0;
+int se_last_base = 0;
+
+void perform_side_effect_from(block_t *parent, basic_block_t *bb, int base)
+{
+    for (int i = base; i < se_idx; i++) {
+        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
+        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
+        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
+                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
+    }
+    se_idx = base;
+}
+
+/* Apply the side effects, queued from 'base' on, of the expression on the top
+ * of the operand stack.
+ */
+void add_sequence_point(block_t *parent, basic_block_t *bb, int base)
+{
+    if (se_idx <= base)
+        return;
+
+    /* its value may be held by a variable which is about to change */
+    ph1_ir_t *ph1_ir = add_ph1_ir(OP_assign);
+    ph1_ir->src0 = opstack_pop();
+    var_t *vd = require_var(parent);
+    strcpy(vd->var_name, gen_name());
+    ph1_ir->dest = vd;
+    opstack_push(vd);
+    add_insn(parent, bb, OP_assign, ph1_ir->dest, ph1_ir->src0, NULL, 0, NULL);
+
+    perform_side_effect_from(parent, bb, base);
+}
+
 void read_lvalue(lvalue_t *lvalue,
                  var_t *var,
                  block_t *parent,
@@ -1057,11 +1094,17 @@ void read_expr(block_t *parent, basic_block_t **bb)
     strcpy(log_and_shared_label, gen_label());
     strcpy(log_or_shared_label, gen_label());
 
+    int outer_se_base = se_base;
+    se_base = se_idx;
+
     read_expr_operand(parent, bb);
 
     opcode_t op = get_operator();
-    if (op == OP_generic || op == OP_ternary)
+    if (op == OP_generic || op == OP_ternary) {
+        se_last_base = se_base;
+        se_base = outer_se_base;
         return;
+    }
     if (is_logical(op)) {
         bb_connect(*bb, op == OP_log_and ? log_and_shared_bb : log_or_shared_bb,
                    op == OP_log_and ? ELSE : THEN);
@@ -1229,6 +1272,9 @@ void read_expr(block_t *parent, basic_block_t **bb)
         has_prev_log_op = prev_log_op != 0;
         pprev_log_op = 0;
     }
+
+    se_last_base = se_base;
+    se_base = outer_se_base;
 }
 
 /* Return the address that an expression points to, or evaluate its value.
@@ -1599,6 +1645,8 @@ void read_logical(opcode_t op,
     } else
         error("encounter an invalid logical opcode in read_logical()");
 
+    add_sequence_point(parent, *bb, se_base);
+
     /* Test the operand before the logical-and/or operator */
     ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1718,6 +1766,7 @@ void finalize_logical(opcode_t op,
     } else
         error("encounter an invalid logical opcode in finalize_logical()");
     bb_connect(else_bb, end, NEXT);
+    add_sequence_point(parent, *bb, se_base);
     var_t *log_op_res;
 
     /* Create the branch instruction for final logical-and/or operand */
@@ -1815,6 +1864,9 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
     if (!lex_accept(T_question))
         return;
 
+    int se_cond_base = se_last_base;
+    add_sequence_point(parent, *bb, se_cond_base);
+
     /* ternary-operator */
     ph1_ir_t *ph1_ir = add_ph1_ir(OP_branch);
     ph1_ir->dest = opstack_pop();
@@ -1843,6 +1895,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
      */
     read_expr(parent, &then_);
     read_ternary_operation(parent, &then_);
+    add_sequence_point(parent, then_, se_cond_base);
     bb_connect(then_, end_ternary, NEXT);
 
     if (!lex_accept(T_colon)) {
@@ -1873,6 +1926,7 @@ void read_ternary_operation(block_t *parent, basic_block_t **bb)
 
     read_expr(parent, &else_);
     read_ternary_operation(parent, &else_);
+    add_sequence_point(parent, else_, se_cond_base);
     bb_connect(else_, end_ternary, NEXT);
 
     ph1_ir = add_ph1_ir(OP_assign);
@@ -2390,13 +2444,7 @@ basic_block_t *continue_bb[MAX_NESTING];
 
 void perform_side_effect(block_t *parent, basic_block_t *bb)
 {
-    for (int i = 0; i < se_idx; i++) {
-        ph1_ir_t *ph1_ir = add_ph1_ir(side_effect[i].op);
-        memcpy(ph1_ir, &side_effect[i], sizeof(ph1_ir_t));
-        add_insn(parent, bb, ph1_ir->op, ph1_ir->dest, ph1_ir->src0,
-                 ph1_ir->src1, ph1_ir->size, ph1_ir->func_name);
-    }
-    se_idx = 0;
+    perform_side_effect_from(parent, bb, 0);
 }
 
 basic_block_t *read_code_block(func_t *func,
@@ -2463,6 +2511,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        add_sequence_point(parent, bb, 0);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2574,6 +2623,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         cond = bb;
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        add_sequence_point(parent, bb, 0);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -2633,6 +2683,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
         lex_expect(T_open_bracket);
         read_expr(parent, &bb);
+        add_sequence_point(parent, bb, 0);
         lex_expect(T_close_bracket);
 
         /* create exit jump for breaks */
@@ -2861,6 +2912,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 read_body_assignment(token, blk, OP_generic, &setup);
             }
 
+            perform_side_effect(blk, setup);
             lex_expect(T_semicolon);
         }
 
@@ -2877,6 +2929,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = var_condition;
         if (!lex_accept(T_semicolon)) {
             read_expr(blk, &cond_);
+            add_sequence_point(blk, cond_, 0);
             lex_expect(T_semicolon);
         } else {
             /* always true */
@@ -2924,6 +2977,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 prefix_op = OP_sub;
             lex_peek(T_identifier, token);
             read_body_assignment(token, blk, prefix_op, &inc_);
+            perform_side_effect(blk, inc_);
             lex_expect(T_close_bracket);
         }
 
@@ -3009,6 +3063,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         ph1_ir->src0 = vd;
 
         read_expr(parent, &cond_);
+        add_sequence_point(parent, cond_, 0);
         lex_expect(T_close_bracket);
 
         ph1_ir = add_ph1_ir(OP_branch);
@@ -3094,6 +3149,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                          NULL, 0, NULL);
             }
         }
+        perform_side_effect(parent, bb);
         lex_expect(T_semicolon);
         return bb;
     }
-- 
2.43.0


From 0de1ebe1a59810e24aa5ea4c113ed47193a0c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 12/38] fix: postfix -- in an expression is consumed

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 12cd5d8..1b4e649 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1590,7 +1590,12 @@ void read_lvalue(lvalue_t *lvalue,
             side_effect[se_idx].src1 = NULL;
             se_idx++;
 
-            side_effect[se_idx].op = lex_accept(T_increment) ? OP_add : OP_sub;
+            if (lex_accept(T_increment))
+                side_effect[se_idx].op = OP_add;
+            else {
+                lex_expect(T_decrement);
+                side_effect[se_idx].op = OP_sub;
+            }
             side_effect[se_idx].src1 = vd;
             if (lvalue->is_reference)
                 side_effect[se_idx].src0 = opstack_pop();
-- 
2.43.0


From 0ac39908823f35f69963af0388538fc6a656f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 13/38] fix: continue in a for loop without increment reaches
 the condition

---
 src/parser.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 1b4e649..a9d0c5c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3002,14 +3002,18 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         bb_connect(cond_, body_, THEN);
         body_ = read_body_statement(blk, body_);
 
-        if (body_) {
+        /* reached from the end of the body, or by a continue? */
+        bool is_inc_used = body_ || inc_->insn_list.head;
+        for (int i = 0; i < MAX_BB_PRED; i++) {
+            if (inc_->prev[i].bb)
+                is_inc_used = true;
+        }
+
+        if (body_)
             bb_connect(body_, inc_, NEXT);
+        if (is_inc_used)
             bb_connect(inc_, cond_start, NEXT);
-        } else if (inc_->insn_list.head) {
-            bb_connect(inc_, cond_start, NEXT);
-        } else {
-            /* TODO: Release dangling inc basic block */
-        }
+        /* TODO: Release dangling inc basic block */
 
         /* jump to increment */
         ph1_ir = add_ph1_ir(OP_jump);
-- 
2.43.0


From 93bbe9b3b66fe5451e7948c0854093090e9f0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 14/38] fix: constant / and % of a global initialiser agree
 with C

-7 % 4 was 1, and INT_MIN / -1 and division by zero made the compiler crash.
---
 src/parser.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index a9d0c5c..aa7fbfc 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2193,7 +2193,6 @@ int read_primary_constant()
 int eval_expression_imm(opcode_t op, int op1, int op2)
 {
     /* return immediate result */
-    int tmp = op2;
     int res = 0;
     switch (op) {
     case OP_add:
@@ -2206,17 +2205,16 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
         res = op1 * op2;
         break;
     case OP_div:
-        res = op1 / op2;
+        if (op2 == 0)
+            error("Division by zero in constant expression");
+        /* dividing INT_MIN by -1 traps on some hosts */
+        res = op2 == -1 ? -op1 : op1 / op2;
         break;
     case OP_mod:
-        /* TODO: provide arithmetic & operation instead of '&=' */
-        /* TODO: do optimization for local expression */
-        tmp &= (tmp - 1);
-        if ((op2 != 0) && (tmp == 0)) {
-            res = op1;
-            res &= (op2 - 1);
-        } else
-            res = op1 % op2;
+        if (op2 == 0)
+            error("Division by zero in constant expression");
+        /* the remainder by -1 is 0, but INT_MIN % -1 traps on some hosts */
+        res = op2 == -1 ? 0 : op1 % op2;
         break;
     case OP_lshift:
         res = op1 << op2;
-- 
2.43.0


From 204c8d8e1683c232344b6da80672ea2a29f48f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 15/38] fix: constant division by zero or -1 is left to run
 time

---
 src/ssa.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 52a11c2..6a7fa43 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1359,10 +1359,14 @@ bool eval_const_arithmetic(insn_t *insn)
         res = l * r;
         break;
     case OP_div:
-        res = l / r;
-        break;
     case OP_mod:
-        res = l % r;
+        /* leave what traps on some hosts to the run time */
+        if (r == 0 || r == -1)
+            return false;
+        if (insn->opcode == OP_div)
+            res = l / r;
+        else
+            res = l % r;
         break;
     default:
         return false;
-- 
2.43.0


From b60182717aec41049914645ba1b637a2823f74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 16/38] fix: increment of a for loop that is never reached
 stays disconnected

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index aa7fbfc..17447ee 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3001,7 +3001,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         body_ = read_body_statement(blk, body_);
 
         /* reached from the end of the body, or by a continue? */
-        bool is_inc_used = body_ || inc_->insn_list.head;
+        bool is_inc_used = body_ ? true : false;
         for (int i = 0; i < MAX_BB_PRED; i++) {
             if (inc_->prev[i].bb)
                 is_inc_used = true;
-- 
2.43.0


From a564406b06b1c5d5fc4ed52ce17f6256c5482a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 17/38] fix: case labels and enumerators may be negative

---
 src/parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index 17447ee..8ab9a18 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2704,6 +2704,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                 int case_val;
 
                 lex_accept(T_case);
+                bool is_neg = lex_accept(T_minus);
                 if (lex_peek(T_numeric, NULL)) {
                     case_val = read_numeric_constant(token_str);
                     lex_expect(T_numeric); /* already read it */
@@ -2712,9 +2713,13 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
                     lex_expect(T_char);
                 } else {
                     constant_t *cd = find_constant(token_str);
+                    if (!cd)
+                        error("Case label is not a constant");
                     case_val = cd->value;
                     lex_expect(T_identifier); /* already read it */
                 }
+                if (is_neg)
+                    case_val = -case_val;
 
                 ph1_ir = add_ph1_ir(OP_load_constant);
                 vd = require_var(parent);
@@ -3350,8 +3355,11 @@ void read_global_statement()
                 lex_ident(T_identifier, token);
                 if (lex_accept(T_assign)) {
                     char value[MAX_ID_LEN];
+                    bool is_neg = lex_accept(T_minus);
                     lex_ident(T_numeric, value);
                     val = read_numeric_constant(value);
+                    if (is_neg)
+                        val = -val;
                 }
                 add_constant(token, val++);
             } while (lex_accept(T_comma));
-- 
2.43.0


From a120534028dfc8fd8960df469eb4068d5ba6330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 18/38] fix: invalid numeric literals are rejected, and long
 ones fit their buffers

---
 src/parser.c | 57 ++++++++++++----------------------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 8ab9a18..8059f27 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -170,17 +170,24 @@ int read_numeric_constant(char buffer[])
         if (i == 1 && (buffer[i] == 'x')) { /* hexadecimal */
             value = 0;
             i = 2;
+            if (!buffer[i])
+                error("Invalid numeric constant");
             while (buffer[i]) {
                 char c = buffer[i++];
                 value <<= 4;
                 if (is_digit(c))
                     value += c - '0';
-                c |= 32; /* convert to lower case */
-                if (c >= 'a' && c <= 'f')
+                else {
+                    c |= 32; /* convert to lower case */
+                    if (c < 'a' || c > 'f')
+                        error("Invalid numeric constant");
                     value += (c - 'a') + 10;
+                }
             }
             return value;
         }
+        if (!is_digit(buffer[i]) || (buffer[0] == '0' && buffer[i] > '7'))
+            error("Invalid numeric constant");
         if (buffer[0] == '0') /* octal */
             value = value * 8 + buffer[i++] - '0';
         else
@@ -554,7 +561,7 @@ void read_inner_var_decl(var_t *vd, int anon, int is_param)
             }
         }
         if (lex_accept(T_open_square)) {
-            char buffer[10];
+            char buffer[MAX_ID_LEN];
 
             /* array with size */
             if (lex_peek(T_numeric, buffer)) {
@@ -626,48 +633,10 @@ void read_literal_param(block_t *parent, basic_block_t *bb)
 void read_numeric_param(block_t *parent, basic_block_t *bb, int is_neg)
 {
     char token[MAX_ID_LEN];
-    int value = 0;
-    int i = 0;
-    char c;
+    int value;
 
     lex_ident(T_numeric, token);
-
-    if (token[0] == '-') {
-        is_neg = 1 - is_neg;
-        i++;
-    }
-    if (token[0] == '0') {
-        if (token[1] == 'x') { /* hexdecimal */
-            i = 2;
-            do {
-                c = token[i++];
-                if (is_digit(c))
-                    c -= '0';
-                else {
-                    c |= 32; /* convert to lower case */
-                    if (c >= 'a' && c <= 'f')
-                        c = (c - 'a') + 10;
-                    else
-                        error("Invalid numeric constant");
-                }
-
-                value = (value * 16) + c;
-            } while (is_hex(token[i]));
-        } else { /* octal */
-            do {
-                c = token[i++];
-                if (c > '7')
-                    error("Invalid numeric constant");
-                c -= '0';
-                value = (value * 8) + c;
-            } while (is_digit(token[i]));
-        }
-    } else {
-        do {
-            c = token[i++] - '0';
-            value = (value * 10) + c;
-        } while (is_digit(token[i]));
-    }
+    value = read_numeric_constant(token);
 
     if (is_neg)
         value = -value;
@@ -2171,7 +2140,7 @@ int read_primary_constant()
 {
     /* return signed constant */
     int isneg = 0, res;
-    char buffer[10];
+    char buffer[MAX_ID_LEN];
     if (lex_accept(T_minus))
         isneg = 1;
     if (lex_accept(T_open_bracket)) {
-- 
2.43.0


From 50f4729614c24190b85e8c9e6623069bed10d36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 19/38] fix: scanner keeps tokens apart that white space
 separates, ends comments at **/ and reads escapes in order

---
 src/lexer.c | 101 +++++++++++++++++++++++-----------------------------
 1 file changed, 45 insertions(+), 56 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 7b3cadb..b05b678 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -186,6 +186,22 @@ char peek_char(int offset)
     return SOURCE->elements[SOURCE->size + offset];
 }
 
+/* Returns the character which the escape sequence '\\' 'c' denotes */
+char unescape_char(char c)
+{
+    if (c == 'n')
+        return '\n';
+    if (c == 'r')
+        return '\r';
+    if (c == 't')
+        return '\t';
+    if (c == '0')
+        return '\0';
+    if (c != '\'' && c != '"' && c != '\\')
+        abort();
+    return c;
+}
+
 /* Lex next token and returns its token type. Parameter 'aliasing' is used for
  * disable preprocessor aliasing on identifier tokens.
  */
@@ -227,21 +243,20 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (next_char == '/') {
-        read_char(true);
+        read_char(false);
 
         /* C-style comments */
         if (next_char == '*') {
             /* in a comment, skip until end */
-            do {
-                read_char(false);
-                if (next_char == '*') {
+            read_char(false);
+            while (next_char) {
+                if (next_char == '*' && peek_char(1) == '/') {
                     read_char(false);
-                    if (next_char == '/') {
-                        read_char(true);
-                        return lex_token_internal(aliasing);
-                    }
+                    read_char(true);
+                    return lex_token_internal(aliasing);
                 }
-            } while (next_char);
+                read_char(false);
+            }
 
             if (!next_char)
                 error("Unenclosed C-style comment");
@@ -261,6 +276,7 @@ token_t lex_token_internal(bool aliasing)
             return T_divideeq;
         }
 
+        skip_whitespace();
         return T_divide;
     }
 
@@ -302,13 +318,14 @@ token_t lex_token_internal(bool aliasing)
         return T_comma;
     }
     if (next_char == '^') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_xoreq;
         }
 
+        skip_whitespace();
         return T_bit_xor;
     }
     if (next_char == '~') {
@@ -317,33 +334,16 @@ token_t lex_token_internal(bool aliasing)
     }
     if (next_char == '"') {
         int i = 0;
-        int special = 0;
-
-        while ((read_char(false) != '"') || special) {
-            if ((i > 0) && (token_str[i - 1] == '\\')) {
-                if (next_char == 'n')
-                    token_str[i - 1] = '\n';
-                else if (next_char == '"')
-                    token_str[i - 1] = '"';
-                else if (next_char == 'r')
-                    token_str[i - 1] = '\r';
-                else if (next_char == '\'')
-                    token_str[i - 1] = '\'';
-                else if (next_char == 't')
-                    token_str[i - 1] = '\t';
-                else if (next_char == '\\')
-                    token_str[i - 1] = '\\';
-                else if (next_char == '0')
-                    token_str[i - 1] = '\0';
-                else
-                    abort();
+
+        while (read_char(false) != '"') {
+            if (!next_char)
+                error("Unenclosed string literal");
+            if (next_char == '\\') {
+                read_char(false);
+                token_str[i++] = unescape_char(next_char);
             } else {
                 token_str[i++] = next_char;
             }
-            if (next_char == '\\')
-                special = 1;
-            else
-                special = 0;
         }
         token_str[i] = 0;
         read_char(true);
@@ -353,39 +353,25 @@ token_t lex_token_internal(bool aliasing)
         read_char(false);
         if (next_char == '\\') {
             read_char(false);
-            if (next_char == 'n')
-                token_str[0] = '\n';
-            else if (next_char == 'r')
-                token_str[0] = '\r';
-            else if (next_char == '\'')
-                token_str[0] = '\'';
-            else if (next_char == '"')
-                token_str[0] = '"';
-            else if (next_char == 't')
-                token_str[0] = '\t';
-            else if (next_char == '\\')
-                token_str[0] = '\\';
-            else if (next_char == '0')
-                token_str[0] = '\0';
-            else
-                abort();
+            token_str[0] = unescape_char(next_char);
         } else {
             token_str[0] = next_char;
         }
         token_str[1] = 0;
-        if (read_char(true) != '\'')
+        if (read_char(false) != '\'')
             abort();
         read_char(true);
         return T_char;
     }
     if (next_char == '*') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_asteriskeq;
         }
 
+        skip_whitespace();
         return T_asterisk;
     }
     if (next_char == '&') {
@@ -421,26 +407,28 @@ token_t lex_token_internal(bool aliasing)
             return T_le;
         }
         if (next_char == '<') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_lshifteq;
             }
 
+            skip_whitespace();
             return T_lshift;
         }
         skip_whitespace();
         return T_lt;
     }
     if (next_char == '%') {
-        read_char(true);
+        read_char(false);
 
         if (next_char == '=') {
             read_char(true);
             return T_modeq;
         }
 
+        skip_whitespace();
         return T_mod;
     }
     if (next_char == '>') {
@@ -450,13 +438,14 @@ token_t lex_token_internal(bool aliasing)
             return T_ge;
         }
         if (next_char == '>') {
-            read_char(true);
+            read_char(false);
 
             if (next_char == '=') {
                 read_char(true);
                 return T_rshifteq;
             }
 
+            skip_whitespace();
             return T_rshift;
         }
         skip_whitespace();
@@ -485,7 +474,7 @@ token_t lex_token_internal(bool aliasing)
         return T_dot;
     }
     if (next_char == '-') {
-        read_char(true);
+        read_char(false);
         if (next_char == '>') {
             read_char(true);
             return T_arrow;
-- 
2.43.0


From 09f865e55233ae51b51f7154ebad5481042aa64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 20/38] fix: macro arguments may be parenthesised and name the
 caller's variables

---
 src/lexer.c  | 10 ++++--
 src/parser.c | 99 +++++++++++++++++++++++++++++-----------------------
 2 files changed, 63 insertions(+), 46 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index b05b678..65d011a 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -594,6 +594,9 @@ token_t lex_token_internal(bool aliasing)
         if (macro_return_idx) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
+            macro_return_idx = 0;
+            skip_newline = true;
+            skip_whitespace();
         } else
             next_char = read_char(true);
         return lex_token_internal(aliasing);
@@ -619,8 +622,11 @@ token_t lex_token()
 /* Skip the content. We only need the index where the macro body begins. */
 void skip_macro_body()
 {
-    while (!is_newline(next_char))
-        next_token = lex_token();
+    while (next_char && !is_newline(next_char)) {
+        if (is_linebreak(next_char))
+            read_char(false);
+        read_char(false);
+    }
 
     skip_newline = true;
     next_token = lex_token();
diff --git a/src/parser.c b/src/parser.c
index 8059f27..b8c8c0a 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -527,6 +527,44 @@ bool read_preproc_directive()
     return false;
 }
 
+/* Records where the arguments of the macro begin and moves to its body. The
+ * lexer returns from there at the end of the body.
+ */
+void enter_macro(macro_t *mac, block_t *parent)
+{
+    int depth = 1;
+
+    if (macro_return_idx)
+        error("Nested macro is not yet supported");
+
+    parent->macro = mac;
+    mac->num_params = 0;
+    lex_expect(T_identifier);
+    if (!lex_peek(T_open_bracket, NULL))
+        error("Unexpected token");
+
+    while (depth) {
+        /* 'size' has pointed at the next parameter */
+        mac->params[mac->num_params++] = SOURCE->size;
+        do {
+            next_token = lex_token();
+            if (next_token == T_open_bracket)
+                depth++;
+            else if (next_token == T_close_bracket)
+                depth--;
+            else if (next_token == T_eof)
+                error("Unexpected end of file");
+        } while (depth > 1 || (depth && next_token != T_comma));
+    }
+
+    /* move 'size' to the macro body */
+    macro_return_idx = SOURCE->size;
+    SOURCE->size = mac->start_source_idx;
+    next_char = SOURCE->elements[SOURCE->size];
+    skip_newline = false;
+    lex_expect(T_close_bracket);
+}
+
 void read_parameter_list_decl(func_t *fd, int anon);
 
 void read_inner_var_decl(var_t *vd, int anon, int is_param)
@@ -899,9 +937,12 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         constant_t *con = find_constant(token);
         var_t *var = find_var(token, parent);
         func_t *fn = find_func(token);
-        int macro_param_idx = find_macro_param_src_idx(token, parent);
+        int macro_param_idx = 0;
         macro_t *mac = find_macro(token);
 
+        if (macro_return_idx)
+            macro_param_idx = find_macro_param_src_idx(token, parent);
+
         if (!strcmp(token, "__VA_ARGS__")) {
             /* 'size' has pointed at the character after __VA_ARGS__ */
             int remainder, t = SOURCE->size;
@@ -913,38 +954,21 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 error("Unexpected identifier '__VA_ARGS__'");
 
             remainder = macro->num_params - macro->num_param_defs;
+            parent->macro = NULL;
+            skip_newline = true;
             for (int i = 0; i < remainder; i++) {
                 SOURCE->size = macro->params[macro->num_params - remainder + i];
                 next_char = SOURCE->elements[SOURCE->size];
                 next_token = lex_token();
                 read_expr(parent, bb);
             }
+            parent->macro = macro;
+            skip_newline = false;
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
         } else if (mac) {
-            if (parent->macro)
-                error("Nested macro is not yet supported");
-
-            parent->macro = mac;
-            mac->num_params = 0;
-            lex_expect(T_identifier);
-
-            /* 'size' has pointed at the first parameter */
-            while (!lex_peek(T_close_bracket, NULL)) {
-                mac->params[mac->num_params++] = SOURCE->size;
-                do {
-                    next_token = lex_token();
-                } while (next_token != T_comma &&
-                         next_token != T_close_bracket);
-            }
-            /* move 'size' to the macro body */
-            macro_return_idx = SOURCE->size;
-            SOURCE->size = mac->start_source_idx;
-            next_char = SOURCE->elements[SOURCE->size];
-            lex_expect(T_close_bracket);
-
-            skip_newline = 0;
+            enter_macro(mac, parent);
             read_expr(parent, bb);
 
             /* cleanup */
@@ -954,10 +978,17 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         } else if (macro_param_idx) {
             /* "expand" the argument from where it comes from */
             int t = SOURCE->size;
+            macro_t *macro = parent->macro;
+
+            /* the argument knows nothing of the parameters of the macro */
+            parent->macro = NULL;
+            skip_newline = true;
             SOURCE->size = macro_param_idx;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
             read_expr(parent, bb);
+            parent->macro = macro;
+            skip_newline = false;
             SOURCE->size = t;
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
@@ -3137,27 +3168,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
 
     mac = find_macro(token);
     if (mac) {
-        if (parent->macro)
-            error("Nested macro is not yet supported");
-
-        parent->macro = mac;
-        mac->num_params = 0;
-        lex_expect(T_identifier);
-
-        /* 'size' has pointed at the first parameter */
-        while (!lex_peek(T_close_bracket, NULL)) {
-            mac->params[mac->num_params++] = SOURCE->size;
-            do {
-                next_token = lex_token();
-            } while (next_token != T_comma && next_token != T_close_bracket);
-        }
-        /* move 'size' to the macro body */
-        macro_return_idx = SOURCE->size;
-        SOURCE->size = mac->start_source_idx;
-        next_char = SOURCE->elements[SOURCE->size];
-        lex_expect(T_close_bracket);
-
-        skip_newline = 0;
+        enter_macro(mac, parent);
         bb = read_body_statement(parent, bb);
 
         /* cleanup */
-- 
2.43.0


From 3974750ac155714fd2f3ad03aa70c1144aebc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 21/38] fix: conditional directives nest, and their conditions
 are evaluated by the rules of C

---
 src/lexer.c  |   2 -
 src/parser.c | 214 +++++++++++++++++++++++++--------------------------
 2 files changed, 107 insertions(+), 109 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 65d011a..d72a568 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -94,8 +94,6 @@ token_t next_token;
 char next_char;
 bool skip_newline = true;
 
-bool preproc_match;
-
 /* Point to the first character after where the macro has been called. It is
  * needed when returning from the macro body.
  */
diff --git a/src/parser.c b/src/parser.c
index b8c8c0a..0aedf0c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -196,6 +196,13 @@ int read_numeric_constant(char buffer[])
     return value;
 }
 
+int read_constant_expr();
+
+bool is_defined(char *name)
+{
+    return find_alias(name) != NULL || find_macro(name) != NULL;
+}
+
 int read_constant_expr_operand()
 {
     char buffer[MAX_ID_LEN];
@@ -207,7 +214,7 @@ int read_constant_expr_operand()
     }
 
     if (lex_accept(T_open_bracket)) {
-        value = read_constant_expr_operand();
+        value = read_constant_expr();
         lex_expect(T_close_bracket);
         return value;
     }
@@ -220,22 +227,34 @@ int read_constant_expr_operand()
         lex_ident(T_identifier, lookup_alias);
         lex_expect(T_close_bracket);
 
-        return find_alias(lookup_alias) ? 1 : 0;
+        return is_defined(lookup_alias);
     }
 
+    /* what is not a macro counts as 0 */
+    if (lex_accept(T_identifier))
+        return 0;
+
     error("Unexpected token while evaluating constant");
     return -1;
 }
 
-int read_constant_infix_expr(int precedence)
+/* The operator which follows the constant expression read so far */
+opcode_t constant_expr_op;
+
+int read_constant_unary_expr()
 {
-    int lhs, rhs;
+    int lhs;
+    opcode_t op = OP_generic;
 
-    /* Evaluate unary expression first */
-    opcode_t op = get_operator();
-    int current_precedence = get_unary_operator_prio(op);
-    if (current_precedence != 0 && current_precedence >= precedence) {
-        lhs = read_constant_infix_expr(current_precedence);
+    if (lex_accept(T_bit_not))
+        op = OP_bit_not;
+    else if (lex_accept(T_log_not))
+        op = OP_log_not;
+    else if (lex_peek(T_plus, NULL) || lex_peek(T_minus, NULL))
+        op = get_operator();
+
+    if (op != OP_generic) {
+        lhs = read_constant_unary_expr();
 
         switch (op) {
         case OP_add:
@@ -252,13 +271,22 @@ int read_constant_infix_expr(int precedence)
         default:
             error("Unexpected unary token while evaluating constant");
         }
-    } else {
-        lhs = read_constant_expr_operand();
+        return lhs;
     }
 
+    return read_constant_expr_operand();
+}
+
+int read_constant_infix_expr(int precedence)
+{
+    int lhs, rhs;
+
+    lhs = read_constant_unary_expr();
+    constant_expr_op = get_operator();
+
     while (true) {
-        op = get_operator();
-        current_precedence = get_operator_prio(op);
+        opcode_t op = constant_expr_op;
+        int current_precedence = get_operator_prio(op);
 
         if (current_precedence == 0 || current_precedence <= precedence) {
             break;
@@ -277,7 +305,15 @@ int read_constant_infix_expr(int precedence)
             lhs *= rhs;
             break;
         case OP_div:
-            lhs /= rhs;
+        case OP_mod:
+            if (rhs == 0)
+                error("Division by zero while evaluating constant");
+            if (rhs == -1)
+                lhs = op == OP_div ? -lhs : 0;
+            else if (op == OP_div)
+                lhs /= rhs;
+            else
+                lhs %= rhs;
             break;
         case OP_bit_and:
             lhs &= rhs;
@@ -321,8 +357,6 @@ int read_constant_infix_expr(int precedence)
         default:
             error("Unexpected infix token while evaluating constant");
         }
-
-        op = get_operator();
     }
 
     return lhs;
@@ -333,34 +367,35 @@ int read_constant_expr()
     return read_constant_infix_expr(0);
 }
 
-/* Skips lines where preprocessor match is false, this will stop once next
- * token is either 'T_cppd_elif', 'T_cppd_else' or 'cppd_endif'.
+/* Skips a group of lines which is not to be compiled, along with the groups
+ * nested in it. This stops at the matching '#endif' or, when no group has been
+ * compiled yet ('pending'), at the next group whose condition holds.
  */
-void cppd_control_flow_skip_lines()
+void cppd_control_flow_skip_lines(bool pending)
 {
-    while (!lex_peek(T_cppd_elif, NULL) && !lex_peek(T_cppd_else, NULL) &&
-           !lex_peek(T_cppd_endif, NULL)) {
+    int depth = 0;
+
+    while (!lex_peek(T_eof, NULL)) {
+        if (lex_peek(T_cppd_if, NULL) || lex_peek(T_cppd_ifdef, NULL) ||
+            lex_peek(T_cppd_ifndef, NULL)) {
+            depth++;
+        } else if (depth) {
+            if (lex_peek(T_cppd_endif, NULL))
+                depth--;
+        } else if (lex_accept(T_cppd_endif)) {
+            return;
+        } else if (pending) {
+            if (lex_accept(T_cppd_else))
+                return;
+            if (lex_accept(T_cppd_elif)) {
+                if (read_constant_expr() != 0)
+                    return;
+                continue;
+            }
+        }
         next_token = lex_token();
     }
-    skip_whitespace();
-}
-
-void check_def(char *alias, bool expected)
-{
-    if ((find_alias(alias) != NULL) == expected)
-        preproc_match = true;
-}
-
-void read_defined_macro()
-{
-    char lookup_alias[MAX_TOKEN_LEN];
-
-    lex_expect(T_identifier); /* defined */
-    lex_expect_internal(T_open_bracket, 0);
-    lex_ident(T_identifier, lookup_alias);
-    lex_expect(T_close_bracket);
-
-    check_def(lookup_alias, true);
+    error("Unterminated conditional directive");
 }
 
 /* read preprocessor directive at each potential positions: e.g.,
@@ -390,21 +425,34 @@ bool read_preproc_directive()
 
         return true;
     }
-    if (lex_accept(T_cppd_define)) {
+    if (lex_peek(T_cppd_define, NULL)) {
         char alias[MAX_VAR_LEN];
         char value[MAX_VAR_LEN];
 
+        /* the line may end after the name */
+        skip_newline = false;
+        lex_expect_internal(T_cppd_define, false);
+        skip_newline = true;
+        lex_peek(T_identifier, alias);
+        if (is_newline(next_char) || next_char == '/') {
+            /* Empty alias, may be dummy alias serves as include guard */
+            value[0] = 0;
+            add_alias(alias, value);
+            lex_expect(T_identifier);
+            return true;
+        }
+
         lex_ident_internal(T_identifier, alias, false);
 
         if (lex_peek(T_numeric, value)) {
-            lex_expect(T_numeric);
             add_alias(alias, value);
+            lex_expect(T_numeric);
         } else if (lex_peek(T_string, value)) {
-            lex_expect(T_string);
             add_alias(alias, value);
+            lex_expect(T_string);
         } else if (lex_peek(T_identifier, value)) {
-            lex_expect(T_identifier);
             add_alias(alias, value);
+            lex_expect(T_identifier);
         } else if (lex_accept(T_open_bracket)) { /* function-like macro */
             macro_t *macro = add_macro(alias);
 
@@ -433,10 +481,9 @@ bool read_preproc_directive()
 
         lex_expect_internal(T_cppd_undef, false);
         lex_peek(T_identifier, alias);
-        lex_expect(T_identifier);
-
         remove_alias(alias);
         remove_macro(alias);
+        lex_expect(T_identifier);
         return true;
     }
     if (lex_peek(T_cppd_error, NULL)) {
@@ -451,76 +498,29 @@ bool read_preproc_directive()
         error(error_diagnostic);
     }
     if (lex_accept(T_cppd_if)) {
-        preproc_match = read_constant_expr() != 0;
-
-        if (preproc_match) {
-            skip_whitespace();
-        } else {
-            cppd_control_flow_skip_lines();
-        }
-
-        return true;
-    }
-    if (lex_accept(T_cppd_elif)) {
-        if (preproc_match) {
-            while (!lex_peek(T_cppd_endif, NULL)) {
-                next_token = lex_token();
-            }
-            return true;
-        }
-
-        preproc_match = read_constant_expr() != 0;
-
-        if (preproc_match) {
-            skip_whitespace();
-        } else {
-            cppd_control_flow_skip_lines();
-        }
-
+        if (read_constant_expr() == 0)
+            cppd_control_flow_skip_lines(true);
         return true;
     }
-    if (lex_accept(T_cppd_else)) {
-        /* reach here has 2 possible cases:
-         * 1. reach #ifdef preprocessor directive
-         * 2. conditional expression in #elif is false
-         */
-        if (!preproc_match) {
-            skip_whitespace();
-            return true;
-        }
-
-        cppd_control_flow_skip_lines();
+    if (lex_accept(T_cppd_elif) || lex_accept(T_cppd_else)) {
+        /* the group compiled ends here */
+        cppd_control_flow_skip_lines(false);
         return true;
     }
-    if (lex_accept(T_cppd_endif)) {
-        preproc_match = false;
-        skip_whitespace();
+    if (lex_accept(T_cppd_endif))
         return true;
-    }
     if (lex_accept_internal(T_cppd_ifdef, false)) {
-        preproc_match = false;
-        lex_ident(T_identifier, token);
-        check_def(token, true);
-
-        if (preproc_match) {
-            skip_whitespace();
-            return true;
-        }
-
-        cppd_control_flow_skip_lines();
+        lex_peek(T_identifier, token);
+        lex_expect(T_identifier);
+        if (!is_defined(token))
+            cppd_control_flow_skip_lines(true);
         return true;
     }
     if (lex_accept_internal(T_cppd_ifndef, false)) {
-        preproc_match = false;
-        lex_ident(T_identifier, token);
-        check_def(token, false);
-
-        if (preproc_match) {
-            skip_whitespace();
-            return true;
-        }
-
-        cppd_control_flow_skip_lines();
+        lex_peek(T_identifier, token);
+        lex_expect(T_identifier);
+        if (is_defined(token))
+            cppd_control_flow_skip_lines(true);
         return true;
     }
 
-- 
2.43.0


From c3d7eb76638050663588bcb660b14876bd27d84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 22/38] fix: spilling for the second operand spares the
 register of the first

---
 src/reg-alloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index 5c7d80d..b403c36 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -127,9 +127,13 @@ int prepare_operand(basic_block_t *bb, var_t *var, int operand_0)
         }
     }
 
-    /* spill farthest local */
+    /* spill farthest local, but never the other operand */
     int spilled = 0;
+    if (operand_0 == 0)
+        spilled = 1;
     for (i = 0; i < REG_CNT; i++) {
+        if (i == operand_0)
+            continue;
         if (!REGS[i].var)
             continue;
         if (REGS[i].var->consumed > REGS[spilled].var->consumed)
-- 
2.43.0


From 785c5b79dbabf03e8a2ad61e37b25bd2de1e88d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 23/38] fix: stores of function pointers and indirect calls
 leave no stale value in a register

---
 src/reg-alloc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index b403c36..a6fa7df 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -474,6 +474,7 @@ void reg_alloc()
                     break;
                 case OP_write:
                     if (insn->rs2->is_func) {
+                        spill_alive(bb, insn);
                         src0 = prepare_operand(bb, insn->rs1, -1);
                         ir = bb_add_ph2_ir(bb, OP_address_of_func);
                         ir->src0 = src0;
@@ -546,6 +547,10 @@ void reg_alloc()
 
                     is_pushing_args = 0;
                     args = 0;
+
+                    for (int i = 0; i < REG_CNT; i++)
+                        REGS[i].var = NULL;
+
                     break;
                 case OP_func_ret:
                     dest = prepare_dest(bb, insn->rd, -1, -1);
-- 
2.43.0


From 7e62022fabb12d7808e0549db40f15cbf95f6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 24/38] fix: a switch without labels does nothing

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 0aedf0c..5156229 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2697,6 +2697,11 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         basic_block_t *true_body_ = bb_create(parent);
 
         lex_expect(T_open_curly);
+        if (lex_peek(T_close_curly, NULL)) {
+            /* no label at all */
+            bb_connect(bb, switch_end, NEXT);
+            true_body_ = NULL;
+        }
         while (lex_peek(T_default, NULL) || lex_peek(T_case, NULL)) {
             if (lex_accept(T_default))
                 is_default = 1;
@@ -2825,7 +2830,7 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
             /* if the last label has no explicit break, connect it to the end */
             bb_connect(true_body_, switch_end, NEXT);
 
-        strcpy(var_break->var_name, vd->var_name);
+        strcpy(var_break->var_name, false_label);
         break_exit_idx--;
 
         int dangling = 1;
-- 
2.43.0


From f9854413732f84d4b6f70e67942edf21047ed54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 25/38] fix: no phi at the head of a do loop for the variables
 of its body

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 5156229..17bce92 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3067,7 +3067,12 @@ basic_block_t *read_body_statement(block_t *parent, basic_block_t *bb)
         break_bb[break_exit_idx] = do_while_end;
         break_exit[break_exit_idx++] = var_break;
 
-        basic_block_t *do_body = read_body_statement(parent, bb);
+        /* The loop header keeps the scope of the enclosing block, so that it gets
+         * no phi for a variable declared in the body.
+         */
+        basic_block_t *do_body = bb_create(parent);
+        bb_connect(bb, do_body, NEXT);
+        do_body = read_body_statement(parent, do_body);
         if (do_body)
             bb_connect(do_body, cond_, NEXT);
 
-- 
2.43.0


From 1451c78f5ad5c5a7a1d42527731412e7a6e51814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:33 +0000
Subject: [PATCH 26/38] fix: a basic block keeps the scope it begins in for the
 placement of phis

---
 src/globals.c | 2 --
 src/parser.c  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index a470351..d5b20d6 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -814,8 +814,6 @@ void add_insn(block_t *block,
     if (!bb)
         return;
 
-    bb->scope = block;
-
     insn_t *n = arena_alloc(INSN_ARENA, sizeof(insn_t));
     n->opcode = op;
     n->rd = rd;
diff --git a/src/parser.c b/src/parser.c
index 17bce92..d74a4c8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -3215,8 +3215,6 @@ basic_block_t *read_code_block(func_t *func,
                                basic_block_t *bb)
 {
     block_t *blk = add_block(parent, func, macro);
-    bb->scope = blk;
-
     add_ph1_ir(OP_block_start);
     lex_expect(T_open_curly);
 
-- 
2.43.0


From 4fce29ed0f9c00635e7c49c3430a8092ff5ef761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 27/38] fix: a result does not take the register of its operand
 when all registers are in use

---
 src/reg-alloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reg-alloc.c b/src/reg-alloc.c
index a6fa7df..19f6923 100644
--- a/src/reg-alloc.c
+++ b/src/reg-alloc.c
@@ -175,8 +175,10 @@ int prepare_dest(basic_block_t *bb, var_t *var, int operand_0, int operand_1)
         }
     }
 
-    /* spill farthest local */
+    /* spill farthest local, but never an operand */
     int spilled = 0;
+    while (spilled == operand_0 || spilled == operand_1)
+        spilled++;
     for (i = 0; i < REG_CNT; i++) {
         if (i == operand_0)
             continue;
-- 
2.43.0


From 18a4f9686c2529ae15e10dc2b656a281c4c2b4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 28/38] fix: unreachable code behind return, break or continue
 compiles

---
 src/globals.c |  3 ++-
 src/ssa.c     | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index d5b20d6..56eae2a 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -720,8 +720,9 @@ void bb_connect(basic_block_t *pred,
                 basic_block_t *succ,
                 bb_connection_type_t type)
 {
+    /* unreachable code has no predecessor */
     if (!pred)
-        abort();
+        return;
     if (!succ)
         abort();
 
diff --git a/src/ssa.c b/src/ssa.c
index 6a7fa43..4dd46b4 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -96,6 +96,20 @@ void bb_build_rpo(fn_t *fn, basic_block_t *bb)
     prev->rpo_next = bb;
 }
 
+/* Code behind 'return', 'break' or 'continue' might be unreachable. Nothing
+ * flows from there.
+ */
+void bb_drop_unreachable_pred(fn_t *fn, basic_block_t *bb)
+{
+    UNUSED(fn);
+
+    for (int i = 0; i < MAX_BB_PRED; i++) {
+        if (bb->prev[i].bb)
+            if (!bb->prev[i].bb->rpo)
+                bb->prev[i].bb = NULL;
+    }
+}
+
 void build_rpo()
 {
     bb_traversal_args_t *args = calloc(1, sizeof(bb_traversal_args_t));
@@ -114,6 +128,11 @@ void build_rpo()
         fn->visited++;
         args->postorder_cb = bb_build_rpo;
         bb_forward_traversal(args);
+
+        fn->visited++;
+        args->postorder_cb = bb_drop_unreachable_pred;
+        bb_forward_traversal(args);
+        bb_drop_unreachable_pred(fn, fn->exit);
     }
     free(args);
 }
-- 
2.43.0


From 9c3e9b232f2fa0bf3ce6333afb19bed4d1fc2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 29/38] fix: an element read again after a store or call is
 read anew

---
 src/ssa.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/ssa.c b/src/ssa.c
index 4dd46b4..3a2acae 100644
--- a/src/ssa.c
+++ b/src/ssa.c
@@ -1247,6 +1247,14 @@ void ssa_build(int dump_ir)
 
 /* Common Subexpression Elimination (CSE) */
 /* TODO: release detached insns node */
+bool may_write_memory(insn_t *insn)
+{
+    if (insn->opcode == OP_write || insn->opcode == OP_call ||
+        insn->opcode == OP_indirect)
+        return true;
+    return insn->rd && insn->rd->is_global;
+}
+
 bool cse(insn_t *insn, basic_block_t *bb)
 {
     if (insn->opcode != OP_read)
@@ -1288,18 +1296,15 @@ bool cse(insn_t *insn, basic_block_t *bb)
             continue;
         if (i->rs1 != base || i->rs2 != idx)
             continue;
-        basic_block_t *i_bb = i->belong_to;
-        bool check_dom = 0;
-        /* Check if the instructions are under the same dominate tree */
-        for (;; i_bb = i_bb->idom) {
-            if (i_bb == bb) {
-                check_dom = true;
-                break;
-            }
-            if (i_bb == i_bb->idom)
-                break;
-        }
-        if (!check_dom)
+        if (i->belong_to != bb)
+            continue;
+        /* The value is known to be the same only if both are read in the same
+         * block, with nothing in between that may write to memory.
+         */
+        insn_t *between = insn->next;
+        while (between && between != i && !may_write_memory(between))
+            between = between->next;
+        if (between != i)
             continue;
 
         i->next->opcode = OP_assign;
-- 
2.43.0


From ca3ba129776ebdfbe8a2b5f348d3674eb457e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:08 +0000
Subject: [PATCH 30/38] fix: bitwise operators in a global initialiser

---
 src/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index d74a4c8..5c2bf52 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -2222,6 +2222,15 @@ int eval_expression_imm(opcode_t op, int op1, int op2)
     case OP_rshift:
         res = op1 >> op2;
         break;
+    case OP_bit_and:
+        res = op1 & op2;
+        break;
+    case OP_bit_or:
+        res = op1 | op2;
+        break;
+    case OP_bit_xor:
+        res = op1 ^ op2;
+        break;
     case OP_log_and:
         res = op1 && op2;
         break;
-- 
2.43.0


From d12460c1e7ad4fe65b7e374d8663f38f360259c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 31/38] fix: an error at the end of the source does not overrun
 the diagnostic

---
 src/globals.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 56eae2a..434df3c 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -967,14 +967,19 @@ void error(char *msg)
 
     start_idx = offset + 1;
 
-    for (offset = 0;
-         offset < MAX_SOURCE && SOURCE->elements[start_idx + offset] != '\n';
+    /* The last line may lack a newline, and either part of the diagnostic must
+     * fit into its half of the buffer.
+     */
+    for (offset = 0; offset < MAX_LINE_LEN - 32 &&
+                     SOURCE->elements[start_idx + offset] != '\n' &&
+                     SOURCE->elements[start_idx + offset] != '\0';
          offset++) {
         diagnostic[i++] = SOURCE->elements[start_idx + offset];
     }
     diagnostic[i++] = '\n';
 
-    for (offset = start_idx; offset < SOURCE->size; offset++) {
+    for (offset = start_idx;
+         offset < SOURCE->size && i < MAX_LINE_LEN * 2 - 32; offset++) {
         diagnostic[i++] = ' ';
     }
 
-- 
2.43.0


From ff8792276c305ba2b135dd55000ca361c1b504b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:23 +0000
Subject: [PATCH 32/38] fix: 0X starts a hexadecimal number, and nothing but a
 leading 0 does

---
 src/lexer.c  | 4 ++--
 src/parser.c | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index d72a568..5df0c12 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -132,7 +132,7 @@ bool is_digit(char c)
 bool is_hex(char c)
 {
     return ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || c == 'x' ||
-            (c >= 'A' && c <= 'F'));
+            (c >= 'A' && c <= 'F') || c == 'X');
 }
 
 bool is_numeric(char buffer[])
@@ -141,7 +141,7 @@ bool is_numeric(char buffer[])
     int size = strlen(buffer);
 
     if (size > 2)
-        hex = !strncmp(buffer, "0x", 2);
+        hex = !strncmp(buffer, "0x", 2) || !strncmp(buffer, "0X", 2);
 
     for (int i = 0; i < size; i++) {
         if (hex && !is_hex(buffer[i]))
diff --git a/src/parser.c b/src/parser.c
index 5c2bf52..1e1b916 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -167,7 +167,8 @@ int read_numeric_constant(char buffer[])
     int i = 0;
     int value = 0;
     while (buffer[i]) {
-        if (i == 1 && (buffer[i] == 'x')) { /* hexadecimal */
+        if (i == 1 && buffer[0] == '0' &&
+            (buffer[i] == 'x' || buffer[i] == 'X')) { /* hexadecimal */
             value = 0;
             i = 2;
             if (!buffer[i])
-- 
2.43.0


From 4cd48ca668fa2f9a0387c8fa39f09440d9376d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 33/38] fix: a character literal cut off by the end of the
 source is not read past it

---
 src/lexer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.c b/src/lexer.c
index 5df0c12..8b61f13 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -349,6 +349,8 @@ token_t lex_token_internal(bool aliasing)
     }
     if (next_char == '\'') {
         read_char(false);
+        if (!next_char)
+            error("Unenclosed character literal");
         if (next_char == '\\') {
             read_char(false);
             token_str[0] = unescape_char(next_char);
-- 
2.43.0


From 1de7c20735e564732f8c7e1ccea5fca97fb4e360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 34/38] fix: a line comment may be continued, and may end with
 a carriage return

---
 src/lexer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.c b/src/lexer.c
index 8b61f13..3067ab1 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -264,6 +264,8 @@ token_t lex_token_internal(bool aliasing)
         /* C++-style comments */
         if (next_char == '/') {
             do {
+                if (is_linebreak(next_char))
+                    read_char(false);
                 read_char(false);
             } while (next_char && !is_newline(next_char));
             return lex_token_internal(aliasing);
@@ -590,7 +592,7 @@ token_t lex_token_internal(bool aliasing)
     /* This only happens when parsing a macro. Move to the token after the
      * macro definition or return to where the macro has been called.
      */
-    if (next_char == '\n') {
+    if (is_newline(next_char)) {
         if (macro_return_idx) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
-- 
2.43.0


From fa688c22d466ad039d30c284018f754ed1e20025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 35/38] fix: __VA_ARGS__ in a call passes every argument it
 stands for

---
 src/parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 1e1b916..f6576f1 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -716,10 +716,15 @@ void read_func_parameters(block_t *parent, basic_block_t **bb)
 
     lex_expect(T_open_bracket);
     while (!lex_accept(T_close_bracket)) {
+        int first = operand_stack_idx;
+
         read_expr(parent, bb);
         read_ternary_operation(parent, bb);
 
-        params[param_num++] = opstack_pop();
+        /* '__VA_ARGS__' leaves a value for each argument it stands for */
+        for (int i = first; i < operand_stack_idx; i++)
+            params[param_num++] = operand_stack[i];
+        operand_stack_idx = first;
         lex_accept(T_comma);
     }
     for (int i = 0; i < param_num; i++) {
-- 
2.43.0


From 2dd4e2f7d0544bbc488c3f4132808fac6e6af048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 36/38] fix: the conditional operator in a macro and in its
 arguments

---
 src/parser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index f6576f1..d585fdd 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -967,6 +967,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
                 next_char = SOURCE->elements[SOURCE->size];
                 next_token = lex_token();
                 read_expr(parent, bb);
+                read_ternary_operation(parent, bb);
             }
             parent->macro = macro;
             skip_newline = false;
@@ -976,6 +977,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
         } else if (mac) {
             enter_macro(mac, parent);
             read_expr(parent, bb);
+            read_ternary_operation(parent, bb);
 
             /* cleanup */
             skip_newline = 1;
@@ -993,6 +995,7 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
             read_expr(parent, bb);
+            read_ternary_operation(parent, bb);
             parent->macro = macro;
             skip_newline = false;
             SOURCE->size = t;
-- 
2.43.0


From e769843ca5cf34715e50c62c9fa4dd6ce24830db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 37/38] fix: a macro that stands for an identifier is not a
 string

---
 src/defs.h    |  1 +
 src/globals.c |  7 ++++---
 src/lexer.c   | 41 +++++++++--------------------------------
 src/parser.c  | 14 +++++++-------
 4 files changed, 21 insertions(+), 42 deletions(-)

diff --git a/src/defs.h b/src/defs.h
index bdbb342..9094abb 100644
--- a/src/defs.h
+++ b/src/defs.h
@@ -322,6 +322,7 @@ typedef struct {
 typedef struct {
     char alias[MAX_VAR_LEN];
     char value[MAX_VAR_LEN];
+    int type; /* of the token which replaces the name */
     bool disabled;
 } alias_t;
 
diff --git a/src/globals.c b/src/globals.c
index 434df3c..5a2ab0d 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -486,19 +486,20 @@ block_t *add_block(block_t *parent, func_t *func, macro_t *macro)
     return blk;
 }
 
-void add_alias(char *alias, char *value)
+void add_alias(char *alias, char *value, int type)
 {
     alias_t *al = &ALIASES[aliases_idx++];
     strcpy(al->alias, alias);
     strcpy(al->value, value);
+    al->type = type;
     al->disabled = false;
 }
 
-char *find_alias(char alias[])
+alias_t *find_alias(char alias[])
 {
     for (int i = 0; i < aliases_idx; i++) {
         if (!ALIASES[i].disabled && !strcmp(alias, ALIASES[i].alias))
-            return ALIASES[i].value;
+            return &ALIASES[i];
     }
     return NULL;
 }
diff --git a/src/lexer.c b/src/lexer.c
index 3067ab1..0115e2b 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -135,23 +135,6 @@ bool is_hex(char c)
             (c >= 'A' && c <= 'F') || c == 'X');
 }
 
-bool is_numeric(char buffer[])
-{
-    bool hex = false;
-    int size = strlen(buffer);
-
-    if (size > 2)
-        hex = !strncmp(buffer, "0x", 2) || !strncmp(buffer, "0X", 2);
-
-    for (int i = 0; i < size; i++) {
-        if (hex && !is_hex(buffer[i]))
-            return false;
-        if (!hex && !is_digit(buffer[i]))
-            return false;
-    }
-    return true;
-}
-
 void skip_whitespace()
 {
     while (true) {
@@ -528,7 +511,6 @@ token_t lex_token_internal(bool aliasing)
     }
 
     if (is_alnum(next_char)) {
-        char *alias;
         int i = 0;
         do {
             token_str[i++] = next_char;
@@ -568,21 +550,16 @@ token_t lex_token_internal(bool aliasing)
             return T_continue;
 
         if (aliasing) {
-            alias = find_alias(token_str);
-            if (alias) {
-                /* FIXME: comparison with string "bool" is a temporary hack */
-                token_t t;
-
-                if (is_numeric(alias)) {
-                    t = T_numeric;
-                } else if (!strcmp(alias, "_Bool")) {
-                    t = T_identifier;
-                } else {
-                    t = T_string;
-                }
+            alias_t *alias = find_alias(token_str);
 
-                strcpy(token_str, alias);
-                return t;
+            /* the replacement may be the name of another alias */
+            for (i = 0; alias && i < aliases_idx; i++) {
+                if (!alias->value[0])
+                    return lex_token_internal(aliasing);
+                strcpy(token_str, alias->value);
+                if (alias->type != T_identifier)
+                    return alias->type;
+                alias = find_alias(token_str);
             }
         }
 
diff --git a/src/parser.c b/src/parser.c
index d585fdd..fee1524 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -438,7 +438,7 @@ bool read_preproc_directive()
         if (is_newline(next_char) || next_char == '/') {
             /* Empty alias, may be dummy alias serves as include guard */
             value[0] = 0;
-            add_alias(alias, value);
+            add_alias(alias, value, T_identifier);
             lex_expect(T_identifier);
             return true;
         }
@@ -446,13 +446,13 @@ bool read_preproc_directive()
         lex_ident_internal(T_identifier, alias, false);
 
         if (lex_peek(T_numeric, value)) {
-            add_alias(alias, value);
+            add_alias(alias, value, T_numeric);
             lex_expect(T_numeric);
         } else if (lex_peek(T_string, value)) {
-            add_alias(alias, value);
+            add_alias(alias, value, T_string);
             lex_expect(T_string);
         } else if (lex_peek(T_identifier, value)) {
-            add_alias(alias, value);
+            add_alias(alias, value, T_identifier);
             lex_expect(T_identifier);
         } else if (lex_accept(T_open_bracket)) { /* function-like macro */
             macro_t *macro = add_macro(alias);
@@ -472,7 +472,7 @@ bool read_preproc_directive()
         } else {
             /* Empty alias, may be dummy alias serves as include guard */
             value[0] = 0;
-            add_alias(alias, value);
+            add_alias(alias, value, T_identifier);
         }
 
         return true;
@@ -3468,10 +3468,10 @@ void parse_internal()
     elf_add_symbol("", 0, 0);    /* undef symbol */
 
     /* architecture defines */
-    add_alias(ARCH_PREDEFINED, "1");
+    add_alias(ARCH_PREDEFINED, "1", T_numeric);
 
     /* shecc run-time defines */
-    add_alias("__SHECC__", "1");
+    add_alias("__SHECC__", "1", T_numeric);
 
     /* Linux syscall */
     func_t *func = add_func("__syscall");
-- 
2.43.0


From 326a132dc1d526da92b5efa6e229f842faf19635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:20 +0000
Subject: [PATCH 38/38] fix: what a macro stands for is grouped with what
 surrounds it

---
 src/lexer.c  |  2 +-
 src/parser.c | 11 ++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 0115e2b..13ad18d 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -570,7 +570,7 @@ token_t lex_token_internal(bool aliasing)
      * macro definition or return to where the macro has been called.
      */
     if (is_newline(next_char)) {
-        if (macro_return_idx) {
+        if (macro_return_idx && !skip_newline) {
             SOURCE->size = macro_return_idx;
             next_char = SOURCE->elements[SOURCE->size];
             macro_return_idx = 0;
diff --git a/src/parser.c b/src/parser.c
index fee1524..759aa2f 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -975,14 +975,11 @@ void read_expr_operand(block_t *parent, basic_block_t **bb)
             next_char = SOURCE->elements[SOURCE->size];
             next_token = lex_token();
         } else if (mac) {
+            /* what follows the first operand in the body, and then behind the
+             * macro, is grouped like any other text
+             */
             enter_macro(mac, parent);
-            read_expr(parent, bb);
-            read_ternary_operation(parent, bb);
-
-            /* cleanup */
-            skip_newline = 1;
-            parent->macro = NULL;
-            macro_return_idx = 0;
+            read_expr_operand(parent, bb);
         } else if (macro_param_idx) {
             /* "expand" the argument from where it comes from */
             int t = SOURCE->size;
-- 
2.43.0

