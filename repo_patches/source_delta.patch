From 2005b327480113dbff14e15161a9e68ee195266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 001/120] fix: integer + - * promote to double on overflow in
 the jit and the number methods

The jit added with lea, which sets no flags, so the jo never fired; and the
fallback number methods wrapped around as well.
---
 core/number.c | 33 +++++++++++++++++++++++++--------
 core/vm-x86.c |  3 ++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/core/number.c b/core/number.c
index 2d674f9..d010118 100644
--- a/core/number.c
+++ b/core/number.c
@@ -44,21 +44,28 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
   return potion_double(P, sqrt(PN_DBL(self)));
 }
 
+// integer result i of math_op, promoted to double when it does not fit the tagged range
+#define PN_INT_RESULT(i, math_op) ({ \
+  long _i = (i); \
+  _i > PN_INT(LONG_MAX) || _i < PN_INT(LONG_MIN) \
+    ? potion_double(P, PN_DBL(self) math_op PN_DBL(num)) : PN_NUM(_i); })
+// both operands are tagged, so + and - cannot overflow a long
+#define PN_INT_MATH(math_op) \
+  DBG_CHECK_INT(self); \
+  DBG_CHECK_INT(num); \
+  return PN_INT_RESULT(PN_INT(self) math_op PN_INT(num), math_op);
 #define PN_NUM_MATH(math_op) \
   DBG_CHECK_NUM(self); \
   DBG_CHECK_NUM(num); \
-  if (PN_IS_INT(self) && PN_IS_INT(num)) \
-    return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
+  if (PN_IS_INT(self) && PN_IS_INT(num)) { PN_INT_MATH(math_op) } \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
-#define PN_INT_MATH(math_op) \
-  DBG_CHECK_INT(self); \
-  DBG_CHECK_INT(num); \
-  return PN_NUM(PN_INT(self) math_op PN_INT(num));
 #define PN_DBL_MATH(math_op) \
   DBG_CHECK_NUM(self); \
   DBG_CHECK_NUM(num); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
 
+static PN potion_int_mult(Potion *P, PN cl, PN self, PN num);
+
 /**\memberof PNNumber
   "+" method
  \param num PNNumber
@@ -80,7 +87,9 @@ static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(*)
+  if (PN_IS_INT(self) && PN_IS_INT(num))
+    return potion_int_mult(P, cl, self, num);
+  PN_DBL_MATH(*)
 }
 
 /**\memberof PNNumber
@@ -146,7 +155,15 @@ static PN potion_int_sub(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(-) }
   "*" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(*) }
+static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) {
+  long i;
+  DBG_CHECK_INT(self);
+  DBG_CHECK_INT(num);
+  if (__builtin_smull_overflow(PN_INT(self), PN_INT(num), &i)) {
+    PN_DBL_MATH(*)
+  }
+  return PN_INT_RESULT(i, *);
+}
 /**\memberof PNInteger
   "/" method
  \param num PNInteger
diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed3fc7c..23afc40 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -673,7 +673,8 @@ void potion_x86_setpath(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 void potion_x86_add(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_add, {
-    X86_PRE(); ASMS("\x8D\x44\x10\xFF"); // lea -1(%eax,%edx,1),%eax
+    X86_PRE(); ASMS("\xFF\xC8");         // dec %rax
+    X86_PRE(); ASMS("\x01\xD0");         // add %rdx %rax (lea would not set OF)
     ASM(0x70); ASM(2);                   // jo +2
   });
 }
-- 
2.43.0


From 6b22d46818f25a5d5f2053f4dcdbcf1b42e8c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 002/120] fix: integer / and % are 64 bit in the jit and do not
 trap on a zero divisor

The jit divided 32-bit halves, so negative and large operands gave wrong
results. x / 0, x % 0 killed the process with SIGFPE; they now return the
double inf or nan as with 0.0.
---
 core/number.c | 17 +++++++++++------
 core/vm-x86.c | 30 ++++++++++++++++--------------
 core/vm.c     | 15 +++++++++++++--
 3 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/core/number.c b/core/number.c
index d010118..9a1e8fd 100644
--- a/core/number.c
+++ b/core/number.c
@@ -97,6 +97,9 @@ static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
+  if (num == PN_ZERO) { // no integer result: inf or nan
+    PN_DBL_MATH(/)
+  }
   PN_NUM_MATH(/)
 }
 
@@ -105,11 +108,9 @@ static PN potion_num_div(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_rem(Potion *P, PN cl, PN self, PN num) {
-  if (PN_IS_INT(self) && PN_IS_INT(num))
+  if (PN_IS_INT(self) && PN_IS_INT(num) && num != PN_ZERO)
     return PN_NUM(PN_INT(self) % PN_INT(num));
-  double x = PN_DBL(self), y = PN_DBL(num);
-  int z = (int)(x / y);
-  return potion_double(P, x - (y * (double)z));
+  return potion_double(P, fmod(PN_DBL(self), PN_DBL(num)));
 }
 
 /**\memberof PNNumber
@@ -168,13 +169,17 @@ static PN potion_int_mult(Potion *P, PN cl, PN self, PN num) {
   "/" method
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_div(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(/) }
+static PN potion_int_div(Potion *P, PN cl, PN self, PN num) {
+  return potion_num_div(P, cl, self, num);
+}
 
 /**\memberof PNNumber
   "%" method, Integer division
  \param num PNInteger
  \return PNInteger */
-static PN potion_int_rem(Potion *P, PN cl, PN self, PN num) { PN_INT_MATH(%) }
+static PN potion_int_rem(Potion *P, PN cl, PN self, PN num) {
+  return potion_num_rem(P, cl, self, num);
+}
 
 /**\memberof PNInteger
   "~" method, bitwise negation  \code ~ 0 #=> -1 \endcode
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 23afc40..358bd04 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -702,26 +702,28 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_div(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_div, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    ASM(0x74); ASM(X86_PRE_T*6 + 15);   // jz to potion_obj_div
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x01\xC0"); 	// add %rax %rax
+    ASM(0x70); ASM(X86_PRE_T + 4);      // jo to potion_obj_div
+    X86_PRE(); ASMS("\xFF\xC0"); 	// inc %rax
   });
 }
 
 void potion_x86_rem(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_rem, {
-    ASMS("\xD1\xF8"	  	// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x12\x01");   // lea 0x1(%edx,%edx,1),%eax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    ASM(0x74); ASM(X86_PRE_T*5 + 13);   // jz to potion_obj_rem
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x12\x01");   // lea 0x1(%rdx,%rdx,1),%rax
   });
 }
 
diff --git a/core/vm.c b/core/vm.c
index 8c869ed..a077484 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -375,6 +375,17 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
+/* without integer result (x / 0, -2^62 / -1) the method returns a double */
+#define PN_VM_DIVREM(name, oper)                                  \
+  if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b])                \
+      && PN_INT(reg[op.b]) != 0 && PN_INT(reg[op.b]) != -1)       \
+    reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
+  else {                                                          \
+    PN_CHECK_NUM(reg[op.a]);                                      \
+    PN_CHECK_NUM(reg[op.b]);                                      \
+    reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
+  }
+
 #if (defined(__clang__) && \
      ((!defined(__apple_build_version__) &&                       \
        ((__clang_major__ > 3) || (__clang_major__ == 3 && __clang_minor__ >= 4))) \
@@ -748,8 +759,8 @@ reentry:
       CASE(ADD, PN_VM_MATH3(add, +, saddl))
       CASE(SUB, PN_VM_MATH3(sub, -, ssubl))
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
-      CASE(DIV, PN_VM_MATH2(div, /))
-      CASE(REM, PN_VM_MATH2(rem, %))
+      CASE(DIV, PN_VM_DIVREM(div, /))
+      CASE(REM, PN_VM_DIVREM(rem, %))
       CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
 					    (double)PN_INT(reg[op.b]))))
 #ifdef P2
-- 
2.43.0


From 35a4e6a67b280f26b8aedc620ec4a22611525bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 003/120] fix: compare negative integers as signed in the
 bytecode vm

---
 core/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index a077484..34c6745 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -415,7 +415,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 // TODO: support str1 < str2, or list1 < list2? (i.e. call the cmp method)
 #define PN_VM_NUMCMP(cmp)					  \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
-    reg[op.a] = PN_BOOL(reg[op.a] cmp reg[op.b]);		  \
+    reg[op.a] = PN_BOOL((long)reg[op.a] cmp (long)reg[op.b]);	  \
   else {                                                          \
     PN_CHECK_NUM(reg[op.a]);                                      \
     PN_CHECK_NUM(reg[op.b]);                                      \
-- 
2.43.0


From 842d47718fc7676d07d39cee718bdf88ad65bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 004/120] fix: ** in the bytecode vm with doubles or results
 over 2^31, as in the jit

---
 core/vm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 34c6745..50ac3f9 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -761,8 +761,10 @@ reentry:
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
       CASE(DIV, PN_VM_DIVREM(div, /))
       CASE(REM, PN_VM_DIVREM(rem, %))
-      CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
-					    (double)PN_INT(reg[op.b]))))
+      CASE(POW,
+           PN_CHECK_NUM(reg[op.a]);
+           PN_CHECK_NUM(reg[op.b]);
+           reg[op.a] = potion_num_pow(P, PN_NIL, reg[op.a], reg[op.b]))
 #ifdef P2
       CASE(NOT, reg[op.a] = PN_ZERO == reg[op.a] ? PN_TRUE : PN_BOOL(!PN_TEST(reg[op.a])))
 #else
-- 
2.43.0


From 777c6b49b7d6e0906dac73dda4b08b8f8e4a554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 005/120] fix: << and >> are 64 bit in the jit

---
 core/vm-x86.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 358bd04..8bb950e 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -800,26 +800,24 @@ void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_bitl(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitl, {
-      ASMS("\xD1\xF8" 		// sar %eax
-	   "\xD1\xFA" 		// sar %edx
-	   "\x89\xD1" 		// mov %edx %ecx
-	   "\x89\xC2" 		// mov %eax %edx
-	   "\xD3\xE0"); 	// sal %cl %eax
-      ASM(0x70); ASM(6);        // jo +6
-      ASMS("\x8D\x44\x00\x01"); // lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    ASMS("\x89\xD1"); 			// mov %edx %ecx
+    X86_PRE(); ASMS("\xD3\xE0"); 	// sal %cl %rax
+    ASM(0x70); ASM(X86_PRE_T + 6);      // jo to potion_obj_bitl
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_bitr(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitr, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA"		// sar %edx
-	 "\x89\xD1"		// mov %edx %ecx
-	 "\x89\xC2"		// mov %eax %edx
-	 "\xD3\xF8");		// sar %cl %eax
-    ASM(0x70); ASM(6);          // jo +6
-    ASMS("\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    ASMS("\x89\xD1"); 			// mov %edx %ecx
+    X86_PRE(); ASMS("\xD3\xF8"); 	// sar %cl %rax
+    ASM(0x70); ASM(X86_PRE_T + 6);      // jo to potion_obj_bitr
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
-- 
2.43.0


From c24e2dcb0437b74586f976dec7e233bea6d4c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 006/120] fix: table filter deletes from the clone by the
 clone's own buckets

The clone's bucket order differs from the original's once keys collide, so
filter dropped the wrong pairs depending on the hash values.
---
 core/table.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/table.c b/core/table.c
index cc4ed80..00ede06 100644
--- a/core/table.c
+++ b/core/table.c
@@ -262,19 +262,19 @@ PN potion_table_values(Potion *P, PN cl, PN self) {
 ///\return new PNTable with all elements that pass the
 /// test implemented by the provided function.
 PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
-  vPN(Table) t =  (vPN(Table))potion_fwd(self);
-  DBG_CHECK_TYPE(t,PN_TTABLE);
+  DBG_CHECK_TYPE(potion_fwd(self),PN_TTABLE);
   int with_val = potion_sig_arity(P, PN_CLOSURE(block)->sig) >= 2;
   PN ret;
   vPN(Table) t2 = (vPN(Table))potion_table_clone(P, cl, self);
   unsigned k;
-  for (k = kh_begin(t); k != kh_end(t); ++k)
-    if (kh_exist(PN, t, k)) {
+  // the clone has its own bucket order
+  for (k = kh_begin(t2); k != kh_end(t2); ++k)
+    if (kh_exist(PN, t2, k)) {
       if (with_val)
-        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k),
-                                                      kh_val(PN, t, k));
+        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t2, k),
+                                                      kh_val(PN, t2, k));
       else
-        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
+        ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t2, k));
       if (!PN_TEST(ret))
         kh_del(PN, t2, k);
     }
-- 
2.43.0


From 95e8ec7e98ee644e12c515489d6d68e980c14443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 007/120] fix: clear the locals of a new frame in the bytecode
 vm

Refs left over from an earlier call made two closures of the same function
share their variables.
---
 core/vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 50ac3f9..99e0bd9 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -648,8 +648,8 @@ reentry:
 
   if (pos == 0) {
     reg[-1] = reg[0] = self;
-    //if (f->localsize)
-    //  memset((void*)locals, 0, sizeof(PN) * f->localsize);
+    // the locals of a previous call may still hold refs shared with its closures
+    memset((void*)locals, 0, sizeof(PN) * f->localsize);
     if (upc > 0 && upargs != NULL) {
       PN_SIZE i;
       for (i = 0; i < upc; i++) {
-- 
2.43.0


From 042eabfa17e6c9dbcc4f40d58f2acc59e37a7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 008/120] fix: bytecode vm call frames with default arguments
 and at the stack limit

Filling in defaults grew the caller's proto for good, so frames of the same
function still active restored the wrong registers. A call beyond the stack
limit lost its last argument and its defaults.
---
 core/vm.c | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 99e0bd9..1bcb83e 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -841,17 +841,8 @@ reentry:
                 }
               }
               reg[op.a] = potion_call(P, reg[op.a], op.b - op.a, reg + op.a + 1);
-            } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
-	      DBG_vt(" >stack");
-              PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i < op.b - op.a; i++)
-                PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
-              reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
-                cl->extra - 1, &cl->data[1]);
             } else {
-	      DBG_vt(" stack");
-              self = reg[op.a + 1];
-              args = &reg[op.a + 2];
+              long need = PN_INT(f->stack);
               if (PN_IS_TUPLE(sig)) {
 		int arity = cl->arity;
 		PN err = potion_sig_check(P, cl, arity, numargs);
@@ -862,20 +853,35 @@ reentry:
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
-                  f->stack = PN_NUM(PN_INT(f->stack)+1);
+                  need++;
                   op.b++;
                 }
               }
-              upc = cl->extra - 1;
-              upargs = &cl->data[1];
-              current = reg + PN_INT(f->stack) + 2;
-              current[-2] = (PN)f;
-              current[-1] = (PN)pos;
-
-              f = PN_PROTO(cl->data[0]);
-              pos = 0;
-	      DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
-              goto reentry;
+              if (((reg - stack) + need + PN_PROTO(cl->data[0])->upvalsize
+                   + PN_PROTO(cl->data[0])->localsize
+                   + PN_INT(PN_PROTO(cl->data[0])->stack) + 16) >= STACK_MAX) {
+	        DBG_vt(" >stack");
+                PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
+                for (i = 2; i <= op.b - op.a; i++)
+                  PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
+                reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
+                  cl->extra - 1, &cl->data[1]);
+              } else {
+	        DBG_vt(" stack");
+                self = reg[op.a + 1];
+                args = &reg[op.a + 2];
+                upc = cl->extra - 1;
+                upargs = &cl->data[1];
+                current = reg + need + 3;
+                current[-3] = (PN)(need + 3); // f may be active more than once
+                current[-2] = (PN)f;
+                current[-1] = (PN)pos;
+
+                f = PN_PROTO(cl->data[0]);
+                pos = 0;
+	        DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
+                goto reentry;
+              }
             }
 	  }
           break;
@@ -904,7 +910,7 @@ reentry:
           pos = (PN_SIZE)current[-1];
           op = PN_OP_AT(f->asmb, pos);
 
-          reg = current - (PN_INT(f->stack) + 2);
+          reg = current - (long)current[-3];
           current = reg - (f->localsize + f->upvalsize + 1);
           reg[op.a] = val;
           pos++;
-- 
2.43.0


From 78ab0675319755d8d27c942f35a9a0eeaf973dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 009/120] fix: jit calls with more than 6 words of arguments
 clobbered %rbx

---
 core/vm-x86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 8bb950e..2c93c92 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -397,15 +397,16 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
     break;
     default: // can only pass max 6 arg via regs, rest on stack
       if (out) {
-	X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	// via %r11, %rbx belongs to our caller
+	ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
 	if (argn == 6) {
-	  X86_PRE(); ASMS("\x89\x1c\x24");    // mov %rbx (%rsp)
+	  ASM(0x4c); ASMS("\x89\x1c\x24");    // mov %r11 (%rsp)
 	} else {
-	  X86_PRE(); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %rbx N(%rsp)
+	  ASM(0x4c); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	X86_PRE(); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
-	X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
+	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
   }
-- 
2.43.0


From 784c3f0ee6bec785476a7e4ead981240040d1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 010/120] fix: jit calls reserve stack for their arguments and
 store to registers over 15

---
 core/vm-x86.c | 2 +-
 core/vm.c     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 2c93c92..6a624a0 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1015,7 +1015,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_PRE(); ASM(0x89); ASM(0x45); ASM(RBP(op.a)); 	// mov %rbp(A) %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax %rbp(A)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
diff --git a/core/vm.c b/core/vm.c
index 1bcb83e..e221d5c 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -250,6 +250,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     }
   }
 
+  // calls pass their arguments at the bottom of our frame
+  for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
+    PN_OP op = PN_OP_AT(f->asmb, pos);
+    if (op.code == OP_CALL && op.b - op.a + 2 > protoargs)
+      protoargs = op.b - op.a + 2;
+  }
+
   regs = PN_INT(f->stack);
   lregs = regs + PN_TUPLE_LEN(f->locals);
   need = lregs + upc + 3;
-- 
2.43.0


From c934342ea7efc8468844fa2b178241cd1b11bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 011/120] fix: clear all locals on entry of a jitted function

---
 core/vm-x86.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 6a624a0..0c05d25 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -432,19 +432,16 @@ void potion_x86_stack(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 }
 
 void potion_x86_registers(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, long start) {
-  PN_HAS_UPVALS(up);
+  int argx, regs = PN_INT(f->stack);
   // (Potion *, self) in the first argument slot, self in the first register
   // DBG_v(";regs start %ld\n", start);
   X86_ARGI(start - 3, 0);
   X86_ARGI(start - 2, 1);
   X86_ARGI(start - 1, 2);
   X86_ARGI(0, 2);
-  // empty locals, since use of setlocal requires something there
-  if (up) {
-    int argx = 0, regs = PN_INT(f->stack);
-    for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
-      X86_MOVQ(regs + argx, PN_NIL);
-    }
+  // empty locals, a local may be read before it is set
+  for (argx = 0; argx < PN_TUPLE_LEN(f->locals); argx++) {
+    X86_MOVQ(regs + argx, PN_NIL);
   }
 }
 
-- 
2.43.0


From 2e7daed177b45c4bd191fbe8ca3f16b737840e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 012/120] fix: jit calls with missing arguments use the
 defaults of the called closure

---
 core/vm-x86.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 0c05d25..12002b1 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -930,11 +930,33 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
   TAG_LABEL(tag);
 }
 
+/// call cl with less args than declared: fill in the defaults, as in potion_vm
+///\param argc number of args, including self
+///\param args jit registers, growing down
+static PN potion_jit_call(Potion *P, PN cl, long argc, PN *args) {
+  PN argv[15];
+  PN sig = PN_CLOSURE(cl)->sig;
+  long i, n = PN_CLOSURE(cl)->arity + 1;
+  if (n > 15) n = 15;
+  for (i = 0; i < argc && i < n; i++)
+    argv[i] = args[-i];
+  for (; i < n; i++) {
+    PN s = PN_IS_TUPLE(sig) ? potion_sig_at(P, sig, i - 1) : PN_NIL;
+    argv[i] = !s || PN_TUPLE_LEN(s) < 2 ? PN_NIL
+      : PN_TUPLE_LEN(s) == 3 ? PN_TUPLE_AT(s, 2)
+      : potion_type_default(PN_INT(PN_TUPLE_AT(s, 1)));
+  }
+  return potion_call(P, cl, n, argv);
+}
+
 // TODO: check for bytecode nodes and jit them as well?
 void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   int argc = op.b - op.a; // including self
   int i, tag_a1, tag_a2, tag_b, tag_c, tag_d;
+#if PN_SIZE_T == 8
+  int tag_few, tag_end;
+#endif
 
   // check type of the closure
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)		// mov %rbp(A) %rax
@@ -983,6 +1005,12 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)      // d: mov %rbp(A) %rax
   //[b]: got the method, call it (first special slot from PNClosure)
   TAG_LABEL(tag_b);
+#if PN_SIZE_T == 8
+  // missing args: let potion_jit_call fill in the defaults
+  ASM(0x83); ASM(0x78); ASM((char *)&((struct PNClosure *)P->lobby)->arity
+	- (char *)P->lobby); ASM(argc - 1);		// cmp $argc-1 N(%rax)
+  TAG_JMPFW(0x8F, tag_few)				// jg [few]
+#endif
   X86_PRE(); ASM(0x8B); ASM(0x40);
              ASM(sizeof(struct PNObject));	     // b: mov N(%rax) %rax
 
@@ -994,6 +1022,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
     DBG_t("%d[%d] ", op.a + i - 1, i);
     X86_ARGO(op.a + i - 1, i);				// mov regn, i(%esp)
   }
+#if PN_SIZE_T != 8
   // fill in defaults, arity from protos[0], not f
   if (!PN_IS_EMPTY(f->protos)) {
     vPN(Proto) c = (vPN(Proto)) PN_TUPLE_AT(f->protos, 0);
@@ -1010,8 +1039,21 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 			     ? PN_INT(PN_TUPLE_AT(sig,1)) : 0);
 	  X86_ARGO_IMM(type ? potion_type_default(type) : 0, i+1);
 	}}}}
+#endif
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
+#if PN_SIZE_T == 8
+  TAG_PREP(tag_end);
+  ASM(0xEB); ASM(0);					// jmp [end]
+  TAG_JMPTOW(tag_few);					// few:
+  X86_ARGO(start - 3, 0);
+  X86_PRE(); ASMS("\x89\xC6");				// mov %rax %rsi
+  X86_ARGO_IMM(argc, 2);
+  X86_PRE(); ASM(0x8D); ASM_MOV_EBP(0x4D, op.a + 1)	// lea %rbp(A+1) %rcx
+  X86_PRE(); ASM(0xB8); ASMN(potion_jit_call);		// mov &potion_jit_call %rax
+  ASM(0xFF); ASM(0xD0); 				// callq *%rax
+  TAG_LABEL(tag_end);
+#endif
   X86_MOV_RBP(0x89, op.a); 				// mov %rax %rbp(A)
 }
 
-- 
2.43.0


From a0e5baf2f1a383f947932ed855e20e193580a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 013/120] fix: operators of non-numbers call the receiver's
 method in the bytecode vm, as in the jit

---
 core/vm.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index e221d5c..da94f52 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -377,8 +377,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
     reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    if (PN_IS_NUM(reg[op.a])) PN_CHECK_NUM(reg[op.b]);            \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
@@ -388,8 +387,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       && PN_INT(reg[op.b]) != 0 && PN_INT(reg[op.b]) != -1)       \
     reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    if (PN_IS_NUM(reg[op.a])) PN_CHECK_NUM(reg[op.b]);            \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
@@ -409,8 +407,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       reg[op.a] = PN_NUM((long)val);                              \
   }                                                               \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    if (PN_IS_NUM(reg[op.a])) PN_CHECK_NUM(reg[op.b]);            \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 #else
-- 
2.43.0


From 29c30494e08d4ef7d90e35d6e83329572d06d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 014/120] fix: pass the sort block as its own closure

---
 core/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 00ede06..72686f0 100644
--- a/core/table.c
+++ b/core/table.c
@@ -776,7 +776,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     } else {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
+	if (PN_INT(c->method(P, cmp, P->lobby, GET(i), pivot)) > 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -841,7 +841,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
       c = PN_CLOSURE(cmp);
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && PN_INT(c->method(P, cl, cmp, GET(j-1), GET(j))) > 0) {
+	while (j > 0 && PN_INT(c->method(P, cmp, P->lobby, GET(j-1), GET(j))) > 0) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From ae0bf88d638f1d7c59e67f8772cb4057139d7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 015/120] fix: push to an empty list without allocated elements

---
 core/table.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 72686f0..e776af4 100644
--- a/core/table.c
+++ b/core/table.c
@@ -311,8 +311,9 @@ PN potion_tuple_push(Potion *P, PN tuple, PN value) {
   vPN(Tuple) t = PN_GET_TUPLE(tuple);
   DBG_CHECK_TUPLE(t);
   if (t->len >= t->alloc) {
-    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len * 2)); // overalloc by 2 times
-    t->alloc = t->len * 2;
+    PN_SIZE alloc = t->len ? t->len * 2 : 3; // overalloc by 2 times
+    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * alloc);
+    t->alloc = alloc;
   }
   t->set[t->len] = value;
   t->len++;
-- 
2.43.0


From dbe05a0027302740f6d72039d28ef3db54b5c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 016/120] fix: pop and shift of an empty list

---
 core/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/table.c b/core/table.c
index e776af4..41d5440 100644
--- a/core/table.c
+++ b/core/table.c
@@ -561,6 +561,7 @@ PN potion_tuple_string(Potion *P, PN cl, PN self) {
 PN potion_tuple_pop(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[t->len - 1];
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
@@ -614,6 +615,7 @@ PN potion_tuple_unshift(Potion *P, PN cl, PN self, PN value) {
 PN potion_tuple_shift(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (t->len < 1) return PN_NIL;
   PN obj = t->set[0];
   PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len);
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
-- 
2.43.0


From 1dac063b9e0244a6fc4a4945bac29b1096004984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 017/120] fix: list at, put and slice with an index out of the
 bounds of the list

---
 core/table.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/table.c b/core/table.c
index 41d5440..6f9932e 100644
--- a/core/table.c
+++ b/core/table.c
@@ -367,7 +367,7 @@ PN potion_tuple_at(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(self);
   long i = PN_INT(index), len = PN_TUPLE_LEN(self);
   if (i < 0) i += len;
-  if (i >= len) return PN_NIL;
+  if (i < 0 || i >= len) return PN_NIL;
   return PN_TUPLE_AT(self, i);
 }
 
@@ -411,6 +411,7 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     DBG_CHECK_INT(start);
     i = PN_INT(start);
     if (i < 0) i = t1->len + i;
+    if (i < 0) return PN_NIL;
   }
   if (!end)
     l = t1->len - i;
@@ -418,13 +419,14 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     long e = PN_INT(end);
     DBG_CHECK_INT(end);
     if (e < 0) e = t1->len + e;
+    if (e < 0) return PN_NIL;
     l = e - i;
     if (l < 0) { i = e; l = labs(l) + 1; }
     else l++;
-    if (l > t1->len) l = t1->len; // permit overshoots
+    if (l > (long)t1->len - i) l = (long)t1->len - i; // permit overshoots
   }
   DBG_vt("; splice(i=%ld,len=%ld)\n", i, l);
-  if (!l || i >= t1->len) return PN_NIL;
+  if (l <= 0 || i >= (long)t1->len) return PN_NIL;
   NEW_TUPLE(t2, l);
   PN_MEMCPY_N(&t2->set[0], &t1->set[i], PN, l);
   t2->alloc = l;
@@ -580,7 +582,7 @@ PN potion_tuple_put(Potion *P, PN cl, PN self, PN key, PN value) {
     DBG_CHECK_TUPLE(self);
     long i = PN_INT(key), len = PN_TUPLE_LEN(self);
     if (i < 0) i += len;
-    if (i < len) {
+    if (i >= 0 && i < len) {
       PN_TUPLE_AT(self, i) = value;
       PN_TOUCH(self);
       return self;
-- 
2.43.0


From 61b1403777199af2657cc3718ff5f72b25d3b80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 018/120] fix: remove and delete of an index out of the bounds
 of the list

---
 core/table.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/table.c b/core/table.c
index 6f9932e..443606c 100644
--- a/core/table.c
+++ b/core/table.c
@@ -673,12 +673,14 @@ PN potion_tuple_remove(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
+    long i = PN_INT(index), len = t->len;
     PN data = potion_tuple_clone(P, cl, self);
     t = PN_GET_TUPLE(data);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    if (i < 0) i += len;
+    if (i >= 0 && i < len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, len - i - 1);
+      t->len--;
+    }
     //((struct PNFwd *)data)->ptr = (PN)t;
     PN_TOUCH(data);
     return data;
@@ -694,10 +696,12 @@ PN potion_tuple_delete(Potion *P, PN cl, PN self, PN index) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   if (t->len) {
-    PN_SIZE i = PN_INT(index);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
-    t->len--;
+    long i = PN_INT(index), len = t->len;
+    if (i < 0) i += len;
+    if (i >= 0 && i < len) {
+      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, len - i - 1);
+      t->len--;
+    }
     PN_TOUCH(self);
   }
   return self;
-- 
2.43.0


From eeedc5928d6d2e005f83118507bd6feb02a0b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 019/120] fix: sort empty lists, negative numbers, by uniq and
 in the order of the block

---
 core/table.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/table.c b/core/table.c
index 443606c..3636d30 100644
--- a/core/table.c
+++ b/core/table.c
@@ -768,24 +768,24 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     // inclusively, by moving all elements less than pivot before
     // the pivot, and the equal or greater elements after it.
     if (cmp == PN_NIL) { // default: sort by uniq, not value
-      for (i=from; i < to-1; i++) { // from ≤ i < to
+      for (i=from; i < to; i++) { // from ≤ i < to
 	if (PN_UNIQ(GET(i)) <= PN_UNIQ(pivot)) { SWAP(i, index); index++; }
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
       for (i=from; i < to; i++) {
-	if (GET(i) <= pivot) {
+	if ((long)GET(i) <= (long)pivot) {
 	  SWAP(i, index); index++;
 	}
       }
     } else if (cmp == PN_FALSE) { // sort by descending number
       for (i=from; i < to; i++) {
-	if (GET(i) > pivot) { SWAP(i, index); index++;
+	if ((long)GET(i) > (long)pivot) { SWAP(i, index); index++;
 	}
       }
     } else {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cmp, P->lobby, GET(i), pivot)) > 0)
+	if (PN_INT(c->method(P, cmp, P->lobby, GET(i), pivot)) < 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -818,7 +818,8 @@ static PN potion_tuple_sort(Potion *P, PN cl,
   PN_SIZE len = PN_TUPLE_LEN(self);
   if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
-  potion_sort_internal(P, cl, data, 0, len-1, cmp);
+  if (len > 1)
+    potion_sort_internal(P, cl, data, 0, len-1, cmp);
   return data;
 }
  
@@ -859,7 +860,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_TRUE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) > GET(j)) {
+	while (j > 0 && (long)GET(j-1) > (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
@@ -868,7 +869,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_FALSE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) < GET(j)) {
+	while (j > 0 && (long)GET(j-1) < (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From 505dbb00e09cced3f32e003bbcda66bd33813261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 020/120] fix: cmp of mixed numbers, lists, booleans and nil

---
 core/number.c    | 25 ++++++++-----------------
 core/primitive.c |  6 +++---
 core/table.c     | 14 +++++++-------
 3 files changed, 18 insertions(+), 27 deletions(-)

diff --git a/core/number.c b/core/number.c
index 9a1e8fd..03f2062 100644
--- a/core/number.c
+++ b/core/number.c
@@ -416,15 +416,13 @@ static PN potion_dbl_abs(Potion *P, PN cl, PN self) {
  \return PNInteger -1, 0 or 1
  \sa potion_tuple_sort. */
 static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
-  if (PN_IS_DBL(self)) {
-    double d1 = ((struct PNDouble *)self)->value;
-    double d2 = PN_DBL(potion_send(PN_number, n));
-    return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
-  } else {
-    long n1, n2;
-    n1 = PN_INT(self);
-    n2 = PN_IS_INT(n) ? PN_INT(n) : PN_INT(potion_send(PN_number, n));
+  if (!PN_IS_NUM(n)) n = potion_send(n, PN_number);
+  if (PN_IS_INT(self) && PN_IS_INT(n)) {
+    long n1 = PN_INT(self), n2 = PN_INT(n);
     return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
+  } else {
+    double d1 = PN_DBL(self), d2 = PN_DBL(n);
+    return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
   }
 }
 /**\memberof PNDouble
@@ -435,11 +433,8 @@ static PN potion_num_cmp(Potion *P, PN cl, PN self, PN n) {
  \param n PN number compared to
  \return PNInteger -1, 0 or 1 */
 static PN potion_dbl_cmp(Potion *P, PN cl, PN self, PN n) {
-  double d1 = ((struct PNDouble *)self)->value;
-  double d2 = PN_DBL(n);
   DBG_CHECK_DBL(self);
-  PN_CHECK_NUM(n);
-  return d1 < d2 ? PN_NUM(-1) : d1 == d2 ? PN_ZERO : PN_NUM(1);
+  return potion_num_cmp(P, cl, self, n);
 }
 /**\memberof PNInteger
   "cmp" a number to a value. casts argument n to a number
@@ -450,12 +445,8 @@ static PN potion_dbl_cmp(Potion *P, PN cl, PN self, PN n) {
  \return PNInteger -1, 0 or 1
  \sa potion_tuple_sort. */
 static PN potion_int_cmp(Potion *P, PN cl, PN self, PN n) {
-  long n1, n2;
   DBG_CHECK_INT(self);
-  DBG_CHECK_INT(n);
-  n1 = PN_INT(self);
-  n2 = PN_INT(n);
-  return n1 < n2 ? PN_NUM(-1) : n1 == n2 ? PN_ZERO : PN_NUM(1);
+  return potion_num_cmp(P, cl, self, n);
 }
 
 void potion_num_init(Potion *P) {
diff --git a/core/primitive.c b/core/primitive.c
index ca4db7f..18f18ad 100644
--- a/core/primitive.c
+++ b/core/primitive.c
@@ -35,7 +35,7 @@ PN potion_any_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TNIL:
-    return 0;
+    return PN_ZERO;
   case PN_TNUMBER:
     return potion_send(PN_ZERO, PN_cmp, value);
   case PN_TBOOLEAN:
@@ -51,13 +51,13 @@ static PN potion_nil_cmp(Potion *P, PN cl, PN self, PN value) {
 static PN potion_bool_cmp(Potion *P, PN cl, PN self, PN value) {
   switch (potion_type(value)) {
   case PN_TBOOLEAN:
-    return self < value ? -1 : self == value ? 0 : 1;
+    return PN_NUM(self < value ? -1 : self == value ? 0 : 1);
   case PN_TNUMBER:
     return potion_send(PN_NUM(PN_TEST(self)), PN_cmp, value);
   case PN_TNIL:
   case PN_TSTRING: // false < ".." < true
   default:
-    return value == PN_FALSE ? -1 : 1; //false < any < true
+    return PN_NUM(self == PN_FALSE ? -1 : 1); //false < any < true
   }
 }
 
diff --git a/core/table.c b/core/table.c
index 3636d30..1485ebd 100644
--- a/core/table.c
+++ b/core/table.c
@@ -893,9 +893,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
   DBG_CHECK_TYPE(self,PN_TTUPLE);
   switch (potion_type(value)) {
   case PN_TBOOLEAN: // false < () < true
-    return value == PN_FALSE ? -1 : 1;
+    return PN_NUM(value == PN_FALSE ? 1 : -1);
   case PN_TNIL:
-    return -1; //nil < () < (...)
+    return PN_NUM(1); //nil < () < (...)
   case PN_TTUPLE: // recurse
     if(PN_TUPLE_LEN(self) && PN_TUPLE_LEN(value)) {
       PN cmp;
@@ -905,8 +905,8 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
 	{
 	  PN t1 = potion_tuple_clone(P,cl,self);
 	  PN t2 = potion_tuple_clone(P,cl,value);
-	  potion_tuple_pop(P,cl,t1);
-	  potion_tuple_pop(P,cl,t2);
+	  potion_tuple_shift(P,cl,t1);
+	  potion_tuple_shift(P,cl,t2);
 	  return potion_send(t1, PN_cmp, t2);
 	}
       else {
@@ -914,9 +914,9 @@ PN potion_tuple_cmp(Potion *P, PN cl, PN self, PN value) {
       }
     }
     else {
-      if (PN_TUPLE_LEN(value)) return -1;
-      else if (PN_TUPLE_LEN(self)) return 1;
-      else return 0;
+      if (PN_TUPLE_LEN(value)) return PN_NUM(-1);
+      else if (PN_TUPLE_LEN(self)) return PN_NUM(1);
+      else return PN_ZERO;
     }
   default:
     potion_fatal("Invalid tuple cmp type");
-- 
2.43.0


From 12ca446863eee55336afeab97c759678fd9c03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 021/120] fix: unicode escapes at the limits of the utf-8
 encodings, U+C0 and U+C1

---
 core/syntax.y | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index c77bc0f..f2a467d 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -284,13 +284,11 @@ escu        = esc 'u' < hexl hexl hexl hexl > {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) {  // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
   } else { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
@@ -304,18 +302,16 @@ escU       = esc 'U' '{' < hexl+ > '}' {
   unsigned long code = PN_ATOI(yytext, yyleng, 16);
   if (code < 0x80) {          // 0xxxxxxx
     utfc[nbuf++] = code;
-  } else if (code < 0x7ff) {  // 110xxxxx 10xxxxxx
-    if (code == 0xC0 || code == 0xC1)
-      YY_ERROR("Invalid utf-8 unicode character (U+C0,U+C1)");
+  } else if (code <= 0x7ff) {  // 110xxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 6) | 0xc0;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
-    if (code >= 0xD800 && code < 0xDFFF) // utf-16 surrogate halves RFC 3629
+  } else if (code <= 0xffff) { // 1110xxxx 10xxxxxx 10xxxxxx
+    if (code >= 0xD800 && code <= 0xDFFF) // utf-16 surrogate halves RFC 3629
       YY_ERROR("Invalid utf-8 unicode character (U+D800-U+DFFF)");
     utfc[nbuf++] = (code >> 12) | 0xe0;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
     utfc[nbuf++] = (code & 0x3f) | 0x80;
-  } else if (code < 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
+  } else if (code <= 0x10ffff) { // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
     utfc[nbuf++] = (code >> 18) | 0xf0;
     utfc[nbuf++] = ((code >> 12) & 0x3f) | 0x80;
     utfc[nbuf++] = ((code >> 6) & 0x3f) | 0x80;
-- 
2.43.0


From 52eb4d6c067c5f4a7b03783f382256892346b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 022/120] fix: string index past the last character

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index c246015..3ed692a 100644
--- a/core/string.c
+++ b/core/string.c
@@ -164,6 +164,7 @@ static size_t potion_utf8char_offset(const char *s, size_t index) {
 /// returns byte position of next utf8 char after s[offset]
 static size_t potion_utf8char_nextchar(const char *s, size_t offset) {
   size_t i;
+  if (!s[offset]) return offset;
   for (i = offset+1; s[i]; i++)
     if ((s[i] & 0xC0) != 0x80)
       return i;
-- 
2.43.0


From 60788b34c75608d858b5c40e175e3ed7b5557182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 023/120] fix: string slice with end<start or negative indices

---
 core/string.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/string.c b/core/string.c
index 3ed692a..4694191 100644
--- a/core/string.c
+++ b/core/string.c
@@ -250,20 +250,17 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
   else {
     DBG_CHECK_TYPE(start, PN_TNUMBER);
   }
-  size_t startoffset = potion_utf8char_offset(str,
-                         PN_INT(potion_str_slice_index(start, len, 0)));
+  long s = PN_INT(potion_str_slice_index(start, len, 0)), e;
   if (!end)
     end = PN_NUM(len);
   else {
     DBG_CHECK_INT(end);
   }
-  if (end < start) {
-    endoffset = potion_utf8char_offset(str,
-                  PN_INT(potion_str_slice_index(start+end, len, len)));
-  } else {
-    endoffset = potion_utf8char_offset(str,
-                  PN_INT(potion_str_slice_index(end, len, len)));
-  }
+  e = PN_INT(potion_str_slice_index(end, len, len));
+  if (e < s) // end<start: the number of chars
+    e = PN_INT(end) < 0 ? s : PN_INT(potion_str_slice_index(PN_NUM(s + PN_INT(end)), len, len));
+  size_t startoffset = potion_utf8char_offset(str, s);
+  endoffset = potion_utf8char_offset(str, e);
   return potion_str2(P, str + startoffset, endoffset - startoffset);
 }
 
-- 
2.43.0


From 1a9c76d408ad277752a879c1987ce514313ac8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 024/120] fix: ord of multibyte characters followed by others
 and of negative indices

---
 core/string.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 4694191..e6e3e8f 100644
--- a/core/string.c
+++ b/core/string.c
@@ -207,7 +207,9 @@ static const uint8_t utf8d[] = {
 static unsigned long potion_utf8char_decode(const char *s) {
   unsigned char data, byte;
   unsigned long unic = 0;
-  while ((byte = *s++)) {
+  int i;
+  for (i = 0; (byte = s[i]); i++) {
+    if (i && (byte & 0xC0) != 0x80) break; // only the first char
     if (byte >= 0x80) {
       data = utf8d[ byte - 0x80 ];
       byte = (byte ^ (uint8_t)(data << 4));
@@ -312,6 +314,8 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
 ///\return PNInteger
 static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
   const char *str = PN_STR_PTR(potion_fwd(self));
+  if (PN_INT(index) < 0)
+    index = potion_str_slice_index(index, potion_cp_strlen_utf8(str), 0);
   if (PN_STR_LEN(self) > 255) goto slow;
   else {
     long len = potion_cp_strlen_utf8(str);
-- 
2.43.0


From 3b518bbe640798ec49a7c077f1f8ae4372d6df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 025/120] fix: bytes clone copies the bytes

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index e6e3e8f..b76537b 100644
--- a/core/string.c
+++ b/core/string.c
@@ -357,6 +357,7 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
   vPN(Bytes) s = PN_ALLOC_N(PN_TBYTES, struct PNBytes, b->siz);
   s->siz = b->siz;
   s->len = b->len;
+  PN_MEMCPY_N(s->chars, b->chars, char, b->siz);
   return (PN)s;
 }
 
-- 
2.43.0


From 4d3c5bf987a8413902ffb5314e19b5bd9311dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 026/120] fix: string of large doubles overflowed its buffer

---
 core/number.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index 03f2062..b9046b5 100644
--- a/core/number.c
+++ b/core/number.c
@@ -261,7 +261,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[352]; // DBL_MAX has 309 digits before the point
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -272,7 +272,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[352];
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-- 
2.43.0


From 85ecb1f275cd1115ad0c57911cd5c9803b23cf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 027/120] fix: abs of the smallest integer is a double

---
 core/number.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/number.c b/core/number.c
index b9046b5..36a453d 100644
--- a/core/number.c
+++ b/core/number.c
@@ -387,6 +387,8 @@ static PN potion_num_abs(Potion *P, PN cl, PN self) {
     else
       return self;
   }
+  if (self == PN_NUM(PN_INT(LONG_MIN))) // its absolute value is not an integer
+    return potion_double(P, fabs(PN_DBL(self)));
   return PN_NUM(labs(PN_INT(self)));
 }
 /**\memberof PNInteger
@@ -394,6 +396,8 @@ static PN potion_num_abs(Potion *P, PN cl, PN self) {
  \return PNInteger */
 static PN potion_int_abs(Potion *P, PN cl, PN self) {
   PN_CHECK_INT(self);
+  if (self == PN_NUM(PN_INT(LONG_MIN))) // its absolute value is not an integer
+    return potion_double(P, fabs(PN_DBL(self)));
   return PN_NUM(labs(PN_INT(self)));
 }
 /**\memberof PNDouble
-- 
2.43.0


From 2f4e0754654d40723b44eab2607f645742fb2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 028/120] fix: else after an if whose body used the register of
 the condition

---
 core/compile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 787668d..f4e8fa4 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -614,6 +614,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing if body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        // the body may have used breg, a following elsif or else tests it
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE);
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_elsif) {
         int jmp1 = PN_OP_LEN(f->asmb), jmp2; breg++;
@@ -626,6 +628,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing elsif body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE);
         PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
         PN_OP_AT(f->asmb, jmp2).b = (PN_OP_LEN(f->asmb) - jmp2) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_else) {
-- 
2.43.0


From f47cacb2c9f2d554d6785d6f7e06d4237c1b0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 029/120] fix: values in callee-saved registers were lost in a
 collection

---
 core/gc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index d610985..defdf45 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -266,6 +266,10 @@ static int potion_gc_major(Potion *P, int siz) {
 void potion_garbagecollect(Potion *P, int sz, int full) {
   struct PNMemory *M = P->mem;
   if (M->collecting) return;
+#if defined(__GNUC__)
+  // spill callee-saved registers to this frame, and reload what moved from there
+  __builtin_unwind_init();
+#endif
 #ifdef DEBUG
   double time = mytime();
 #endif
-- 
2.43.0


From 9d82f6154db1eb302a17e1fdccca5bd6f6587068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 030/120] fix: minor collection un-interned strings held by
 heap objects only

---
 core/gc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index defdf45..5247382 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -160,8 +160,6 @@ static int potion_gc_minor(Potion *P, int sz) {
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
 
-  GC_MINOR_STRINGS();
-
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
@@ -174,6 +172,8 @@ static int potion_gc_minor(Potion *P, int sz) {
     scanptr = potion_mark_minor(P, scanptr);
   scanptr = 0;
 
+  GC_MINOR_STRINGS(); // the strings not reached until now are dead
+
   sz += 2 * POTION_PAGESIZE;
   sz = max(sz, potion_birth_suggest(sz, M->old_lo, M->old_cur));
 
-- 
2.43.0


From 51adfdc3bdf0cfe48562d4c206abb62ee72dce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 031/120] fix: the fields of the interpreter were no roots of a
 minor collection

---
 core/gc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/gc.c b/core/gc.c
index 5247382..b3c0c38 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -159,6 +159,7 @@ static int potion_gc_minor(Potion *P, int sz) {
 	M->old_lo, M->old_hi, (long)(M->old_hi - M->old_lo),
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
+  potion_mark_minor(P, (const struct PNObject *)P); // its fields are not touched on assignment
 
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
-- 
2.43.0


From 57b4126eaeb21500d1aefaf8512b275b04414d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 032/120] fix: minor collection skipped old objects remembered
 by their forwarder

---
 core/gc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index b3c0c38..0b2af90 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -164,8 +164,11 @@ static int potion_gc_minor(Potion *P, int sz) {
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
-    if (PN_IS_PTR(v))
+    if (PN_IS_PTR(v)) {
       potion_mark_minor(P, (const struct PNObject *)v);
+      if (potion_fwd(v) != v) // what it grew into may be old as well
+        potion_mark_minor(P, (const struct PNObject *)potion_fwd(v));
+    }
   }
   storead = 0;
 
-- 
2.43.0


From 3e2352d3d3071469ce0e48d3fccdcb2c0a523abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 033/120] fix: string methods read from a string that had been
 moved by their allocation

---
 core/string.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/core/string.c b/core/string.c
index b76537b..585d71d 100644
--- a/core/string.c
+++ b/core/string.c
@@ -203,6 +203,23 @@ static const uint8_t utf8d[] = {
   1,1,1,4,1,1,1,1,1,1,1,1,1,1,1,1,0,1,1,1,8,7,6,4,5,4,3,2,1,1,1,1,
 };
 
+/// the part of a string from byte offset on. The allocation may move self.
+static PN potion_str_part(Potion *P, PN self, size_t offset, size_t len) {
+  PN exist;
+  vPN(String) str = (struct PNString *)self;
+  vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  s->len = (PN_SIZE)len;
+  PN_MEMCPY_N(s->chars, str->chars + offset, char, len);
+  s->chars[len] = '\0';
+
+  exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
+}
+
 /// decode the utf8 codepoint at s, i.e. ord
 static unsigned long potion_utf8char_decode(const char *s) {
   unsigned char data, byte;
@@ -263,13 +280,16 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     e = PN_INT(end) < 0 ? s : PN_INT(potion_str_slice_index(PN_NUM(s + PN_INT(end)), len, len));
   size_t startoffset = potion_utf8char_offset(str, s);
   endoffset = potion_utf8char_offset(str, e);
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_part(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
 /// "bytes" method. Convert PNString to PNBytes
 static PN potion_str_bytes(Potion *P, PN cl, PN self) {
-  return potion_byte_str2(P, PN_STR_PTR(self), PN_STR_LEN(self));
+  vPN(String) str = (struct PNString *)self; // may move
+  vPN(Bytes) s = (struct PNBytes *)potion_bytes(P, str->len);
+  PN_MEMCPY_N(s->chars, str->chars, char, str->len + 1);
+  return (PN)s;
 }
 
 ///\memberof PNString
@@ -304,7 +324,7 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
   }
   startoffset = potion_utf8char_offset(str, start);
   endoffset = potion_utf8char_nextchar(str, startoffset);
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_part(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
@@ -394,7 +414,7 @@ void potion_bytes_obj_string(Potion *P, PN bytes, PN obj) {
 ///\return PNBytes
 PN potion_bytes_append(Potion *P, PN cl, PN self, PN str) {
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(self);
-  PN fstr = potion_fwd(str);
+  volatile PN fstr = potion_fwd(str); // may move
   PN_SIZE len = PN_STR_LEN(fstr);
 
   if (s->len + len + 1 > s->siz) {
@@ -424,9 +444,10 @@ PN potion_bytes_string(Potion *P, PN cl, PN self) {
   PN exist = potion_lookup_str(P, PN_STR_PTR(self = potion_fwd(self)));
   if (exist == PN_NIL) {
     PN_SIZE len = PN_STR_LEN(self);
+    vPN(Bytes) b = (struct PNBytes *)self; // may move
     vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
     s->len = len;
-    PN_MEMCPY_N(s->chars, PN_STR_PTR(self), char, len + 1);
+    PN_MEMCPY_N(s->chars, b->chars, char, len + 1);
     potion_add_str(P, (PN)s);
     exist = (PN)s;
   }
@@ -448,11 +469,11 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\param block=&
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
-  self = potion_fwd(self);
-  char *s = PN_STR_PTR(self);
+  vPN(Bytes) s = (struct PNBytes *)potion_fwd(self); // may move
   int i;
-  for (i = 0; i < PN_STR_LEN(self); i++) {
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &s[i], 1));
+  for (i = 0; i < PN_STR_LEN(potion_fwd((PN)s)); i++) {
+    char c = PN_STR_PTR((PN)s)[i];
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
   }
   return PN_NIL;
 }
-- 
2.43.0


From 66c872a093469c51460a71c27d2b17f20c870c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 034/120] fix: formatting read arguments that had been moved by
 its allocation

---
 core/string.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/string.c b/core/string.c
index 585d71d..151736d 100644
--- a/core/string.c
+++ b/core/string.c
@@ -81,16 +81,20 @@ PN potion_strcat(Potion *P, char *str, char *str2) {
 PN potion_str_format(Potion *P, const char *format, ...) {
   vPN(String) s;
   PN_SIZE len;
+  char *buf;
   va_list args;
 
   va_start(args, format);
   len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
   va_end(args);
-  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  if (!(buf = malloc(len + 1))) potion_allocation_error();
 
-  va_start(args, format);
-  vsnprintf(s->chars, len + 1, format, args);
+  va_start(args, format); // the allocation may move the args
+  vsnprintf(buf, len + 1, format, args);
   va_end(args);
+  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  PN_MEMCPY_N(s->chars, buf, char, len + 1);
+  free(buf);
   s->len = len;
   return (PN)s;
 }
@@ -383,12 +387,18 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
 
 PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
   PN_SIZE len;
+  char *buf;
   va_list args;
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(bytes);
 
   va_start(args, format);
   len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
   va_end(args);
+  if (!(buf = malloc(len + 1))) potion_allocation_error();
+
+  va_start(args, format); // the allocation may move the args
+  vsnprintf(buf, len + 1, format, args);
+  va_end(args);
 
   if (s->len + len + 1 > s->siz) {
     size_t siz = BYTES_ALIGN(((s->len + len) * BYTES_FACTOR) + 1);
@@ -396,10 +406,8 @@ PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
     s->siz = (PN_SIZE)siz;
   }
 
-  va_start(args, format);
-  vsnprintf(s->chars + s->len, len + 1, format, args);
-  va_end(args);
-
+  PN_MEMCPY_N(s->chars + s->len, buf, char, len + 1);
+  free(buf);
   s->len += len;
   return len;
 }
-- 
2.43.0


From b36f31048730d28079e35621904652ce8e2f552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 035/120] fix: map lost results of the block in a minor
 collection

---
 core/table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index 1485ebd..ac892db 100644
--- a/core/table.c
+++ b/core/table.c
@@ -111,8 +111,8 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      PN_TOUCH(t2); // old already, when the block ran two collections
     }
-  PN_TOUCH(t2);
   return (PN)t2;
 }
 
@@ -462,6 +462,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
+    PN_TOUCH(t); // old already, when the block ran two collections
   });
   return (PN)t;
 }
-- 
2.43.0


From 91ec02c2dd46c5b95c77dec4bcf9e592de855647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:45 +0000
Subject: [PATCH 036/120] fix: sort used a list that had been moved by the
 compare function

---
 core/table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index ac892db..b2ed02f 100644
--- a/core/table.c
+++ b/core/table.c
@@ -758,7 +758,7 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
   if (PN_TTUPLE != PN_TYPE(self)) potion_fatal("Invalid type");
 #endif
   if (from < to) {
-    struct PNTuple *t = PN_GET_TUPLE(self);
+    vPN(Tuple) t = PN_GET_TUPLE(self); // cmp may move it
     // which pivot? first is worst case if already sorted.
     // random, last, middle or best: median-of-3.
     PN_SIZE i, index = from + (to - from)/2;
@@ -833,7 +833,7 @@ static PN potion_tuple_sort(Potion *P, PN cl,
    \return the same, but sorted PNTuple
    \see potion_tuple_sort for the safe variant and cmp variants. */
 PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
-  struct PNTuple *t = PN_GET_TUPLE(self);
+  vPN(Tuple) t = PN_GET_TUPLE(self); // cmp may move it
   DBG_CHECK_TYPE(t,PN_TTUPLE);
   unsigned long i, j;
   vPN(Closure) c;
-- 
2.43.0


From f536914ea706df7eb313e2c133f26b99b9409d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 037/120] fix: a collection during the creation of a class or
 method lost its parts

---
 core/objmodel.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index a25e7cd..48f81cb 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -191,14 +191,18 @@ PN potion_no_call(Potion *P, PN cl, PN self) {
 }
 
 void potion_add_metaclass(Potion *P, vPN(Vtable) vt) {
-  struct PNVtable *meta = vt->meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vPN(Vtable) meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vt->meta = meta;
+  PN_TOUCH(vt); // each allocation may collect
   meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
   PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
   PN_FLEX_SIZE(P->vts)++;
   meta->name = PN_NIL;
   meta->parent = PN_TVTABLE;
   meta->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(meta);
   meta->ctor = PN_FUNC(potion_no_call, 0);
+  PN_TOUCH(meta);
   PN_VTABLE(meta->type) = (PN)meta;
   meta->meta = NULL;
   PN_TOUCH(P->vts);
@@ -210,8 +214,11 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
   vt->name = PN_NIL;
   vt->parent = self ? ((struct PNVtable *)self)->type : 0;
   vt->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(vt); // each allocation may collect
   vt->ctor = PN_FUNC(potion_no_call, 0);
+  PN_TOUCH(vt);
   PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(P->vts);
   potion_add_metaclass(P, vt);
   return (PN)vt;
 }
@@ -219,6 +226,7 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
 PN potion_type_new2(Potion *P, PNType t, PN self, PN name) {
   vPN(Vtable) vt = (vPN(Vtable))potion_type_new(P, t, self);
   vt->name = name;
+  PN_TOUCH(vt);
   return (PN)vt;
 }
 /// sets the default call method of the PNVtable
@@ -266,6 +274,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   if (!PN_IS_CLOSURE(cl))
     cl = ((struct PNVtable *)parent)->ctor;
   ((struct PNVtable *)self)->ctor = cl;
+  PN_TOUCH(self);
 
   PN_TOUCH(P->vts);
   return self;
@@ -299,6 +308,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
+  PN_TOUCH(self);
   return self;
 }
 
@@ -367,6 +377,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
     PN_CLOSURE(method)->name = key;
 
   kh_val(PN, vt->methods, k) = method;
+  PN_TOUCH(vt->methods);
   PN_TOUCH(self);
 
 #ifdef JIT_MCACHE
-- 
2.43.0


From b201334395d219231beca80610d8cdde385b7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 038/120] fix: names of functions and the parts of errors were
 not kept by collections

---
 core/gc.c       | 21 +++++++++++++++++++++
 core/objmodel.c |  2 ++
 2 files changed, 23 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 0b2af90..3b5b407 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -376,6 +376,9 @@ PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
     case PN_TTABLE:
       sz = sizeof(struct PNTable) + kh_mem(PN, ptr);
     break;
+    case PN_TERROR:
+      sz = sizeof(struct PNError);
+    break;
     case PN_TLICK:
       sz = sizeof(struct PNLick);
     break;
@@ -444,6 +447,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MINOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MINOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MINOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -500,10 +504,18 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MINOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MINOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->attr);
@@ -550,6 +562,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -617,10 +630,18 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MAJOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MAJOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
     break;
+    case PN_TERROR:
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->line);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->chr);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TLICK:
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->attr);
diff --git a/core/objmodel.c b/core/objmodel.c
index 48f81cb..8a4238d 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -366,6 +366,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
       PN_PROTO(method)->name = key;
+      PN_TOUCH(method);
     }
     else
       cl = potion_closure_new(P, (PN_F)potion_getter_method, PN_NIL, 1);
@@ -375,6 +376,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   }
   else
     PN_CLOSURE(method)->name = key;
+  PN_TOUCH(method);
 
   kh_val(PN, vt->methods, k) = method;
   PN_TOUCH(vt->methods);
-- 
2.43.0


From 85be6508a0247f92a1ce973bb590a0378c35243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 039/120] fix: variables and upvalues of closures had no write
 barrier in minor collections

---
 core/vm-x86.c | 66 +++++++++++++++++++++++++++++++--------------------
 core/vm.c     | 11 +++++----
 2 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 12002b1..929cdc5 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -519,22 +519,34 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 
 // if (PN_IS_REF(locals[op.b])) PN_DEREF(locals[op.b])  = reg[op.a];
 // else locals[op.b] = reg[op.a];
-void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs) {
+// a local shared with closures is set in its ref, which may be old already
+PN potion_f_setlocal(Potion *P, PN local, PN val) {
+  if (!PN_IS_REF(local)) return val;
+  local = potion_fwd(local);
+  PN_DEREF(local) = val;
+  PN_TOUCH(local);
+  return local;
+}
+
+void potion_f_setup(Potion *P, PN cl, PN i, PN val) {
+  PN_CLOSURE(cl)->data[i] = val;
+  PN_TOUCH(cl);
+}
+
+void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PN_HAS_UPVALS(up);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// mov %rsp(A) %rdx
   if (up) { // upvals need to be deref'd
-    X86_MOV_RBP(0x8B, regs + op.b); 			// mov %rsp(B) %rax
-    ASMS("\xF6\xC0\x01" 				// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
-    ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 			// jz a
-    ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
-    ASM(0x75); ASM(X86C(3,4, 0,0)); 			// jnz a
-    X86_PRE(); ASM(0x89); ASM(0x50);
-               ASM(sizeof(struct PNObject)); 		// mov N(%rax) %rax
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(regs + op.b, 1);
+    X86_ARGO(op.a, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_setlocal);	// mov &potion_f_setlocal, %rax
+    ASM(0xFF); ASM(0xD0);				// callq %rax
+    X86_MOV_RBP(0x89, regs + op.b);			// mov %rax %rsp(B)
+  } else {
+    X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a)	// mov %rsp(A) %rdx
+    X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// mov %rdx %rsp(B)
   }
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// a: mov %rdx %rsp(B)
 }
 
 // reg[op.a] = PN_DEREF(upvals[op.b])
@@ -546,12 +558,13 @@ void potion_x86_getupval(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 }
 
 // PN_DEREF(upvals[op.b]) = reg[op.a]
-// TODO: place the upval in the write barrier (or have stack scanning handle weak refs)
-void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs) {
+void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 		// mov -A(%rbp) %edx
-  X86_MOV_RBP(0x8B, lregs + op.b); 				// mov %rsp(B) %rax
-  X86_PRE(); ASM(0x89); ASM(0x50); ASM(sizeof(struct PNObject));// mov %rdx %rax.data
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(lregs + op.b, 1);
+  X86_ARGO(op.a, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_f_setlocal);		// mov &potion_f_setlocal, %rax
+  ASM(0xFF); ASM(0xD0);						// callq %rax
 }
 
 void potion_x86_global(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
@@ -1076,12 +1089,14 @@ void potion_x86_return(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 }
 
 PN potion_f_protos(Potion *P, PN cl, PN i) {
-  PN p = PN_PROTO(PN_CLOSURE(cl)->data[0])->protos;
+  vPN(Tuple) p = PN_GET_TUPLE(PN_PROTO(PN_CLOSURE(cl)->data[0])->protos);
   PN proto = PN_TUPLE_AT(p, i);
   vPN(Closure) c = (struct PNClosure *)potion_closure_new(P, NULL,
     PN_PROTO(proto)->sig, PN_TUPLE_LEN(PN_PROTO(proto)->upvals) + 1);
+  proto = PN_TUPLE_AT(p, i); // may have been moved
   c->method = PN_PROTO(proto)->jit;
   c->data[0] = proto;
+  PN_TOUCH(c);
   return (PN)c;
 }
 
@@ -1098,26 +1113,25 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
   X86_MOV_RBP(0x89, op.a);
   X86_MOVQ(start - 3, P);
   PN_TUPLE_COUNT(PN_PROTO(proto)->upvals, i, {
-    int n;
     (*pos)++;
     PN_OP opp = PN_OP_AT(f->asmb, *pos);
     if (opp.code == OP_GETUPVAL) {
-      X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, lregs + opp.b) // mov upval %rdx
+      X86_ARGO(lregs + opp.b, 3);
     } else if (opp.code == OP_GETLOCAL) {
       X86_ARGO(start - 3, 0);
       X86_ARGO(regs + opp.b, 1);
       X86_PRE(); ASM(0xB8); ASMN(potion_ref); 	// mov &potion_ref %rax
       ASM(0xFF); ASM(0xD0);			// callq %rax
-      X86_PRE(); ASM(0x89); ASM(0xC2);		// mov %rax %rdx
       X86_MOV_RBP(0x89, regs + opp.b);		// mov %rax local
+      X86_ARGO(regs + opp.b, 3);
     } else {
       fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
     }
-    X86_MOV_RBP(0x8B, opp.a);			// mov cl %rax
-    X86_PRE(); ASM(0x89);			// mov %rdx N(%rax)
-    n = sizeof(struct PNClosure) + (sizeof(PN) * (i + 1));
-    if (n >= 0x80) { ASM(0x90); ASMI(n); }
-    else { ASM(0x50); ASM(n); }
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(opp.a, 1);
+    X86_ARGO_IMM(i + 1, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_setup);	// mov &potion_f_setup, %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
   });
 }
 
diff --git a/core/vm.c b/core/vm.c
index da94f52..333fd78 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -311,9 +311,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(SELF, (P, f, &asmb, pos, need))   // prepare an object method for calling
 						// R[a+1] := R[b]; R[a] := R[b][RK[c]]
       CASE_OP(GETLOCAL, (P, f, &asmb, pos, regs))// read a local into a register
-      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs))// write a register value into a local
+      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs, need))// write a register value into a local
       CASE_OP(GETUPVAL, (P, f, &asmb, pos, lregs))// read an upvalue (upper scope)
-      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs))// write to an upvalue
+      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs, need))// write to an upvalue
       CASE_OP(GLOBAL, (P, f, &asmb, pos, need))	 // returns a global (for get or set)
       CASE_OP(NEWTUPLE, (P, f, &asmb, pos, need))// create tuple
       CASE_OP(GETTUPLE, (P, f, &asmb, pos, need))// get tuple key (fast and unsafe)
@@ -932,17 +932,20 @@ reentry:
         proto = PN_TUPLE_AT(f->protos, op.b);
         cl = (struct PNClosure *)potion_closure_new(P, (PN_F)potion_vm_proto,
           PN_PROTO(proto)->sig, PN_TUPLE_LEN(PN_PROTO(proto)->upvals) + 1);
-        cl->data[0] = proto;
+        cl->data[0] = proto = PN_TUPLE_AT(f->protos, op.b);
+        PN_TOUCH(cl);
         PN_TUPLE_COUNT(PN_PROTO(proto)->upvals, i, {
           pos++;
           op = PN_OP_AT(f->asmb, pos);
           if (op.code == OP_GETUPVAL) {
             cl->data[i+1] = upvals[op.b];
           } else if (op.code == OP_GETLOCAL) {
-            cl->data[i+1] = locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            locals[op.b] = (PN)potion_ref(P, locals[op.b]); // may move cl
+            cl->data[i+1] = locals[op.b];
           } else {
             fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
           }
+          PN_TOUCH(cl);
         });
         reg[areg] = (PN)cl;
       })
-- 
2.43.0


From 59427b5cf1283784b818f26290eddc41d1325d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 040/120] fix: values of the parser and parts of compiled code
 were lost in a collection

---
 core/compile.c  | 48 ++++++++++++++++++++++++++++++++++--------------
 core/gc.c       |  8 ++++----
 core/internal.h |  3 +++
 core/potion.h   |  1 +
 core/syntax.y   | 17 ++++++++++++++++-
 tools/compile.c |  1 +
 6 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index f4e8fa4..8ec369d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -23,8 +23,12 @@
 #include <dlfcn.h>
 #endif
 
-#define PN_ASM1(ins, _a)     f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0)
-#define PN_ASM2(ins, _a, _b) f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b)
+#define PN_ASM1(ins, _a)     PN_ASM2(ins, _a, 0)
+#define PN_ASM2(ins, _a, _b) ({ \
+    PN asmb__ = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)(_a), (int)(_b)); \
+    f->asmb = asmb__; \
+    PN_TOUCH(f); \
+  })
 
 const struct {
   const char *name;
@@ -226,7 +230,9 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
       if (numup != PN_NONE) { \
         up = f; \
         while (depth--) { \
-          up->upvals = PN_PUSH(up->upvals, name); \
+          PN upv = PN_PUSH(up->upvals, name); \
+          up->upvals = upv; \
+          PN_TOUCH(up); \
 	  DBG_c("upvals %s =>\n", AS_STR(name)); \
           up = (struct PNProto *)up->source; \
         } \
@@ -646,7 +652,11 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 	  vPN(Source) blk = PN_S_(t,2);
           // TODO: a hack to make sure constructors always return self
           if (PN_S(blk, 0) == PN_NIL)
-            blk->a[0] = PN_SRC(PN_AST(CODE, PN_NIL, blk->loc.lineno, blk->line));
+          {
+            PN code = PN_AST(CODE, PN_NIL, blk->loc.lineno, blk->line);
+            blk->a[0] = PN_SRC(code);
+            PN_TOUCH(blk);
+          }
           PN ctor = PN_S(blk, 0);
           PN_PUSH(ctor, PN_AST(EXPR, PN_TUP(PN_AST(MSG,
 	    PN_STRN("self", 4), blk->loc.lineno, 0)),
@@ -1049,26 +1059,36 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   vPN(Proto) f;
   vPN(Source) t = (struct PNSource *)self;
+  PN protos, paths, locals, upvals, values, debugs, asmb;
 
   switch (t->part) {
     case AST_CODE:
     case AST_BLOCK: break;
     default: return PN_NIL; // TODO: error
   }
+  protos = PN_TUP0();
+  paths = PN_TUP0();
+  locals = PN_TUP0();
+  upvals = PN_TUP0();
+  values = PN_TUP0();
+  debugs = PN_TUP0();
+  asmb = (PN)potion_asm_new(P);
   f = PN_ALLOC(PN_TPROTO, struct PNProto);
   f->source = source;
   f->stack = PN_NUM(1);
-  f->protos = PN_TUP0();
-  f->paths = PN_TUP0();
-  f->locals = PN_TUP0();
-  f->upvals = PN_TUP0();
-  f->values = PN_TUP0();
-  f->debugs = PN_TUP0();
-  f->tree = self;
-  DBG_c("-- compile --\n");
-  f->sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
-  f->asmb = (PN)potion_asm_new(P);
+  f->protos = protos;
+  f->paths = paths;
+  f->locals = locals;
+  f->upvals = upvals;
+  f->values = values;
+  f->debugs = debugs;
+  f->tree = (PN)t;
+  f->asmb = asmb;
   f->name = PN_NIL;
+  DBG_c("-- compile --\n");
+  sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
+  f->sig = sig;
+  PN_TOUCH(f);
 
   potion_source_asmb(P, f, NULL, 0, t, 0);
   PN_ASM1(OP_RETURN, 0);
diff --git a/core/gc.c b/core/gc.c
index 3b5b407..5000135 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -57,7 +57,7 @@ PN_SIZE potion_stack_len(Potion *P, _PN **p) {
 #define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || PN_TYPECHECK(PN_VTYPE(v))))
 
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
-static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int type) {
+PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int type) {
   _PN v;
   PN_SIZE i = 0;
   struct PNMemory *M = P->mem;
@@ -108,7 +108,7 @@ PN_SIZE potion_mark_stack(Potion *P, int type) {
 #endif
   DBG_Gv(P,"mark_stack (%p -> %p = %ld, type=%d)\n", start, end, n, type);
   if (n <= 0) return 0;
-  return pngc_mark_array(P, start, n, type);
+  return pngc_mark_array(P, start, n, type) + potion_mark_parser(P, type);
 }
 
 void *pngc_page_new(int *sz, const char exec) {
@@ -466,7 +466,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((Potion *)ptr)->callset);
       GC_MINOR_UPDATE(((Potion *)ptr)->input);
       GC_MINOR_UPDATE(((Potion *)ptr)->source);
-      //GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
       GC_MINOR_UPDATE(((Potion *)ptr)->line);
       GC_MINOR_UPDATE(((Potion *)ptr)->unclosed);
       //GC_MINOR_UPDATE(((Potion *)ptr)->target);
@@ -589,7 +589,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       //DBG_G(P,"   source\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->source);
       //DBG_G(P,"   pbuf\n");
-      //GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
       //DBG_G(P,"   line\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->line);
       //DBG_G(P,"   unclosed\n");
diff --git a/core/internal.h b/core/internal.h
index 9a6e537..474b36e 100644
--- a/core/internal.h
+++ b/core/internal.h
@@ -85,6 +85,9 @@ int potion_munmap(void *, size_t);
 int vasprintf (char **strp, const char *fmt, __VALIST ap);
 int asprintf (char **string_ptr, const char *format, ...);
 #endif
+PN_SIZE potion_mark_parser(Potion *, int);
+PN_SIZE pngc_mark_array(Potion *, register _PN *, register long, int);
+
 #define PN_ALLOC_FUNC(size) potion_mmap(size, 1)
 
 //
diff --git a/core/potion.h b/core/potion.h
index d9b8c66..1e7233d 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -668,6 +668,7 @@ struct Potion_State {
   PN line;                 ///< currently parsed line (for debug)
   PN_SIZE fileno;          ///< currently parsed file
   PN unclosed;             ///< used by parser for named block endings
+  void *parser;            ///< active parser, its values are roots
 };
 
 ///
diff --git a/core/syntax.y b/core/syntax.y
index f2a467d..6346304 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -145,7 +145,7 @@ atom = e:value | e:closure | e:list | e:extern | e:call
 
 call = (n:name { v = PN_NIL; b = PN_NIL; } (v:value | v:list)? (b:block | b:closure)? |
        (v:value | v:list) { n = PN_AST(MSG, PN_NIL); b = PN_NIL; } b:block?)
-         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b) }
+         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b); PN_TOUCH(n) }
 
 extern = "extern" - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
          { $$ = PN_AST2(MSG, PN_extern, PN_PUSH(PN_TUP(n), P->source)) }
@@ -375,11 +375,22 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 
 %%
 
+/** mark the values of the active parser, which are not on the machine stack
+  */
+PN_SIZE potion_mark_parser(Potion *P, int type) {
+  GREG *G = (GREG *)P->parser;
+  if (!G || !G->vals) return 0;
+  return pngc_mark_array(P, (_PN *)&G->ss, 1, type)
+    + pngc_mark_array(P, (_PN *)G->vals, G->val - G->vals, type);
+}
+
 PN potion_parse(Potion *P, PN code, char *filename) {
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = G;
   P->yypos = 0;
   P->input = code;
   P->source = PN_NIL;
@@ -398,6 +409,7 @@ PN potion_parse(Potion *P, PN code, char *filename) {
     fprintf(stderr, "%s", s->chars);
     P->source = PN_NIL;
   }
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   code = P->source;
@@ -439,9 +451,11 @@ PN potion_sig(Potion *P, char *fmt) {
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
 
   GREG *G = YY_NAME(parse_new)(P);
+  void *oldparser = P->parser;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
+  P->parser = G;
   P->yypos = 0;
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
@@ -452,6 +466,7 @@ PN potion_sig(Potion *P, char *fmt) {
 
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
+  P->parser = oldparser;
   YY_NAME(parse_free)(G);
 
   out = P->source;
diff --git a/tools/compile.c b/tools/compile.c
index 9d7e359..c880216 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -821,6 +821,7 @@ YY_LOCAL(void) yyPush(GREG *G, char *text, int count, yythunk *thunk, YY_XTYPE Y
   } else {\n\
     G->val += count;\n\
   }\n\
+  memset((void *)(G->val - count), 0, sizeof(YYSTYPE) * count);\n\
 }\n\
 YY_LOCAL(void) yyPop(GREG *G, char *text, int count, yythunk *thunk, YY_XTYPE YY_XVAR) {\n\
   yyprintfv((stderr, \"yyPop %d\\n\", count));\n\
-- 
2.43.0


From e57640e0b37e7e6dcc54a7af40ee49ad532d06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 041/120] fix: dump and load of bytecode over 8192 bytes or
 with over 255 values, or collected meanwhile

---
 core/compile.c | 153 +++++++++++++++++++++++++++----------------------
 1 file changed, 86 insertions(+), 67 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 8ec369d..ef05369 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1152,43 +1152,47 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
     val; \
   })
 
-#define READ_TUPLE(ptr) \
-  long i = 0, count = READ_U8(ptr); \
-  PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
-  for (; i < count; i++)
-#define READ_VALUES(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = READ_CONST(pn, ptr); \
-    tup; \
-  })
-#define READ_PROTOS(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = potion_proto_load(P, (PN)f, pn, &(ptr)); \
+// counts over 254 follow as PN
+#define READ_TUPLE(pn, ptr, elem) ({ \
+    long i = 0, count = READ_U8(ptr); \
+    if (count == 255) count = READ_PN(pn, ptr); \
+    PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
+    for (i = 0; i < count; i++) PN_TUPLE_AT(tup, i) = PN_NIL; \
+    for (i = 0; i < count; i++) { \
+      PN part = elem; \
+      PN_TUPLE_AT(tup, i) = part; \
+      PN_TOUCH(tup); \
+    } \
     tup; \
   })
+#define READ_VALUES(pn, ptr) READ_TUPLE(pn, ptr, READ_CONST(pn, ptr))
+#define READ_PROTOS(pn, ptr) READ_TUPLE(pn, ptr, potion_proto_load(P, (PN)f, pn, &(ptr)))
+#define READ_PART(part, val) ({ PN part##v = val; f->part = part##v; PN_TOUCH(f); })
 
-// TODO: this byte string is volatile, need to avoid using ptr
+// ptr must not point into the heap, as each part read may collect
 PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
   PN len = 0;
   PNAsm * volatile asmb = NULL;
   vPN(Proto) f = PN_ALLOC(PN_TPROTO, struct PNProto);
   // TODO extern protos
-  f->name = READ_CONST(pn, *ptr);
-  f->source = READ_CONST(pn, *ptr);
+  READ_PART(name, READ_CONST(pn, *ptr));
+  READ_PART(source, READ_CONST(pn, *ptr));
   if (f->source == PN_NIL) f->source = up;
-  f->sig = READ_VALUES(pn, *ptr);
-  f->stack = READ_CONST(pn, *ptr);
-  f->values = READ_VALUES(pn, *ptr);
-  f->paths = READ_VALUES(pn, *ptr);
-  f->locals = READ_VALUES(pn, *ptr);
-  f->upvals = READ_VALUES(pn, *ptr);
-  f->protos = READ_PROTOS(pn, *ptr);
-  f->debugs = PN_TUP0();
+  READ_PART(sig, READ_VALUES(pn, *ptr));
+  READ_PART(stack, READ_CONST(pn, *ptr));
+  READ_PART(values, READ_VALUES(pn, *ptr));
+  READ_PART(paths, READ_VALUES(pn, *ptr));
+  READ_PART(locals, READ_VALUES(pn, *ptr));
+  READ_PART(upvals, READ_VALUES(pn, *ptr));
+  READ_PART(protos, READ_PROTOS(pn, *ptr));
+  READ_PART(debugs, PN_TUP0());
 
   len = READ_PN(pn, *ptr);
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
   PN_MEMCPY_N(asmb->ptr, *ptr, u8, len);
   asmb->len = len;
 
-  f->asmb = (PN)asmb;
+  READ_PART(asmb, (PN)asmb);
   f->localsize = PN_TUPLE_LEN(f->locals);
   f->upvalsize = PN_TUPLE_LEN(f->upvals);
   f->pathsize  = PN_TUPLE_LEN(f->paths);
@@ -1200,79 +1204,93 @@ PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
 // TODO: "load" from a stream
 PN potion_source_load(Potion *P, PN cl, PN buf) {
   u8 *ptr;
-  vPN(BHeader) h = (struct PNBHeader *)PN_STR_PTR(buf);
+  char *copy;
+  PN code;
+  struct PNBHeader *h = (struct PNBHeader *)PN_STR_PTR(buf);
   // check for compiled binary first
   if ((size_t)PN_STR_LEN(buf) <= sizeof(struct PNBHeader) ||
       strncmp((char *)h->sig, POTION_SIG, 4) != 0)
     return PN_NIL;
 
+  copy = (char *)malloc(PN_STR_LEN(buf));
+  if (!copy) potion_allocation_error();
+  PN_MEMCPY_N(copy, PN_STR_PTR(buf), char, PN_STR_LEN(buf));
+  h = (struct PNBHeader *)copy;
   ptr = h->proto;
-  return potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  code = potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  free(copy);
+  return code;
 }
 
 // TODO: switch to dump methods
-#define WRITE_U8(un, ptr) ({*ptr = (u8)un; ptr += sizeof(u8);})
-#define WRITE_PN(pn, ptr) ({*(PN *)ptr = pn; ptr += sizeof(PN);})
-#define WRITE_CONST(val, ptr) ({ \
+struct PNDump {
+  u8 *ptr;
+  size_t len, siz;
+};
+
+static void potion_dump_write(struct PNDump *d, const void *ptr, size_t len) {
+  if (d->len + len > d->siz) {
+    d->siz = (d->len + len) * 2 + 8192;
+    d->ptr = (u8 *)realloc(d->ptr, d->siz);
+    if (!d->ptr) potion_allocation_error();
+  }
+  PN_MEMCPY_N(d->ptr + d->len, ptr, u8, len);
+  d->len += len;
+}
+
+#define WRITE_U8(un, d) ({u8 wru = (u8)(un); potion_dump_write(d, &wru, sizeof(u8));})
+#define WRITE_PN(pn, d) ({_PN wrp = (pn); potion_dump_write(d, &wrp, sizeof(PN));})
+#define WRITE_CONST(cval, d) ({ \
+    PN val = cval; \
     if (PN_IS_STR(val)) { \
-      PN count = (PN_STR_LEN(val)+1) << 4; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(val), char, PN_STR_LEN(val)); \
-      ptr += PN_STR_LEN(val); \
+      WRITE_PN((PN_STR_LEN(val)+1) << 4, d); \
+      potion_dump_write(d, PN_STR_PTR(val), PN_STR_LEN(val)); \
     } else if (PN_IS_DBL(val)) { \
       PN str = potion_num_string(P, PN_NIL, val); \
-      PN count = ((PN_STR_LEN(str)+1) << 4) | 2; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(str), char, PN_STR_LEN(str)); \
-      ptr += PN_STR_LEN(str); \
+      WRITE_PN(((PN_STR_LEN(str)+1) << 4) | 2, d); \
+      potion_dump_write(d, PN_STR_PTR(str), PN_STR_LEN(str)); \
     } else { \
-      PN cval = (PN_IS_PTR(val) ? PN_NIL : val); \
-      WRITE_PN(cval, ptr); \
+      WRITE_PN(PN_IS_PTR(val) ? PN_NIL : val, d); \
     } \
   })
-#define WRITE_TUPLE(tup, ptr) \
+#define WRITE_TUPLE(tup, d) \
   long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count, ptr); \
+  if (count < 255) WRITE_U8(count, d); \
+  else { WRITE_U8(255, d); WRITE_PN(count, d); } \
   for (; i < count; i++)
-#define WRITE_VALUES(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) WRITE_CONST(PN_TUPLE_AT(tup, i), ptr); \
+#define WRITE_VALUES(tup, d) ({ \
+    WRITE_TUPLE(tup, d) WRITE_CONST(PN_TUPLE_AT(tup, i), d); \
   })
-#define WRITE_PROTOS(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) ptr += potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), \
-        out, (char *)ptr - PN_STR_PTR(out)); \
+#define WRITE_PROTOS(tup, d) ({ \
+    WRITE_TUPLE(tup, d) potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), d); \
   })
 
 ///\memberof PNProto
 /// compile to bytecode
 ///\param proto  PNProto
-///\param out    PNBytes output buffer
-///\param pos    long where to add at out
-///\return char* ptr - start
-long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
+///\param d      output buffer, where to add
+static void potion_proto_dumpbc(Potion *P, PN proto, struct PNDump *d) {
   vPN(Proto) f = (struct PNProto *)proto;
-  char *start = PN_STR_PTR(out) + pos;
-  u8 *ptr = (u8 *)start;
   //TODO extern (by name)
-  WRITE_CONST(f->name, ptr);
-  WRITE_CONST(f->source, ptr);
-  WRITE_VALUES(f->sig, ptr);
-  WRITE_CONST(f->stack, ptr);
-  WRITE_VALUES(f->values, ptr);
-  WRITE_VALUES(f->paths, ptr);
-  WRITE_VALUES(f->locals, ptr);
-  WRITE_VALUES(f->upvals, ptr);
-  WRITE_PROTOS(f->protos, ptr);
-  WRITE_PN(PN_FLEX_SIZE(f->asmb), ptr);
-  PN_MEMCPY_N(ptr, ((PNFlex *)f->asmb)->ptr, u8, PN_FLEX_SIZE(f->asmb));
-  ptr += PN_FLEX_SIZE(f->asmb);
-  return (char *)ptr - start;
+  WRITE_CONST(f->name, d);
+  WRITE_CONST(f->source, d);
+  WRITE_VALUES(f->sig, d);
+  WRITE_CONST(f->stack, d);
+  WRITE_VALUES(f->values, d);
+  WRITE_VALUES(f->paths, d);
+  WRITE_VALUES(f->locals, d);
+  WRITE_VALUES(f->upvals, d);
+  WRITE_PROTOS(f->protos, d);
+  WRITE_PN(PN_FLEX_SIZE(f->asmb), d);
+  potion_dump_write(d, (const void *)((PNFlex *)f->asmb)->ptr, PN_FLEX_SIZE(f->asmb));
 }
 
 ///\memberof PNSource
 /// dump to bytecode
 // Low TODO: dump to a stream (if we have not enough memory)
 PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
-  PN pnb = potion_bytes(P, 8192);
+  PN pnb;
+  struct PNDump d = { NULL, 0, 0 };
   struct PNBHeader h;
   DBG_c("compile bc\n");
   PN_MEMCPY_N(h.sig, POTION_SIG, u8, 4);
@@ -1280,9 +1298,10 @@ PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
   h.minor = POTION_MINOR;
   h.vmid = POTION_VMID;
   h.pn = (u8)sizeof(PN);
-  PN_MEMCPY(PN_STR_PTR(pnb), &h, struct PNBHeader); // coverity[uninit_use_in_call:FALSE]
-  PN_STR_LEN(pnb) = (long)sizeof(struct PNBHeader) +
-    potion_proto_dumpbc(P, proto, pnb, sizeof(struct PNBHeader));
+  potion_dump_write(&d, &h, sizeof(struct PNBHeader));
+  potion_proto_dumpbc(P, proto, &d);
+  pnb = potion_byte_str2(P, (char *)d.ptr, d.len);
+  free(d.ptr);
   return pnb;
 }
 
-- 
2.43.0


From 8e499f91c1a8359239547a4ff8ddd995e8372a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 042/120] fix: string literals of 33 bytes were compiled as
 licks

---
 core/compile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index ef05369..4c8003a 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -360,7 +360,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       PN_OP op; op.a = PN_S(t,0); // but 12bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
-      } else if (a != PN_NIL && PN_IS_PTR(a)
+      } else if (PN_TYPE(a) == PN_TSOURCE // and not a string of that length
                  && PN_PART(a) == AST_LICK && PN_PART(a->a[0]) == AST_MSG) {
         vPN(Source) msg = a->a[0];
         PN tpl = PN_S(msg, 0);
@@ -412,7 +412,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 	DBG_c("values %d %s => %d\n", reg, AS_STR(a), (int)num);
         PN_ASM2(OP_LOADK, reg, num);
       }
-      if (PN_S(t,1) != PN_NIL && a->part != AST_LICK) {
+      if (PN_S(t,1) != PN_NIL && (PN_TYPE(PN_S(t,0)) != PN_TSOURCE || PN_PART(PN_S(t,0)) != AST_LICK)) {
         u8 breg = reg;
         PN_ASM1(OP_SELF, ++breg);
         PN_ARG_TABLE(PN_S(t,1), breg, 1);
-- 
2.43.0


From ce36842c7bed0c076f99843763902c61d8769753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 043/120] fix: string literals that exactly filled the parser
 buffer took bytes beyond it

---
 core/string.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/string.c b/core/string.c
index 151736d..edc8b1b 100644
--- a/core/string.c
+++ b/core/string.c
@@ -449,13 +449,17 @@ static PN potion_bytes_length(Potion *P, PN cl, PN self) {
 /// "string" method.
 // TODO: ensure it's UTF-8 data
 PN potion_bytes_string(Potion *P, PN cl, PN self) {
-  PN exist = potion_lookup_str(P, PN_STR_PTR(self = potion_fwd(self)));
+  PN exist;
+  PN_SIZE len;
+  vPN(Bytes) b = (struct PNBytes *)potion_fwd(self); // may move
+  vPN(String) s;
+  len = PN_STR_LEN((PN)b);
+  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  s->len = len;
+  PN_MEMCPY_N(s->chars, b->chars, char, len);
+  s->chars[len] = '\0'; // a full parser buffer has no room for it
+  exist = potion_lookup_str(P, s->chars);
   if (exist == PN_NIL) {
-    PN_SIZE len = PN_STR_LEN(self);
-    vPN(Bytes) b = (struct PNBytes *)self; // may move
-    vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
-    s->len = len;
-    PN_MEMCPY_N(s->chars, b->chars, char, len + 1);
     potion_add_str(P, (PN)s);
     exist = (PN)s;
   }
-- 
2.43.0


From 1a1484e2215bb07c35b39431e388db4978d28c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 044/120] fix: JIT of functions with over 1024 instructions
 overflowed its stack

---
 core/vm.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 333fd78..387d6da 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,14 +214,13 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
-#define JUMPS_MAX 1024
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
 PN_F potion_jit_proto(Potion *P, PN proto) {
   long regs = 0, lregs = 0, need = 0, rsp = 0, argx = 0, protoargs = 4;
   PN_SIZE pos;
-  PNJumps jmps[JUMPS_MAX]; size_t offs[JUMPS_MAX]; int jmpc = 0, jmpi = 0;
+  PNJumps *jmps; size_t *offs; int jmpc = 0, jmpi = 0;
   vPN(Proto) f = (struct PNProto *)proto;
   long upc = PN_TUPLE_LEN(f->upvals);
   PNAsm * volatile asmb = potion_asm_new(P);
@@ -295,6 +294,10 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (upc > 0)
     target->upvals(P, f, &asmb, lregs, need, upc);
 
+  // at most one jump per op
+  pos = PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP) + 1;
+  jmps = (PNJumps *)malloc(pos * sizeof(PNJumps));
+  offs = (size_t *)malloc(pos * sizeof(size_t));
   for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
     offs[pos] = asmb->len;
     for (jmpi = 0; jmpi < jmpc; jmpi++) {
@@ -361,6 +364,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 
   target->finish(P, f, &asmb);
+  free(jmps);
+  free(offs);
 
   fn = (u8*)PN_ALLOC_FUNC(asmb->len);
 #if defined(JIT_DEBUG)
-- 
2.43.0


From b2d55e9e2df1a570170ebefa6d2b35bca0314a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 045/120] fix: jumps over 2047 instructions and over 2048
 constants or locals did not fit an instruction

---
 core/compile.c | 6 +++---
 core/opcodes.h | 7 +++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 4c8003a..1343077 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -290,7 +290,7 @@ void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop
                 lhs = SRC_TUPLE_AT(lhs, 0);
 		PN_ASM_DEBUG(sreg, lhs);
                 if (lhs->part == AST_MSG || lhs->part == AST_VALUE) {
-                  PN_OP op; op.a = PN_S(lhs,0); //12 bit!
+                  PN_OP op; op.a = PN_S(lhs,0); //28 bit!
                   if (!PN_IS_PTR(PN_S(lhs,0)) && PN_S(lhs,0) == op.a) {
                     PN_ASM2(OP_LOADPN, sreg, PN_S(lhs,0));
                   } else {
@@ -357,7 +357,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 
     case AST_VALUE: {
       vPN(Source) a = PN_S_(t,0);
-      PN_OP op; op.a = PN_S(t,0); // but 12bit only
+      PN_OP op; op.a = PN_S(t,0); // but 28bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
       } else if (PN_TYPE(a) == PN_TSOURCE // and not a string of that length
@@ -398,7 +398,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             DBG_c("gettuple %d %d %s[%ld]\n", reg, num, PN_STR_PTR(tpl), PN_INT(k));
             PN_ASM2(OP_GETTUPLE, reg, num);
           } else {
-            num = PN_PUT(f->values, k); // op.b has 12 bits
+            num = PN_PUT(f->values, k); // op.b has 28 bits
             PN_ASM2(OP_LOADK, reg+1, num);
             DBG_c("values \"%s\" => %d\n", PN_STR_PTR(k), (int)num);
             num = reg+1;
diff --git a/core/opcodes.h b/core/opcodes.h
index b029801..b798e8d 100644
--- a/core/opcodes.h
+++ b/core/opcodes.h
@@ -65,12 +65,11 @@ enum PN_OPCODE {
 #pragma pack(push, 1)
 #endif
 
-/// PN_OP - a compressed three-address op (as 32bit int bitfield)
-/// TODO: expand to 64bit, check jit then
+/// PN_OP - a compressed three-address op (as 64bit int bitfield)
 typedef struct {
   enum PN_OPCODE code:8; ///< the op. See vm.c http://www.lua.org/doc/jucs05.pdf
-  int a:12;  ///< the data (i.e the register)
-  int b:12;  ///< optional arg, the message
+  int a:28;  ///< the data (i.e the register)
+  int b:28;  ///< optional arg, the message
 } PN_OP;
 
 #if defined(__GNUC__)
-- 
2.43.0


From 574cf839dc9b017d4eb139289c5ac9bd41464128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:04 +0000
Subject: [PATCH 046/120] fix: digits and file data on the stack were taken for
 pointers by the collector

---
 core/file.c   | 16 ++++++++++++----
 core/number.c |  6 +++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/file.c b/core/file.c
index 700bfb7..9b0127a 100644
--- a/core/file.c
+++ b/core/file.c
@@ -97,18 +97,26 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
  \param n PNInteger
  \return n PNBytes or nil or PNError */
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
+  PN str;
+  char *buf; // not on the stack, where the collector takes data for pointers
+  int r;
   n = PN_INT(n);
-  char buf[n];
-  int r = read(self->fd, buf, n);
+  buf = (char *)malloc(n ? n : 1);
+  if (buf == NULL) potion_allocation_error();
+  r = read(self->fd, buf, n);
   if (r == -1) {
+    free(buf);
     return potion_io_error(P, "read");
     //perror("read");
     // TODO: error
     //return PN_NUM(-1);
   } else if (r == 0) {
+    free(buf);
     return PN_NIL;
   }
-  return potion_byte_str2(P, buf, r);
+  str = potion_byte_str2(P, buf, r);
+  free(buf);
+  return str;
 }
 
 /**\memberof PNFile
@@ -181,7 +189,7 @@ PN potion_file_string(Potion *P, PN cl, pn_file self) {
   global "read" method, read next line from stdin via fgets()
   \return PNString or or PN_NIL */
 PN potion_lobby_read(Potion *P, PN cl, PN self) {
-  char line[1024];
+  char line[1024] = {0};
   if (fgets(line, 1024, stdin) != NULL)
     return potion_str(P, line);
   return PN_NIL;
diff --git a/core/number.c b/core/number.c
index 36a453d..ca1bf55 100644
--- a/core/number.c
+++ b/core/number.c
@@ -207,7 +207,7 @@ static PN potion_int_bitr(Potion *P, PN cl, PN self, PN num) {
   "string" method, stringify
  \return PNString */
 PN potion_int_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[40] = {0}; // no leftover pointers: the collector would move them
   sprintf(ints, "%ld", PN_INT(self));
   return potion_str(P, ints);
 }
@@ -261,7 +261,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[352]; // DBL_MAX has 309 digits before the point
+  char ints[352] = {0}; // DBL_MAX has 309 digits before the point
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -272,7 +272,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[352];
+  char ints[352] = {0};
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-- 
2.43.0


From aa220b04d1ee54eef702c9e13df3090b08d8a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 047/120] fix: + of a string and something else read it as a
 string

---
 core/string.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index edc8b1b..9d87856 100644
--- a/core/string.c
+++ b/core/string.c
@@ -301,8 +301,12 @@ static PN potion_str_bytes(Potion *P, PN cl, PN self) {
 ///\param x PNString
 ///\return concat PNString
 PN potion_str_add(Potion *P, PN cl, PN self, PN x) {
-  char *s = malloc(PN_STR_LEN(self) + PN_STR_LEN(x));
+  char *s;
   PN str;
+  x = potion_fwd(x);
+  if (PN_TYPE(x) != PN_TSTRING && PN_TYPE(x) != PN_TBYTES)
+    return potion_type_error_want(P, "x", x, "String");
+  s = malloc(PN_STR_LEN(self) + PN_STR_LEN(x));
   if (s == NULL) potion_allocation_error();
   PN_MEMCPY_N(s, PN_STR_PTR(self), char, PN_STR_LEN(self));
   PN_MEMCPY_N(s + PN_STR_LEN(self), PN_STR_PTR(x), char, PN_STR_LEN(x));
-- 
2.43.0


From ccc49e73b53ced59b127a6a70c1399d52220a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 048/120] fix: types in JIT code were taken for objects by the
 collector

---
 core/vm-x86.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 929cdc5..81f1c6e 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -62,6 +62,10 @@ the x86 and x86_64 jit.
         X86_PRE(); ASM(0xb8); ASMN((PN)(x)); 			/* movq x, %rax */ \
         X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x45,reg)	       	/* movq %rax, -A(%rbp) */
 #endif
+// compare the type of the object in %eax. Only the low word: with the whole type
+// as immediate the collector might take a pointer into the code for an object
+#define X86_CMP_TYPE(t)  ASM(0x66); ASM(0x81); ASM(0x38);       \
+        ASM((t) & 0xff); ASM(((t) >> 8) & 0xff)		/* cmpw t, (%eax) */
 #define TAG_PREP(tag)    tag = (*asmp)->len + 1
 #define TAG_LABEL(tag)   (*asmp)->ptr[tag] = ((*asmp)->len - tag - 1)
 #define TAG_JMPTO(tag)   TAG_LABEL(tag)
@@ -506,10 +510,10 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x8B, regs + op.b); 		// mov %ebp(B) %eax
   if (up) { // upvals need to be deref'd
     ASMS("\xF6\xC0\x01" 		// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
+	 "\x75"); ASM(X86C(18,19, 0,0)); 		// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 	// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 		// jz a
-    ASMS("\x81\x38"); ASMI(PN_TWEAK); 	// cmpq WEAK (%eax)   # 0x250004
+    ASM(0x74); ASM(X86C(10,11, 0,0)); 		// jz a
+    X86_CMP_TYPE(PN_TWEAK); 			// cmpw WEAK (%eax)
     ASM(0x75); ASM(X86C(3,4, 0,0)); 		// jnz a
     X86_PRE(); ASM(0x8B); ASM(0x40);
                ASM(sizeof(struct PNObject)); 	// mov N(%eax) %eax;  #WeakRef->data (Obj+PN)
@@ -982,7 +986,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   X86_PRE(); ASM(0x83); ASM(0xE0); ASM(0xF8);		// and ~PRIMITIVE %rax
 
   // if a class, pull out the constructor
-  ASM(0x81); ASM(0x38); ASMI(PN_TVTABLE);		// cmpq VTABLE (%eax)  # 0x25000a
+  X86_CMP_TYPE(PN_TVTABLE);				// cmpw VTABLE (%eax)
   TAG_PREP(tag_c);
   ASM(0x75); ASM(X86C(13,20, 1, start-3));		// jnz [c]
   X86_ARGO(start - 3, 0);				// mov &P 0(%esp)
@@ -998,7 +1002,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 
   // check type of the closure
   TAG_LABEL(tag_c);
-  ASM(0x81); ASM(0x38); ASMI(PN_TCLOSURE);	     // c: cmpq CLOSURE (%eax) # 0x250005
+  X86_CMP_TYPE(PN_TCLOSURE);			     // c: cmpw CLOSURE (%eax)
   TAG_PREP(tag_d);
   ASM(0x74); ASM(X86C(22,30, 2,op.a));			// jz [d]
 
-- 
2.43.0


From 229191be0b2f07fc98f136da230fd32a83bbd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 049/120] fix: JIT calls with over 17 arguments passed the
 wrong ones

---
 core/vm-x86.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 81f1c6e..a55c5f1 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -405,11 +405,15 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
 	ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
 	if (argn == 6) {
 	  ASM(0x4c); ASMS("\x89\x1c\x24");    // mov %r11 (%rsp)
-	} else {
+	} else if ((argn - 6) * sizeof(PN) < 0x80) {
 	  ASM(0x4c); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
+	} else {
+	  ASM(0x4c); ASMS("\x89\x9c\x24"); ASMI((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
+	ASM(0x4c); ASM(0x8b);				// mov N(%rbp) %r11
+	if ((argn - 4) * sizeof(PN) < 0x80) { ASM(0x5d); ASM((argn - 4) * sizeof(PN)); }
+	else { ASM(0x9d); ASMI((argn - 4) * sizeof(PN)); }
 	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
-- 
2.43.0


From 3fca293506e851a327d97a5ea2a157c6f8c89317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 050/120] fix: expressions with over 255 registers computed
 wrong values

---
 core/compile.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 1343077..b28471d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -248,7 +248,7 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
 #define PN_ASM_DEBUG(REG, T) REG = potion_source_debug(P, f, T, REG)
 
 /// insert DEBUG ops for every new line
-u8 potion_source_debug(Potion *P, struct PNProto * volatile f, struct PNSource * volatile t, u8 reg) {
+int potion_source_debug(Potion *P, struct PNProto * volatile f, struct PNSource * volatile t, int reg) {
   static PNType lineno = 0;
   if ((P->flags & EXEC_DEBUG) && t && t->loc.lineno != lineno && t->loc.lineno > 0) {
     PN_SIZE num = PN_PUT(f->debugs, (PN)t);
@@ -270,14 +270,14 @@ struct PNLoop {
   int cjmpc;  ///< count of c jumps (abc regs)
 };
 
-void potion_source_asmb(Potion *, struct PNProto * volatile, struct PNLoop *, PN_SIZE, struct PNSource * volatile, u8);
+void potion_source_asmb(Potion *, struct PNProto * volatile, struct PNLoop *, PN_SIZE, struct PNSource * volatile, int);
 
-void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop, PN args, u8 *reg, int inc) {
+void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop, PN args, int *reg, int inc) {
   if (args != PN_NIL) {
     if (PN_PART(args) == AST_LIST) {
       args = PN_S(args,0);
       if (!PN_IS_NIL(args)) {
-        u8 freg = *reg, sreg = *reg + PN_TUPLE_LEN(args) + 1;
+        int freg = *reg, sreg = *reg + PN_TUPLE_LEN(args) + 1;
 	DBG_c("ARGLIST %d %d\n", freg, sreg);
         PN_TUPLE_EACH(args, i, v, {
           if (inc) {
@@ -325,7 +325,7 @@ void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop
 }
 
 void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop, PN_SIZE count,
-                        struct PNSource * volatile t, u8 reg) {
+                        struct PNSource * volatile t, int reg) {
   //PN fname = 0;
   PN_REG(f, reg);
   PN_ASM_DEBUG(reg, t);
@@ -413,7 +413,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         PN_ASM2(OP_LOADK, reg, num);
       }
       if (PN_S(t,1) != PN_NIL && (PN_TYPE(PN_S(t,0)) != PN_TSOURCE || PN_PART(PN_S(t,0)) != AST_LICK)) {
-        u8 breg = reg;
+        int breg = reg;
         PN_ASM1(OP_SELF, ++breg);
         PN_ARG_TABLE(PN_S(t,1), breg, 1);
         if (PN_S(t,2) != PN_NIL) {
@@ -429,7 +429,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
     case AST_ASSIGN: {
       vPN(Source) lhs = t->a[0];
       PN_SIZE num = PN_NONE, c = count;
-      u8 opcode = OP_GETUPVAL, breg = reg;
+      u8 opcode = OP_GETUPVAL; int breg = reg;
 
       if (lhs->part == AST_EXPR) {
         unsigned long i = 0;
@@ -536,7 +536,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
     break;
 
     case AST_INC: {
-      u8 breg = reg;
+      int breg = reg;
       vPN(Source) lhs = t->a[0];
       PN_SIZE num = PN_UPVAL(PN_S(lhs,0));
       u8 opcode = OP_SETUPVAL;
@@ -605,7 +605,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
     // TODO: this stuff is ugly and repetitive. replace by compiler macros for control structures
     case AST_MSG:
     case AST_QUERY: {
-      u8 breg = reg;
+      int breg = reg;
       int arg = (PN_S(t,1) != PN_NIL);
       int call = (PN_S(t,2) != PN_NIL || arg);
       if (t->part == AST_MSG && PN_S(t,0) == PN_if) {
@@ -645,7 +645,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_class) {
-        u8 breg = reg;
+        int breg = reg;
         if (count == 0)
           PN_ASM1(OP_SELF, reg);
         if (PN_S(t,2) != PN_NIL) {
@@ -667,7 +667,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         PN_ASM2(OP_CLASS, reg, breg);
 #ifdef WITH_EXTERN
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_extern) { // ffi
-        //u8 breg = reg;
+        //int breg = reg;
 	int i, arity;
         PN msg = PN_S(t,1);
 	char *name = PN_STR_PTR(PN_S(PN_TUPLE_AT(msg,0),0));
@@ -784,7 +784,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
 
         if (num == PN_NONE && PN_S(t,0) != PN_NIL) {
-          u8 oreg = ++breg;
+          int oreg = ++breg;
           int jmp = 0;
           num = PN_PUT(f->values, PN_S(t,0));
 	  DBG_c("values %d %s => %d\n", reg, AS_STR(t->a[0]), (int)num);
@@ -877,7 +877,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
     break;
 
     case AST_LICK: {
-      u8 breg = reg;
+      int breg = reg;
       PN_SIZE num = PN_PUT(f->values, PN_S(t,0));
       DBG_c("values %d %s => %d\n", reg, AS_STR(t->a[0]), (int)num);
       PN_ASM2(OP_LOADK, reg, num);
-- 
2.43.0


From 02b540a2472f6f202cd5b3136b4cf937a00028fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 051/120] fix: long expressions overflowed the stack of the
 compiler, loops with over 1024 breaks its jump table

---
 core/compile.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index b28471d..4eb71cd 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -259,17 +259,22 @@ int potion_source_debug(Potion *P, struct PNProto * volatile f, struct PNSource
   return reg;
 }
 
-#define MAX_JUMPS 1024
 /// jump table for loops, for the 2 args b and c
-/// Note: only statically allocated (max 1024)
 struct PNLoop {
-  int bjmps[MAX_JUMPS];
-  int cjmps[MAX_JUMPS];
+  int *bjmps;
+  int *cjmps;
 
   int bjmpc;  ///< count of b jumps (abc regs)
   int cjmpc;  ///< count of c jumps (abc regs)
 };
 
+static int *potion_loop_jmp(int *jmps, int *jmpc, int pos) {
+  if (!(*jmpc & (*jmpc - 1))) // full at every power of 2
+    jmps = (int *)realloc(jmps, (*jmpc ? *jmpc * 2 : 1) * sizeof(int));
+  jmps[(*jmpc)++] = pos;
+  return jmps;
+}
+
 void potion_source_asmb(Potion *, struct PNProto * volatile, struct PNLoop *, PN_SIZE, struct PNSource * volatile, int);
 
 void potion_arg_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *loop, PN args, int *reg, int inc) {
@@ -719,7 +724,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 #endif
       } else if (t->part == AST_MSG && (PN_S(t,0) == PN_while || PN_S(t,0) == PN_loop)) {
         int jmp1 = 0, jmp2 = PN_OP_LEN(f->asmb); breg++;
-        struct PNLoop l; l.bjmpc = 0; l.cjmpc = 0;
+        struct PNLoop l = {NULL, NULL, 0, 0};
         int i;
         if (PN_S(t,0) == PN_while) {
           PN_ARG_TABLE(PN_S(t,1), breg, 0);
@@ -747,6 +752,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         for (i = 0; i < l.cjmpc; i++) {
           PN_OP_AT(f->asmb, l.cjmps[i]).a = (jmp2 - l.cjmps[i]) - 1;
         }
+        free(l.bjmps);
+        free(l.cjmps);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_return) {
         //if (!t->a[1])
         //    return potion_syntax_error(P, t, "Missing return value");
@@ -754,14 +761,14 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         PN_ASM1(OP_RETURN, reg);
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_break) {
         if (loop != NULL) {
-          loop->bjmps[loop->bjmpc++] = PN_OP_LEN(f->asmb);
+          loop->bjmps = potion_loop_jmp(loop->bjmps, &loop->bjmpc, PN_OP_LEN(f->asmb));
           PN_ASM1(OP_JMP, 0);
         } else {
           potion_syntax_error(P, t, "'break' outside of loop");
         }
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_continue) {
         if (loop != NULL) {
-          loop->cjmps[loop->cjmpc++] = PN_OP_LEN(f->asmb);
+          loop->cjmps = potion_loop_jmp(loop->cjmps, &loop->cjmpc, PN_OP_LEN(f->asmb));
           PN_ASM1(OP_JMP, 0);
         } else {
           potion_syntax_error(P, t, "'continue' outside of loop");
-- 
2.43.0


From 6720164a594451b6e0eeca9408d668a88bed9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 052/120] fix: JIT calls with over 127 arguments

---
 core/vm-x86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index a55c5f1..209e454 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -1028,8 +1028,8 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   TAG_LABEL(tag_b);
 #if PN_SIZE_T == 8
   // missing args: let potion_jit_call fill in the defaults
-  ASM(0x83); ASM(0x78); ASM((char *)&((struct PNClosure *)P->lobby)->arity
-	- (char *)P->lobby); ASM(argc - 1);		// cmp $argc-1 N(%rax)
+  ASM(0x81); ASM(0x78); ASM((char *)&((struct PNClosure *)P->lobby)->arity
+	- (char *)P->lobby); ASMI(argc - 1);		// cmp $argc-1 N(%rax)
   TAG_JMPFW(0x8F, tag_few)				// jg [few]
 #endif
   X86_PRE(); ASM(0x8B); ASM(0x40);
-- 
2.43.0


From 5114b29902ad32e88f077a7d8a563b6c79ef113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 053/120] fix: doubles lost their small digits and magnitudes
 in bytecode files

---
 core/compile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 4eb71cd..ee1df72 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1253,9 +1253,10 @@ static void potion_dump_write(struct PNDump *d, const void *ptr, size_t len) {
       WRITE_PN((PN_STR_LEN(val)+1) << 4, d); \
       potion_dump_write(d, PN_STR_PTR(val), PN_STR_LEN(val)); \
     } else if (PN_IS_DBL(val)) { \
-      PN str = potion_num_string(P, PN_NIL, val); \
-      WRITE_PN(((PN_STR_LEN(str)+1) << 4) | 2, d); \
-      potion_dump_write(d, PN_STR_PTR(str), PN_STR_LEN(str)); \
+      char dbl[32] = {0}; \
+      int dlen = sprintf(dbl, "%.17g", PN_DBL(val)); /* loads the same */ \
+      WRITE_PN(((dlen+1) << 4) | 2, d); \
+      potion_dump_write(d, dbl, dlen); \
     } else { \
       WRITE_PN(PN_IS_PTR(val) ? PN_NIL : val, d); \
     } \
-- 
2.43.0


From 1dc961bd89d6d2479dd458d2889028e9dc2d2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:56 +0000
Subject: [PATCH 054/120] fix: digits following a double in a bytecode file
 were taken for its own

---
 core/number.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index ca1bf55..29873ac 100644
--- a/core/number.c
+++ b/core/number.c
@@ -22,8 +22,13 @@ PN potion_double(Potion *P, double v) {
 
 /// Convert string to double
 PN potion_strtod(Potion *P, char *str, int len) {
-  char *ptr = str + len;
-  return potion_double(P, strtod(str, &ptr));
+  // str may go on after len, even with digits
+  char *num = strndup(str, len);
+  double d;
+  if (!num) potion_allocation_error();
+  d = strtod(num, NULL);
+  free(num);
+  return potion_double(P, d);
 }
 /**\memberof PNNumber
   "**" method.
-- 
2.43.0


From cdd471fb29bb5818ee52d7c97f8c971c189b925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 055/120] fix: JIT named argument of a call in a register above
 15

---
 core/vm-x86.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 209e454..62df75f 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -942,8 +942,8 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
   ASM(0x89); ASM(0x54); ASM_MOV_EBP(0x85, op.a + 2)	// mov %edx -A(%ebp,%eax,4)
 #else
   if (op.a + 2 > 15) {
-    DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2); //!! +2 only XXX
-    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASM(RBP(op.a + 2)); ASM(0xff); ASM(0xff);
+    DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2);
+    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASMI(RBPN(op.a + 2));
   } else {
     X86_PRE(); ASM(0x89); ASM(0x54); ASM(0xC5); ASM(RBP(op.a + 2)); // mov %rdx -A(%rbp,%rax,8)
   }
-- 
2.43.0


From 323f835ae2271eafebc4d017aa90c43c3973c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 056/120] fix: default values taken for parameter names or
 markers (strings, 58)

---
 core/objmodel.c | 7 +++----
 core/syntax.y   | 9 ++++++---
 core/vm.c       | 5 +++--
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 8a4238d..124c1dc 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -89,8 +89,7 @@ int potion_sig_arity(Potion *P, PN sig) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++; // names
-	// but not string default values
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) i++; // but not default values
       }
     }
     return count;
@@ -138,7 +137,7 @@ PN potion_sig_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) { i++; continue; } // default value
 	if (count == index) {
 	  result = potion_tuple_new(P, v);
 	  if (i+1 < t->len && PN_IS_INT((PN)t->set[i+1])) {
@@ -171,7 +170,7 @@ PN potion_sig_name_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	else if (v == PN_NUM(':')) { i++; continue; } // default value
 	if (count == index)
 	  return v;
       }
diff --git a/core/syntax.y b/core/syntax.y
index 6346304..a5882b0 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -490,11 +490,14 @@ int potion_sig_find(Potion *P, PN cl, PN name)
   if (!PN_IS_TUPLE(sig))
     return -1;
 
+  PN prev = PN_NIL;
   PN_TUPLE_EACH(sig, i, v, {
-    PN prev = PN_NIL;
+    if (prev == PN_NUM(':')) { // default value
+      prev = PN_NIL;
+      continue;
+    }
     if (v == name) return idx;
-    // count names, not string default values
-    if (PN_IS_STR(v) && !(PN_IS_INT(prev) && prev == PN_NUM(':')))
+    if (PN_IS_STR(v))
       idx++;
     prev = v;
   });
diff --git a/core/vm.c b/core/vm.c
index 387d6da..bf7a303 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -278,8 +278,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     vPN(Tuple) t = (vPN(Tuple)) potion_fwd(f->sig);
     for (i=0; i < t->len; i++) {
       PN v = (PN)t->set[i];
-      // arg names, except string default
-      if (PN_IS_STR(v) && !(i>0 && PN_IS_INT(t->set[i-1]) && t->set[i-1] == PN_NUM(':'))) {
+      // arg names, except default values
+      if (v == PN_NUM(':')) i++;
+      else if (PN_IS_STR(v)) {
         PN_SIZE num = PN_GET(f->locals, v);
         if (num != PN_NONE)
           target->local(P, f, &asmb, regs + num, argx);
-- 
2.43.0


From 2d95531113415cb3e19884d9209badbde2a12c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 057/120] fix: missing optional argument without type read past
 its signature entry

---
 core/vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/vm.c b/core/vm.c
index bf7a303..656e2a6 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -846,6 +846,7 @@ reentry:
                   if (s) // default or zero: && !filled by NAMED (?)
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
                       ? PN_TUPLE_AT(s, 2)
+                      : PN_TUPLE_LEN(s) < 2 ? PN_NIL
                       : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
                   op.b++;
                 }
@@ -862,6 +863,7 @@ reentry:
                   if (s) // default or zero: && !filled by NAMED (?)
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
+		      : PN_TUPLE_LEN(s) < 2 ? PN_NIL
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
                   need++;
                   op.b++;
-- 
2.43.0


From 6af2baa38cbde1e8f6a45eac090c7516a8d74fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 058/120] fix: JIT calls with missing arguments to functions of
 over 14 parameters

---
 core/vm-x86.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 62df75f..d6fbed5 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -955,10 +955,10 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 ///\param argc number of args, including self
 ///\param args jit registers, growing down
 static PN potion_jit_call(Potion *P, PN cl, long argc, PN *args) {
-  PN argv[15];
+  PN argv[64];
   PN sig = PN_CLOSURE(cl)->sig;
   long i, n = PN_CLOSURE(cl)->arity + 1;
-  if (n > 15) n = 15;
+  if (n > 64) n = 64;
   for (i = 0; i < argc && i < n; i++)
     argv[i] = args[-i];
   for (; i < n; i++) {
@@ -967,7 +967,14 @@ static PN potion_jit_call(Potion *P, PN cl, long argc, PN *args) {
       : PN_TUPLE_LEN(s) == 3 ? PN_TUPLE_AT(s, 2)
       : potion_type_default(PN_INT(PN_TUPLE_AT(s, 1)));
   }
-  return potion_call(P, cl, n, argv);
+  if (n <= 15) // the most potion_call passes
+    return potion_call(P, cl, n, argv);
+  for (; i < 64; i++)
+    argv[i] = PN_NIL;
+#define ARGV8(i) argv[i], argv[i+1], argv[i+2], argv[i+3], argv[i+4], argv[i+5], argv[i+6], argv[i+7]
+  return PN_CLOSURE(cl)->method(P, cl, ARGV8(0), ARGV8(8), ARGV8(16), ARGV8(24),
+                                ARGV8(32), ARGV8(40), ARGV8(48), ARGV8(56));
+#undef ARGV8
 }
 
 // TODO: check for bytecode nodes and jit them as well?
-- 
2.43.0


From 16e23cffd6a276f7ad3891779ae299607f541744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 059/120] fix: named arguments of constructors

---
 core/syntax.y | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/syntax.y b/core/syntax.y
index a5882b0..cf9249b 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -11,6 +11,7 @@
 #include "internal.h"
 #include "asm.h"
 #include "ast.h"
+#include "table.h"
 
 #undef PN_AST
 #undef PN_AST2
@@ -482,6 +483,8 @@ int potion_sig_find(Potion *P, PN cl, PN name)
   PN_SIZE idx = 0;
   PN sig;
 
+  if (PN_TYPE(cl) == PN_TVTABLE) // a class: its constructor
+    cl = ((struct PNVtable *)cl)->ctor;
   if (!PN_IS_CLOSURE(cl))
     cl = potion_obj_get_call(P, cl);
   if (!PN_IS_CLOSURE(cl))
-- 
2.43.0


From bd2ba213003161460078467f3c54be15c619d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 060/120] fix: names of classes were lost by the collector
 (write barrier)

---
 core/objmodel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/objmodel.c b/core/objmodel.c
index 124c1dc..a96bf27 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -659,8 +659,10 @@ static void potion_init_class_reference(Potion *P, PN name, PN vt) {
   char meta_str[strlen("<metaclass: >") + PN_STR_LEN(name) + 1];
   potion_send(P->lobby, PN_def, name, vt);
   ((struct PNVtable *)vt)->name = name;
+  PN_TOUCH(vt);
   sprintf(meta_str, "<metaclass: %s>", PN_STR_PTR(name));
   ((struct PNVtable *)vt)->meta->name = potion_str(P, meta_str);
+  PN_TOUCH(((struct PNVtable *)vt)->meta);
 }
 
 void potion_define_global(Potion *P, PN name, PN val) {
-- 
2.43.0


From 2ab4322a168f6f63c0477ffd2a7a3c247d66e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 061/120] fix: ord of a single byte above 127 was negative or 0

---
 core/string.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 9d87856..bb99aef 100644
--- a/core/string.c
+++ b/core/string.c
@@ -358,6 +358,16 @@ static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
   }
 }
 
+///\memberof PNBytes
+/// "ord" method. the value of a single byte, or else of the first character
+///\return PNInteger
+static PN potion_bytes_ord(Potion *P, PN cl, PN self) {
+  self = potion_fwd(self);
+  if (PN_STR_LEN(self) == 1)
+    return PN_NUM((unsigned char)PN_STR_PTR(self)[0]);
+  return potion_str_ord(P, cl, self, PN_ZERO);
+}
+
 PN potion_byte_str(Potion *P, const char *str) {
   return potion_byte_str2(P, str, strlen(str));
 }
@@ -550,6 +560,6 @@ void potion_str_init(Potion *P) {
   potion_method(byt_vt, "print", potion_bytes_print, 0);
   potion_method(byt_vt, "string", potion_bytes_string, 0);
   potion_method(byt_vt, "clone", potion_bytes_clone, 0);
-  potion_method(byt_vt, "ord", potion_str_ord, 0);
+  potion_method(byt_vt, "ord", potion_bytes_ord, 0);
   potion_method(byt_vt, "each", potion_bytes_each, "block=&");
 }
-- 
2.43.0


From c5c51d730f8371a11e81e251fe7fc150432120c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 062/120] fix: bsearch in an empty list read out of bounds

---
 core/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/table.c b/core/table.c
index b2ed02f..1c5b42e 100644
--- a/core/table.c
+++ b/core/table.c
@@ -733,7 +733,7 @@ PN potion_tuple_bsearch(Potion *P, PN cl, PN self, PN x) {
   struct PNTuple *t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
   PNUniq xu = PN_UNIQ(x);
-  long i = 0, j = t->len - 1;
+  long i = 0, j = (long)t->len - 1; // empty: -1
   while (i <= j) {
     long m = j + ((i - j) / 2);
     PNUniq u = PN_UNIQ(t->set[m]);
-- 
2.43.0


From ee1302954c47465290c0ce5656cc889889dc21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 063/120] fix: integer literals beyond 62 bits wrapped around
 to other integers (now doubles)

---
 core/number.c | 13 +++++++++++++
 core/potion.h |  1 +
 core/syntax.y |  2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/number.c b/core/number.c
index 29873ac..a87ffd9 100644
--- a/core/number.c
+++ b/core/number.c
@@ -8,6 +8,7 @@
 //
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
 #include <stdarg.h>
 #include <math.h>
 #include "potion.h"
@@ -30,6 +31,18 @@ PN potion_strtod(Potion *P, char *str, int len) {
   free(num);
   return potion_double(P, d);
 }
+/// decimal digits, as double if they do not fit an integer
+PN potion_strtoint(Potion *P, char *str, int len) {
+  char *num = strndup(str, len);
+  long n;
+  if (!num) potion_allocation_error();
+  errno = 0;
+  n = strtol(num, NULL, 10);
+  free(num);
+  if (errno == ERANGE || PN_INT(PN_NUM(n)) != n)
+    return potion_strtod(P, str, len);
+  return PN_NUM(n);
+}
 /**\memberof PNNumber
   "**" method.
   not static, needed in x86 jit.
diff --git a/core/potion.h b/core/potion.h
index 1e7233d..f23797e 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -866,6 +866,7 @@ PN potion_sig(Potion *, char *);
 int potion_sig_find(Potion *, PN, PN);
 PN potion_double(Potion *, double);
 PN potion_strtod(Potion *, char *, int);
+PN potion_strtoint(Potion *, char *, int);
 PN potion_num_pow(Potion *, PN, PN, PN);
 PN potion_num_rand(Potion *, PN, PN);
 PN potion_srand(Potion *, PN, PN, PN);
diff --git a/core/syntax.y b/core/syntax.y
index cf9249b..6574321 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -197,7 +197,7 @@ immed = nil   { $$ = PN_NIL; }
       | false { $$ = PN_FALSE; }
       | hex   { $$ = PN_NUM(PN_ATOI(yytext, yyleng, 16)) }
       | dec   { if ($$ == YY_TINT) {
-                  $$ = PN_NUM(PN_ATOI(yytext, yyleng, 10));
+                  $$ = potion_strtoint(P, yytext, yyleng);
                 } else {
                   $$ = potion_strtod(P, yytext, yyleng);
               } }
-- 
2.43.0


From 2d139b1b110743e446939e2fc2a2dfb5113db6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 064/120] fix: == of an object that moved more than once was
 false

---
 core/vm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 656e2a6..300ae86 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -440,8 +440,7 @@ PN potion_vm_eq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(PN_DBL(a) == PN_DBL(b));
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a == potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) == potion_fwd(b));
   } else {
     return PN_BOOL(a == b);
   }
@@ -451,8 +450,7 @@ PN potion_vm_neq(Potion *P, PN a, PN b) {
   if (PN_IS_DBL(a) && PN_IS_DBL(b)) {
     return PN_BOOL(((struct PNDouble *)a)->value != ((struct PNDouble *)b)->value);
   } else if (PN_IS_PTR(a)) {
-    PN_QUICK_FWD(PN, a);
-    return PN_BOOL(a != potion_fwd(b));
+    return PN_BOOL(potion_fwd(a) != potion_fwd(b));
   } else {
     return PN_BOOL(a != b);
   }
-- 
2.43.0


From 629e70b6c460757f2e2ff7409a52cdcceae84d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:02 +0000
Subject: [PATCH 065/120] fix: l[i] with a captured, negative or large index
 read another element

---
 core/compile.c | 13 +++++++++----
 core/vm-x86.c  |  6 +++++-
 core/vm.c      |  1 +
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index ee1df72..eafc6fe 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -380,9 +380,14 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
         PN_ASM2(opcode, reg, num);
         if (PN_VTYPE(key) == PN_TSTRING) { // a[k] a variable
-          num = PN_PUT(f->locals, key);
-          DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
-          PN_ASM2(OP_GETLOCAL, reg+1, num);
+          num = PN_UPVAL(key);
+          opcode = OP_GETUPVAL;
+          if (num == PN_NONE) {
+            num = PN_PUT(f->locals, key);
+            DBG_c("locals %s => %d\n", PN_STR_PTR(key), (int)num);
+            opcode = OP_GETLOCAL;
+          }
+          PN_ASM2(opcode, reg+1, num);
           num = reg+1;
           DBG_c("gettuple %d %d %s[%s]\n", reg, num, PN_STR_PTR(tpl), PN_STR_PTR(key));
           PN_ASM2(OP_GETTUPLE, reg, num | ASM_TPL_IMM);
@@ -395,7 +400,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
               num = PN_PUT(f->values, k);
               PN_ASM2(OP_LOADK, reg+1, num);
               DBG_c("values %ld => %d\n", PN_INT(k), (int)num);
-              num = reg + 1;
+              num = (reg + 1) | ASM_TPL_IMM;
               PN_REG(f, reg + 1);
             } else {
               num = PN_INT(k);
diff --git a/core/vm-x86.c b/core/vm-x86.c
index d6fbed5..9faafca 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -4,6 +4,7 @@ the x86 and x86_64 jit.
 
 (c) 2008 why the lucky stiff, the freelance professor
 (c) 2013-2015 perl11 org */
+#include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
@@ -603,7 +604,10 @@ void potion_x86_gettuple(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   ASM(0xFF); ASM(0xD0);				// callq %rax
   if (op.b & ASM_TPL_IMM) { // not immediate index. R(B-1024)
     X86_PRE();ASM(0x8b);ASM_MOV_EBP(0x55,op.b-ASM_TPL_IMM); // mov -B-1024(%rbp) %rdx
-    X86_PRE();ASMS("\xd1\xea");                // shr %rdx,1
+    X86_PRE();ASMS("\xd1\xfa");                // sar %rdx,1
+    ASM(0x79);ASM(X86C(5, 6, 0, 0));            // jns +6: not negative
+    ASM(0x8b);ASM(0x48);ASM(offsetof(struct PNTuple, len)); // mov len(%rax),%ecx
+    X86_PRE();ASMS("\x01\xca");                // add %rcx,%rdx: from the end
     //ASM(0xcc);                  // displacement: 0x90 or 0xd0
     X86_PRE();ASM(0x8b);ASM(0x44);ASM((5+PN_SIZE_T)<<4);ASM(0x10);// mov 0x10(%rax,%rdx,PN_SIZE_T),%rax
   } else { // immediate index B
diff --git a/core/vm.c b/core/vm.c
index 300ae86..adbb895 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -747,6 +747,7 @@ reentry:
           vPN(Tuple) tpl = (vPN(Tuple))potion_fwd(reg[op.a]);
           DBG_CHECK_TUPLE(tpl);
           long i = op.b & ASM_TPL_IMM ? PN_INT(reg[op.b - ASM_TPL_IMM]) : op.b;
+          if (i < 0) i += PN_TUPLE_LEN(tpl); // from the end
           reg[op.a] =  PN_TUPLE_AT(tpl, i);
       })
       CASE(SETTUPLE,
-- 
2.43.0


From 37a8965943e3041b3e986165d2ed54c9e336ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:48 +0000
Subject: [PATCH 066/120] fix: File write of an integer and of Bytes used
 tagged numbers

An integer was written with its tag applied twice, and Bytes with the tagged
length, which wrote bytes from beyond the object.
---
 core/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/file.c b/core/file.c
index 9b0127a..025a74b 100644
--- a/core/file.c
+++ b/core/file.c
@@ -131,7 +131,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
     else if (PN_IS_INT(obj)) {
-      tmp.l = PN_NUM(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
+      tmp.l = PN_INT(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
     }
     else if (PN_IS_BOOL(obj)) {
       tmp.c = (obj == PN_TRUE) ? 1 : 0; len = 1; ptr = (char *)&tmp.c;
@@ -142,7 +142,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = potion_send(obj, PN_STR("length")); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
-- 
2.43.0


From 7dba2aa5f12ef395d794b9e7b0dd1e0c29713662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 067/120] fix: BufFile write of a whole string wrote as many
 bytes as it has characters

---
 lib/buffile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index a596140..910c055 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -165,7 +165,8 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
-    size = potion_send(buf, PN_STR("length"));
+    if (PN_IS_STR(buf) || PN_TYPE(buf) == PN_TBYTES)
+      size = PN_NUM(PN_STR_LEN(buf)); // in bytes, not characters
     nitems = PN_NUM(1);
   }
   switch (PN_TYPE(buf)) {
-- 
2.43.0


From edc2949575144def9d7a304f6ddd43f5a98e52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:55 +0000
Subject: [PATCH 068/120] fix: BufFile kept a path the collector had moved or
 freed

---
 lib/buffile.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 910c055..a83d2e2 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -8,6 +8,7 @@
 #define __USE_XOPEN2K8
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 //#include <errno.h>
 #include "potion.h"
@@ -29,7 +30,7 @@ struct PNBufFile {
   PN_OBJECT_HEADER;
   PN_SIZE siz;
   FILE * file;
-  PN     path;
+  char * path; // a copy: the collector does not see into PNData
 };
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
@@ -42,12 +43,14 @@ const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  char *cpath;
   if (!(file = fopen(PN_STR_PTR(path), PN_STR_PTR(modestr))))
     return potion_io_error(P, "open");
+  cpath = strdup(PN_STR_PTR(path));
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = path;
+  self->path = cpath;
   return (PN)self;
 }
 /**\memberof Lobby
@@ -61,7 +64,7 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   self->file = tmpfile(); // CID 32134
   if (!self->file)
     return potion_io_error(P, "tmpfile");
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 /**\memberof PNBufFile
@@ -76,7 +79,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
     return potion_io_error(P, "fdopen");
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 
@@ -97,7 +100,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = stream->path;
+  self->path = stream->path ? strdup(stream->path) : NULL;
   return (PN)self;
 }
 
@@ -118,7 +121,7 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 #endif
@@ -242,7 +245,7 @@ PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
   if (fileno(self->file) != -1) fclose(self->file);
-  if (!self->path || unlink(PN_STR_PTR(self->path))) {
+  if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
   return PN_TRUE;
@@ -280,8 +283,8 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   int fd = fileno(self->file), rv;
   char *buf;
   PN str;
-  if (self->path != PN_NIL && fd != -1) {
-    rv = asprintf(&buf, "<buffile %s fd: %d>", PN_STR_PTR(self->path), fd);
+  if (self->path && fd != -1) {
+    rv = asprintf(&buf, "<buffile %s fd: %d>", self->path, fd);
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-- 
2.43.0


From 4ec6461801381bd8e23e68a772045c11d200b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:07 +0000
Subject: [PATCH 069/120] fix: operations on a closed BufFile used a freed
 stream

---
 lib/buffile.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index a83d2e2..9d8d87c 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -10,7 +10,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
-//#include <errno.h>
+#include <errno.h>
 #include "potion.h"
 
 #ifndef SANDBOX
@@ -33,6 +33,8 @@ struct PNBufFile {
   char * path; // a copy: the collector does not see into PNData
 };
 typedef vPN(BufFile) pn_ffile;
+#define CHECK_OPEN(self, msg) \
+  if (!(self)->file) { errno = EBADF; return potion_io_error(P, msg); }
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 
 /**\memberof PNBufFile
@@ -94,7 +96,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) ||
+  if ((PN_TYPE(stream) != PN_TUSER) || !stream->file ||
      !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
     return potion_io_error(P, "freopen");
   }
@@ -130,12 +132,17 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   \c flush and \c close a PNBufFile.
   \return PNInteger (0 or EOF) */
 PN potion_buffile_fclose(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fclose(self->file));
+  int r;
+  CHECK_OPEN(self, "fclose")
+  r = fclose(self->file);
+  self->file = NULL;
+  return PN_NUM(r);
 }
 /**\memberof PNBufFile
   \c read the next character from a PNBufFile
   \return PNInteger */
 PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "fgetc")
   return PN_NUM(fgetc(self->file));
 }
 /**\memberof PNBufFile
@@ -144,6 +151,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   char line[1024];
+  CHECK_OPEN(self, "fgets")
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
   return PN_NIL;
@@ -155,6 +163,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN(self, "fread")
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -167,6 +176,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  CHECK_OPEN(self, "fwrite")
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
     if (PN_IS_STR(buf) || PN_TYPE(buf) == PN_TBYTES)
       size = PN_NUM(PN_STR_LEN(buf)); // in bytes, not characters
@@ -188,6 +198,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
   \param byte PNInteger
   \return PNInteger */
 PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
+  CHECK_OPEN(self, "fputc")
   return PN_NUM(fputc(PN_INT(byte), self->file));
 }
 /**\memberof PNBufFile
@@ -196,6 +207,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
   \return PNInteger or PNError */
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   int r;
+  CHECK_OPEN(self, "fputs")
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
@@ -204,6 +216,7 @@ PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
    \c "fflush"
    \return true or PNError */
 PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "fflush")
   if (fflush(self->file))
     return potion_io_error(P, "fflush");
   return PN_TRUE;
@@ -214,6 +227,7 @@ PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
   \param whence PNInteger
   \return true or PNError */
 PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
+  CHECK_OPEN(self, "fseek")
   if (fseek(self->file, PN_INT(offset), PN_INT(whence)))
     return potion_io_error(P, "fseek");
   return PN_TRUE;
@@ -223,6 +237,7 @@ PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
    beginning of the file.
   \return PNInteger */
 PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "ftell")
   long r = ftell(self->file);
   if (r == -1)
     return potion_io_error(P, "ftell");
@@ -232,19 +247,22 @@ PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
    \c "feof" tests the end-of-file indicator for the stream.
    \return true or false */
 PN potion_buffile_feof(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "feof")
   int r = feof(self->file);
   return r ? PN_TRUE : PN_FALSE;
 }
 /**\memberof PNBufFile
    \c "fileno" \returns its integer file descriptor. */
 PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "fileno")
   return PN_NUM(fileno(self->file));
 }
 /**\memberof PNBufFile
    \c "unlink" the PNBufFile. close it if open.
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
-  if (fileno(self->file) != -1) fclose(self->file);
+  if (self->file) fclose(self->file);
+  self->file = NULL;
   if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
@@ -254,17 +272,20 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
 /**\memberof PNBufFile
    acquire for a thread ownership of a PNBufFile object */
 PN potion_buffile_flockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "flockfile")
   flockfile(self->file); return PN_TRUE;
 }
 /**\memberof PNBufFile
    non-blocking version of \see potion_buffile_flockfile().
   \returns 0 for success */
 PN potion_buffile_ftrylockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "ftrylockfile")
   return PN_NUM(ftrylockfile(self->file));
 }
 /**\memberof PNBufFile
    relinquish the ownership granted to the thread of a PNBufFile object */
 PN potion_buffile_funlockfile(Potion *P, PN cl, pn_ffile self) {
+  CHECK_OPEN(self, "funlockfile")
   funlockfile(self->file); return PN_TRUE;
 }
 #endif
@@ -280,7 +301,7 @@ PN potion_buffile_fprintf(Potion *P, PN cl, pn_ffile self, PN fmt, ...) {
 /**\memberof PNBufFile
   \c "string" method. some internal descr */
 PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
-  int fd = fileno(self->file), rv;
+  int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
   if (self->path && fd != -1) {
-- 
2.43.0


From 89866fa54fe05d5a3487adf8ebf082691c28b5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 070/120] fix: Database exec used its callback and query after
 the collector moved them

---
 lib/database.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index 7ae9920..a0bd01d 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -7,6 +7,8 @@
 #include "potion.h"
 #include <sqlite3.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #define PN_ALLOC(V,T)        (T * volatile)potion_gc_alloc(P, V, sizeof(T))
 
@@ -19,16 +21,11 @@ struct PNDatabase {
 };
 
 struct PNCallback {
-  PN_OBJECT_HEADER;
-  PN_SIZE siz;
   Potion *P;
   PN     cb;
 };
 
-const int CallbackSize = sizeof(struct PNCallback) - sizeof(struct PNData);
-
 PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path);
-PN potion_callback(Potion *P, PN closure);
 
 static int
 potion_database_callback(void *callback, int argc, char **argv, char **azColName) {
@@ -69,16 +66,17 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
   if (!PN_IS_STR(query)) {
     return PN_NIL;
   }
-  char *zErrMsg = 0;
+  char *zErrMsg = 0, *sql;
   int rc;
   struct PNDatabase *db = (struct PNDatabase *)self;
-  struct PNCallback *cb = (struct PNCallback*)potion_callback(P, callback);
+  struct PNCallback cb = { P, callback }; // on the stack, where the collector finds the closure
   if (db->db == NULL) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
-  rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, cb, &zErrMsg);
+  sql = strdup(PN_STR_PTR(query)); // the callback may move the query
+  rc = sqlite3_exec(db->db, sql, potion_database_callback, &cb, &zErrMsg);
+  free(sql);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
@@ -164,14 +162,6 @@ PN potion_sqlite_isopen(Potion *P, PN cl, PN self) {
   return db->db ? PN_TRUE : PN_FALSE;
 }
 
-PN potion_callback(Potion *P, PN closure) {
-  struct PNCallback *cb = (struct PNCallback *)potion_data_alloc(P, CallbackSize);
-  cb->siz = CallbackSize; // To help out GC
-  cb->P = P;
-  cb->cb = closure;
-  return (PN)cb;
-}
-
 void Potion_Init_database(Potion *P) {
   PN db_vt = potion_class(P, 0, 0, 0);
   PN_TDATABASE = potion_class_type(P, db_vt);
-- 
2.43.0


From 653faad085d3528afb71299fc67d8741469a174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 071/120] fix: write of Bytes that had grown was an error, for
 File and BufFile

---
 core/file.c   | 1 +
 lib/buffile.c | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/file.c b/core/file.c
index 025a74b..3da7656 100644
--- a/core/file.c
+++ b/core/file.c
@@ -127,6 +127,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   long len = 0;
   char *ptr = NULL;
   union { double d; long l; char c; } tmp;
+  obj = potion_fwd(obj); // Bytes which have grown
   //TODO: maybe extract ptr+len to seperate function
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
diff --git a/lib/buffile.c b/lib/buffile.c
index 9d8d87c..f65f389 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -118,6 +118,7 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
 PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   FILE *file;
   struct PNBufFile *self;
+  buf = potion_fwd(buf);
   if (!(file = fmemopen(PN_STR_PTR(buf), PN_STR_LEN(buf), PN_STR_PTR(modestr))))
     return potion_io_error(P, "fmemopen");
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
@@ -164,6 +165,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   CHECK_OPEN(self, "fread")
+  buf = potion_fwd(buf);
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -177,6 +179,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   CHECK_OPEN(self, "fwrite")
+  buf = potion_fwd(buf);
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
     if (PN_IS_STR(buf) || PN_TYPE(buf) == PN_TBYTES)
       size = PN_NUM(PN_STR_LEN(buf)); // in bytes, not characters
@@ -208,6 +211,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   int r;
   CHECK_OPEN(self, "fputs")
+  str = potion_fwd(str);
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
-- 
2.43.0


From d6058079cf93b36701a509012fb8d59bc889f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 072/120] fix: tables that keep deleting grew without bound
 (kh_resize always doubled)

---
 core/khash.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/khash.h b/core/khash.h
index b18b0b7..d36b084 100644
--- a/core/khash.h
+++ b/core/khash.h
@@ -78,7 +78,9 @@ static const double __kh_HASH_UPPER = 0.77;
     uint32_t *new_flags = 0;						\
     khint_t j = 1;							\
     {									\
-      new_n_buckets = h->n_buckets? h->n_buckets<<1 : 4;		\
+      if (!h->n_buckets) new_n_buckets = 4;				\
+      else if (new_n_buckets > h->n_buckets) new_n_buckets = h->n_buckets<<1; \
+      else new_n_buckets = h->n_buckets; /* rehash, drop the deleted */	\
       if (h->size >= (khint_t)(new_n_buckets * __kh_HASH_UPPER + 0.5)) j = 0; \
       else {								\
         nft = PN_DALLOC_N(uint32_t, __ac_fsize(new_n_buckets));		\
-- 
2.43.0


From dd4659752a1215e1a61535b19549a3bf1d5752a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 073/120] fix: load of a .pnb did not run it

---
 core/load.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/load.c b/core/load.c
index 6736585..14a293c 100644
--- a/core/load.c
+++ b/core/load.c
@@ -37,12 +37,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
   if (read(fd, PN_STR_PTR(buf), stats.st_size) == stats.st_size) {
     PN_STR_PTR(buf)[stats.st_size] = '\0';
     code = potion_source_load(P, PN_NIL, buf);
-    if (!PN_IS_PROTO(code)) {
-      result = potion_run(P, potion_send(
+    if (!PN_IS_PROTO(code))
+      code = potion_send(
 	  potion_parse(P, buf, (char *)filename),
-          PN_compile, potion_str(P, filename), PN_NIL),
-        POTION_JIT);
-    }
+          PN_compile, potion_str(P, filename), PN_NIL);
+    result = potion_run(P, code, POTION_JIT);
   } else {
     fprintf(stderr, "** could not read entire file: %s.", filename);
   }
-- 
2.43.0


From b6214287776313c8feec4ba1c17c7fb2a304176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 074/120] fix: load of a name with a dot cut the name and read
 past the path

---
 core/load.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/core/load.c b/core/load.c
index 14a293c..4a816c1 100644
--- a/core/load.c
+++ b/core/load.c
@@ -123,14 +123,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
     PN_SIZE prefix_len = PN_STR_LEN(prefix);
     char dirname[prefix_len + 1 + str_len + 1];
     char *str_pos = dirname + prefix_len + 1;
-    char *dot;
     const char *ext;
     memcpy(str_pos, str, str_len);
-    dot = memchr(str, '.', str_len);
-    if (dot == NULL)
-      dirname[sizeof(dirname) - 1] = '\0';
-    else
-      *dot = '\0';
+    dirname[sizeof(dirname) - 1] = '\0';
     memcpy(dirname, PN_STR_PTR(prefix), prefix_len);
     dirname[prefix_len] = '/';
     if (stat(dirname, &st) == 0 && S_ISREG(st.st_mode)) {
-- 
2.43.0


From 53fb33dc6789631f163ea59bfd19f22e70d336e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 075/120] fix: load of a/b from a/b/b.pn lost the extension,
 and wrote past the path

---
 core/load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/load.c b/core/load.c
index 4a816c1..81bb672 100644
--- a/core/load.c
+++ b/core/load.c
@@ -142,9 +142,9 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
         file++;
       if (asprintf(&r, "%s/%s", dirname, file) == -1) potion_allocation_error();
       if (stat(r, &st) != 0 || !S_ISREG(st.st_mode)) {
-        int r_len = prefix_len + 1 + str_len * 2 + 1;
+        int r_len = strlen(r);
         if ((ext = find_extension(r)) == NULL) { free(r); r = NULL; continue; }
-        r = realloc(r, r_len + strlen(ext));
+        r = realloc(r, r_len + strlen(ext) + 1);
         if (r == NULL) potion_allocation_error();
         strcpy(r + r_len, ext);
       }
-- 
2.43.0


From 87e0cb08846b817b28a6c2da25668da0f1f5e214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 076/120] fix: a library in a directory with a dot in its name
 could not be loaded

---
 core/load.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/load.c b/core/load.c
index 81bb672..3c52995 100644
--- a/core/load.c
+++ b/core/load.c
@@ -50,19 +50,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
 }
 
 static char *potion_initializer_name(Potion *P, const char *filename, PN_SIZE len) {
-  PN_SIZE ext_name_len = 0;
-  char *allocated_str, *ext_name, *func_name;
-  while (*(filename + ++ext_name_len) != '.' && ext_name_len <= len);
-  allocated_str = ext_name = malloc(ext_name_len + 1);
-  if (allocated_str == NULL) potion_allocation_error();
-  strncpy(ext_name, filename, ext_name_len);
-  ext_name[ext_name_len] = '\0';
-  ext_name += ext_name_len;
-  while (*--ext_name != '/' && ext_name >= allocated_str);
-  ext_name++;
-  if (asprintf(&func_name, "Potion_Init_%s", ext_name) == -1)
+  const char *name = strrchr(filename, '/');
+  char *func_name;
+  name = name ? name + 1 : filename;
+  if (asprintf(&func_name, "Potion_Init_%.*s", (int)strcspn(name, "."), name) == -1)
     potion_allocation_error();
-  free(allocated_str);
   return func_name;
 }
 
-- 
2.43.0


From e77e834120cad439a62996981a118a43723aca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 077/120] fix: a class made in a method had the object as its
 parent class

---
 core/objmodel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index a96bf27..5afb797 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -257,7 +257,8 @@ void potion_type_constructor_is(PN vt, PN cl) {
 ///\param self: PNVtable the parent class, lobby or another type
 ///\param ivars: PNTuple of object members
 PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
-  PN parent = ((!self || self == P->lobby) ? PN_VTABLE(PN_TOBJECT) : self);
+  // a class made in a method: self is no class there
+  PN parent = ((self == P->lobby || !PN_IS_PTR(self) || PN_TYPE(self) != PN_TVTABLE) ? PN_VTABLE(PN_TOBJECT) : self);
   PN pvars = ((struct PNVtable *)parent)->ivars;
   PNType t = PN_FLEX_SIZE(P->vts) + PN_TNIL;
   PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
-- 
2.43.0


From 25ac5c8c4d7d55f808af5c02b4b47451e3e123f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 078/120] fix: a collection cut the last words off the stack a
 continuation holds

---
 core/callcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/callcc.c b/core/callcc.c
index 564ef22..f9980d4 100644
--- a/core/callcc.c
+++ b/core/callcc.c
@@ -125,7 +125,7 @@ PN potion_callcc(Potion *P, PN cl, PN self) {
     return 0;
   }
   cc = PN_ALLOC_N(PN_TCONT, struct PNCont, sizeof(PN) * (n + 3 + PN_SAVED_REGS));
-  cc->len = n + 3;
+  cc->len = n + 3 + PN_SAVED_REGS;
   cc->stack[0] = (PN)sp1;
   cc->stack[1] = (PN)sp2;
   cc->stack[2] = (PN)sp3;
-- 
2.43.0


From 222c09139839410b06ed702bdcbf67f13da1a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 079/120] fix: an action with no text before it saw memory
 never written, or the text of an earlier call

---
 tools/compile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index c880216..008f79c 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -215,7 +215,7 @@ static void Node_compile_c_ko(Node *node, int ko)
       pindent(); fprintf(output, "  if (!yy_%s(G)) ", node->name.rule->rule.name);
       pindent(); fprintf(output, "  goto l%d;\n", ko);
       if (node->name.variable) {
-	pindent(); fprintf(output, "  yyDo(G, yySet, %d, 0, \"yySet %s\");\n",
+	pindent(); fprintf(output, "  yyDo(G, yySet, %d, -1, \"yySet %s\");\n",
                            node->name.variable->variable.offset, node->name.rule->rule.name);
       }
       break;
@@ -434,7 +434,7 @@ static void Rule_compile_c2(Node *node)
       fprintf(output, "\nYY_RULE(int) yy_%s(GREG *G)\n{", node->rule.name);
       if (!safe) save(0);
       if (node->rule.variables)
-	fprintf(output, "  yyDo(G, yyPush, %d, 0, \"yyPush\");\n", countVariables(node->rule.variables));
+	fprintf(output, "  yyDo(G, yyPush, %d, -1, \"yyPush\");\n", countVariables(node->rule.variables));
       fprintf(output, "  yyprintfv((stderr, \"%%s\\n\", \"%s\"));\n", node->rule.name);
       Node_compile_c_ko(node->rule.expression, ko);
       if (!memcmp("utf",node->rule.name,3)
@@ -450,7 +450,7 @@ static void Rule_compile_c2(Node *node)
       else
         fprintf(output, "  yyprintfokrule(\"%s\");\n", node->rule.name);
       if (node->rule.variables)
-	fprintf(output, "  yyDo(G, yyPop, %d, 0, \"yyPop\");\n", countVariables(node->rule.variables));
+	fprintf(output, "  yyDo(G, yyPop, %d, -1, \"yyPop\");\n", countVariables(node->rule.variables));
       fprintf(output, "  return 1;");
       if (!safe)
 	{
@@ -777,7 +777,7 @@ YY_LOCAL(void) yyDone(GREG *G)\n\
   int pos;\n\
   for (pos= 0;  pos < G->thunkpos;  ++pos) {\n\
     yythunk *thunk= &G->thunks[pos];\n\
-    int yyleng= thunk->end ? yyText(G, thunk->begin, thunk->end) : thunk->begin;\n\
+    int yyleng= thunk->end != -1 ? yyText(G, thunk->begin, thunk->end) : thunk->begin;\n\
     yyprintfv((stderr, \"DO [%d] %s %d\", pos, thunk->name, thunk->begin));\n\
     yyprintfvTcontext(G->text);\n\
     yyprintfv((stderr, \"\\n\"));\n\
-- 
2.43.0


From 601e2c267eacee7c1f800f3d084be1ebd73f8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 080/120] fix: an escaped minus in a greg class made a range

---
 tools/compile.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/compile.c b/tools/compile.c
index 008f79c..fed0edd 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -165,17 +165,18 @@ static char *makeCharClass(unsigned char *cclass)
       memset(bits, 0, 32);
       set= charClassSet;
     }
-  while (0 != (c= readChar(&cclass)))
+  while (*cclass)
     {
-      if ('-' == c && *cclass && prev >= 0)
+      if ('-' == *cclass && cclass[1] && prev >= 0)
 	{
+	  ++cclass;
 	  for (c= readChar(&cclass); prev <= c; ++prev)
 	    set(bits, prev);
 	  prev= -1;
 	}
       else
   {
-    set(bits, prev= c);
+    set(bits, prev= readChar(&cclass));
   }
     }
 
-- 
2.43.0


From 2b93dc78a9d195d4de80769eaae876e46794c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 081/120] fix: a quote in a greg literal of several characters
 was not escaped in the C string

---
 tools/compile.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/compile.c b/tools/compile.c
index fed0edd..f801cfb 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -237,7 +237,17 @@ static void Node_compile_c_ko(Node *node, int ko)
 	  if (2 == len && '\\' == node->string.value[0])
 	    fprintf(output, "  if (!yymatchChar(G, '%s')) goto l%d;\n", node->string.value, ko);
 	  else
-	    fprintf(output, "  if (!yymatchString(G, \"%s\")) goto l%d;\n", node->string.value, ko);
+	    {
+	      char *s;
+	      fprintf(output, "  if (!yymatchString(G, \"");
+	      for (s= node->string.value;  *s;  ++s)
+		{
+		  if ('"' == *s) fputc('\\', output);
+		  else if ('\\' == *s && s[1]) fputc(*s++, output);
+		  fputc(*s, output);
+		}
+	      fprintf(output, "\")) goto l%d;\n", ko);
+	    }
       }
       break;
 
-- 
2.43.0


From f918824917976e074683f94835618e3d73b9f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 082/120] fix: yyqq did not count the first character, and
 wrote past its buffer

---
 tools/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/compile.c b/tools/compile.c
index f801cfb..7cd97dd 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -103,7 +103,7 @@ static char *yyqq(char* s) {
   char *d = s;
   char *dst;
   int sl = 0, dl = 0;
-  while (*s++) {
+  for (; *s; s++) {
     dl++; sl++;
     if (*s==7||*s==8||*s==9||*s==11||*s==12||*s==13||*s==27||*s==34||*s==92||*s=='%') { dl++; } // escape with '\'
     else if (*s==10) { dl += 3; }        // \n\^J
-- 
2.43.0


From 7fc074c21711005d1505932d2fcbe9466d17d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:54 +0000
Subject: [PATCH 083/120] fix: the defaults 46, 58 and 124 were printed as
 signature marks

---
 core/compile.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index eafc6fe..d36a30d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -70,7 +70,7 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
       PN_SIZE i, comma=0;
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
-	if (PN_IS_INT(v)) {
+	if (PN_IS_INT(v) && !nextdef) {
           // currently types are still encoded as NUM, TODO: support VTABLE also
 	  int c = PN_INT(v); comma=0;
 	  if (c == '.')      // is end
@@ -82,11 +82,7 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
 	  }
 	  else {
 	    if (comma++) pn_printf(P, out, ",");
-	    if (nextdef) { nextdef = 0;
-	      pn_printf(P, out, "=");
-	      potion_bytes_obj_string(P, out, v);
-	    } else
-	      pn_printf(P, out, "=%c", c);
+	    pn_printf(P, out, "=%c", c);
 	  }
 	} else {
 	  if (comma++) pn_printf(P, out, ",");
-- 
2.43.0


From 775eddcd80ac16a0d3734cddf986f420018e883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 084/120] fix: parent of a value on the heap read its data as a
 class

---
 core/objmodel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 5afb797..dbc98a9 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -627,7 +627,7 @@ PN potion_lobby_kind(Potion *P, PN cl, PN self) {
  global \c "parent" method
  \return the parent of self */
 PN potion_lobby_parent(Potion *P, PN cl, PN self) {
-  if (!PN_IS_PTR(self) || self == P->lobby)
+  if (PN_TYPE(self) != PN_TVTABLE || self == P->lobby)
     self = potion_lobby_kind(P, cl, self);
   PNType t = ((struct PNVtable *)self)->parent;
   if(!PN_TYPECHECK(t))
-- 
2.43.0


From 87cca5200231e4b928e459fb1a6a20b154f40ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 085/120] fix: isa? and subclass? read their argument as a
 class before checking that it is one

---
 core/objmodel.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index dbc98a9..a1616fa 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -566,8 +566,9 @@ PN potion_object_size(Potion *P, PN cl, PN self) {
  \return returns TRUE or FALSE if the object has the same type as the class */
 PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t  = PN_TYPE(self);
-  PNType t1 = vtable->type;
+  PNType t1;
   PN_CHECK_TYPE(vtable, PN_TVTABLE);
+  t1 = vtable->type;
   if (!PN_TYPECHECK(t1)) return potion_type_error(P, (PN)vtable);
   if (PN_IS_PTR(self) && !PN_TYPECHECK(t)) return potion_type_error(P, self);
   return t == t1  ? PN_TRUE : PN_FALSE;
@@ -579,6 +580,7 @@ PN potion_lobby_isa(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
 PN potion_object_subclass(Potion *P, PN cl, PN self, vPN(Vtable) vtable) {
   PNType t = PN_TYPE(self);
   PNType t0, p;
+  PN_CHECK_TYPE(vtable, PN_TVTABLE);
   if (potion_lobby_isa(P, cl, self, vtable) == PN_TRUE) return PN_TRUE;
   if (!PN_IS_PTR(self))
     return vtable->type == PN_TNUMBER
-- 
2.43.0


From ecbe4980c7bb2b738661043b14f9d1209ec656cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:55 +0000
Subject: [PATCH 086/120] fix: size of a value that is no pointer followed it
 as one

---
 core/objmodel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index a1616fa..7c7bb99 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -554,10 +554,10 @@ PN potion_object_new(Potion *P, PN cl, PN self) {
    Note that older versions just returned a raw integer, which made it unusable as method. */
 PN potion_object_size(Potion *P, PN cl, PN self) {
   vPN(Object) obj = (struct PNObject *)self;
-  if (!PN_TYPECHECK(PN_VTYPE(obj)))
-    return PN_ZERO;
   if (!PN_IS_PTR(obj))
     return PN_NUM(sizeof(PN));
+  if (!PN_TYPECHECK(PN_VTYPE(obj)))
+    return PN_ZERO;
   return PN_NUM(sizeof(struct PNObject)
                 + (((struct PNVtable *)PN_VTABLE(obj->vt))->ivlen * sizeof(PN)));
 }
-- 
2.43.0


From 468cc472a47bdf80b0f9963da3089b71f3186b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 087/120] fix: messages sent to a list at the start of an
 operand were dropped

---
 core/compile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index d36a30d..ec43d92 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -185,7 +185,8 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   if (reg >= PN_INT(f->stack)) \
     f->stack = PN_NUM(reg + 1)
 #define PN_ARG(n, reg) \
-  if (PN_PART(t->a[n]) == AST_EXPR && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST) { \
+  if (PN_PART(t->a[n]) == AST_EXPR && PN_TUPLE_LEN(PN_S(t->a[n],0)) == 1 \
+      && PN_PART(PN_TUPLE_AT(PN_S(t->a[n],0), 0)) == AST_LIST) { /* a group, unless it is sent messages */ \
     PN test = PN_S(PN_TUPLE_AT(PN_S(t->a[n],0), 0), 0);			\
     if (!PN_IS_NIL(test)) {						\
       DBG_c("expr (list %s) => %s\n", AS_STR(test), AS_STR(test));	\
-- 
2.43.0


From 003bbf46e9ec14c7a6f9729f8cfcd7859001fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 088/120] fix: the type or default of the first optional
 parameter took the place of its name

---
 core/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index ec43d92..406dc14 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1014,7 +1014,7 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 	  //x|y=o => (assign (pipe (expm x) (expm y)) (expm o))
 	  SIG_EXPR_MSG(name, lhs->a[0]);
 	  sig = PN_PUSH(sig, PN_NUM('|'));
-	  rhs = lhs->a[1];
+	  SIG_EXPR_MSG(name, lhs->a[1]);
 	  DBG_c("; (%s | ", AS_STR(name));
 	} else {
 	  potion_syntax_error(P, t, "in signature: unexpected AST %s", AS_STR(lhs));
-- 
2.43.0


From 0b0de8640275073e6d9c9d362b21c21547dd0013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 089/120] fix: an untyped optional parameter after a typed one
 was refused, and its default was dropped

---
 core/compile.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index 406dc14..3d5ec4a 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1042,7 +1042,16 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 	    v = PN_NUM(PN_STR_PTR(v)[0]); // = type. TODO: one-char => VTABLE
 	    DBG_c("%s)\n", AS_STR(v));
 	    sig = PN_PUSH(sig, v);
-          }
+          } else if (rhs->part == AST_VALUE) {  // :=default
+	    sig = PN_PUSH(PN_PUSH(sig, PN_NUM(':')), PN_S(rhs,0));
+	  }
+	} else if (rhs->part == AST_PIPE) {
+          //x=N|y => (assign (expm x) (pipe (expm N) (expm y)))
+	  lhs = rhs->a[0];
+	  if (lhs->part == AST_EXPR && SRC_TUPLE_AT(lhs,0)->part == AST_MSG)
+	    sig = PN_PUSH(sig, PN_NUM(PN_STR_PTR(PN_S(SRC_TUPLE_AT(lhs,0),0))[0]));
+	  sig = PN_PUSH(sig, PN_NUM('|'));
+	  SIG_EXPR_MSG(name, rhs->a[1]);
 	} else if (rhs->part == AST_VALUE) {    // :=default
 	  PN v = PN_S(rhs,0);
 	  DBG_c(": %s)\n", AS_STR(v));
-- 
2.43.0


From 3c1127347be3f04871210a7f737f172cdf3beb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 090/120] fix: a method called with a group as its argument did
 not get it

---
 core/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index 3d5ec4a..0003abd 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -820,7 +820,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 #define LOAD_ARG() PN_ARG_TABLE(PN_S(t,1), breg, 1)
           if (arg) {
             u8 part1 = PN_PART(PN_S(t,1));
-            if (part1 == AST_VALUE || (part1 == AST_LIST && PN_S(t,2) == PN_NIL)) {
+            if (part1 == AST_VALUE || part1 == AST_EXPR || (part1 == AST_LIST && PN_S(t,2) == PN_NIL)) {
               LOAD_ARG();
             }
           }
-- 
2.43.0


From 8a04671568271ef2a2949086b8e971bbb1e893fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 091/120] fix: an item without a key after one with a key was
 pushed on the table as on a list

---
 core/compile.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 0003abd..66d0988 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -904,6 +904,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
     case AST_LIST:
       PN_ASM1(OP_NEWTUPLE, reg);
       if (PN_S(t,0) != PN_NIL) {
+        int table = 0, pos = 0; // a keyed item makes it a table, the others get their index as key
         PN_TUPLE_EACH(PN_S(t,0), i, v, {
 	  PN_ASM_DEBUG(reg, PN_SRC(v));
           if (PN_PART(v) == AST_ASSIGN) { //potion only: (k=v, ...)
@@ -926,10 +927,19 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
             potion_source_asmb(P, f, loop, 0, PN_SRC(v)->a[1], reg + 2);
             PN_ASM2(OP_SETTABLE, reg, reg + 2);
             PN_REG(f, reg + 2);
+            table = 1;
+          } else if (table) {
+            potion_source_asmb(P, f, loop, 0, PN_SRC(v), reg + 2);
+            PN_SIZE num = PN_PUT(f->values, PN_NUM(pos));
+            PN_ASM2(OP_LOADK, reg + 1, num);
+            PN_ASM2(OP_SETTABLE, reg, reg + 2);
+            PN_REG(f, reg + 2);
+            pos++;
           } else {
             potion_source_asmb(P, f, loop, 0, PN_SRC(v), reg + 1);
             PN_ASM2(OP_SETTUPLE, reg, reg + 1);
             PN_REG(f, reg + 1);
+            pos++;
           }
         });
       }
-- 
2.43.0


From abdb07fb8a2a6908a73f4889b616a786428a60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:07 +0000
Subject: [PATCH 092/120] fix: the register of a constructor was not counted, a
 class could overwrite a local variable

---
 core/compile.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index 66d0988..368e34b 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -652,7 +652,6 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_class) {
-        int breg = reg;
         if (count == 0)
           PN_ASM1(OP_SELF, reg);
         if (PN_S(t,2) != PN_NIL) {
-- 
2.43.0


From 14b93ab48f7ca184673219858009e93a20a6aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 093/120] fix: of several modules given with -M or -d only the
 last was loaded

---
 core/potion.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 61b847b..3f4c640 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -252,18 +252,14 @@ done:
 
 char * addmodule(Potion *P, char *result, char *prefix, char *name) {
   char *args = strchr(name, '=');
-  PN out = potion_bytes(P, 0);
+  char *out = NULL;
   if (args) *args++ = '\0';
-  if (prefix) {
-    pn_printf(P, out, "load \"%s/%s\"\n", prefix, name);
-  } else {
-    pn_printf(P, out, "load \"%s\"\n", name);
-  }
-  if (args)
-    pn_printf(P, out, "%s(%s)\n", name, args);
-  else
-    pn_printf(P, out, "%s()\n", name);
-  return PN_STR_PTR(out);
+  if (asprintf(&out, "%sload \"%s%s%s\"\n%s(%s)\n", result ? result : "",
+               prefix ? prefix : "", prefix ? "/" : "", name,
+               name, args ? args : "") == -1)
+    potion_allocation_error();
+  free(result);
+  return out;
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From c1bb6561a417b08f3f654e75bd337eb34973b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 094/120] fix: -Ldirectory was no option and -L without a
 directory crashed

---
 core/potion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 3f4c640..46a6481 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -284,7 +284,7 @@ int main(int argc, char *argv[]) {
     if (!strcmp(argv[i], "--")) { i++; break; }
     if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "--inspect")) {
       P->flags |= DEBUG_INSPECT; continue; }
-    if (!strcmp(argv[i], "-L")) {
+    if (!strncmp(argv[i], "-L", 2)) {
 #ifdef SANDBOX
     potion_fatal("-L disabled in SANDBOX");
 #else
@@ -292,7 +292,7 @@ int main(int argc, char *argv[]) {
       if (*extra_path)
 	potion_loader_add(P, potion_str(P, extra_path));
       else {
-	if (i == argc) {
+	if (i + 1 == argc) {
 	    fprintf(stderr, "-L missing directory\n");
 	    goto END;
 	}
-- 
2.43.0


From a657620342c86e5a16846f70fe6fa36a3120cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 095/120] fix: the code after -e was taken as an option or
 argument too, and modules after it were not loaded

---
 core/potion.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 46a6481..d573330 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -365,17 +365,13 @@ int main(int argc, char *argv[]) {
       if (argv[i][1] == 'e') {
         char *arg;
         if (strlen(argv[i]) == 2) {
-          arg = argv[i+1];
-        } else if (i <= argc) {
+          if (++i == argc) // or go into interactive mode?
+            potion_fatal("Missing argument for -e");
+          arg = argv[i];
+        } else {
           arg = argv[i]+2;
-        } else { // or go into interactive mode?
-          potion_fatal("Missing argument for -e");
-          goto END;
         }
-	if (addmodules)
-	  buf = potion_strcat(P, addmodules, arg);
-	else
-	  buf = potion_str(P, arg);
+	buf = potion_str(P, arg);
         continue;
       } else {
         fprintf(stderr, "** Unrecognized option: %s\n", argv[i]);
@@ -386,7 +382,9 @@ int main(int argc, char *argv[]) {
     }
   }
   P->flags = P->flags + exec;
-  
+  if (buf && addmodules)
+    buf = potion_strcat(P, addmodules, PN_STR_PTR(buf));
+
   if (buf || i < argc) {
     PN args = PN_TUP0();
     if (buf == PN_NIL) { fn = argv[i++]; PN_PUSH(args, PN_STR(fn)); }
-- 
2.43.0


From 8ae054e077d23c56aed34dbeb07041409bf4ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:05 +0000
Subject: [PATCH 096/120] fix: compiling to bytecode with a long file name
 overwrote the stack, an unknown target had no file name

---
 core/potion.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index d573330..bd34f62 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -166,7 +166,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     potion_fatal("fatal: stack corruption (exec > MAX_EXEC)\n");
 
   if (exec == EXEC_COMPILE) { // needs an inputfile. TODO: -e"" -ofile
-    char outpath[255];
+    char *outpath = NULL;
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
@@ -178,12 +178,11 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 	//TODO check -o for outpath
       }
     }
-    if (!compile || !strcmp(compile, "bc"))
-      sprintf(outpath, "%sb", filename);  // .pnb
-    else if (!strcmp(compile, "c"))
-      sprintf(outpath, "%s.c", filename); // .pn.c
-    else if (!strcmp(compile, "exe"))
-      sprintf(outpath, "%s.out", filename); // TODO: strip ext
+    if (asprintf(&outpath, "%s%s%s", filename,
+                 !compile || !strcmp(compile, "bc") ? "b" : ".", // .pnb
+                 !compile || !strcmp(compile, "bc") ? ""
+                 : !strcmp(compile, "exe") ? "out" : compile) == -1) // TODO: strip ext
+      potion_allocation_error();
     opts = c_opts
       ? pn_printf(P, potion_bytes(P,0), "%s,-o%s", c_opts, outpath)
       : potion_strcat(P, "-o", outpath);
@@ -191,6 +190,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     pnb = fopen(outpath, "wb");
     if (!pnb) {
       fprintf(stderr, "** could not open %s for writing. check permissions.\n", outpath);
+      free(outpath);
       goto done;
     }
     if (!compile)
@@ -215,6 +215,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 	      compile?compile:"bytecode", written, code?PN_STR_LEN(code):0, outpath);
     }
     fclose(pnb);
+    free(outpath);
   }
 
 #if defined(DEBUG)
-- 
2.43.0


From a0b5f87dae7e977189099c38ae62c8dfb55d20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 097/120] fix: -M with a bytecode file gave a syntax error

---
 core/potion.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/potion.c b/core/potion.c
index bd34f62..d76d48f 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -109,6 +109,11 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     // TODO: mmap instead of read all
     if (read(fd, bufptr, stats.st_size) == stats.st_size) {
       PN_STR_PTR(buf)[size] = '\0';
+      if (addcode && !strncmp(bufptr, POTION_SIG, 4)) { // no source to add to
+        if (exec < EXEC_CHECK)
+          potion_eval(P, potion_byte_str(P, addcode));
+        buf = potion_byte_str2(P, PN_STR_PTR(buf) + strlen(addcode), stats.st_size);
+      }
     } else {
       fprintf(stderr, "** could not read entire file.");
       goto done;
-- 
2.43.0


From d8f7fd3736cc542d4bd8482defdb02113e518069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:32 +0000
Subject: [PATCH 098/120] fix: after a syntax error potion waited for and ate a
 line of the program's standard input

---
 tools/compile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/compile.c b/tools/compile.c
index 7cd97dd..bb73ff6 100644
--- a/tools/compile.c
+++ b/tools/compile.c
@@ -513,6 +513,7 @@ static char *preamble= "\
 #define YY_NAME(N) yy##N\n\
 #endif\n\
 #ifndef YY_INPUT\n\
+#define YY_INPUT_FILE\n\
 #define YY_INPUT(buf, result, max_size)			\\\n\
   {							\\\n\
     int yyc= fgetc(G->input);				\\\n\
@@ -680,11 +681,13 @@ YY_LOCAL(void) yyerror(struct _GREG *G, char *message)\n\
 	if ('\\n' == G->buf[G->pos] || '\\r' == G->buf[G->pos]) break;\n\
 	fputc(G->buf[G->pos++], stderr);\n\
       }\n\
+#ifdef YY_INPUT_FILE\n\
       if (G->pos == G->limit) {\n\
 	int c;\n\
 	while (EOF != (c= fgetc(G->input)) && '\\n' != c && '\\r' != c)\n\
 	  fputc(c, stderr);\n\
       }\n\
+#endif\n\
       fputc('\\\"', stderr);\n\
   }\n\
   fprintf(stderr, \" at %s:%d\\n\", G->filename, G->lineno);\n\
-- 
2.43.0


From 11ed0dc17af04e73304c3d39774579e4fcad4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:38 +0000
Subject: [PATCH 099/120] fix: modules were not loaded at the prompt

---
 core/potion.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/potion.c b/core/potion.c
index d76d48f..7139129 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -407,6 +407,8 @@ int main(int argc, char *argv[]) {
     PN args = PN_TUP0();
     PN_PUSH(args, PN_STR(""));
     potion_define_global(P, PN_STR("argv"), args);
+    if (addmodules)
+      potion_eval(P, potion_byte_str(P, addmodules));
     potion_eval(P, potion_byte_str(P,
       "load 'readline'\n" \
       "loop:\n" \
-- 
2.43.0


From 77d6fce1694e23d5a6940388ae34aecbf86f8bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:20 +0000
Subject: [PATCH 100/120] fix: rand of a number, a double below 1, was always 0

---
 core/mt19937ar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mt19937ar.c b/core/mt19937ar.c
index 516fa78..eb8bbb4 100644
--- a/core/mt19937ar.c
+++ b/core/mt19937ar.c
@@ -180,5 +180,5 @@ PN potion_rand(Potion *P, PN cl, PN self) {
  \return PNDouble in [0.0,0.1]-interval
  \sa potion_rand for long, potion_srand. */
 PN potion_num_rand(Potion *P, PN cl, PN self) {
-  return PN_NUM(potion_rand_double());
+  return potion_double(P, potion_rand_double());
 }
-- 
2.43.0


From c8bf1733d74514bce499f08881d6a4ad850230f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:29 +0000
Subject: [PATCH 101/120] fix: a collection while a method is defined could
 leave the class with a lost method table

---
 core/objmodel.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 7c7bb99..b73e4e1 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -358,9 +358,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   PN cl;
   vPN(Vtable) vt = (struct PNVtable *)self;
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
-  unsigned k = kh_put(PN, vt->methods, key, &ret);
-  PN_QUICK_FWD(struct PNTable *, vt->methods);
-  PN_TOUCH(vt->methods);
+  unsigned k;
 
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
@@ -378,6 +376,9 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
     PN_CLOSURE(method)->name = key;
   PN_TOUCH(method);
 
+  // nothing may be allocated from here on: the new slot is empty, and vt not yet touched
+  k = kh_put(PN, vt->methods, key, &ret);
+  PN_QUICK_FWD(struct PNTable *, vt->methods);
   kh_val(PN, vt->methods, k) = method;
   PN_TOUCH(vt->methods);
   PN_TOUCH(self);
-- 
2.43.0


From 6c891bceb6db23a8eb08ce913599df8ad8bb778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:29 +0000
Subject: [PATCH 102/120] fix: the text of an error was not the same string as
 an equal one

---
 core/string.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/string.c b/core/string.c
index bb99aef..9bedf3e 100644
--- a/core/string.c
+++ b/core/string.c
@@ -79,7 +79,7 @@ PN potion_strcat(Potion *P, char *str, char *str2) {
 }
 
 PN potion_str_format(Potion *P, const char *format, ...) {
-  vPN(String) s;
+  PN str;
   PN_SIZE len;
   char *buf;
   va_list args;
@@ -92,11 +92,9 @@ PN potion_str_format(Potion *P, const char *format, ...) {
   va_start(args, format); // the allocation may move the args
   vsnprintf(buf, len + 1, format, args);
   va_end(args);
-  s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
-  PN_MEMCPY_N(s->chars, buf, char, len + 1);
+  str = potion_str2(P, buf, len);
   free(buf);
-  s->len = len;
-  return (PN)s;
+  return str;
 }
 
 ///\memberof PNString
-- 
2.43.0


From 4637059d7fb24b58febf3ed74c8cda9090bf7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:51 +0000
Subject: [PATCH 103/120] fix: a false comparison in registers 16 to 31 crashed
 the jit

---
 core/vm-x86.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 9faafca..b968ab3 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -136,7 +136,7 @@ the x86 and x86_64 jit.
 // TODO optimize j? true, set false, jmp true, set true
 //   => movzbl %al,edx;lea 0x2(,%rdx,4),%rdx;mov %rdx,-A(%rbp)
 #define X86_NUMCMP(iop, xop, xmms)                                         \
-        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_;			\
+        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_, end_;		\
         X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.a)	/* mov -A(%rbp) %rdx */ \
         X86_MOV_RBP(0x8B, op.b); 			/* mov -B(%rbp) %rax */ \
         ASMS("\xA8\x01");		 		/* test $1, %al */ \
@@ -170,9 +170,10 @@ the x86 and x86_64 jit.
 	TAG_LABEL(cmp_dbl); ASMS(xmms);			/* ucomisd xmm0<=>xmm1; */ \
         TAG_PREP(true_2); ASM(xop); ASM(0);        	/* j? [true] */   \
         TAG_LABEL(false_); X86_MOVQ(op.a, PN_FALSE); 	/* false: -A(%rbp) = FALSE */ \
-        ASM(0xEB); ASM(X86C(7,14, 1,op.a));		/* jmp [+true] */ \
+        TAG_PREP(end_); ASM(0xEB); ASM(0);		/* jmp [end] */ \
         TAG_LABEL(true_1); TAG_LABEL(true_2); \
-        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */
+        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */ \
+        TAG_LABEL(end_);
 
 #if 0
 // eq/neq: cmp 2 atoms. cmp the dbl value if both are double or the immediate words.
-- 
2.43.0


From fd71423bd8e845f71d169015402c3dfb1d38c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:58 +0000
Subject: [PATCH 104/120] fix: a collection while a program with --v is
 compiled crashed

---
 core/compile.c | 5 +++--
 core/syntax.y  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 368e34b..5f82796 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -560,8 +560,9 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       if (PN_IS_INT(PN_S(t,1))) {
         breg++;
         PN_ASM2(OP_MOVE, breg, reg);
-      }
-      PN_ASM2(OP_LOADPN, breg + 1, (PN_S(t,1) | PN_FINTEGER));
+        PN_ASM2(OP_LOADPN, breg + 1, PN_S(t,1));
+      } else
+        PN_ASM2(OP_LOADPN, breg + 1, PN_S(t->a[1],0));
       PN_ASM2(OP_ADD, breg, breg + 1);
       PN_ASM2(opcode, breg, num);
       PN_REG(f, breg + 1);
diff --git a/core/syntax.y b/core/syntax.y
index 6574321..6c7976d 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -135,8 +135,8 @@ expr = ( not a:expr           { a = PN_AST(NOT, a) }
        | wavy a:expr          { a = PN_AST(WAVY, a) }
        | minus !minus a:atom  { a = PN_OP(AST_MINUS, PN_AST(VALUE, PN_ZERO), a) }
        | plus !plus a:atom    { a = PN_OP(AST_PLUS, PN_AST(VALUE, PN_ZERO), a) }
-       | mminus a:atom        { a = PN_OP(AST_INC, a, PN_NUM(-1) ^ 1) }
-       | pplus a:atom         { a = PN_OP(AST_INC, a, PN_NUM(1) ^ 1) }
+       | mminus a:atom        { a = PN_OP(AST_INC, a, PN_AST(VALUE, PN_NUM(-1))) }
+       | pplus a:atom         { a = PN_OP(AST_INC, a, PN_AST(VALUE, PN_NUM(1))) }
        | a:atom (pplus          { a = PN_OP(AST_INC, a, PN_NUM(1)) }
                | mminus         { a = PN_OP(AST_INC, a, PN_NUM(-1)) })?) { a = PN_TUP(a) }
          (c:call { a = PN_PUSH(a, c) })*
-- 
2.43.0


From c17f4f6701c652ee73221b467fabf97a8ea681f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 105/120] fix: the VM passes 0..4, true and false as the object
 of a method

In the VM a function called from C with one of the small numbers or a
boolean as the object was taken for a call without self, also where the
caller does pass self: a string method defined on Boolean or Number did
not see what it was called on.
---
 core/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index adbb895..763be2d 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -167,7 +167,8 @@ PN potion_vm_proto(Potion *P, PN cl, PN self, ...) {
     va_list args;
     ary = PN_TUP0();
     va_start(args, self);
-    if (self < 10) {
+    // without optional args it is just the value of a method of numbers, true or false
+    if (self < 10 && minargs < arity) {
       numargs = self;
       self = 0;
     }
-- 
2.43.0


From 0376ac751f2c807e1a2fd6d75ee1ad79e6101edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 106/120] fix: a string as a default value in the signature of
 a C function crashed

potion_sig had no buffer for the text of the string.
---
 core/syntax.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/syntax.y b/core/syntax.y
index 6c7976d..9b3f0fd 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -460,7 +460,8 @@ PN potion_sig(Potion *P, char *fmt) {
   P->yypos = 0;
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
-  P->pbuf = NULL;
+  if (!P->pbuf) // for string defaults
+    P->pbuf = potion_asm_new(P);
 #ifdef YY_DEBUG
   yydebug = P->flags;
 #endif
-- 
2.43.0


From c4edf231f069abea57308a1f2f94c7ce6a1736ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:07 +0000
Subject: [PATCH 107/120] fix: cmp of objects, tables and functions without an
 order of their own recursed for ever

---
 core/primitive.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/primitive.c b/core/primitive.c
index 18f18ad..5c00747 100644
--- a/core/primitive.c
+++ b/core/primitive.c
@@ -24,9 +24,13 @@ static PN potion_any_is_nil(Potion *P, PN closure, PN self) {
   \param value PN
   \return PNInteger -1 if less, 0 if equal or 1 if greater */
 PN potion_any_cmp(Potion *P, PN cl, PN self, PN value) {
-  return (self == P->lobby)
-    ? ((value == P->lobby) ? PN_NUM(0) : PN_NUM(1)) // Lobby is greater than anything
-    : potion_send(self, PN_cmp, value);
+  self = potion_fwd(self);
+  value = potion_fwd(value);
+  if (self == value) return PN_ZERO;
+  if (self == P->lobby || value == P->lobby) // Lobby is greater than anything
+    return PN_NUM(self == P->lobby ? 1 : -1);
+  // no order of its own: ordered by identity
+  return PN_NUM(PN_UNIQ(self) < PN_UNIQ(value) ? -1 : 1);
 }
 /** memberof NilKind
  "cmp" method. nil is 0 or "" or FALSE as cmp context
-- 
2.43.0


From 11b615c7ae4dc489234dc3a83a770bd8c6ba5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:43 +0000
Subject: [PATCH 108/120] fix: a large environment crashed the start: a
 collection before the system's objects are protected

---
 core/internal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/internal.c b/core/internal.c
index 8eca187..77a5f2a 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -108,13 +108,15 @@ static void potion_init(Potion *P) {
   potion_lick_init(P);
   potion_compiler_init(P);
 #ifndef SANDBOX
-  potion_file_init(P);
   potion_loader_init(P);
 #endif
 
   pn_filenames = PN_TUP0();
 
   GC_PROTECT(P);
+#ifndef SANDBOX
+  potion_file_init(P); // not before: a large environment needs collections
+#endif
 }
 
 Potion *potion_create(void *sp) {
-- 
2.43.0


From 11081255e1485d92f1d2945346039d34c5c244d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:52 +0000
Subject: [PATCH 109/120] fix: the message nil? could not be written: nil was
 read as a value

---
 core/syntax.y | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index 9b3f0fd..a6f4a81 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -257,9 +257,9 @@ or = ("||" | "or" !utfw) --
 not = ("!" | "not" !utfw) --
 keyword = ("and" | "or" | "not") !utfw
 
-nil = "nil" !utfw
-true = "true" !utfw
-false = "false" !utfw
+nil = "nil" !utfw !'?'
+true = "true" !utfw !'?'
+false = "false" !utfw !'?'
 hexl = [0-9A-Fa-f]
 hex = '0x' < hexl+ >
 # wrong x-1 parsing precedence, whitespace #75
-- 
2.43.0


From 8cbe053e9926eb1074f50a1d723b2e61fe6578ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:19 +0000
Subject: [PATCH 110/120] fix: a name that begins with extern was read as the
 word extern

---
 core/syntax.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index a6f4a81..cfe2671 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -148,9 +148,9 @@ call = (n:name { v = PN_NIL; b = PN_NIL; } (v:value | v:list)? (b:block | b:clos
        (v:value | v:list) { n = PN_AST(MSG, PN_NIL); b = PN_NIL; } b:block?)
          { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b); PN_TOUCH(n) }
 
-extern = "extern" - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
+extern = "extern" !utfw !'?' - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
          { $$ = PN_AST2(MSG, PN_extern, PN_PUSH(PN_TUP(n), P->source)) }
-       | "extern" - n:name
+       | "extern" !utfw !'?' - n:name
          { $$ = PN_AST2(MSG, PN_extern, PN_TUP(n)) }
 
 name = p:path           { $$ = PN_AST(PATH, p) }
-- 
2.43.0


From dd9c0f792c5029bdca8c2701647cfdd793534938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:50 +0000
Subject: [PATCH 111/120] fix: with more than 65536 classes the JIT took
 objects for closures or classes

The JIT compares types by their low 16 bits. Compare the other word as well.
---
 core/vm-x86.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index b968ab3..400721a 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -63,10 +63,13 @@ the x86 and x86_64 jit.
         X86_PRE(); ASM(0xb8); ASMN((PN)(x)); 			/* movq x, %rax */ \
         X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x45,reg)	       	/* movq %rax, -A(%rbp) */
 #endif
-// compare the type of the object in %eax. Only the low word: with the whole type
-// as immediate the collector might take a pointer into the code for an object
+// compare the type of the object in %eax, word by word: with the whole type as
+// immediate the collector might take a pointer into the code for an object. size = 13
 #define X86_CMP_TYPE(t)  ASM(0x66); ASM(0x81); ASM(0x38);       \
-        ASM((t) & 0xff); ASM(((t) >> 8) & 0xff)		/* cmpw t, (%eax) */
+        ASM((t) & 0xff); ASM(((t) >> 8) & 0xff); 	/* cmpw t, (%eax) */ \
+        ASM(0x75); ASM(6);				/* jnz +6 */ \
+        ASM(0x66); ASM(0x81); ASM(0x78); ASM(2);	\
+        ASM(((t) >> 16) & 0xff); ASM(((t) >> 24) & 0xff) /* cmpw t>>16, 2(%eax) */
 #define TAG_PREP(tag)    tag = (*asmp)->len + 1
 #define TAG_LABEL(tag)   (*asmp)->ptr[tag] = ((*asmp)->len - tag - 1)
 #define TAG_JMPTO(tag)   TAG_LABEL(tag)
@@ -516,9 +519,9 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x8B, regs + op.b); 		// mov %ebp(B) %eax
   if (up) { // upvals need to be deref'd
     ASMS("\xF6\xC0\x01" 		// test 0x1 %al
-	 "\x75"); ASM(X86C(18,19, 0,0)); 		// jnz a
+	 "\x75"); ASM(X86C(26,27, 0,0)); 		// jnz a
     ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 	// test REFMASK %eax
-    ASM(0x74); ASM(X86C(10,11, 0,0)); 		// jz a
+    ASM(0x74); ASM(X86C(18,19, 0,0)); 		// jz a
     X86_CMP_TYPE(PN_TWEAK); 			// cmpw WEAK (%eax)
     ASM(0x75); ASM(X86C(3,4, 0,0)); 		// jnz a
     X86_PRE(); ASM(0x8B); ASM(0x40);
-- 
2.43.0


From 661c4ad04065e20ffd4cbe5a001ea96a9dcbb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 112/120] fix: readline hung on a terminal of unknown width

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f66f676..c7e5a7a 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -367,7 +367,7 @@ static int getColumns(void) {
 #else
     struct winsize ws;
 
-    if (ioctl(1, TIOCGWINSZ, &ws) == -1) return 80;
+    if (ioctl(1, TIOCGWINSZ, &ws) == -1 || ws.ws_col == 0) return 80;
     return ws.ws_col;
 #endif
 }
-- 
2.43.0


From 8a3253372b8290de98aab53d805c97c1be2ad4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 113/120] fix: ctrl-d did not remove the last character of the
 line

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index c7e5a7a..df2992d 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -575,7 +575,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             }
             break;
         case 4:     /* ctrl-d, remove char at right of cursor */
-            if (len > 1 && pos < (len-1)) {
+            if (pos < len) {
                 memmove(buf+pos,buf+pos+1,len-pos);
                 len--;
                 buf[len] = '\0';
-- 
2.43.0


From c0788d09cb09c2883eecdfa4581cad671ac2c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 114/120] fix: readline lost the key after the delete key, and
 keys whose bytes arrived one by one

---
 lib/readline/linenoise.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index df2992d..7f5a098 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -500,6 +500,16 @@ void linenoiseClearScreen(void) {
     }
 }
 
+/* The rest of an escape sequence: it may arrive byte by byte, or with keys that
+ * were typed after it. */
+static int readBytes(int fd, char *seq, int n) {
+    int i;
+
+    for (i = 0; i < n; i++)
+        if (read(fd,seq+i,1) <= 0) return -1;
+    return 0;
+}
+
 static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt) {
     size_t plen = strlen(prompt);
     size_t pos = 0;
@@ -607,7 +617,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             goto up_down_arrow;
             break;
         case 27:    /* escape sequence */
-            if (read(fd,seq,2) == -1) break;
+            if (readBytes(fd,seq,2) == -1) break;
             if (seq[0] == 91 && seq[1] == 68) {
 left_arrow:
                 /* left arrow */
@@ -646,7 +656,7 @@ up_down_arrow:
                 }
             } else if (seq[0] == 91 && seq[1] > 48 && seq[1] < 55) {
                 /* extended escape */
-                if (read(fd,seq2,2) == -1) break;
+                if (readBytes(fd,seq2,1) == -1) break;
                 if (seq[1] == 51 && seq2[0] == 126) {
                     /* delete */
                     if (len > 0 && pos < len) {
-- 
2.43.0


From 81b2ac70a0f59ea57851bc4786e1d5fdf91b83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 115/120] fix: readline kept a line given up in its history,
 and gave empty lines at the end of the input

---
 lib/readline/linenoise.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 7f5a098..75de625 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -542,7 +542,11 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
 #else
         nread = read(fd,&c,1);
 #endif
-        if (nread <= 0) return (int)len;
+        if (nread <= 0) { /* the end: what was typed until then, if anything */
+            history_len--;
+            free(history[history_len]);
+            return len ? (int)len : -1;
+        }
 
         /* Only autocomplete when the callback is set. It returns < 0 when
          * there was an error reading from fd. Otherwise it will return the
@@ -561,6 +565,8 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             free(history[history_len]);
             return (int)len;
         case 3:     /* ctrl-c */
+            history_len--;
+            free(history[history_len]);
             errno = EAGAIN;
             return -1;
         case 127:   /* backspace */
-- 
2.43.0


From 4c38671e3eff6228b6ef7807b2909c23b4db174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:11 +0000
Subject: [PATCH 116/120] fix: readline added all of its history again with
 every line

---
 lib/readline/readline.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 920d595..f4eabb9 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -4,11 +4,16 @@
 #include "linenoise.h"
 
 PN pn_readline(Potion *P, PN cl, PN self, PN start) {
-  char *line = linenoise(PN_STR_PTR(start));
+  static int loaded = 0;
+  char *line;
   PN r;
+  if (!loaded) {
+    linenoiseHistoryLoad("history.txt");
+    loaded = 1;
+  }
+  line = linenoise(PN_STR_PTR(start));
   if (line == NULL) return PN_NIL;
 
-  linenoiseHistoryLoad("history.txt");
   linenoiseHistoryAdd(line);
   linenoiseHistorySave("history.txt");
   r = potion_str(P, line);
-- 
2.43.0


From 1801fe1d82fdf33826e580efae96919a1e243666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:37 +0000
Subject: [PATCH 117/120] fix: with an empty prompt the cursor at the start of
 the line was shown one off

---
 lib/readline/linenoise.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 75de625..a34006c 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -401,7 +401,9 @@ static void refreshLine(int fd, const char *prompt, char *buf, size_t len, size_
     snprintf(seq,64,"\x1b[0K");
     if (write(fd,seq,strlen(seq)) == -1) return;
     /* Move cursor to original position. */
-    snprintf(seq,64,"\x1b[0G\x1b[%dC", (int)(pos+plen));
+    snprintf(seq,64,"\x1b[0G");
+    if (pos+plen > 0) /* 0 would move it by one */
+        snprintf(seq,64,"\x1b[0G\x1b[%dC", (int)(pos+plen));
     if (write(fd,seq,strlen(seq)) == -1) return;
 #else
 
-- 
2.43.0


From 9c0df1843de344f3b6e61d14d9d996c76d6b176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:37 +0000
Subject: [PATCH 118/120] fix: readline split long lines of piped input, and of
 its history file

---
 lib/readline/linenoise.c | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index a34006c..6c361a7 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -246,6 +246,29 @@ char *strdup(const char *s) {
 
 #endif /*   _WIN32    */
 
+/* The next line, of any length, without its newline. NULL at the end. */
+static char *readLine(FILE *fp) {
+    size_t siz = LINENOISE_MAX_LINE, len = 0;
+    char *more, *line = malloc(siz);
+
+    if (line == NULL) return NULL;
+    while (fgets(line+len,(int)(siz-len),fp) != NULL) {
+        len += strlen(line+len);
+        if (len && line[len-1] == '\n') {
+            line[--len] = '\0';
+            return line;
+        }
+        if (len+1 == siz) {
+            if ((more = realloc(line,siz*2)) == NULL) break;
+            line = more;
+            siz *= 2;
+        }
+    }
+    if (len) return line;
+    free(line);
+    return NULL;
+}
+
 static int isUnsupportedTerm(void) {
 #ifndef _WIN32
     char *term = getenv("TERM");
@@ -753,19 +776,10 @@ static int linenoiseRaw(char *buf, size_t buflen, const char *prompt) {
         errno = EINVAL;
         return -1;
     }
-    if (!isatty(STDIN_FILENO)) {
-        if (fgets(buf, (int)buflen, stdin) == NULL) return -1;
-        count = (int)strlen(buf);
-        if (count && buf[count-1] == '\n') {
-            count--;
-            buf[count] = '\0';
-        }
-    } else {
-        if (enableRawMode(fd) == -1) return -1;
-        count = linenoisePrompt(fd, buf, buflen, prompt);
-        disableRawMode(fd);
-        printf("\n");
-    }
+    if (enableRawMode(fd) == -1) return -1;
+    count = linenoisePrompt(fd, buf, buflen, prompt);
+    disableRawMode(fd);
+    printf("\n");
     return count;
 }
 
@@ -785,6 +799,8 @@ char *linenoise(const char *prompt) {
             buf[len] = '\0';
         }
         return strdup(buf);
+    } else if (!isatty(STDIN_FILENO)) {
+        return readLine(stdin);
     } else {
         count = linenoiseRaw(buf,LINENOISE_MAX_LINE,prompt);
         if (count == -1) return NULL;
@@ -871,17 +887,17 @@ int linenoiseHistorySave(char *filename) {
  * on error -1 is returned. */
 int linenoiseHistoryLoad(char *filename) {
     FILE *fp = fopen(filename,"r");
-    char buf[LINENOISE_MAX_LINE];
+    char *buf;
     
     if (fp == NULL) return -1;
 
-    while (fgets(buf,LINENOISE_MAX_LINE,fp) != NULL) {
+    while ((buf = readLine(fp)) != NULL) {
         char *p;
         
         p = strchr(buf,'\r');
-        if (!p) p = strchr(buf,'\n');
         if (p) *p = '\0';
         linenoiseHistoryAdd(buf);
+        free(buf);
     }
     fclose(fp);
     return 0;
-- 
2.43.0


From a9c122e6a85089c53e353bda34158c66bbb5af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:59 +0000
Subject: [PATCH 119/120] fix: the method send of objects never got its
 argument

---
 core/objmodel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index b73e4e1..c8074d6 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -720,7 +720,7 @@ void potion_object_init(Potion *P) {
   potion_method(clo_vt, "minargs", potion_closure_minargs, 0);
   potion_method(ref_vt, "string", potion_ref_string, 0);
   potion_method(obj_vt, "forward", potion_object_forward, 0);
-  potion_method(obj_vt, "send", potion_object_send, 0);
+  potion_method(obj_vt, "send", potion_object_send, "method=o");
   potion_method(obj_vt, "string", potion_object_string, 0);
   potion_method(obj_vt, "size", potion_object_size, 0);
   potion_method(obj_vt, "subclass?", potion_object_subclass, "value=o");
-- 
2.43.0


From 9c39be6197f21f0ef9b39b48af019f7fd693e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:38:32 +0000
Subject: [PATCH 120/120] fix: clone of a function's code gave one that crashed

---
 core/compile.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 5f82796..06c3c7e 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1132,31 +1132,41 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
 /// shares name, tree. copies the rest
 PN potion_proto_clone(Potion *P, PN cl, PN self) {
   vPN(Proto) f = (struct PNProto *)self;
-  vPN(Proto) n = PN_ALLOC(PN_TPROTO, struct PNProto);
+  vPN(Proto) n;
   PN PN_clone = PN_STR("clone");
   PNAsm * volatile asmb;
+  PN protos, paths, locals, upvals, values, debugs, sig;
   PN len;
 
   //TODO extern protos
+  protos = potion_send(f->protos, PN_clone);
+  paths  = potion_send(f->paths, PN_clone);
+  locals = potion_send(f->locals, PN_clone);
+  upvals = potion_send(f->upvals, PN_clone);
+  values = potion_send(f->values, PN_clone);
+  debugs = potion_send(f->debugs, PN_clone);
+  sig    = PN_IS_TUPLE(f->sig) ? potion_send(f->sig, PN_clone) : f->sig;
+  len = ((PNAsm *)f->asmb)->len;
+  PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
+  PN_MEMCPY_N(asmb->ptr, ((PNAsm *)f->asmb)->ptr, u8, len);
+  asmb->len = len;
+
+  n = PN_ALLOC(PN_TPROTO, struct PNProto);
   n->name = f->name;
   n->source = f->source;
   n->stack = f->stack;
-  n->protos = potion_send(PN_clone, f->protos);
-  n->paths  = potion_send(PN_clone, f->paths);
-  n->locals = potion_send(PN_clone, f->locals);
-  n->upvals = potion_send(PN_clone, f->upvals);
-  n->values = potion_send(PN_clone, f->values);
-  n->debugs = potion_send(PN_clone, f->debugs);
+  n->protos = protos;
+  n->paths  = paths;
+  n->locals = locals;
+  n->upvals = upvals;
+  n->values = values;
+  n->debugs = debugs;
   n->tree   = f->tree;
   n->localsize = f->localsize;
   n->upvalsize = f->upvalsize;
   n->pathsize = f->pathsize;
-  n->sig = PN_IS_TUPLE(f->sig) ? potion_send(PN_clone, f->sig) : f->sig;
-
-  len = ((PNAsm *)f->asmb)->len;
-  PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
-  PN_MEMCPY_N(asmb->ptr, ((PNAsm *)f->asmb)->ptr, u8, len);
-  asmb->len = len;
+  n->sig = sig;
+  n->arity = f->arity;
   n->asmb = (PN)asmb;
 
   return (PN)n;
-- 
2.43.0

