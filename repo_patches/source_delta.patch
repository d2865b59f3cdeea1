From f249ca8733ee42233edc97d344040caea0d04d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 01/30] fix: set the result's type only after the operands of
 add, sub and the bitwise operations were converted

In-place calls such as Fr_add(&x, &x, &y) with a short and a Montgomery operand overwrote the type
of the operand before converting it.
---
 src/add.asm.ejs        |  8 ++--
 src/binops.asm.ejs     | 17 +++-----
 src/fr_generic.cpp.ejs | 99 ++++++++++++++----------------------------
 src/sub.asm.ejs        |  8 ++--
 4 files changed, 48 insertions(+), 84 deletions(-)

diff --git a/src/add.asm.ejs b/src/add.asm.ejs
index eed3d22..bfc9ee4 100644
--- a/src/add.asm.ejs
+++ b/src/add.asm.ejs
@@ -137,8 +137,8 @@ add_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     add_l1ms2m
 add_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ms2m:
@@ -158,8 +158,8 @@ add_s1l2m:
         bt     rax, 62          ; check if montgomery first
         jc     add_s1ml2m
 add_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_s1ml2m:
@@ -178,16 +178,16 @@ add_l1nl2n:
 <%=     addL1L2()         %>
 
 add_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     add_l1ml2m
 add_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     addL1L2()         %>
 
 add_l1ml2m:
diff --git a/src/binops.asm.ejs b/src/binops.asm.ejs
index 68d2b8d..e9fcffa 100644
--- a/src/binops.asm.ejs
+++ b/src/binops.asm.ejs
@@ -56,9 +56,9 @@
         ret
 
 <%=s1s2_solveNeg%>:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.toLong_b() %>
 <%=     global.toLong_a() %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 
@@ -69,6 +69,7 @@
         cmp    eax, 0
         <% const s1l2_solveNeg = global.tmpLabel() %>
         js     <%=s1l2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         <%=op%> rax, [rdx +8]
         mov    [rdi+8], rax
 <%   for (let i=1; i<n64; i++) { %>
@@ -98,6 +99,7 @@
         cmp    ecx, 0
         <% const l1s2_solveNeg = global.tmpLabel() %>
         js     <%=l1s2_solveNeg%>
+<%=     global.setTypeDest("0x80"); %>
         movsx  rax, ecx
         <%=op%> rax, [rsi +8]
         mov    [rdi+8], rax
@@ -178,11 +180,9 @@
         bt     rax, 62          ; check if montgomery first
         jc     <%=op%>_l1ms2
 <%=op%>_l1ns2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1S2(op)       %>
 
 <%=op%>_l1ms2:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     binOpL1S2(op)       %>
 
@@ -191,11 +191,9 @@
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_s1l2m
 <%=op%>_s1l2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     binOpS1L2(op)       %>
 
 <%=op%>_s1l2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
 <%=     binOpS1L2(op)       %>
 
@@ -210,22 +208,22 @@
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1nl2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2:
         bt     rcx, 62          ; check if montgomery first
         jc     <%=op%>_l1ml2m
 <%=op%>_l1ml2n:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 
 <%=op%>_l1ml2m:
-<%=     global.setTypeDest("0x80"); %>
 <%=     global.fromMont_a()       %>
 <%=     global.fromMont_b()       %>
+<%=     global.setTypeDest("0x80"); %>
 <%=     binOpL1L2(op)       %>
 <% } %>
 
@@ -249,8 +247,6 @@
         push   rsi
         push   rdx
         mov    rbp, rsp
-        <%=     global.setTypeDest("0x80"); %>
-
         mov     rax, [rsi]
         bt      rax, 63          ; Check if is long operand
         jc      bnot_l1
@@ -266,6 +262,7 @@ bnot_l1m:
 <%=     global.fromMont_a()       %>
 
 bnot_l1n:
+<%=     global.setTypeDest("0x80"); %>
 <%   for (let i=0; i<n64; i++) { %>
         mov    rax, [rsi + <%= i*8 + 8 %>]
         not    rax
diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 2cd5a6d..14d7e84 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -370,12 +370,11 @@ static inline void sub_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -387,12 +386,11 @@ static inline void sub_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void sub_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -412,22 +410,20 @@ static inline void sub_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void sub_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawSub(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawSub(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void sub_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -560,12 +556,11 @@ static inline void add_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element a_m;
     <%=name%>_toMontgomery(&a_m, a);
 
     <%=name%>_rawAdd(r->longVal, a_m.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -576,12 +571,11 @@ static inline void add_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void add_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element b_m;
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -603,21 +597,19 @@ static inline void add_l1ms2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 {
     <%=name%>Element b_m;
 
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>_toMontgomery(&b_m, b);
 
     <%=name%>_rawAdd(r->longVal, a->longVal, b_m.longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_s1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONGMONTGOMERY;
-
     <%=name%>Element m_a;
     <%=name%>_toMontgomery(&m_a, a);
 
     <%=name%>_rawAdd(r->longVal, m_a.longVal, b->longVal);
+    r->type = <%=name%>_LONGMONTGOMERY;
 }
 
 static inline void add_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1441,8 +1433,6 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1450,6 +1440,7 @@ static inline void and_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -1460,18 +1451,15 @@ static inline void and_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void and_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1479,22 +1467,20 @@ static inline void and_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -1507,12 +1493,11 @@ static inline void and_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1528,12 +1513,11 @@ static inline void and_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -1549,12 +1533,11 @@ static inline void and_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -1567,6 +1550,7 @@ static inline void and_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawAnd(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 // Ands two elements of any kind
@@ -1992,8 +1976,6 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2001,12 +1983,11 @@ static inline void or_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>E
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2022,12 +2003,11 @@ static inline void or_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2040,12 +2020,11 @@ static inline void or_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2058,12 +2037,11 @@ static inline void or_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2079,6 +2057,7 @@ static inline void or_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     }
 
     <%=name%>_rawOr(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2089,28 +2068,24 @@ static inline void or_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
 
 static inline void or_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2118,6 +2093,7 @@ static inline void or_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawOr(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 
@@ -2182,8 +2158,6 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
         return;
     }
 
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2191,12 +2165,11 @@ static inline void xor_s1s2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>
     <%=name%>_toLongNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
 
     if (a->shortVal >= 0)
@@ -2209,12 +2182,11 @@ static inline void xor_s1l2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2230,12 +2202,11 @@ static inline void xor_s1l2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
 
     if (b->shortVal >= 0)
@@ -2248,12 +2219,11 @@ static inline void xor_l1ns2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2269,6 +2239,7 @@ static inline void xor_l1ms2(P<%=name%>Element r, P<%=name%>Element a, P<%=name%
     }
 
     <%=name%>_rawXor(r->longVal, b_n.longVal, a_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2279,28 +2250,24 @@ static inline void xor_l1nl2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name
 
 static inline void xor_l1nl2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element b_n;
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a->longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2n(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>_toNormal(&a_n, a);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b->longVal);
+    r->type = <%=name%>_LONG;
 }
 
 static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
 {
-    r->type = <%=name%>_LONG;
-
     <%=name%>Element a_n;
     <%=name%>Element b_n;
 
@@ -2308,6 +2275,7 @@ static inline void xor_l1ml2m(P<%=name%>Element r, P<%=name%>Element a, P<%=name
     <%=name%>_toNormal(&b_n, b);
 
     <%=name%>_rawXor(r->longVal, a_n.longVal, b_n.longVal);
+    r->type = <%=name%>_LONG;
 }
 
 void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element b)
@@ -2364,8 +2332,6 @@ void <%=name%>_bxor(P<%=name%>Element r, P<%=name%>Element a, P<%=name%>Element
 
 void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 {
-    r->type = <%=name%>_LONG;
-
     if (a->type == <%=name%>_LONG)
     {
         if (a->type & <%=name%>_MONTGOMERY)
@@ -2387,4 +2353,5 @@ void <%=name%>_bnot(P<%=name%>Element r, P<%=name%>Element a)
 
         <%=name%>_rawNot(r->longVal, a_n.longVal);
     }
+    r->type = <%=name%>_LONG;
 }
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index e50b974..2db6a1d 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -144,8 +144,8 @@ sub_l1ms2:
         bt     rcx, 62          ; check if montgomery second
         jc     sub_l1ms2m
 sub_l1ms2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ms2m:
@@ -165,8 +165,8 @@ sub_s1l2m:
         bt     rax, 62          ; check if montgomery second
         jc     sub_s1ml2m
 sub_s1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a()       %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_s1ml2m:
@@ -185,16 +185,16 @@ sub_l1nl2n:
 <%=     subL1L2()         %>
 
 sub_l1nl2m:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_a(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2:
         bt     rcx, 62          ; check if montgomery seconf
         jc     sub_l1ml2m
 sub_l1ml2n:
-<%=     global.setTypeDest("0xC0"); %>
 <%=     global.toMont_b(); %>
+<%=     global.setTypeDest("0xC0"); %>
 <%=     subL1L2()         %>
 
 sub_l1ml2m:
-- 
2.43.0


From d4a18bd0a6803436ba9dab7f7c766e3e8e587149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 02/30] fix: rawNegLS computes -a-b also when the result is a
 itself

Fr_sub(&x, &s, &x) with a negative short s and a long x returned -s mod q plus garbage.
---
 src/fr_raw_generic.cpp.ejs |  9 ++-------
 src/sub.asm.ejs            | 33 ++++-----------------------------
 2 files changed, 6 insertions(+), 36 deletions(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index e13bbb1..6182dc8 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -81,13 +81,8 @@ void <%=name%>_rawNeg(<%=name%>RawElement pRawResult, const <%=name%>RawElement
 //  Substracts a long element and a short element form 0
 void <%=name%>_rawNegLS(<%=name%>RawElement pRawResult, <%=name%>RawElement pRawA, uint64_t rawB)
 {
-    uint64_t carry1 = mpn_sub_1(pRawResult, <%=name%>_rawq, <%=name%>_N64, rawB);
-    uint64_t carry2 = mpn_sub_n(pRawResult, pRawResult, pRawA, <%=name%>_N64);
-
-    if (carry1 || carry2)
-    {
-        mpn_add_n(pRawResult, pRawResult, <%=name%>_rawq, <%=name%>_N64);
-    }
+    <%=name%>_rawAddLS(pRawResult, pRawA, rawB);
+    <%=name%>_rawNeg(pRawResult, pRawResult);
 }
 
 void <%=name%>_rawCopy(<%=name%>RawElement pRawResult, const <%=name%>RawElement pRawA)
diff --git a/src/sub.asm.ejs b/src/sub.asm.ejs
index 2db6a1d..f8cde5c 100644
--- a/src/sub.asm.ejs
+++ b/src/sub.asm.ejs
@@ -315,36 +315,11 @@ rawSubLL_done:
 ;
 ;   [rdi] = -[rsi] - rdx
 ; Modified Registers:
-;    rax
+;    rax, rsi
 ;;;;;;;;;;;;;;;;;;;;;;
 rawNegLS:
-        mov rax, [q]
-        sub rax, rdx
-        mov [rdi], rax
-<% for (let i=1; i<n64; i++) { %>
-        mov rax, [q + <%=i*8%> ]
-        sbb rax, 0
-        mov [rdi + <%=i*8%>], rax
-<% } %>
-        setc dl
-
-<% for (let i=0; i<n64; i++) { %>
-        mov rax, [rdi + <%=i*8%> ]
-        <%= i==0 ? "sub" : "sbb" %> rax, [rsi + <%=i*8%>]
-        mov [rdi + <%=i*8%>], rax
-<% } %>
-
-        setc dh
-        or dl, dh
-        jz rawNegSL_done
-
-        ; it is a negative value, so add q
-<% for (let i=0; i<n64; i++) { %>
-        mov rax, [q + <%=i*8%>]
-        <%= i==0 ? "add" : "adc" %> [rdi + <%=i*8%>], rax
-<% } %>
-
-rawNegSL_done:
-        ret
+        call rawAddLS           ; [rdi] = [rsi] + rdx, rsi may be rdi
+        mov rsi, rdi
+        jmp rawNegL             ; [rdi] = -[rdi]
 
 
-- 
2.43.0


From d66403f925c92c595801fa3aa678ad95d18209c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 03/30] fix: generic rawShl by 64 bits or more in place copied
 already overwritten limbs

---
 src/fr_raw_generic.cpp.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fr_raw_generic.cpp.ejs b/src/fr_raw_generic.cpp.ejs
index 6182dc8..f980a97 100644
--- a/src/fr_raw_generic.cpp.ejs
+++ b/src/fr_raw_generic.cpp.ejs
@@ -313,7 +313,7 @@ void <%=name%>_rawShl(<%=name%>RawElement r, <%=name%>RawElement a, uint64_t b)
     uint64_t word_shift = b / 64;
     uint64_t word_count = <%=name%>_N64 - word_shift;
 
-    mpn_copyi(r + word_shift, a, word_count);
+    mpn_copyd(r + word_shift, a, word_count);
     std::memset(r, 0, word_shift * sizeof(uint64_t));
 
     if (bit_shift)
-- 
2.43.0


From 6e54fd46c8b9a0e430386e80f5f3cdebcdf46eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 04/30] fix: asm rawSwap stored an unrelated register instead
 of the first operand

---
 src/copy.asm.ejs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy.asm.ejs b/src/copy.asm.ejs
index 989e927..a780cbe 100644
--- a/src/copy.asm.ejs
+++ b/src/copy.asm.ejs
@@ -69,7 +69,7 @@
         mov     rax, [rsi + <%= i*8 %>]
         mov     rcx, [rdi + <%= i*8 %>]
         mov     [rdi + <%= i*8 %>], rax
-        mov     [rsi + <%= i*8 %>], rbx
+        mov     [rsi + <%= i*8 %>], rcx
 <% } %>
         ret
 
-- 
2.43.0


From d91a7d35acb9a25eb89db17c36c409a38c3fa972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 05/30] fix: generic toMontgomery of a short element keeps the
 short value in the result

---
 src/fr_generic.cpp.ejs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fr_generic.cpp.ejs b/src/fr_generic.cpp.ejs
index 14d7e84..e693058 100644
--- a/src/fr_generic.cpp.ejs
+++ b/src/fr_generic.cpp.ejs
@@ -314,12 +314,14 @@ void <%=name%>_toMontgomery(P<%=name%>Element r, P<%=name%>Element a)
        <%=name%>_rawNeg(r->longVal, r->longVal);
 
        r->type = <%=name%>_SHORTMONTGOMERY;
+       r->shortVal = a->shortVal;
     }
     else
     {
         <%=name%>_rawMMul1(r->longVal, <%=name%>_R2.longVal, a->shortVal);
 
         r->type = <%=name%>_SHORTMONTGOMERY;
+        r->shortVal = a->shortVal;
     }
 }
 
-- 
2.43.0


From 1c5f5ee012b9f0ce1559490249760ae240046020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 06/30] fix: toRprBE writes exactly the field width, also for
 zero and for larger buffers

---
 src/fr.cpp.ejs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index 9d3f1e2..a39befe 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <gmp.h>
 #include <assert.h>
+#include <string.h>
 #include <string>
 
 
@@ -300,7 +301,11 @@ int Raw<%=name%>::toRprBE(const Element &element, uint8_t *data, int bytes)
 
     toMpz(r, element);
    
-    mpz_export(data, NULL, 1, bytes, 1, 0, r);
+    // mpz_export writes nothing for zero
+    memset(data, 0, <%=name%>_N64 * 8);
+    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
+
+    mpz_clear(r);
 
     return <%=name%>_N64 * 8;
 }
-- 
2.43.0


From e3b2e839dadd17d1668d49e171c10f61a175c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 07/30] fix: ARM64 rawNegLS adds the prime back exactly on a
 borrow and keeps its registers apart for wide fields

---
 src/armbuilder.js | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 57ad918..1397e31 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -971,9 +971,7 @@ class Gen_rawNegLS extends GenBase {
 
         assert(width <= 12);
 
-        this.r1 = this.assignRegs(this.width);
         this.a2 = cyclicCopy(this.workRegs, this.width);
-        this.releaseRegs(this.workRegs);
         this.r2 = this.assignRegs(this.width);
         this.generate();
     }
@@ -986,7 +984,7 @@ class Gen_rawNegLS extends GenBase {
         this.genSubtractionOpA();
         this.op_empty();
 
-        this.genAdd(this.r2, this.r2, this.r1);
+        this.genAdditionOpQ();
         this.op_empty();
 
         this.op_label(this.makeLabel("done"));
@@ -1004,13 +1002,24 @@ class Gen_rawNegLS extends GenBase {
         let c = expand(new RegVar(2), 31, this.width);
 
         for (let i = 0; i < this.width; i++) {
-            this.genLoadVarWord(this.r1, i, 3);
-            this.genSubWord(this.r2, this.r1, c, i);
+            this.genLoadVarWord(this.a2, i, 3);
+            this.genSubWord(this.r2, this.a2, c, i);
             if (i % 2) this.op_empty();
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x2", "cs");
+        this.op("cset", "x2", "cc");
+    }
+
+    genAdditionOpQ() {
+        this.op("adr", "x3", this.getVarName("rawq"));
+
+        for (let i = 0; i < this.width; i++) {
+            this.genLoadVarWord(this.a2, i, 3);
+            this.genAddWord(this.r2, this.r2, this.a2, i);
+            if (i % 2) this.op_empty();
+        }
+        if (this.width % 2) this.op_empty();
     }
 
     genSubtractionOpA() {
@@ -1021,7 +1030,7 @@ class Gen_rawNegLS extends GenBase {
         }
         if (this.width % 2) this.op_empty();
 
-        this.op("cset", "x3", "cs");
+        this.op("cset", "x3", "cc");
         this.op("orr",  "x3", "x3", "x2");
         this.op_empty();
         this.op("cbz", "x3", this.makeLabel("done"));
-- 
2.43.0


From dd498e9834da69220d4e05b49f56151b9bfb3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 08/30] fix: ARM64 rawShl of one-limb fields masks and reduces
 its result

---
 src/armbuilder.js | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 1397e31..08c3b7e 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -1183,9 +1183,13 @@ class Gen_rawShl extends GenBase {
 
     generate() {
         if (this.width === 1) {
-            this.op("ldr", "x3", "[x1]");
-            this.op("lsl", "x3", "x3", "x2");
-            this.op("str", "x3", "[x0]");
+            this.genLoadVar(this.r1, 1);
+            this.op("lsl", this.r1[0], this.r1[0], "x2");
+            this.genLboMask(this.r1[0], new Reg(6));
+
+            this.op("adr", "x1", this.getVarName("rawq"));
+            this.genSubLoad(this.r2, this.r1, this.r2, 1);
+            this.genCselStore(this.r1, this.r2, this.r1, 0);
             this.op("ret");
             return;
         }
-- 
2.43.0


From df4a8500d25ca97aa7f74f3c624ee2b7683017e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 09/30] fix: F2Field::square for a non-residue other than -1
 multiplied by a+a+b instead of a+nr*b

---
 c/f2field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/f2field.cpp b/c/f2field.cpp
index 3a250ed..7a4aff0 100644
--- a/c/f2field.cpp
+++ b/c/f2field.cpp
@@ -162,7 +162,7 @@ void F2Field<BaseField>::square(Element &r, Element &e1) {
 
         F.add(tmp1, e1.a, e1.b);
         mulByNr(tmp2, e1.b);
-        F.add(tmp2, e1.a, tmp1);
+        F.add(tmp2, e1.a, tmp2);
 
         F.mul(tmp1, tmp1, tmp2);
 
-- 
2.43.0


From 158628d5b8d131249ec8b256f363adeb2543f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 10/30] fix: F12Field::exp overwrote its base when the result
 is the same element

---
 c/f12field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/f12field.cpp b/c/f12field.cpp
index ee5e231..968c9d2 100644
--- a/c/f12field.cpp
+++ b/c/f12field.cpp
@@ -95,14 +95,16 @@ void F12Field<BaseField>::mulScalar(Element &r, Element &a, typename BaseField::
 template <typename BaseField>
 void F12Field<BaseField>::exp(Element &r, Element &a, uint8_t* scalar, unsigned int scalarSize) {
 
+    Element base, t;
+
+    copy(base, a); // base and result can be the same
     copy(r, one());
-    Element t;
 
     for (int i=scalarSize*8-1; i>=0; i--) {
         square(t, r);
 
         if ( BIT_IS_SET(scalar, i) ) {
-            mul(r, t, a);
+            mul(r, t, base);
         } else {
             copy(r, t);
         }
-- 
2.43.0


From b3b412007f150fac39aa97e623920160ec534eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 11/30] fix: Curve::neg of the affine zero into an extended
 point gave the finite point (0,0,1,1)

---
 c/curve.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index af35ebf..e2b7a7a 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -589,6 +589,10 @@ void Curve<BaseField>::neg(Point &r, Point &a) {
 
 template <typename BaseField>
 void Curve<BaseField>::neg(Point &r, PointAffine &a) {
+    if (isZero(a)) {
+        copy(r, a);
+        return;
+    }
     F.copy(r.x, a.x);
     F.neg(r.y, a.y);
     F.copy(r.zz, F.one());
-- 
2.43.0


From 362bbdef0ea1e0e5a6e4cb62ade9e93bba57dce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 12/30] fix: Curve::eq held a finite point equal to the point
 at infinity stored as (0,0,0,0)

---
 c/curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/curve.cpp b/c/curve.cpp
index e2b7a7a..39d3c63 100644
--- a/c/curve.cpp
+++ b/c/curve.cpp
@@ -462,6 +462,7 @@ bool Curve<BaseField>::eq(Point &p1, Point &p2) {
 #endif // COUNT_OPS
 
     if (isZero(p1)) return  isZero(p2);
+    if (isZero(p2)) return false;
 
     // U1 = X1*ZZ2
     typename BaseField::Element U1;
-- 
2.43.0


From 9f0a22dc4302008fcf8b54b9f8f8b36cd0f4fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 13/30] fix: MSM dropped the carry out of the last window of
 large scalars

---
 c/msm.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index bdfdb69..a14858f 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -35,7 +35,8 @@ private:
     }
 
     uint64_t calcChunkCount(uint64_t scalarSize, uint64_t bitsPerChunk) const {
-        return ((scalarSize * 8 - 1 ) / bitsPerChunk) + 1;
+        // The last signed window must be below one half, also with a carry into it
+        return ((scalarSize * 8 + 1) / bitsPerChunk) + 1;
     }
 
     uint64_t calcBucketCount(uint64_t bitsPerChunk) const {
@@ -44,6 +45,9 @@ private:
 
     uint64_t getBucketIndex(uint64_t scalarIdx, uint64_t chunkIdx) const {
         uint64_t bitStart = chunkIdx*bitsPerChunk;
+
+        if (bitStart >= scalarSize*8) return 0;
+
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-- 
2.43.0


From 4a0c58915135dc1ec56804a1d7ac8ce5d8887c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 14/30] fix: multi-scalar multiplication read outside scalars
 of less than 8 bytes

---
 c/msm.hpp      | 6 ++++--
 c/multiexp.cpp | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/c/msm.hpp b/c/msm.hpp
index a14858f..8105dd6 100644
--- a/c/msm.hpp
+++ b/c/msm.hpp
@@ -2,6 +2,7 @@
 #define MSM_HPP
 
 #include <cstdint>
+#include <cstring>
 
 template <typename Curve, typename BaseField>
 class MSM {
@@ -51,11 +52,12 @@ private:
         uint64_t byteStart = bitStart/8;
         uint64_t efectiveBitsPerChunk = bitsPerChunk;
 
-        if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+        if (byteStart + 8 > scalarSize) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;
         if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
 
         uint64_t shift = bitStart - byteStart*8;
-        uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+        uint64_t v = 0;
+        memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
 
         v = v >> shift;
         v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);
diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index 4db20f2..e631a42 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -27,10 +27,11 @@ uint64_t ParallelMultiexp<Curve>::getChunk(uint64_t scalarIdx, uint64_t chunkIdx
     uint64_t bitStart = chunkIdx*bitsPerChunk;
     uint64_t byteStart = bitStart/8;
     uint64_t efectiveBitsPerChunk = bitsPerChunk;
-    if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
+    if (byteStart + 8 > scalarSize) byteStart = scalarSize > 8 ? scalarSize - 8 : 0;
     if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;
     uint64_t shift = bitStart - byteStart*8;
-    uint64_t v = *(uint64_t *)(scalars + scalarIdx*scalarSize + byteStart);
+    uint64_t v = 0;
+    memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);
     v = v >> shift;
     v = v & ( (1 << efectiveBitsPerChunk) - 1);
     return uint64_t(v);
-- 
2.43.0


From 04a1d18796045b674000d8f29719327b5fa8c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 15/30] fix: sectioned multiexp summed every base of an empty
 section

---
 c/multiexp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/c/multiexp.cpp b/c/multiexp.cpp
index e631a42..7511282 100644
--- a/c/multiexp.cpp
+++ b/c/multiexp.cpp
@@ -60,9 +60,7 @@ template <typename Curve>
 void ParallelMultiexp<Curve>::processChunk(uint64_t idChunk, uint64_t nX, uint64_t size[]) {
     #pragma omp parallel for
     for(uint64_t i=0; i<n; i++) {
-        uint mod = i % nX;
-        uint len = size[mod] - 1;
-        if (i < 0 || i > len * nX + mod) continue;
+        if (i / nX >= size[i % nX]) continue;
         if (g.isZero(bases[i])) continue;
 #ifdef _OPENMP
         int idThread = omp_get_thread_num();
@@ -210,7 +208,8 @@ void ParallelMultiexp<Curve>::multiexp(typename Curve::Point &r,
         return;
     }
     if (n == 1) {
-        g.mulByScalar(r, bases[0], scalars, scalarSize);
+        if (x[0] > 0) g.mulByScalar(r, bases[0], scalars, scalarSize);
+        else g.copy(r, g.zero());
         return;
     }
     bitsPerChunk = log2((uint32_t)(n / PME2_PACK_FACTOR));
-- 
2.43.0


From c5e5cbbbf8a865c06767ae75ff419a170f3df961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 16/30] fix: parallelFor aborted on an empty range (inverse
 transform of size 1 and 2)

---
 c/misc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/misc.hpp b/c/misc.hpp
index 2fbe004..95923bd 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -146,6 +146,8 @@ public:
     template<typename Func>
     void parallelFor(int begin, int end, Func&& func) {
 
+        if (end <= begin) return;
+
         const int  elementCount = end - begin;
         const auto jobs = divideWork(elementCount, nThreads);
         int jobBegin = begin;
-- 
2.43.0


From b99c10aada5d420ba4debc6143c5e4f90c1baf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 17/30] fix: a worker of the FFT constructor rewrote roots[1]
 while the others read it

---
 c/fft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index 9411fb8..2ed7646 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -92,6 +92,7 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
 
         uint64_t increment = nRoots / nThreads;
         uint64_t start = idThread==0 ? 2 : idThread * increment;
+        if (start < 2) start = 2; // roots[0] and roots[1] are already set and read by all the threads
         uint64_t end   = idThread==nThreads-1 ? nRoots : (idThread+1) * increment;
         if (end>start) {
             f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
-- 
2.43.0


From 968c5b6f852046deb08eb39a4036b14578ba3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 18/30] fix: ThreadWorker destructor could miss a worker about
 to sleep and join it forever

---
 c/misc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/misc.hpp b/c/misc.hpp
index 95923bd..f9d5479 100644
--- a/c/misc.hpp
+++ b/c/misc.hpp
@@ -75,7 +75,10 @@ public:
     {}
 
     ~ThreadWorker() {
-        stop = true;
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            stop = true;
+        }
         occupied.notify_one();
 
         thread.join();
-- 
2.43.0


From e1ed69dec00cb3aa416970013ebf7314c7d2cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 19/30] fix: splitParStr ends on a text without a top level
 comma

---
 c/splitparstr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index c081969..f8ac573 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -45,7 +45,7 @@ std::vector<std::string> splitParStr(std::string s) {
     }
     removePars(accS);
     res.push_back(accS);
-    if (res.size()==1) {
+    if ((res.size()==1)&&(res[0] != s)) {
         removePars(res[0]);
         return splitParStr(res[0]);
     } else {
-- 
2.43.0


From b53cf8261f7d59e0551e65a029139c57ab58b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 20/30] fix: removePars looks at the whole inside and never
 removes a negative number of parentheses

---
 c/splitparstr.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c/splitparstr.cpp b/c/splitparstr.cpp
index f8ac573..b35c025 100644
--- a/c/splitparstr.cpp
+++ b/c/splitparstr.cpp
@@ -7,13 +7,15 @@ void removePars(std::string &s) {
 
     int ins = 0;
     int minIns = 0;
-    for (unsigned int i=ns; i<s.length()-ns*2; i++) {
+    for (unsigned int i=ns; i<s.length()-ns; i++) {
         if (s[i] == '(') ins ++; 
         if (s[i] == ')') ins --; 
         if (ins < minIns) minIns = ins;
     }
-    s.erase(0, ns+minIns);
-    s.erase(s.length()-(ns+minIns), s.length());
+    int nRemove = (int)ns + minIns;
+    if (nRemove <= 0) return;
+    s.erase(0, nRemove);
+    s.erase(s.length()-nRemove, s.length());
 }
 
 std::vector<std::string> splitParStr(std::string s) {
-- 
2.43.0


From 753b197411ccc058c9e29b493f5edc44c31261bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 21/30] fix: endReadSection raises an error when no section is
 being read

---
 c/binfile_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index 408dd38..f706e5d 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -145,6 +145,11 @@ namespace BinFileUtils
     {
         if (check)
         {
+            if (readingSection == NULL)
+            {
+                throw new std::range_error("Not reading a section");
+            }
+
             if ((u_int64_t)addr + pos - (u_int64_t)(readingSection->start) != readingSection->size)
             {
                 throw new std::range_error("Invalid section size");
-- 
2.43.0


From 5c9f30b246b73a29bdeb387e3cf575c373dfcb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 22/30] fix: a zkey header of another protocol leaves the
 reader without an open section

---
 c/zkey_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 52a5629..083c705 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 
 #include "zkey_utils.hpp"
 
@@ -14,17 +15,17 @@ Header::~Header() {
 
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    auto h = new Header();
-
     f->startReadSection(1);
     uint32_t protocol = f->readU32LE();
+    f->endReadSection();
     if (protocol != 1) {
         throw std::invalid_argument( "zkey file is not groth16" );
     }
-    f->endReadSection();
 
     f->startReadSection(2);
 
+    auto h = new Header();
+
     h->n8q = f->readU32LE();
     mpz_init(h->qPrime);
     mpz_import(h->qPrime, h->n8q, -1, 1, -1, 0, f->read(h->n8q));
-- 
2.43.0


From 3d01b0c558fd25916a225f173348944b86d29ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 23/30] fix: x86-64 generator: keep spilled registers and their
 work register in agreement

---
 src/asmbuilder.js | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/asmbuilder.js b/src/asmbuilder.js
index 097bbee..7e08215 100644
--- a/src/asmbuilder.js
+++ b/src/asmbuilder.js
@@ -91,6 +91,20 @@ module.exports = class RegManager {
     }
 
 
+    _syncMem(ref, access) {
+        const idx = this._indexOfWrAssignment(ref);
+        if (idx < 0) return;
+        const a = this.wrAssignments[idx];
+        if (a.modified && access.indexOf("I")>=0) {
+            this.code.push(`    mov ${this.regRefs[ref]}, ${a.reg}`);
+            a.modified = false;
+        }
+        if (access.indexOf("O")>=0) {
+            this.wrAvailable.push(a.reg);
+            this.wrAssignments.splice(idx, 1);
+        }
+    }
+
     _loadWr(ref, loadValue) {
         const idx = this._indexOfWrAssignment(ref);
         if (idx>=0) {
@@ -162,6 +176,13 @@ module.exports = class RegManager {
             }
         }
 
+        // An operand used straight from memory must agree with the work register that may be holding it
+        for (let i=0; i < inst.length; i++) {
+            if (typeof args[i] === "string" || args[i] < this.nUsedRegs) continue;
+            if ((dLoad>=0)&&(args[i] == args[dLoad])) continue;
+            this._syncMem(args[i], inst[i]);
+        }
+
         const params = [];
         for (let i=0; i < inst.length; i++) {
             if (typeof args[i] === "string") {
-- 
2.43.0


From c67a898c6a1ef65992ea5ba7e8cc2cc37a55f5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 24/30] fix: ARM rawIsEq for seven-word fields: keep the first
 chunk's result

---
 src/armbuilder.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/armbuilder.js b/src/armbuilder.js
index 08c3b7e..e306976 100644
--- a/src/armbuilder.js
+++ b/src/armbuilder.js
@@ -500,7 +500,7 @@ class Gen_rawIsEq extends GenBase {
     }
 
     longNumber() {
-        return (this.width >= 8);
+        return (this.width >= 7);   // from 7 words on a chunk may need all three work registers
     }
 }
 
-- 
2.43.0


From 5bb44ffb89402c1f0bfd86fef50efb6017de95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 25/30] fix: buildzqfield: the C output option names the C file
 only

---
 src/buildzqfield.js | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/buildzqfield.js b/src/buildzqfield.js
index 6fbc2e0..31f7495 100755
--- a/src/buildzqfield.js
+++ b/src/buildzqfield.js
@@ -60,7 +60,7 @@ async function buildField(q, name) {
 if (runningAsScript) {
     const fs = require("fs");
     var argv = require("yargs")
-        .usage("Usage: $0 -q [primeNum] -n [name] -oc [out .c file] -oh [out .h file] -oa [out .asm file]")
+        .usage("Usage: $0 -q [primeNum] -n [name] --oc [out .c file] --oh [out .h file] --oa [out .asm file]")
         .demandOption(["q","n"])
         .alias("q", "prime")
         .alias("n", "name")
@@ -71,10 +71,10 @@ if (runningAsScript) {
     const asmFileName =  (argv.oa) ? argv.oa : argv.name.toLowerCase() + ".asm";
     const hFileName =  (argv.oh) ? argv.oh : argv.name.toLowerCase() + ".hpp";
     const cFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + ".cpp";
-    const hElementFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_element.hpp";
-    const cGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_generic.cpp";
-    const cRawGenericFileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_generic.cpp";
-    const sRawArm64FileName =  (argv.oc) ? argv.oc : argv.name.toLowerCase() + "_raw_arm64.s";
+    const hElementFileName = argv.name.toLowerCase() + "_element.hpp";
+    const cGenericFileName = argv.name.toLowerCase() + "_generic.cpp";
+    const cRawGenericFileName = argv.name.toLowerCase() + "_raw_generic.cpp";
+    const sRawArm64FileName = argv.name.toLowerCase() + "_raw_arm64.s";
 
 
     buildField(q, argv.name).then( (res) => {
-- 
2.43.0


From 4bd514734c59b651bbada1f2cb2191aa1c602872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 26/30] fix: fromRprBE never released its big number

---
 src/fr.cpp.ejs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fr.cpp.ejs b/src/fr.cpp.ejs
index a39befe..51531ea 100644
--- a/src/fr.cpp.ejs
+++ b/src/fr.cpp.ejs
@@ -320,6 +320,9 @@ int Raw<%=name%>::fromRprBE(Element &element, const uint8_t *data, int bytes)
 
     mpz_import(r, <%=name%>_N64 * 8, 0, 1, 0, 0, data);
     fromMpz(element, r);
+
+    mpz_clear(r);
+
     return <%=name%>_N64 * 8;
 }
 
-- 
2.43.0


From 7e50269aa867835ae85bac5f80533e0801ff5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 27/30] fix: the FFT constructor kept four big numbers when it
 refused a domain

---
 c/fft.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/fft.cpp b/c/fft.cpp
index 2ed7646..a184d11 100644
--- a/c/fft.cpp
+++ b/c/fft.cpp
@@ -69,6 +69,10 @@ FFT<Field>::FFT(u_int64_t maxDomainSize, uint32_t _nThreads)
     }
 
     if (s<domainPow) {
+        mpz_clear(m_qm1d2);
+        mpz_clear(m_q);
+        mpz_clear(m_nqr);
+        mpz_clear(m_aux);
         throw std::range_error("Domain size too big for the curve");
     }
 
-- 
2.43.0


From f8b159e55efe99ca415e2a1d364e8c6378ddae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 28/30] fix: a refused file kept its copy in memory, and its
 descriptor when fstat failed

---
 c/binfile_utils.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/binfile_utils.cpp b/c/binfile_utils.cpp
index f706e5d..29b2529 100644
--- a/c/binfile_utils.cpp
+++ b/c/binfile_utils.cpp
@@ -24,12 +24,14 @@ namespace BinFileUtils
 
         if (type != _type)
         {
+            free(addr);
             throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it is " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
+            free(addr);
             throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
@@ -65,7 +67,11 @@ namespace BinFileUtils
             throw std::system_error(errno, std::generic_category(), "open");
 
         if (fstat(fd, &sb) == -1) /* To obtain file size */
-            throw std::system_error(errno, std::generic_category(), "fstat");
+        {
+            int err = errno;
+            close(fd);
+            throw std::system_error(err, std::generic_category(), "fstat");
+        }
 
         size = sb.st_size;
         void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
@@ -83,12 +89,14 @@ namespace BinFileUtils
 
         if (type != _type)
         {
+            free(addr);
             throw new std::invalid_argument("Invalid file type. It should be " + _type + " and it us " + type);
         }
 
         version = readU32LE();
         if (version > maxVersion)
         {
+            free(addr);
             throw new std::invalid_argument("Invalid version. It should be <=" + std::to_string(maxVersion) + " and it us " + std::to_string(version));
         }
 
-- 
2.43.0


From f16d833f615b2f548d64ae6fae4311e56a5e3811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 29/30] fix: a header was kept when its section did not end
 where it should or section 4 was missing

---
 c/wtns_utils.cpp | 5 +++--
 c/zkey_utils.cpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/c/wtns_utils.cpp b/c/wtns_utils.cpp
index 2301c3a..1f1a5ed 100644
--- a/c/wtns_utils.cpp
+++ b/c/wtns_utils.cpp
@@ -10,9 +10,10 @@ Header::~Header() {
 }
 
 std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
-    Header *h = new Header();
     f->startReadSection(1);
 
+    std::unique_ptr<Header> h(new Header());
+
     h->n8 = f->readU32LE();
     mpz_init(h->prime);
     mpz_import(h->prime, h->n8, -1, 1, -1, 0, f->read(h->n8));
@@ -21,7 +22,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     f->endReadSection();
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // NAMESPACE
\ No newline at end of file
diff --git a/c/zkey_utils.cpp b/c/zkey_utils.cpp
index 083c705..879a2ad 100644
--- a/c/zkey_utils.cpp
+++ b/c/zkey_utils.cpp
@@ -24,7 +24,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     f->startReadSection(2);
 
-    auto h = new Header();
+    std::unique_ptr<Header> h(new Header());
 
     h->n8q = f->readU32LE();
     mpz_init(h->qPrime);
@@ -48,7 +48,7 @@ std::unique_ptr<Header> loadHeader(BinFileUtils::BinFile *f) {
 
     h->nCoefs = f->getSectionSize(4) / (12 + h->n8r);
 
-    return std::unique_ptr<Header>(h);
+    return h;
 }
 
 } // namespace
-- 
2.43.0


From e1cf7d11fa5f3522f27a965a00f36c0c0bec24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:00 +0000
Subject: [PATCH 30/30] fix: define the constant R2 the header declares in the
 x86-64 assembly too

---
 src/fr.asm.ejs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fr.asm.ejs b/src/fr.asm.ejs
index 03daca0..62225ec 100644
--- a/src/fr.asm.ejs
+++ b/src/fr.asm.ejs
@@ -28,6 +28,7 @@
         global <%=name%>_toInt
         global <%=name%>_isTrue
         global <%=name%>_q
+        global <%=name%>_R2
         global <%=name%>_R3
 
         global <%=name%>_rawCopy
@@ -70,6 +71,9 @@
 <%=name%>_rawq:
 q       dq      <%= constantElement(q) %>
 half    dq      <%= constantElement(q.shiftRight(1)) %>
+<%=name%>_R2:
+        dd      0
+        dd      0x80000000
 R2      dq      <%= constantElement(bigInt.one.shiftLeft(n64*64*2).mod(q)) %>
 <%=name%>_R3:
         dd      0
-- 
2.43.0

