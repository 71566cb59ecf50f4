From cc7f3b2496aadd689c68bcd90a32ef6c61c162bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:55 +0000
Subject: [PATCH 1/7] fix: table generators report write errors and remove
 incomplete files

make_tables, make_red_tables and make_bitrev_table ignored every write and
close error: on a full disk they exited with status 0 and left a truncated
table, or one with a hole that still compiles.
---
 src/make_bitrev_table.c                       | 22 +++++++++++++++++--
 src/make_red_tables.c                         | 22 +++++++++++++++++--
 src/make_tables.c                             | 22 +++++++++++++++++--
 .../vstte20-benchmarks/make_bitrev_table.c    | 22 +++++++++++++++++--
 verifier/vstte20-benchmarks/make_red_tables.c | 22 +++++++++++++++++--
 verifier/vstte20-benchmarks/make_tables.c     | 22 +++++++++++++++++--
 6 files changed, 120 insertions(+), 12 deletions(-)

diff --git a/src/make_bitrev_table.c b/src/make_bitrev_table.c
index 883fb68..780a04f 100644
--- a/src/make_bitrev_table.c
+++ b/src/make_bitrev_table.c
@@ -122,6 +122,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "bitrev%"PRIu32"_table.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +172,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +180,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_red_tables.c b/src/make_red_tables.c
index 45e8980..65a1bdd 100644
--- a/src/make_red_tables.c
+++ b/src/make_red_tables.c
@@ -416,6 +416,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "ntt_red%"PRIu32"_tables.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -500,7 +518,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -508,7 +526,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/src/make_tables.c b/src/make_tables.c
index b567de5..9b7c08f 100644
--- a/src/make_tables.c
+++ b/src/make_tables.c
@@ -355,6 +355,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "ntt%"PRIu32"_tables.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +445,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +453,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_bitrev_table.c b/verifier/vstte20-benchmarks/make_bitrev_table.c
index 883fb68..780a04f 100644
--- a/verifier/vstte20-benchmarks/make_bitrev_table.c
+++ b/verifier/vstte20-benchmarks/make_bitrev_table.c
@@ -122,6 +122,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "bitrev%"PRIu32"_table.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +172,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +180,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_red_tables.c b/verifier/vstte20-benchmarks/make_red_tables.c
index c500678..d1e8a7e 100644
--- a/verifier/vstte20-benchmarks/make_red_tables.c
+++ b/verifier/vstte20-benchmarks/make_red_tables.c
@@ -398,6 +398,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "ntt_red%"PRIu32"_tables.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -482,7 +500,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -490,7 +508,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_tables.c b/verifier/vstte20-benchmarks/make_tables.c
index 4aeef4e..4d00a6f 100644
--- a/verifier/vstte20-benchmarks/make_tables.c
+++ b/verifier/vstte20-benchmarks/make_tables.c
@@ -355,6 +355,24 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f that was opened with open_file(n, suffix)
+ * - if the content could not be written in full, remove the incomplete
+ *   file and exit with an error
+ */
+static void close_file(FILE *f, uint32_t n, const char *suffix) {
+  char filename[BUFFER_SIZE];
+  int error;
+
+  error = ferror(f);
+  if (fclose(f) != 0 || error) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.%s'\n", n, suffix);
+    snprintf(filename, BUFFER_SIZE, "ntt%"PRIu32"_tables.%s", n, suffix);
+    remove(filename);
+    exit(EXIT_FAILURE);
+  }
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +445,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  close_file(f, n, "h");
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +453,7 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  close_file(f, n, "c");
   
   return 0;
 }
-- 
2.43.0


From 095d728872e648f200260f06bac943246c392119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 2/7] fix: AVX2 routines ignore the upper half of the register
 that holds n

n is a uint32_t parameter: the calling convention leaves bits 32-63 of rsi
undefined, but the routines used all 64 bits and so could run far past the
end of the array.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..a850527 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi                     // n is a 32bit integer: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From bf8ebc7e0cf9fc78d084dfd2e714abfb5d2d3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:16 +0000
Subject: [PATCH 3/7] fix: avx2_supported checks that CPUID leaf 7 exists

If the highest leaf is less than 7, CPUID(7) returns the data of another
leaf, whose bit 5 of ebx says nothing about AVX2.
---
 src/ntt_asm.S | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index a850527..dc65d24 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -93,6 +93,10 @@ perm_bdcst3:
         .global _G(avx2_supported)
 _G(avx2_supported):
         push rbx                // rax/rbx/rcx/rdx are modified by CPUID
+        xor eax, eax
+        cpuid
+        cmp eax, 7              // leaf 7 is not defined on this processor
+        jb not_supported
         mov eax, 1
         cpuid
         and ecx, 0x18000000
-- 
2.43.0


From 6f800a9a37f8cbc6d740ac32158bcd56cc399d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:32 +0000
Subject: [PATCH 4/7] fix: naive products return coefficients in [0, Q-1] as
 documented

The naive NTTs use % and leave negative elements, so the products returned
coefficients in [-(Q-1), Q-1] although naive_ntt<n>.h promises [0, Q-1].
---
 src/naive_ntt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..aa4cb68 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -67,9 +67,11 @@ void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n) {
  */
 void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * p[i]) % q;
+    x = (a[i] * p[i]) % q;
+    a[i] = (x < 0) ? x + q : x; // the naive NTTs may produce negative elements
   }
 }
 
@@ -95,9 +97,11 @@ void mul_array_naive(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b,
  */
 void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * c) % q;
+    x = (a[i] * c) % q;
+    a[i] = (x < 0) ? x + q : x; // the naive NTTs may produce negative elements
   }
 }
 
-- 
2.43.0


From 13486d76c9981a12686e19d9a8300cdf3cc95a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:22 +0000
Subject: [PATCH 5/7] fix: detect overflow in interval addition and subtraction
 before it happens

The check looked at the wrapped sum, which the compiler may assume never
happens: at -O3 it was removed and add/sub returned wrong bounds silently.
---
 src/intervals.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..acf50ee 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -81,11 +81,12 @@ interval_t *neg(const interval_t *a) {
 static int64_t add64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x + y;
-  if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
+  // check before adding: signed overflow is undefined
+  if ((y < 0 && x < INT64_MIN - y) || (y > 0 && x > INT64_MAX - y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
   }
+  z = x + y;
   return z;
 }
 
@@ -93,11 +94,12 @@ static int64_t add64(int64_t x, int64_t y) {
 static int64_t sub64(int64_t x, int64_t y) {
   int64_t z;
 
-  z = x - y;
-  if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
+  // check before subtracting: signed overflow is undefined
+  if ((y < 0 && x > INT64_MAX + y) || (y > 0 && x < INT64_MIN + y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
   }
+  z = x - y;
   return z;
 }
 
-- 
2.43.0


From 8d8f987d7abc75742fac862e0962edba46d7a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:22 +0000
Subject: [PATCH 6/7] fix: bounds of red(w*x) when the interval for x is not
 symmetric

The loops over w stopped early on the assumption |x| <= b, so the bounds
were too narrow when a < -b.
---
 src/red_bounds.c | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..1e40595 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -205,6 +205,28 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
 
 
 
+/*
+ * Bounds on w' * x for a <= x <= b and w' between 0 and w
+ */
+static int64_t min_product(int64_t a, int64_t b, int64_t w) {
+  int64_t x, y;
+
+  x = w * a;
+  y = w * b;
+  if (y < x) x = y;
+  return x < 0 ? x : 0;
+}
+
+static int64_t max_product(int64_t a, int64_t b, int64_t w) {
+  int64_t x, y;
+
+  x = w * a;
+  y = w * b;
+  if (y > x) x = y;
+  return x > 0 ? x : 0;
+}
+
+
 /*
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
@@ -223,10 +245,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d <= (w*x)/2^m for a <= x <= b
+    // so red(w*x) <= -d + 3*4095 for a <= x <= b
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(min_product(a, b, w));
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -244,8 +266,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // same bound for any w' such that 0 < w' <= w
+    d = divd(min_product(a, b, w));
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -280,10 +302,9 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    h = high > 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // w * x <= max_product ==> divd(w * x) <= d ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(max_product(a, b, w));
      if (-d >= r_min) {
        break;
      }
@@ -301,7 +322,7 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(max_product(a, b, w)); // d >= (w * x)/2^m for a <= x <= b
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From 9cfbb325e662748ea74b45d9dbcb00445713d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:22 +0000
Subject: [PATCH 7/7] fix: bounds of red(w*x) for w = 0

The search for the gcd looped forever and the steps divided by zero.
---
 src/red_bounds.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 1e40595..d29ee24 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  // red(0 * x) = 0
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  // red(0 * x) = 0
+  if (w == 0) {
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
-- 
2.43.0

