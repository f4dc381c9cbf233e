From 90b3cde64475b64d4a973f1cac7a182eecbc3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 01/29] fix: keep the text reader inside the mapped file

The FileReader methods looked at the character one past the end before
checking that it exists. When the file size is a multiple of the page
size that address is unmapped and loading the file crashes.
---
 include/pigo.hpp                |  6 +++---
 include/pigo/impl/pigo.impl.hpp | 30 +++++++++++++++---------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 2e330c9..3a9e01f 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -93,7 +93,7 @@ namespace pigo {
              */
             template<typename T>
             T read_sign() {
-                if (*d == '-') return (T)(-1);
+                if (d < end && *d == '-') return (T)(-1);
                 return (T)1;
             }
 
@@ -234,9 +234,9 @@ namespace pigo {
              * @return true if the reader is at a '0' integer
              */
             bool at_zero() {
-                if (d >= end+1) return false;
+                if (d >= end) return false;
                 if (*d != '0') return false;
-                if (*(d+1) >= '0' && *(d+1) <= '9') return false;
+                if (d+1 < end && *(d+1) >= '0' && *(d+1) <= '9') return false;
                 return true;
             }
 
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 0a722df..cc384c6 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -331,10 +331,10 @@ namespace pigo {
                     *d == 'E' || *d == '-' || *d == '+' || *d == '.')) ++d;
         // Read the size
         bool positive = true;
-        if (*d == '-') {
+        if (d < end && *d == '-') {
             positive = false;
             ++d;
-        } else if (*d == '+') ++d;
+        } else if (d < end && *d == '+') ++d;
 
         // Support a simple form of floating point integers
         // Note: this is not the most accurate or fastest strategy
@@ -344,7 +344,7 @@ namespace pigo {
             res = res*10. + (T)(*d-'0');
             ++d;
         }
-        if (*d == '.') {
+        if (d < end && *d == '.') {
             ++d;
             T fraction = 0.;
             size_t fraction_count = 0;
@@ -356,7 +356,7 @@ namespace pigo {
             }
             res += fraction / std::pow(10., fraction_count);
         }
-        if (*d == 'e' || *d == 'E') {
+        if (d < end && (*d == 'e' || *d == 'E')) {
             ++d;
             T exp = read_fp<T>();
             res *= std::pow(10., exp);
@@ -397,10 +397,10 @@ namespace pigo {
     inline
     void FileReader::move_to_first_int() {
         // Move through the non-ints and comments
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9')) {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -415,14 +415,14 @@ namespace pigo {
 
     inline
     void FileReader::move_to_next_signed_int() {
-        if (*d == '+' || *d == '-') ++d;
+        if (d < end && (*d == '+' || *d == '-')) ++d;
         move_to_non_int();
 
         // Move to the next integer or signed integral value
-        if (*d == '%' || *d == '#') skip_comments();
+        skip_comments();
         while (d < end && (*d < '0' || *d > '9') && *d != '+' && *d != '-') {
             ++d;
-            if (*d == '%' || *d == '#') skip_comments();
+            skip_comments();
         }
     }
 
@@ -436,7 +436,7 @@ namespace pigo {
             while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; }
 
             // Make sure this is an integer
-            if (*d < '0' || *d > '9') {
+            if (d >= end || *d < '0' || *d > '9') {
                 move_to_eol();
                 break;
             }
@@ -444,7 +444,7 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
-            if (*d == '\n') break;
+            if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
                 break;
@@ -454,11 +454,11 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (*d == ' ') { ++d; };
+            while (d < end && *d == ' ') { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-            if (*d == '\n') {
+            if (d >= end || *d == '\n') {
                 --space_ct;
                 break;
             }
@@ -482,14 +482,14 @@ namespace pigo {
             ++d; // Move through a newline
         }
 
-        if (*d == '%' || *d == '#') {
+        if (d < end && (*d == '%' || *d == '#')) {
             skip_comments();
             --d;        // This will end at a newline
             return;
         }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
             ++d;
-            if (*d == '%' || *d == '#') {
+            if (d < end && (*d == '%' || *d == '#')) {
                 skip_comments();
                 --d;
                 return;
-- 
2.43.0


From 0fa6b2c748228bbcc1ec5155a15d5660f0c7f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 02/29] fix: read the last edge when the file does not end in a
 newline

The reader stopped as soon as it reached the end of the file, before
storing the entry it had just read, so the last entry of a file without
a trailing newline was dropped or left uninitialised.
---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 66206e7..f7c6ae9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -232,9 +232,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -254,9 +254,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 if (if_true_<sl>() && x == y) {
@@ -302,9 +302,9 @@ namespace pigo {
             static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
+                if (!r.good()) return;
                 L y = r.read_int<L>();
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
-                if (!r.good()) return;
                 r.move_to_eol();
                 r.move_to_next_int();
                 set_value_(x_, coord_pos, x);
-- 
2.43.0


From 7984090365318997208f1b59c1a02bcbf5c1ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 03/29] fix: do not write the weights of entries that are
 filtered out

When reading weighted entries with self loops or the lower triangle
removed, the weight was stored before deciding whether to keep the
entry. The last skipped weight of a thread overwrote the next thread's
first weight or ran past the allocation. Skipped entries were also
handled recursively, one stack frame for each.
---
 include/pigo/impl/coo.impl.hpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index f7c6ae9..dbd0a55 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -229,20 +229,19 @@ namespace pigo {
         /** Count-only implementation of reading a coord entry */
         template<class L, class O, class S, bool sym, bool ut, bool sl, bool wgt, class W, class WS>
         struct read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true> {
-            static inline void op_(S& x_, S& y_, WS& w_, size_t &coord_pos, FileReader &r, L& max_row, L& max_col) {
+            static inline void op_(S&, S&, WS& w_, size_t &coord_pos, FileReader &r, L&, L&) {
                 L x = r.read_int<L>();
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
+                // Entries that are filtered out must not touch the storage
+                bool skip = (if_true_<sl>() && x == y) ||
+                    (!if_true_<sym>() && if_true_<ut>() && x > y);
+                if (!skip)
+                    read_wgt_<wgt, W, WS, true>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,true>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (skip) return;
                 if (if_true_<sym>() && !if_true_<ut>() && x != y) ++coord_pos;
                 ++coord_pos;
             }
@@ -256,15 +255,14 @@ namespace pigo {
                 r.move_to_next_int();
                 if (!r.good()) return;
                 L y = r.read_int<L>();
-                read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
+                // Entries that are filtered out must not touch the storage
+                bool skip = (if_true_<sl>() && x == y) ||
+                    (!if_true_<sym>() && if_true_<ut>() && x > y);
+                if (!skip)
+                    read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
                 r.move_to_eol();
                 r.move_to_next_int();
-                if (if_true_<sl>() && x == y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
-                if (!if_true_<sym>() && if_true_<ut>() && x > y) {
-                    return read_coord_entry_i_<L,O,S,sym,ut,sl,wgt,W,WS,false>::op_(x_, y_, w_, coord_pos, r, max_row, max_col);
-                }
+                if (skip) return;
                 if (if_true_<sym>() && if_true_<ut>() && x > y) std::swap(x, y);
                 set_value_(x_, coord_pos, x);
                 set_value_(y_, coord_pos, y);
-- 
2.43.0


From ab98a25fd4b88edc42ea5f8d7476e3846e117817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 04/29] fix: count mirrored entries in the dimensions of
 symmetric reads

nrows and ncols were computed from the coordinates as they appear in
the file, so with symmetrize the stored entries could be outside of the
reported dimensions.
---
 include/pigo/impl/coo.impl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index dbd0a55..47c1116 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -278,6 +278,11 @@ namespace pigo {
                 }
                 if (x > max_row) max_row = x;
                 if (y > max_col) max_col = y;
+                if (if_true_<sym>() && !if_true_<ut>()) {
+                    // The mirrored entry is stored as well
+                    if (y > max_row) max_row = y;
+                    if (x > max_col) max_col = x;
+                }
             }
         };
 
-- 
2.43.0


From 7ecc4054d686c85f286c7bee72267d6642e28b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 05/29] fix: accept filtered and symmetrized MatrixMarket files

Loading a valid MatrixMarket file with self loops or the lower triangle
removed was rejected as soon as an entry was actually removed, and a
rectangular file was rejected when symmetrized, because the header was
compared with the number and labels of the stored entries as if none
were filtered or mirrored.
---
 include/pigo/impl/coo.impl.hpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 47c1116..137f296 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -348,6 +348,12 @@ namespace pigo {
         // Now, read out the actual contents
         read_el_(r);
 
+        // Symmetric entries can use each label as a row and as a column
+        if (detail::if_true_<sym>()) {
+            if (nrows > ncols) ncols = nrows;
+            else nrows = ncols;
+        }
+
         // Finally, sanity check the file
         if (nrows >= nrows_)
             nrows_ = nrows;
@@ -362,21 +368,18 @@ namespace pigo {
             free();
             throw Error("Too many col labels in file contradicting header");
         }
-        if (detail::if_true_<sym>()) {
-            if (nnz > 2*m_) {
-                free();
-                throw Error("Header wants more non-zeros than found");
-            }
-        } else if (detail::if_true_<sl>()) {
-            if (nnz > m_) {
-                free();
-                throw Error("Header wants more non-zeros than read");
-            }
-        } else {
-            if (nnz != m_) {
-                free();
-                throw Error("Header contradicts number of read non-zeros");
-            }
+        // Removing self loops or a triangle can keep fewer entries, mirroring
+        // entries can store up to twice as many
+        bool filtered = detail::if_true_<sl>() ||
+            (!detail::if_true_<sym>() && detail::if_true_<ut>());
+        bool mirrored = detail::if_true_<sym>() && !detail::if_true_<ut>();
+        if (m_ < nnz && !filtered) {
+            free();
+            throw Error("Header wants more non-zeros than found");
+        }
+        if (m_ > nnz && (!mirrored || m_ - nnz > nnz)) {
+            free();
+            throw Error("Header contradicts number of read non-zeros");
         }
 
         if (nrows_ > ncols_) n_ = nrows_;
-- 
2.43.0


From e7ab323f66a6681b14d230c3adf2cdcc04299b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 06/29] fix: set the dimensions of a COO built from a CSR

nrows and ncols were left uninitialised when converting from a CSR,
and were then reported, saved and passed on to further conversions.
---
 include/pigo/impl/coo.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 137f296..02b64d5 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -68,6 +68,13 @@ namespace pigo {
         // First, set our sizes and allocate space
         n_ = csr.n();
         m_ = csr.m();
+        nrows_ = csr.nrows();
+        ncols_ = csr.ncols();
+        if (detail::if_true_<sym>()) {
+            // Each label can be a row and a column
+            if (nrows_ > ncols_) ncols_ = nrows_;
+            else nrows_ = ncols_;
+        }
 
         if (detail::if_true_<sym>() && !detail::if_true_<ut>())
             m_ *= 2;
-- 
2.43.0


From 0cd990d030ea066bf78b30a34307fdd912123c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 07/29] fix: report failures inside parallel regions as
 exceptions

An exception must not leave an OpenMP region. When the output file
could not be created, when there was nothing to write, or when an
allocation failed, the exception thrown inside of the region terminated
the program instead of reaching the caller.
---
 include/pigo/impl/coo.impl.hpp    | 22 +++++++++++++++++-----
 include/pigo/impl/csr.impl.hpp    | 30 +++++++++++++++++++++++-------
 include/pigo/impl/tensor.impl.hpp | 29 ++++++++++++++++++-----------
 3 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 02b64d5..59d68b9 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -7,6 +7,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -415,6 +416,9 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets(num_threads);
 
+        // Exceptions cannot leave a parallel region, so keep them until the end
+        std::exception_ptr err;
+
         L max_row = 0;
         L max_col = 0;
         #pragma omp parallel reduction(max : max_row) \
@@ -470,7 +474,8 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try { allocate_(); }
+                catch (...) { err = std::current_exception(); }
             }
             #pragma omp barrier
 
@@ -481,11 +486,13 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2, max_row, max_col);
             }
         }
 
+        if (err) std::rethrow_exception(err);
+
         // Set the number of labels in the matrix represented by the COO
         nrows_ = max_row + 1;
         ncols_ = max_col + 1;
@@ -602,6 +609,7 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
+        std::exception_ptr err;
         #pragma omp parallel shared(f) shared(pos_offsets)
         {
             #ifdef _OPENMP
@@ -644,16 +652,19 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try { f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]); }
+                catch (...) { err = std::current_exception(); }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 auto x = detail::get_value_<S, L>(x_, e);
                 write_ascii(my_fp, x);
                 pigo::write(my_fp, ' ');
@@ -667,6 +678,7 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
 }
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index cde824d..8a12475 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <string>
 #ifdef _OPENMP
@@ -286,6 +287,9 @@ namespace pigo {
         std::vector<L> max_labels(num_threads);
         std::vector<bool> have_zeros(num_threads, false);
         bool have_zero;
+
+        // Exceptions cannot leave a parallel region, so keep them until the end
+        std::exception_ptr err;
         #pragma omp parallel shared(have_zero) shared(have_zeros)
         {
             #ifdef _OPENMP
@@ -368,11 +372,13 @@ namespace pigo {
                 m_ = int_offsets[num_threads-1];
                 n_ = nl_offsets[num_threads-1];
                 nrows_ = n_;
-                allocate_();
-                detail::set_value_(offsets_, 0, 0);
-                if (!have_zero)
-                    detail::set_value_(offsets_, 1, 0);
-                detail::set_value_(offsets_, n_, m_);
+                try {
+                    allocate_();
+                    detail::set_value_(offsets_, 0, 0);
+                    if (!have_zero)
+                        detail::set_value_(offsets_, 1, 0);
+                    detail::set_value_(offsets_, n_, m_);
+                } catch (...) { err = std::current_exception(); }
             }
             #pragma omp barrier
 
@@ -388,7 +394,7 @@ namespace pigo {
             } else if (!have_zero)
                 offset_pos = 1;
 
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 // Ignore any trailing data in the file
                 if (offset_pos >= n_) break;
 
@@ -410,6 +416,8 @@ namespace pigo {
             max_labels[tid] = my_max;
         }
 
+        if (err) std::rethrow_exception(err);
+
         if (m_ == 2*read_m) {}
         else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
         if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
@@ -529,6 +537,7 @@ namespace pigo {
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
+        bool out_of_memory = false;
         #pragma omp parallel for schedule(dynamic, 10240)
         for (L v = 0; v < n_; ++v) {
             // Get the start and end range
@@ -541,7 +550,13 @@ namespace pigo {
                 // everything. For now, make a joint array, sort that, and
                 // then pull out the resulting data
                 std::vector<std::pair<L, W>> vec;
-                vec.reserve(end-start);
+                try { vec.reserve(end-start); }
+                catch (...) {
+                    // This cannot leave the parallel region
+                    #pragma omp atomic write
+                    out_of_memory = true;
+                    continue;
+                }
                 for (O cur = start; cur < end; ++cur) {
                     L l = detail::get_value_<LS, L>(endpoints_, cur);
                     W w = detail::get_value_<WS, W>(weights_, cur);
@@ -566,6 +581,7 @@ namespace pigo {
                 std::sort(range_start, range_end);
             }
         }
+        if (out_of_memory) throw std::bad_alloc();
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 187320b..67543b5 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -8,6 +8,7 @@
 #include <omp.h>
 #endif
 #include <atomic>
+#include <exception>
 #include <vector>
 #include <type_traits>
 
@@ -129,6 +130,9 @@ namespace pigo {
 
         std::vector<size_t> nl_offsets(num_threads);
 
+        // Exceptions cannot leave a parallel region, so keep them until the end
+        std::exception_ptr err;
+
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -180,7 +184,8 @@ namespace pigo {
 
                 // Now, allocate the space appropriately
                 m_ = nl_offsets[num_threads-1];
-                allocate_();
+                try { allocate_(); }
+                catch (...) { err = std::current_exception(); }
             }
             #pragma omp barrier
 
@@ -191,10 +196,11 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (rs_p2.good()) {
+            while (!err && rs_p2.good()) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
@@ -306,6 +312,7 @@ namespace pigo {
 
         std::vector<size_t> pos_offsets(num_threads+1);
         std::shared_ptr<File> f;
+        std::exception_ptr err;
         #pragma omp parallel shared(f) shared(pos_offsets)
         {
             #ifdef _OPENMP
@@ -344,16 +351,19 @@ namespace pigo {
                     pos_offsets[thread] = pos_offsets[thread-1] + pos_offsets[thread];
 
                 // Allocate the file
-                f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]);
+                try { f = std::make_shared<File>(fn, WRITE, pos_offsets[num_threads]); }
+                catch (...) { err = std::current_exception(); }
             }
 
             #pragma omp barrier
 
-            FilePos my_fp = f->fp()+pos_offsets[tid];
+            FilePos my_fp = nullptr;
+            if (f) my_fp = f->fp()+pos_offsets[tid];
+            O write_m = f ? m_ : 0;
 
             // Perform the second pass, actually writing out to the file
             #pragma omp for
-            for (O e = 0; e < m_; ++e) {
+            for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
                     auto x = detail::get_value_<S, L>(c_, e*order_+idx);
                     write_ascii(my_fp, x);
@@ -368,6 +378,7 @@ namespace pigo {
                 pigo::write(my_fp, '\n');
             }
         }
+        if (err) std::rethrow_exception(err);
     }
 
     template<class L, class O, class S, class W, class WS, bool wgt>
@@ -385,7 +396,7 @@ namespace pigo {
         }
         #endif
 
-        std::vector<L*> maxes(num_threads);
+        std::vector<std::vector<L>> maxes(num_threads, std::vector<L>(order_));
         #pragma omp parallel
         {
             #ifdef _OPENMP
@@ -393,8 +404,7 @@ namespace pigo {
             #else
             size_t tid = 0;
             #endif
-            L* my_maxes = new L[order_];
-            for (O idx = 0; idx < order_; ++idx) my_maxes[idx] = 0;
+            L* my_maxes = maxes[tid].data();
 
             const L* c = (const L*)detail::get_const_data_<S>(c_);
             #pragma omp for
@@ -404,15 +414,12 @@ namespace pigo {
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
-
-            maxes[tid] = my_maxes;
         }
 
         std::vector<L> ret(order_);
         for (size_t tid = 0; tid < num_threads; ++tid) {
             for (O idx = 0; idx < order_; ++idx)
                 if (maxes[tid][idx] > ret[idx]) ret[idx] = maxes[tid][idx];
-            delete [] maxes[tid];
         }
 
         return ret;
-- 
2.43.0


From e710afa7ede3e6d8083fbbcabaf5cbfee97bb838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 08/29] fix: find every offset of a character

find_offsets skipped a match at the very start, depended on how the
file was divided among the threads, and read one character past the end
of its range, which could report a match that does not exist.
---
 include/pigo/impl/pigo.impl.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index cc384c6..6a24c9c 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -547,18 +547,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Every thread searches exactly its own part
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
 
             // Now, for pass 1, count the number of characters found
             size_t tid_c = 0;
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
+            for (; rs_p1.good(); ++rs_p1.d) {
                 if (*rs_p1.d == c)
                     ++tid_c;
             }
@@ -600,10 +596,7 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Next, move to the 'real' starting point
-            re.move_to(c);
-            if (tid != 0)
-                rs.move_to(c);
+            // Every thread searches exactly its own part
             rs.smaller_end(re);
 
             FileReader rs_p1 = rs;
@@ -612,8 +605,7 @@ namespace pigo {
             size_t tid_c = 0;
             if (tid > 0)
                 tid_c = c_offsets[tid-1];
-            while (rs_p1.good()) {
-                rs_p1.move_to(c);
+            for (; rs_p1.good(); ++rs_p1.d) {
                 if (*rs_p1.d == c) {
                     detail::set_value_(t_c, tid_c, rs_p1.d-r.d);
                     ++tid_c;
-- 
2.43.0


From dceac444eaf3bb75acad6f40fdf66995dd9c7155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 09/29] fix: read GRAPH files with empty rows, comments, or no
 final newline

Empty first rows were skipped and shifted all vertices, a line holding
only a comment was counted as a vertex, a thread whose part of the file
started inside of a comment read the comment as neighbors, trailing
empty lines were counted in nrows, a last row without a newline was
rejected, and the threads shared the words of a vector<bool>.
---
 include/pigo/impl/csr.impl.hpp  | 33 +++++++++++++++++++++++----------
 include/pigo/impl/pigo.impl.hpp | 13 ++++---------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 8a12475..2bda3b6 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -274,8 +274,9 @@ namespace pigo {
         L read_n = r.read_int<L>();
         r.move_to_next_int();
         O read_m = r.read_int<O>();
+        // The first row starts right after the header and can be empty
         r.move_to_eol();
-        r.move_to_next_int();
+        r.move_to_next_int_or_nl();
 
         // This takes two passes:
         // first, count the number of newlines and integers to allocate
@@ -285,7 +286,8 @@ namespace pigo {
         std::vector<size_t> nl_offsets(num_threads);
         std::vector<size_t> int_offsets(num_threads);
         std::vector<L> max_labels(num_threads);
-        std::vector<bool> have_zeros(num_threads, false);
+        // Note: the threads set these concurrently, bits would not be safe
+        std::vector<char> have_zeros(num_threads, 0);
         bool have_zero;
 
         // Exceptions cannot leave a parallel region, so keep them until the end
@@ -305,12 +307,14 @@ namespace pigo {
             FileReader rs = r + tid_start_i;
             FileReader re = r + tid_end_i;
 
-            // Now, move to the appropriate starting point
+            // Now, move to the appropriate starting point, moving to the
+            // next line so as to never start inside of a comment
+            re.move_to_eol();
             re.move_to_next_int();
             if (tid != 0) {
+                rs.move_to_eol();
                 rs.move_to_next_int();
-            } else
-                rs.move_to_first_int();
+            }
 
             // Set our file reader to end either at the full end or at
             // the thread id local end
@@ -321,19 +325,24 @@ namespace pigo {
             size_t tid_nls = 0;
             size_t tid_ints = 0;
             bool my_have_zero = false;
+            bool in_row = false;
             while (rs_p1.good()) {
-                if (rs_p1.at_nl_or_eol())
-                    ++tid_nls;
-                else
+                in_row = !rs_p1.at_nl_or_eol();
+                if (in_row)
                     ++tid_ints;
+                else
+                    ++tid_nls;
                 // Determine if this is a 0
                 if (rs_p1.at_zero() && !my_have_zero)
                     my_have_zero = true;
 
                 rs_p1.move_to_next_int_or_nl();
             }
+            // The last row may not be terminated by a newline
+            if (in_row)
+                ++tid_nls;
             if (my_have_zero) {
-                have_zeros[tid] = true;
+                have_zeros[tid] = 1;
             }
 
             #pragma omp barrier
@@ -409,7 +418,9 @@ namespace pigo {
                     if (endpoint > my_max)
                         my_max = endpoint;
                     detail::set_value_(endpoints_, endpoint_pos++, endpoint);
-                    if (!rs_p2.at_nl_or_eol())
+                    if (rs_p2.at_nl_or_eol())
+                        rs_p2.move_to_eol(); // This can be at a comment
+                    else
                         rs_p2.move_to_next_int_or_nl();
                 }
             }
@@ -422,6 +433,8 @@ namespace pigo {
         else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
         if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
         else n_ = read_n;
+        // Trailing lines are not rows
+        nrows_ = (have_zero) ? n_ : n_+1;
 
         L col_max = max_labels[0];
         for (size_t thread = 1; thread < num_threads; ++thread) {
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 6a24c9c..29c305c 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -480,20 +480,15 @@ namespace pigo {
         if (d < end && *d == '\n') {
             if (at_int) return;     // We have now reached a newline
             ++d; // Move through a newline
+            skip_comments(); // Lines that only hold a comment do not count
         }
 
-        if (d < end && (*d == '%' || *d == '#')) {
-            skip_comments();
-            --d;        // This will end at a newline
-            return;
-        }
         while (d < end && (*d < '0' || *d > '9') && *d != '\n') {
-            ++d;
-            if (d < end && (*d == '%' || *d == '#')) {
-                skip_comments();
-                --d;
+            if (*d == '%' || *d == '#') {
+                move_to_eol();
                 return;
             }
+            ++d;
         }
     }
 
-- 
2.43.0


From 0b75518546ad4399732fdc7ea455f8d48ff3726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 10/29] fix: moving a File transfers the mapping and the
 position

The move constructor left the mapping with both objects, so it was
unmapped twice, possibly after the address range was reused. Neither
move took over the file position or the file name.
---
 include/pigo.hpp                | 6 +++---
 include/pigo/impl/pigo.impl.hpp | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index 3a9e01f..b26cadd 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -314,9 +314,9 @@ namespace pigo {
             File& operator=(const File&) = delete;
 
             /** @brief Move constructor */
-            File(File &&o) {
-                data_ = o.data_;
-                size_ = o.size_;
+            File(File &&o) : data_(o.data_), size_(o.size_), fp_(o.fp_),
+                    fn_(o.fn_) {
+                o.data_ = nullptr;
             }
 
             /** @brief Move operator */
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 29c305c..bb0b48e 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -91,6 +91,8 @@ namespace pigo {
                 munmap(data_, size_);
             data_ = o.data_;
             size_ = o.size_;
+            fp_ = o.fp_;
+            fn_ = o.fn_;
             o.data_ = nullptr;
         }
         return *this;
-- 
2.43.0


From 51c342403e6e4cdc0b63d653debd318b9689af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 11/29] fix: release the descriptor and mapping when opening a
 File fails

Each failure after the file was opened leaked the descriptor or the
mapping, as the destructor does not run for a constructor that throws.
---
 include/pigo/impl/pigo.impl.hpp | 44 ++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index bb0b48e..4055d19 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -37,8 +37,14 @@ namespace pigo {
             // Set the file to the given size
             FILE *w_f = fopen(fn.c_str(), "w");
             if (w_f == NULL) throw Error("PIGO: Unable to open file for writing");
-            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) throw Error("PIGO: Seek to set size");
-            if (fputc(1, w_f) != 1) throw Error("PIGO: Unable to set size");
+            if (fseeko(w_f, max_size-1, SEEK_SET) != 0) {
+                fclose(w_f);
+                throw Error("PIGO: Seek to set size");
+            }
+            if (fputc(1, w_f) != 1) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to set size");
+            }
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
@@ -53,24 +59,44 @@ namespace pigo {
         #endif
         if (fd < 0) throw Error("Unable to open file");
         FILE *f = fdopen(fd, fopen_mode);
-        if (f == NULL) throw Error("PIGO: fdopen file");
+        if (f == NULL) {
+            close(fd);
+            throw Error("PIGO: fdopen file");
+        }
 
         // Find the file size
-        if (fseeko(f, 0 , SEEK_END) != 0)  throw Error("PIGO: Unable to seek to end");
+        if (fseeko(f, 0 , SEEK_END) != 0) {
+            fclose(f);
+            throw Error("PIGO: Unable to seek to end");
+        }
         size_ = ftello(f);
-        if (size_ == (size_t)(-1)) throw Error("PIGO: Invalid size");
+        if (size_ == (size_t)(-1)) {
+            fclose(f);
+            throw Error("PIGO: Invalid size");
+        }
 
-        if (mode == WRITE && size_ != max_size)
+        if (mode == WRITE && size_ != max_size) {
+            fclose(f);
             throw Error("PIGO: Wrong file size of new file");
+        }
 
         // MMAP the space
         data_ = (char*)mmap(NULL, size_*sizeof(char), prot,
                 MAP_SHARED | MAP_NORESERVE, fd, 0);
-        if (data_ == MAP_FAILED) throw Error("PIGO: MMAP");
-        if (fclose(f) != 0) throw Error("PIGO: Fclose");
+        if (data_ == MAP_FAILED) {
+            fclose(f);
+            throw Error("PIGO: MMAP");
+        }
+        if (fclose(f) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: Fclose");
+        }
 
         // Advise the mmap for performance
-        if (madvise(data_, size_, MADV_WILLNEED) != 0) throw Error("PIGO: madvise");
+        if (madvise(data_, size_, MADV_WILLNEED) != 0) {
+            munmap(data_, size_);
+            throw Error("PIGO: madvise");
+        }
 
         // Finally, set the file position
         seek(0);
-- 
2.43.0


From d231ca62198472085caa77dad1d12ed62a200d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 12/29] fix: report a full disk when creating an output file

The output file was created sparse, so running out of disk space later
raised SIGBUS in the middle of writing to the mapping.
---
 include/pigo/impl/pigo.impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 4055d19..181cd9a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -5,6 +5,7 @@
  */
 
 #include <cmath>
+#include <errno.h>
 #include <stdlib.h>
 #include <sys/mman.h>
 #include <sys/types.h>
@@ -45,6 +46,15 @@ namespace pigo {
                 fclose(w_f);
                 throw Error("PIGO: Unable to set size");
             }
+            #ifdef __linux__
+            // Reserve the space: a store to the mapping cannot report that
+            // the disk is full, it would kill the program instead
+            int alloc_res = posix_fallocate(fileno(w_f), 0, max_size);
+            if (alloc_res == ENOSPC || alloc_res == EFBIG || alloc_res == EIO) {
+                fclose(w_f);
+                throw Error("PIGO: Unable to reserve space");
+            }
+            #endif
             if (fclose(w_f) != 0) throw Error("PIGO: Unable to close new file");
         }
 
-- 
2.43.0


From f790aeb60082dd0a8023384cee118cc19a3cc506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 13/29] fix: reject truncated or damaged binary files

The binary loaders trusted the sizes in the file and read past the end
of the mapping, or past an allocation whose size had overflowed. CSR
offsets and COO labels that are out of range were used to address
memory.
---
 include/pigo.hpp                  |  3 +++
 include/pigo/impl/coo.impl.hpp    |  7 +++++++
 include/pigo/impl/csr.impl.hpp    | 28 ++++++++++++++++++++++++++++
 include/pigo/impl/pigo.impl.hpp   |  2 ++
 include/pigo/impl/tensor.impl.hpp | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/include/pigo.hpp b/include/pigo.hpp
index b26cadd..7c5681d 100644
--- a/include/pigo.hpp
+++ b/include/pigo.hpp
@@ -376,6 +376,9 @@ namespace pigo {
             /** @brief Return the size of the file */
             size_t size() { return size_; }
 
+            /** @brief Return the number of bytes after the file position */
+            size_t remaining() { return size_ - (size_t)(fp_ - data_); }
+
             /** @brief Auto-detect the file type
              *
              * This will determine the file type based on a mixture of the
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 59d68b9..066c959 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -567,6 +567,13 @@ namespace pigo {
         n_ = f.read<L>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all entries before allocating for them
+        size_t entry_size = 2*sizeof(L) + detail::weight_size_<wgt, W, O>(1);
+        if ((size_t)m_ > f.remaining()/entry_size) {
+            m_ = 0;
+            throw Error("Truncated COO binary");
+        }
+
         // Allocate space
         allocate_();
 
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 2bda3b6..1b7ca67 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -117,6 +117,16 @@ namespace pigo {
         nrows_ = coo.nrows();
         ncols_ = coo.ncols();
 
+        // Each row label addresses the offsets, ensure that it can
+        auto& labels = coo.x();
+        bool valid = true;
+        #pragma omp parallel for reduction(&& : valid)
+        for (O pos = 0; pos < m_; ++pos) {
+            L label = detail::get_value_<COOStorage, L>(labels, pos);
+            valid = valid && (size_t)label < (size_t)n_;
+        }
+        if (!valid) throw Error("A COO label is outside of the matrix");
+
         // Allocate the offsets and endpoints
         allocate_();
 
@@ -528,6 +538,13 @@ namespace pigo {
         nrows_ = f.read<L>();
         ncols_ = f.read<L>();
 
+        // Ensure the file holds all values before allocating for them
+        size_t left = f.remaining();
+        size_t entry_size = sizeof(L) + detail::weight_size_<wgt, W, O>(1);
+        if ((size_t)n_ >= left/sizeof(O) ||
+                (size_t)m_ > (left - sizeof(O)*((size_t)n_+1))/entry_size)
+            throw Error("Truncated CSR binary");
+
         // Allocate space
         allocate_();
 
@@ -546,6 +563,17 @@ namespace pigo {
             char* wend = detail::get_raw_data_<WS>(weights_);
             f.parallel_read(wend, w_size);
         }
+
+        // The offsets are used to address the endpoints, ensure they can be
+        O* offsets = (O*)voff;
+        bool valid = offsets[0] == 0 && offsets[n_] == m_;
+        #pragma omp parallel for reduction(&& : valid)
+        for (L v = 0; v < n_; ++v)
+            valid = valid && offsets[v] <= offsets[v+1];
+        if (!valid) {
+            free();
+            throw Error("Invalid offsets in CSR binary");
+        }
     }
 
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 181cd9a..784ed98 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -137,6 +137,7 @@ namespace pigo {
     template<class T>
     inline
     T File::read() {
+        if (sizeof(T) > remaining()) throw Error("reading beyond end of file");
         return ::pigo::read<T>(fp_);
     }
 
@@ -161,6 +162,7 @@ namespace pigo {
 
     inline
     void File::parallel_read(char* v, size_t v_size) {
+        if (v_size > remaining()) throw Error("reading beyond end of file");
         ::pigo::parallel_read(fp_, v, v_size);
     }
 
diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 67543b5..0872999 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -274,6 +274,16 @@ namespace pigo {
         order_ = f.read<O>();
         m_ = f.read<O>();
 
+        // Ensure the file holds all entries before allocating for them
+        size_t left = f.remaining();
+        size_t max_order = left/sizeof(L);
+        size_t w_entry = detail::weight_size_<wgt, W, O>(1);
+        if (m_ != 0 && ((size_t)order_ > max_order || (order_ == 0 && w_entry == 0) ||
+                    (size_t)m_ > left/(sizeof(L)*order_ + w_entry))) {
+            m_ = 0;
+            throw Error("Truncated Tensor binary");
+        }
+
         // Allocate space
         allocate_();
 
-- 
2.43.0


From d751f33c5132d8204b381c5b0549396eee4e0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 14/29] fix: keep the CSR weights alive while converting to a
 COO

The storage was copied into the scope of the if, so a std::vector of
weights was freed before it was read.
---
 include/pigo/impl/coo.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index 066c959..c1ebd03 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -86,14 +86,14 @@ namespace pigo {
 
         allocate_();
 
-        auto storage_offsets = csr.offsets();
-        auto storage_endpoints = csr.endpoints();
+        auto& storage_offsets = csr.offsets();
+        auto& storage_endpoints = csr.endpoints();
         CO* offsets = (CO*)detail::get_raw_data_(storage_offsets);
         CL* endpoints = (CL*)detail::get_raw_data_(storage_endpoints);
 
         CW* weights = nullptr;
         if (detail::if_true_<wgt>()) {
-            auto storage_weights = csr.weights();
+            auto& storage_weights = csr.weights();
             weights = (CW*)detail::get_raw_data_(storage_weights);
         }
 
-- 
2.43.0


From 819f4ddcf198796ac43d9587343c7bcab9ffa707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:26 +0000
Subject: [PATCH 15/29] fix: detect missing rows in one-based GRAPH files

The row added for the unused label zero was counted as a row of the file,
so a header with one row too many was accepted and offsets were read past
their end.
---
 include/pigo/impl/csr.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 1b7ca67..4a7688d 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -441,7 +441,8 @@ namespace pigo {
 
         if (m_ == 2*read_m) {}
         else if (m_ != read_m) throw Error("Mismatch in CSR nonzeros and header");
-        if (n_ < read_n) throw Error("Mismatch in CSR newlines and header");
+        // Without a zero label the first row was added and is not in the file
+        if (n_ - (have_zero ? 0 : 1) < read_n) throw Error("Mismatch in CSR newlines and header");
         else n_ = read_n;
         // Trailing lines are not rows
         nrows_ = (have_zero) ? n_ : n_+1;
-- 
2.43.0


From 2944cc90645a0c8653755f378d68eeae9547e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 16/29] fix: keep the last row of one-based GRAPH files

The rows are stored at 1 through n, but saving, sorting, removing
duplicates from, and converting the CSR stopped before row n.
---
 include/pigo/csr.hpp           | 12 +++++++++
 include/pigo/impl/coo.impl.hpp |  6 ++++-
 include/pigo/impl/csr.impl.hpp | 48 ++++++++++++++++++----------------
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/include/pigo/csr.hpp b/include/pigo/csr.hpp
index c5e4412..20d7fae 100644
--- a/include/pigo/csr.hpp
+++ b/include/pigo/csr.hpp
@@ -106,6 +106,18 @@ namespace pigo {
             /** @brief Allocate the storage for the CSR */
             void allocate_();
 
+            /** @brief Return the number of rows that are stored
+             *
+             * GRAPH files with labels starting at one have an additional
+             * row for the unused label zero, so there can be more rows
+             * than labels.
+             *
+             * @return the number of rows in the offsets
+             */
+            size_t stored_rows_() const {
+                return nrows_ > n_ ? (size_t)nrows_ : (size_t)n_;
+            }
+
             /** @brief Convert a COO into this CSR
              *
              * @tparam COOLabel the label for the COO format
diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index c1ebd03..dbba782 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -71,6 +71,10 @@ namespace pigo {
         m_ = csr.m();
         nrows_ = csr.nrows();
         ncols_ = csr.ncols();
+        // There can be an additional row for the unused label zero
+        L rows = nrows_ > n_ ? nrows_ : n_;
+        // The columns are labels, as well
+        if (ncols_ > rows) n_ = ncols_;
         if (detail::if_true_<sym>()) {
             // Each label can be a row and a column
             if (nrows_ > ncols_) ncols_ = nrows_;
@@ -98,7 +102,7 @@ namespace pigo {
         }
 
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             auto start = endpoints + offsets[v];
             auto end = endpoints + offsets[v+1];
             size_t coo_cur = offsets[v];
diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index 4a7688d..fda9731 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -71,7 +71,7 @@ namespace pigo {
     void CSR<L,O,LS,OS,wgt,W,WS>::allocate_() {
         detail::allocate_mem_<LS>(endpoints_, m_);
         detail::allocate_mem_<WS,wgt>(weights_, m_);
-        detail::allocate_mem_<OS>(offsets_, n_+1);
+        detail::allocate_mem_<OS>(offsets_, stored_rows_()+1);
     }
     namespace detail {
         template<bool wgt, class W, class WS, class COOW, class COOWS, class O>
@@ -123,7 +123,7 @@ namespace pigo {
         #pragma omp parallel for reduction(&& : valid)
         for (O pos = 0; pos < m_; ++pos) {
             L label = detail::get_value_<COOStorage, L>(labels, pos);
-            valid = valid && (size_t)label < (size_t)n_;
+            valid = valid && (size_t)label < stored_rows_();
         }
         if (!valid) throw Error("A COO label is outside of the matrix");
 
@@ -151,14 +151,15 @@ namespace pigo {
 
         // Temporarily keep track of the degree for each label (this can
         // easily be computed later)
-        O* label_degs = new O[n_];
+        L rows = stored_rows_();
+        O* label_degs = new O[rows];
 
         // Keep track of the starting offsets for each thread
         O* start_offsets = new O[num_threads];
 
         // Each thread will compute the degrees for each label on its own.
         // This is then used to reduce them all
-        O* all_degs = new O[n_];
+        O* all_degs = new O[rows];
         #pragma omp parallel shared(all_degs) shared(label_degs) shared(start_offsets)
         {
             #ifdef _OPENMP
@@ -167,12 +168,12 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
             // We need to initialize degrees to count for zero-degree
             // vertices
             #pragma omp for
-            for (L v = 0; v < n_; ++v)
+            for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
             auto coo_x = coo.x();
@@ -228,7 +229,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(offsets_, n_, m_);
+                detail::set_value_(offsets_, rows, m_);
             }
 
             #pragma omp barrier
@@ -465,7 +466,7 @@ namespace pigo {
         // Find the size of the size of the CSR
         out_size += sizeof(L)*3+sizeof(O);
         // Finally, find the actual CSR size
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
         out_size += voff_size + vend_size + w_size;
@@ -503,7 +504,7 @@ namespace pigo {
         w.write(nrows_);
         w.write(ncols_);
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
         size_t w_size = detail::weight_size_<wgt, W, O>(m_);
 
@@ -542,14 +543,15 @@ namespace pigo {
         // Ensure the file holds all values before allocating for them
         size_t left = f.remaining();
         size_t entry_size = sizeof(L) + detail::weight_size_<wgt, W, O>(1);
-        if ((size_t)n_ >= left/sizeof(O) ||
-                (size_t)m_ > (left - sizeof(O)*((size_t)n_+1))/entry_size)
+        size_t rows = stored_rows_();
+        if (rows >= left/sizeof(O) ||
+                (size_t)m_ > (left - sizeof(O)*(rows+1))/entry_size)
             throw Error("Truncated CSR binary");
 
         // Allocate space
         allocate_();
 
-        size_t voff_size = sizeof(O)*(n_+1);
+        size_t voff_size = sizeof(O)*(stored_rows_()+1);
         size_t vend_size = sizeof(L)*m_;
 
         // Read out the vectors
@@ -567,9 +569,9 @@ namespace pigo {
 
         // The offsets are used to address the endpoints, ensure they can be
         O* offsets = (O*)voff;
-        bool valid = offsets[0] == 0 && offsets[n_] == m_;
+        bool valid = offsets[0] == 0 && offsets[rows] == m_;
         #pragma omp parallel for reduction(&& : valid)
-        for (L v = 0; v < n_; ++v)
+        for (size_t v = 0; v < rows; ++v)
             valid = valid && offsets[v] <= offsets[v+1];
         if (!valid) {
             free();
@@ -580,8 +582,9 @@ namespace pigo {
     template<class L, class O, class LS, class OS, bool wgt, class W, class WS>
     void CSR<L,O,LS,OS,wgt,W,WS>::sort() {
         bool out_of_memory = false;
+        L rows = stored_rows_();
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             // Get the start and end range
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
@@ -634,13 +637,14 @@ namespace pigo {
 
         // Next, count the degrees for each vertex, excluding duplicates
         std::shared_ptr<L> degs_storage;
-        detail::allocate_mem_(degs_storage, n_);
+        L rows = stored_rows_();
+        detail::allocate_mem_(degs_storage, rows);
         L* degs = degs_storage.get();
 
         nO new_m = 0;
 
         #pragma omp parallel for schedule(dynamic, 10240) shared(degs) reduction(+ : new_m)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O start = detail::get_value_<OS, O>(offsets_, v);
             O end = detail::get_value_<OS, O>(offsets_, v+1);
             if (end-start == 0) {
@@ -698,8 +702,8 @@ namespace pigo {
             size_t tid = 0;
             #endif
 
-            L v_start = (tid*n_)/num_threads;
-            L v_end = ((tid+1)*n_)/num_threads;
+            L v_start = (tid*rows)/num_threads;
+            L v_end = ((tid+1)*rows)/num_threads;
 
             O my_degs = 0;
             for (L c = v_start; c < v_end; ++c) {
@@ -737,7 +741,7 @@ namespace pigo {
             {
                 // Patch the last offset to the end, making for easier
                 // degree computation and iteration
-                detail::set_value_(new_offsets, (nL)n_, new_m);
+                detail::set_value_(new_offsets, (nL)rows, new_m);
             }
 
             // Now, all new offsets have been assigned
@@ -745,7 +749,7 @@ namespace pigo {
 
         // Repeat going through the edges, copying out the endpoints
         #pragma omp parallel for schedule(dynamic, 10240)
-        for (L v = 0; v < n_; ++v) {
+        for (L v = 0; v < rows; ++v) {
             O o_start = detail::get_value_<OS, O>(offsets_, v);
             O o_end = detail::get_value_<OS, O>(offsets_, v+1);
             if (o_end-o_start == 0) continue;
-- 
2.43.0


From cd7b89c8bbc6b967506a495e955c23168de5330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 17/29] fix: only load CSR binaries inside of a DiGraph binary

Detecting the type let a damaged or mismatching part be parsed as text.
---
 include/pigo/impl/graph.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/impl/graph.impl.hpp b/include/pigo/impl/graph.impl.hpp
index 48355d8..1787990 100644
--- a/include/pigo/impl/graph.impl.hpp
+++ b/include/pigo/impl/graph.impl.hpp
@@ -38,7 +38,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
             out_ = BaseGraph<
                         vertex_t,
                         edge_ctr_t,
@@ -47,7 +47,7 @@ namespace pigo {
                         weighted,
                         Weight,
                         WeightStorage
-                    > { f, AUTO };
+                    > { f, PIGO_CSR_BIN };
         } else {
             // Build a COO, then load ourselves from it
             COO<
-- 
2.43.0


From 2a50172260c106b9965ed9ace268e8d049fe2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 18/29] fix: write the smallest signed integer

It has no positive counterpart, so punctuation was written instead of its
digits.
---
 include/pigo/impl/pigo.impl.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 784ed98..90bc5b2 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -320,13 +320,12 @@ namespace pigo {
     inline
     void write_ascii(FilePos &fp, T obj) {
         detail::write_neg_ascii(fp, obj);
-        obj = detail::get_positive(obj);
 
-        size_t num_size = write_size(obj);
+        size_t num_size = write_size(obj) - detail::neg_size(obj);
         size_t pos = num_size-1;
         // Write out each digit
         do {
-            *((char*)fp+pos--) = (obj%10)+'0';
+            *((char*)fp+pos--) = detail::get_positive(obj%10)+'0';
             obj /= 10;
         } while (obj != 0);
         fp += num_size;
-- 
2.43.0


From 38aa84f77d5a468e2ceb587b8fcd0b93b2277039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 19/29] fix: find the order of tensors with any separator

Tabs, carriage returns, and exponents were counted as additional entries.
---
 include/pigo/impl/pigo.impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 90bc5b2..d92232a 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -483,6 +483,13 @@ namespace pigo {
             // Read through the integer
             while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
 
+            // Read through an exponent
+            if (d < end && (*d == 'e' || *d == 'E')) {
+                ++d;
+                if (d < end && (*d == '+' || *d == '-')) ++d;
+                while (d < end && ((*d >= '0' && *d <= '9') || *d == '.')) { ++d; }
+            }
+
             if (d >= end || *d == '\n') break;
             if (*d == '%' || *d == '#') {
                 move_to_eol();
@@ -493,7 +500,7 @@ namespace pigo {
             ++space_ct;
 
             // Move passed the space
-            while (d < end && *d == ' ') { ++d; };
+            while (d < end && *d != '\n' && *d != '%' && *d != '#' && (*d < '0' || *d > '9')) { ++d; };
 
             // Check if we just counted whitespace at the end; if so,
             // un-do the count
-- 
2.43.0


From b7d502fd2ade07059225acb27d0313d0668567c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 20/29] fix: read the last tensor entry when the file has no
 final newline

An incomplete last entry was also set without having space for it.
---
 include/pigo/impl/tensor.impl.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 0872999..2d4061f 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -64,12 +64,9 @@ namespace pigo {
         struct read_tensor_entry_i_<L,O,S,W,WS,wgt,true> {
             static inline void op_(O order_, S&, WS&, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    if (detail::if_true_<wgt>()) {
-                        r.move_to_next_int();
-                    } else {
-                        r.read_int<L>();
-                    }
+                    // The file can end inside of an entry
                     if (!r.good()) return;
+                    r.read_int<L>();
                 }
                 r.move_to_eol();
                 r.move_to_next_int();
@@ -83,7 +80,6 @@ namespace pigo {
             static inline void op_(O order_, S& c_, WS& w_, size_t &coord_pos, FileReader &r) {
                 for (O idx = 0; idx < order_; ++idx) {
                     L v = r.read_int<L>();
-                    if (!r.good()) return;
                     set_value_(c_, coord_pos*order_+idx, v);
                 }
                 read_wgt_<wgt, W, WS, false>(coord_pos, w_, r);
@@ -196,7 +192,8 @@ namespace pigo {
             if (tid > 0)
                 coord_pos = nl_offsets[tid-1];
 
-            while (!err && rs_p2.good()) {
+            // Stop with the counted entries, the last one can be incomplete
+            while (!err && coord_pos < nl_offsets[tid]) {
                 read_coord_entry_<false>(coord_pos, rs_p2);
             }
         }
-- 
2.43.0


From afae9571650f6977d2dd81a9d7fe6eac833b9d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:16 +0000
Subject: [PATCH 21/29] fix: store ordinals when loading a COO through a CSR

The label storage was used for the offsets, so a COO with different label
and ordinal types wrote and read the offsets out of bounds.
---
 include/pigo/impl/coo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/coo.impl.hpp b/include/pigo/impl/coo.impl.hpp
index dbba782..2ff03a2 100644
--- a/include/pigo/impl/coo.impl.hpp
+++ b/include/pigo/impl/coo.impl.hpp
@@ -48,7 +48,7 @@ namespace pigo {
         } else if (ft_used == PIGO_CSR_BIN ||
                 ft_used == GRAPH) {
             // First build a CSR, then convert to a COO
-            CSR<L,O,S,S,wgt,W,WS> csr {f, ft_used};
+            CSR<L,O,L*,O*,wgt,W,WS> csr {f, ft_used};
             convert_csr_(csr);
             csr.free();
         } else {
-- 
2.43.0


From 74ce02a061b5b14831f3d73588687d7b94edf5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 22/29] fix: do not copy the COO storage inside a parallel
 region

---
 include/pigo/impl/csr.impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index fda9731..a6b3602 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -176,9 +176,9 @@ namespace pigo {
             for (L v = 0; v < rows; ++v)
                 all_degs[v] = 0;
 
-            auto coo_x = coo.x();
-            auto coo_y = coo.y();
-            auto coo_w = coo.w();
+            auto& coo_x = coo.x();
+            auto& coo_y = coo.y();
+            auto& coo_w = coo.w();
 
             #pragma omp for
             for (O x_id = 0; x_id < m_; ++x_id) {
-- 
2.43.0


From 26f523c164a16792df78709d3767c69002778395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 23/29] fix: keep the target of a COO or Tensor assignment
 valid when memory runs out

---
 include/pigo/coo.hpp    | 15 +++++++++------
 include/pigo/tensor.hpp | 10 ++++++----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/pigo/coo.hpp b/include/pigo/coo.hpp
index 649a665..20fc21b 100644
--- a/include/pigo/coo.hpp
+++ b/include/pigo/coo.hpp
@@ -322,12 +322,15 @@ namespace pigo {
             COO& operator=(const COO& other) {
                 if (&other != this) {
                     free();
-                    n_ = other.n_;
-                    nrows_ = other.nrows_;
-                    ncols_ = other.ncols_;
-                    m_ = other.m_;
-                    allocate_();
-                    copy_(other);
+                    // Should the copy run out of memory, this remains empty
+                    COO copy { other };
+                    std::swap(x_, copy.x_);
+                    std::swap(y_, copy.y_);
+                    std::swap(w_, copy.w_);
+                    n_ = copy.n_;
+                    nrows_ = copy.nrows_;
+                    ncols_ = copy.ncols_;
+                    m_ = copy.m_;
                 }
 
                 return *this;
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 43a1aef..2136faf 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -209,10 +209,12 @@ namespace pigo {
             Tensor& operator=(const Tensor& other) {
                 if (&other != this) {
                     free();
-                    order_ = other.order_;
-                    m_ = other.m_;
-                    allocate_();
-                    copy_(other);
+                    // Should the copy run out of memory, this remains empty
+                    Tensor copy { other };
+                    std::swap(c_, copy.c_);
+                    std::swap(w_, copy.w_);
+                    order_ = copy.order_;
+                    m_ = copy.m_;
                 }
 
                 return *this;
-- 
2.43.0


From 101aa4755c449a2dfd97aad4dafb982267c85a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 24/29] fix: reject CSR binaries with a negative number of
 vertices

---
 include/pigo/impl/csr.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/csr.impl.hpp b/include/pigo/impl/csr.impl.hpp
index a6b3602..adb648c 100644
--- a/include/pigo/impl/csr.impl.hpp
+++ b/include/pigo/impl/csr.impl.hpp
@@ -544,7 +544,8 @@ namespace pigo {
         size_t left = f.remaining();
         size_t entry_size = sizeof(L) + detail::weight_size_<wgt, W, O>(1);
         size_t rows = stored_rows_();
-        if (rows >= left/sizeof(O) ||
+        if ((size_t)n_ > rows || (size_t)nrows_ > rows ||
+                rows >= left/sizeof(O) ||
                 (size_t)m_ > (left - sizeof(O)*(rows+1))/entry_size)
             throw Error("Truncated CSR binary");
 
-- 
2.43.0


From d75ced7da8e1c4bd5bf4ec893b67121cf22937f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 25/29] fix: return DiGraph vertex counts in the vertex type

---
 include/pigo/graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pigo/graph.hpp b/include/pigo/graph.hpp
index afc9be3..8131862 100644
--- a/include/pigo/graph.hpp
+++ b/include/pigo/graph.hpp
@@ -296,13 +296,13 @@ namespace pigo {
             edge_ctr_t m() { return out_.m(); }
 
             /** @brief Return the number of vertices */
-            edge_ctr_t n() { return out_.n(); }
+            vertex_t n() { return out_.n(); }
 
             /** @brief Return the number of rows */
-            edge_ctr_t nrows() { return out_.nrows(); }
+            vertex_t nrows() { return out_.nrows(); }
 
             /** @brief Return the number of columns */
-            edge_ctr_t ncols() { return out_.ncols(); }
+            vertex_t ncols() { return out_.ncols(); }
 
             /** @brief Return the out-edges */
             BaseGraph<
-- 
2.43.0


From 2ddeaa994b70136bf21d74c3ccce8b01b9d334b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 26/29] fix: match a string that ends at the end of the file

---
 include/pigo/impl/pigo.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index d92232a..2874969 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -546,7 +546,7 @@ namespace pigo {
     inline
     bool FileReader::at_str(std::string s) {
         // Ensure the size is suitable for comparison
-        if (d + s.size() >= end) return false;
+        if (s.size() > size()) return false;
         std::string d_str { d, d+s.size() };
         return s.compare(d_str) == 0;
     }
-- 
2.43.0


From 7a046867ccb4d22dc09cff35641a361fc87f1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:28 +0000
Subject: [PATCH 27/29] fix: return Matrix dimensions in the label type

---
 include/pigo/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pigo/matrix.hpp b/include/pigo/matrix.hpp
index 3a3d057..674915b 100644
--- a/include/pigo/matrix.hpp
+++ b/include/pigo/matrix.hpp
@@ -202,10 +202,10 @@ namespace pigo {
             }
 
             /** @brief Return the number of rows */
-            Ordinal nrows() { return csr_.nrows(); }
+            Label nrows() { return csr_.nrows(); }
 
             /** @brief Return the number of columns */
-            Ordinal ncols() { return csr_.ncols(); }
+            Label ncols() { return csr_.ncols(); }
 
             /** @brief Return the CSR */
             CSR<
-- 
2.43.0


From f3214a6099f455647ba51a192965707ae9577123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 28/29] fix: index Tensor coordinates beyond the ordinal type

A Tensor holds order times m coordinates, which can be more than its
ordinal type can count. Copying a Tensor then left coordinates unset, and
allocating, writing and max_labels used wrapped positions.
---
 include/pigo/impl/tensor.impl.hpp | 8 ++++----
 include/pigo/tensor.hpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/pigo/impl/tensor.impl.hpp b/include/pigo/impl/tensor.impl.hpp
index 2d4061f..bc4df83 100644
--- a/include/pigo/impl/tensor.impl.hpp
+++ b/include/pigo/impl/tensor.impl.hpp
@@ -50,7 +50,7 @@ namespace pigo {
 
     template<class L, class O, class S, class W, class WS, bool wgt>
     void Tensor<L,O,S,W,WS,wgt>::allocate_() {
-        detail::allocate_mem_<S>(c_, order_*m_);
+        detail::allocate_mem_<S>(c_, (size_t)order_*m_);
         detail::allocate_mem_<WS,wgt>(w_, m_);
     }
 
@@ -332,7 +332,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     my_size += write_size(x);
                     // Account for the separating space or newline
                     my_size += 1;
@@ -372,7 +372,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < write_m; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    auto x = detail::get_value_<S, L>(c_, e*order_+idx);
+                    auto x = detail::get_value_<S, L>(c_, (size_t)e*order_+idx);
                     write_ascii(my_fp, x);
                     if (idx < order_-1)
                         pigo::write(my_fp, ' ');
@@ -417,7 +417,7 @@ namespace pigo {
             #pragma omp for
             for (O e = 0; e < m_; ++e) {
                 for (O idx = 0; idx < order_; ++idx) {
-                    L val = c[e*order_+idx];
+                    L val = c[(size_t)e*order_+idx];
                     if (val > my_maxes[idx]) my_maxes[idx] = val;
                 }
             }
diff --git a/include/pigo/tensor.hpp b/include/pigo/tensor.hpp
index 2136faf..61ac10a 100644
--- a/include/pigo/tensor.hpp
+++ b/include/pigo/tensor.hpp
@@ -106,7 +106,7 @@ namespace pigo {
             /** @brief Copies values from the other tensor */
             void copy_(const Tensor& other) {
                 #pragma omp parallel for
-                for (Ordinal pos = 0; pos < order_*m_; ++pos) {
+                for (size_t pos = 0; pos < (size_t)order_*m_; ++pos) {
                     Label val = detail::get_value_<
                                 Storage,
                                 Label
-- 
2.43.0


From 7c90c06c433a2586a0b84b81186db9bc2869c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 29/29] fix: keep reserving the space of an output file when
 interrupted

---
 include/pigo/impl/pigo.impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pigo/impl/pigo.impl.hpp b/include/pigo/impl/pigo.impl.hpp
index 2874969..a986ec1 100644
--- a/include/pigo/impl/pigo.impl.hpp
+++ b/include/pigo/impl/pigo.impl.hpp
@@ -49,7 +49,10 @@ namespace pigo {
             #ifdef __linux__
             // Reserve the space: a store to the mapping cannot report that
             // the disk is full, it would kill the program instead
-            int alloc_res = posix_fallocate(fileno(w_f), 0, max_size);
+            int alloc_res;
+            do {
+                alloc_res = posix_fallocate(fileno(w_f), 0, max_size);
+            } while (alloc_res == EINTR);
             if (alloc_res == ENOSPC || alloc_res == EFBIG || alloc_res == EIO) {
                 fclose(w_f);
                 throw Error("PIGO: Unable to reserve space");
-- 
2.43.0

