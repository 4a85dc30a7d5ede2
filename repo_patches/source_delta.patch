From 447c085e0d3a282724bb2bd473da6fcd14edc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 01/14] fix: bit_vector_builder::reserve on a non-empty builder
 left a dangling word pointer

---
 bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..ebabb6c 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,10 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            // reserve may have moved the words
+            if (!m_bits.empty()) {
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From 9ebc3544cd7f17a8e255f21a1c32fbea84ff1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 02/14] fix: bit_vector::enumerator::take(64) left the taken
 bits visible to skip_zeros

---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index ebabb6c..5591fd8 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -387,6 +387,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0; // can't do >>= 64
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From 4fd831ca728c8038074efc7718bf97546dcfd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 03/14] fix: nat2int/int2nat overflowed at the ends of the
 range

nat2int(2^64 - 1) returned 0 instead of -2^63, and int2nat relied on signed overflow.
---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..93b96ab 100644
--- a/util.hpp
+++ b/util.hpp
@@ -247,16 +247,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return ~(uint64_t(x) << 1); // -2 * x - 1, without overflow
         } else {
-            return uint64_t(2 * x);
+            return uint64_t(x) << 1;
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 7dad70d26e580f575b366147910abcf13b113bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 04/14] fix: fast_getline returned the last line twice over
 when it had no newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index 93b96ab..44a5e87 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break; // nothing was read: buffer still holds the last chunk
                 }
             }
             line += buffer;
-- 
2.43.0


From 2358030844d3d6ce82fed8ce13c70b9dedc14eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 05/14] fix: lines() produced an empty line before the first
 line of the file

---
 util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index 44a5e87..d379762 100644
--- a/util.hpp
+++ b/util.hpp
@@ -57,12 +57,15 @@ namespace succinct { namespace util {
     public:
         line_iterator()
             : m_file(0)
+            , m_trim_newline(false)
         {}
 
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 42b118811e1cfef19479fdadd01ae166cc84e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:03 +0000
Subject: [PATCH 06/14] fix: uleq_step_8 was wrong for bytes whose high bits
 differ

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From 0f22390270df38880f6636f778ed17f7c714d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 07/14] fix: empty bp_vector and default elias_fano froze an
 uninitialised member

The file written for the same (empty) content differed from run to run.
---
 bp_vector.hpp  | 2 ++
 elias_fano.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From 92562ec6bcab9d442a15fdd0ab3e4388c83aab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 08/14] fix: bp_vector of 2^31 or more parentheses could not be
 built

The past-the-end marker of the min tree was size() cast to a 32-bit signed
excess, which is negative from 2^31 on. It is unchanged below that size.
---
 bp_vector.cpp | 13 +++++++++----
 bp_vector.hpp |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..d4916ba 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -304,8 +304,13 @@ namespace succinct {
         return excess;
     }
 
+    inline bp_vector::excess_t bp_vector::past_the_end_excess() const {
+        // larger than any excess minimum; size() itself may not fit in an excess_t
+        return static_cast<excess_t>(std::min(uint64_t(size()), uint64_t(std::numeric_limits<excess_t>::max())));
+    }
+
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != past_the_end_excess());
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -677,7 +682,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = past_the_end_excess();
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +690,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && cur_super_min < past_the_end_excess());
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +698,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = past_the_end_excess();
         }
 
         // Fill bottom-up the other layers: each node updates the parent
diff --git a/bp_vector.hpp b/bp_vector.hpp
index 9a76ff6..ffb5cd8 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -86,6 +86,7 @@ namespace succinct {
 
 
         inline excess_t get_block_excess(uint64_t block) const;
+        inline excess_t past_the_end_excess() const;
         inline bool in_node_range(uint64_t node, excess_t excess) const;
 
         template <int direction>
-- 
2.43.0


From 209a98ba93c9c113a8d4a96d99bcc525aac43b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 09/14] fix: excess_rmq relied on plain char being signed

With unsigned char (e.g. on ARM) byte excesses came out positive.
---
 bp_vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index d4916ba..48f0180 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -37,7 +37,7 @@ namespace succinct {
                             m_fwd_min_idx[c] = uint8_t(i + 1);
                         }
                     }
-                    m_fwd_exc[c] = (char)excess;
+                    m_fwd_exc[c] = (int8_t)excess;
 
                     // populate m_bwd_pos and m_bwd_min
                     excess = 0;
@@ -59,7 +59,7 @@ namespace succinct {
                 }
             }
 
-            char m_fwd_exc[256];
+            int8_t m_fwd_exc[256];
 
             uint8_t m_fwd_pos[256][9];
             uint8_t m_bwd_pos[256][9];
-- 
2.43.0


From 69833ab5f23a55f942198152a6a0773aafae62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 10/14] fix: default-constructed structures were not empty

size() (sum() for elias_fano_list) returned 2^64 - 1 and
rs_bit_vector::num_ones() read before a null pointer.
---
 cartesian_tree.hpp             | 2 +-
 elias_fano_compressed_list.hpp | 2 +-
 elias_fano_list.hpp            | 2 +-
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 rs_bit_vector.hpp              | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cartesian_tree.hpp b/cartesian_tree.hpp
index 8d62142..4d82910 100644
--- a/cartesian_tree.hpp
+++ b/cartesian_tree.hpp
@@ -143,7 +143,7 @@ namespace succinct {
 
         uint64_t size() const
         {
-            return m_bp.size() / 2 - 1;
+            return m_bp.size() ? m_bp.size() / 2 - 1 : 0;
         }
 
         template <typename Visitor>
diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..f675362 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -49,7 +49,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_ef.num_ones() - 1;
+            return m_ef.num_ones() ? m_ef.num_ones() - 1 : 0;
         }
 
         void swap(elias_fano_compressed_list& other)
diff --git a/elias_fano_list.hpp b/elias_fano_list.hpp
index e8191c8..cd7a110 100644
--- a/elias_fano_list.hpp
+++ b/elias_fano_list.hpp
@@ -46,7 +46,7 @@ namespace succinct {
         }
 
         size_t sum() const {
-            return m_ef.size() - 1;
+            return m_ef.size() ? m_ef.size() - 1 : 0;
         }
 
         void swap(elias_fano_list& other)
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..68170fd 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -53,7 +53,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_bit_vector& other)
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..cf4872d 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -47,7 +47,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_vector& other)
diff --git a/rs_bit_vector.hpp b/rs_bit_vector.hpp
index 1197ffb..4b78443 100644
--- a/rs_bit_vector.hpp
+++ b/rs_bit_vector.hpp
@@ -41,7 +41,7 @@ namespace succinct {
         }
 
         inline uint64_t num_ones() const {
-            return *(m_block_rank_pairs.end() - 2);
+            return m_block_rank_pairs.size() ? *(m_block_rank_pairs.end() - 2) : 0;
         }
 
         inline uint64_t num_zeros() const {
-- 
2.43.0


From 570bf7d926958abf65f27ee6f53c88e2a0f439d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:16 +0000
Subject: [PATCH 11/14] fix: compressed lists corrupted the largest values of
 narrower element types

The +1/+2 was computed in the element type of the range, so the largest
uint32_t wrapped to 0 (a length of 2^64-1 bits) before being widened.
---
 elias_fano_compressed_list.hpp | 4 ++--
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index f675362..dfc3c35 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -20,7 +20,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                s += broadword::msb(*iter + 1);
+                s += broadword::msb(uint64_t(*iter) + 1);
                 n += 1;
             }
 
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                size_t val = *iter + 1;
+                size_t val = size_t(*iter) + 1;
                 size_t l = broadword::msb(val);
                 bits_builder.append_bits(val ^ (uint64_t(1) << l), l);
                 ef_builder.push_back(bits_builder.size());
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 68170fd..64c72f4 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(vals);
                  iter != boost::end(vals);
                  ++iter) {
-                const uint64_t val = *iter + 2; // increment the second bit
+                const uint64_t val = uint64_t(*iter) + 2; // increment the second bit
 
                 uint8_t l = broadword::msb(val);
 
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index cf4872d..0101271 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -26,7 +26,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                const value_type val = *iter + 1;
+                const value_type val = value_type(*iter) + 1;
 
                 uint8_t l = broadword::msb(val);
 
-- 
2.43.0


From a03f03b52ab3bfd07345f2d0e6c36151f070e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:33 +0000
Subject: [PATCH 12/14] fix: freezing to a file that could not be written
 reported success

---
 mapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapper.hpp b/mapper.hpp
index 381e199..fc8fc65 100644
--- a/mapper.hpp
+++ b/mapper.hpp
@@ -2,6 +2,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 #include <boost/make_shared.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -243,7 +245,12 @@ namespace succinct { namespace mapper {
     size_t freeze(T& val, const char* filename, uint64_t flags = 0, const char* friendly_name = "<TOP>")
     {
         std::ofstream fout(filename, std::ios::binary);
-        return freeze(val, fout, flags, friendly_name);
+        size_t written = freeze(val, fout, flags, friendly_name);
+        fout.close(); // flushes, so it may fail as well
+        if (!fout) {
+            throw std::runtime_error(std::string("Unable to write file '") + filename + "'.");
+        }
+        return written;
     }
 
     template <typename T>
-- 
2.43.0


From eed164aff040d163a699fe4b3c267ea3329954ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:23 +0000
Subject: [PATCH 13/14] fix: mappable_vector leaked its storage when reading
 the input threw

---
 mappable_vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index 0c1c9a7..dc6738b 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -45,9 +45,14 @@ namespace succinct { namespace mapper {
             T* data = new T[size];
             m_deleter = boost::lambda::bind(boost::lambda::delete_array(), data);
 
-            std::copy(boost::begin(from),
-                      boost::end(from),
-                      data);
+            try {
+                std::copy(boost::begin(from),
+                          boost::end(from),
+                          data);
+            } catch (...) {
+                m_deleter(); // the destructor will not run
+                throw;
+            }
             m_data = data;
             m_size = size;
         }
-- 
2.43.0


From 1d5b8466cef0cc5d95557eda227be9d2bde23c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 14/14] fix: mappable_vector::steal left a size without data
 when it ran out of memory

---
 mappable_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index dc6738b..d4f08a3 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -76,12 +76,12 @@ namespace succinct { namespace mapper {
 
         void steal(std::vector<T>& vec) {
             clear();
-            m_size = vec.size();
-            if (m_size) {
+            if (!vec.empty()) {
                 std::vector<T>* new_vec = new std::vector<T>;
                 new_vec->swap(vec);
                 m_deleter = boost::lambda::bind(boost::lambda::delete_ptr(), new_vec);
                 m_data = &(*new_vec)[0];
+                m_size = new_vec->size();
             }
         }
 
-- 
2.43.0

