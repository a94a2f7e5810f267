From 30bbd36806d5020e812b0c5668ee9e3e5a769af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 01/81] fix: wt_gmr: bind the copied inverse permutation
 support to the copied permutation

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..a4d96f1 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 66af2c11e7a1c89f07a79ea00801918e22c99ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 02/81] fix: wt_gmr, wt_gmr_rs: a default constructed structure
 is empty

---
 include/sdsl/wt_gmr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index a4d96f1..cd3fe72 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0; // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From b113ad02cc061038e5696e88d36312ba3462f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 03/81] fix: wt_int, wm_int: do not shift by 64 when symbols
 use all 64 bits

---
 include/sdsl/wm_int.hpp       |  7 +++----
 include/sdsl/wt_algorithm.hpp |  4 ++--
 include/sdsl/wt_int.hpp       | 13 ++++++-------
 3 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..38571c8 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,7 +325,7 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
@@ -439,7 +439,7 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
+            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
                 vrb = (1ULL << m_max_level);
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..0ecd8b5 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,7 +325,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and ((1ULL) << (wt.max_level)) <= c) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
@@ -375,7 +375,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and ((1ULL) << (wt.max_level)) <= c) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..aa6a33a 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = m_max_level < 64 ? 1ULL<<(m_max_level) : 0;
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,7 +355,7 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
@@ -524,7 +524,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
@@ -568,7 +568,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
@@ -609,7 +609,7 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
+            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
                 vrb = (1ULL << m_max_level);
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From 9f20dc3121908e60fc046a4d6296fc05c7c40ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 04/81] fix: wt_helper: depth-first tree shape must not
 exchange children

---
 include/sdsl/wt_helper.hpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index ae9a161..5244f0a 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -166,7 +166,6 @@ struct _byte_tree {
         m_nodes[0] = temp_nodes.back(); // insert root at index 0
         bv_size = 0;
         size_t node_cnt = 1;
-        node_type last_parent = undef;
         std::deque<node_type> q;
         q.push_back(0);
         while (!q.empty()) {
@@ -181,20 +180,15 @@ struct _byte_tree {
             m_nodes[idx].bv_pos = bv_size;
             if (m_nodes[idx].child[0] != undef) // if node is not a leaf
                 bv_size += frq;               // add frequency
-            if (idx > 0) { // node is not the root
-                if (last_parent != m_nodes[idx].parent)
-                    m_nodes[m_nodes[idx].parent].child[0] = idx;
-                else
-                    m_nodes[m_nodes[idx].parent].child[1] = idx;
-                last_parent = m_nodes[idx].parent;
-            }
             if (m_nodes[idx].child[0] != undef) { // if node is not a leaf
                 for (uint32_t k=0; k<2; ++k) {       // add children to tree
                     m_nodes[node_cnt] = temp_nodes[ m_nodes[idx].child[k] ];
                     m_nodes[node_cnt].parent = idx;
-                    q.push_back(node_cnt);
                     m_nodes[idx].child[k] = node_cnt++;
                 }
+                // the left child is visited first in both orders
+                q.push_back(m_nodes[idx].child[t_dfs_shape]);
+                q.push_back(m_nodes[idx].child[!t_dfs_shape]);
             }
         }
         // initialize m_c_to_leaf
@@ -404,7 +398,6 @@ struct _int_tree {
         m_nodes[0] = temp_nodes.back(); // insert root at index 0
         bv_size = 0;
         size_t node_cnt = 1;
-        node_type last_parent = undef;
         std::deque<node_type> q;
         q.push_back(0);
         uint64_t max_c = 0;
@@ -423,20 +416,15 @@ struct _int_tree {
             } else if (max_c < m_nodes[idx].bv_pos_rank) { // node is leaf and contains large symbol
                 max_c = m_nodes[idx].bv_pos_rank;
             }
-            if (idx > 0) { // node is not the root
-                if (last_parent != m_nodes[idx].parent)
-                    m_nodes[m_nodes[idx].parent].child[0] = idx;
-                else
-                    m_nodes[m_nodes[idx].parent].child[1] = idx;
-                last_parent = m_nodes[idx].parent;
-            }
             if (m_nodes[idx].child[0] != undef) { // if node is not a leaf
                 for (uint32_t k=0; k<2; ++k) {       // add children to tree
                     m_nodes[node_cnt] = temp_nodes[ m_nodes[idx].child[k] ];
                     m_nodes[node_cnt].parent = idx;
-                    q.push_back(node_cnt);
                     m_nodes[idx].child[k] = node_cnt++;
                 }
+                // the left child is visited first in both orders
+                q.push_back(m_nodes[idx].child[t_dfs_shape]);
+                q.push_back(m_nodes[idx].child[!t_dfs_shape]);
             }
         }
         // initialize m_c_to_leaf
-- 
2.43.0


From d82b3c4c89abd816a78e8fb632f7f16427a63650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 05/81] fix: wt_helper: initialise the symbol table of an empty
 byte tree

---
 include/sdsl/wt_helper.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index 5244f0a..dda16d8 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -159,7 +159,12 @@ struct _byte_tree {
             m_path[i] = bt.m_path[i];
     }
 
-    _byte_tree() {}
+    _byte_tree() {
+        for (uint32_t i=0; i<fixed_sigma; ++i) {
+            m_c_to_leaf[i] = undef;
+            m_path[i] = 0;
+        }
+    }
 
     _byte_tree(const std::vector<pc_node>& temp_nodes, uint64_t& bv_size, const t_wt*) {
         m_nodes.resize(temp_nodes.size());
-- 
2.43.0


From 5be169c29471c63188e80eb89fd7df0eafa7c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/81] fix: wt_int, wm_int: range_search_2d reported the
 largest symbol for a range above it

---
 include/sdsl/wm_int.hpp | 4 ++--
 include/sdsl/wt_int.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index 38571c8..c30e2ab 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and vrb >= (1ULL << m_max_level))
+                vrb = (1ULL << m_max_level)-1;
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index aa6a33a..e207bfc 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and vrb >= (1ULL << m_max_level))
+                vrb = (1ULL << m_max_level)-1;
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
-- 
2.43.0


From b8c0a0d9d1116deefc2b971b45927e8265c3bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 07/81] fix: coder::comma: widths 31 and 32 are admitted but
 did not compile

---
 include/sdsl/coder_comma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/coder_comma.hpp b/include/sdsl/coder_comma.hpp
index d2c1a7c..994a888 100644
--- a/include/sdsl/coder_comma.hpp
+++ b/include/sdsl/coder_comma.hpp
@@ -66,7 +66,7 @@ class comma
         }
 
         //base in which numbers are coded
-        static const uint32_t base = (1 << t_width) - 1;
+        static const uint32_t base = (1ULL << t_width) - 1;
 
         //table needed for computation of encoding lengths.
         //table contains entries of the kind (index, base^index)
-- 
2.43.0


From 70d093b3f112dd943296f98460abb5dde62c5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 08/81] fix: enc_vector: compute differences in 64 bits for
 containers of narrow integers

---
 include/sdsl/enc_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/enc_vector.hpp b/include/sdsl/enc_vector.hpp
index 45a6074..914a550 100644
--- a/include/sdsl/enc_vector.hpp
+++ b/include/sdsl/enc_vector.hpp
@@ -223,7 +223,7 @@ enc_vector<t_coder, t_dens,t_width>::enc_vector(const Container& c)
     if (c.empty())  // if c is empty there is nothing to do...
         return;
     typename Container::const_iterator    it             = c.begin(), end = c.end();
-    typename Container::value_type         v1            = *it, v2, max_sample_value=0, x;
+    value_type                            v1            = *it, v2, max_sample_value=0, x;
     size_type samples=0;
     size_type z_size = 0;
 //  (1) Calculate maximal value of samples and of deltas
-- 
2.43.0


From 536d15978f25c3e3b056575500dc3f21daca337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 09/81] fix: dac_vector, dac_vector_dp: initialise the members
 of an empty vector

---
 include/sdsl/dac_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..732e53d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;  // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
-- 
2.43.0


From 2e97445991500aded1ea734fed8cd9749b1f6dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 10/81] fix: coder::fibonacci::encode emitted a broken codeword
 for long codes

When the remaining value becomes zero at a position above 64, the high
word was shifted by 64-j (a negative amount) instead of j-64.
---
 include/sdsl/coder_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1b4256f..9c0845a 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -211,7 +211,7 @@ inline bool fibonacci::encode(const int_vector1& v, int_vector2& z)
                         fibword_high <<= 1;
                         --j;
                     } else {
-                        fibword_high <<= (64-j);
+                        fibword_high <<= (j-64);
                         break;
                     }
                 }
@@ -272,7 +272,7 @@ inline void fibonacci::encode(uint64_t x, uint64_t*& z, uint8_t& offset)
                     fibword_high <<= 1;
                     --j;
                 } else {
-                    fibword_high <<= (64-j);
+                    fibword_high <<= (j-64);
                     break;
                 }
             }
-- 
2.43.0


From be9bbb1b6bb02a56fe4fed0c5b9303f11bbaed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 11/81] fix: elias_gamma::decode_prefix_sum with end position
 for values of 2^63 and more

The buffered decoder shifted its 64-bit window by 64 for codewords with
a unary part of 64 bits and could not hold longer ones.
---
 lib/coder_elias_gamma.cpp | 66 +++++++--------------------------------
 1 file changed, 11 insertions(+), 55 deletions(-)

diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..411de12 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -72,61 +72,17 @@ fill_buffer:
 begin_decode:
             uint32_t psum = elias_gamma::data.prefixsum[w&0x0000FFFF];
             if (!psum or i+((psum>>16)&0x00FF) > n) {
-                if (w==0) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (!w) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				assert(w>0);
-                uint16_t len_1 = bits::lo(w); // read length of length
-                buffered -= (len_1+1);
-                w >>= (len_1+1);
-                if (len_1 > buffered) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (len_1 > buffered) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64) * (1ULL << len_1);
-                buffered -= len_1;
-                if (len_1 < 64) {
-                    w >>= len_1;
-                } else {
-                    w = 0;
-                }
+                // decode a single value; its codeword can be longer than the buffer,
+                // so go back to its first bit and read it directly
+                int32_t pos = (int32_t)read - (int32_t)buffered; // relative to d
+                const uint64_t* p = d - ((63 - pos) >> 6);
+                uint8_t offset = (uint8_t)(pos & 0x3F);
+                uint16_t len_1 = bits::read_unary_and_move(p, offset); // read length of length
+                value	+= bits::read_int_and_move(p, offset, len_1) + (len_1<64) * (1ULL << (len_1 & 0x3F));
+                d = p;
+                read = offset;
+                w = 0;
+                buffered = 0;
                 ++i;
                 if (i==n)
                     return value;
-- 
2.43.0


From d28d723d9d7ae3e2d4e3dd8894b12e722b1bbeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 12/81] fix: util::next_bit must not report a bit behind the
 end of the vector

---
 include/sdsl/util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..c872503 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,13 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        // bits behind the last bit of v are not part of v
+        return std::min((uint64_t)v.bit_size(), idx+bits::lo(node));
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min((uint64_t)v.bit_size(), (pos<<6)|bits::lo(v.data()[pos]));
             }
             ++pos;
         }
-- 
2.43.0


From 3ea8803ca4095fb5dbe999d0f32d46d061a7c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 13/81] fix: int_vector: vectors of different width are not
 equal, as documented

The bits were compared only, so that a == b and a < b could both hold.
---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..be4900f 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1454,6 +1454,8 @@ bool int_vector<t_width>::operator==(const int_vector& v)const
         return false;
     if (empty())
         return true;
+    if (width() != v.width())
+        return false;
     const uint64_t* data1 = v.data();
     const uint64_t* data2 = data();
     for (size_type i=0; i < (capacity()>>6)-1; ++i) {
-- 
2.43.0


From ed1e71824554212049a994ac2163ec9787964d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 14/81] fix: bits::cnt32 was wrong for words with 16 bits set
 in nibbles of one parity

---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..a3896ae 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x>>4)) & 0x0F0F0F0F;
+    return 0x01010101*x >> 24;
 }
 
 
-- 
2.43.0


From 229bbe2dd99012790da7bfeaf3bc3bc491342163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 15/81] fix: uint256_t: left shift by 0 or-ed the low half into
 the high half

---
 include/sdsl/uint256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..c51a8ff 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,7 +157,7 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x))>>1); // two shifts, since x may be 0
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-- 
2.43.0


From 633250217cda3b683da731d5b5bd3a97d21a2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 16/81] fix: int_vector_buffer: iterator
 operator-(difference_type) returned a reference to a local

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..c15d285 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -549,7 +549,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From 47bf481217ed856c9f333f7b0bb89eca571a6b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 17/81] fix: int_vector_mapper: moving a mapper transfers the
 mapping, file descriptor and sizes

---
 include/sdsl/int_vector_mapper.hpp | 42 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..cc5c0f5 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -30,6 +30,22 @@ class int_vector_mapper
         int_vector<t_width> m_wrapper;
         std::string m_file_name;
         bool m_delete_on_close;
+
+        // exchanges the mappings (and the duties that belong to them)
+        void swap_mapping(int_vector_mapper& ivm)
+        {
+            std::swap(m_mapped_data, ivm.m_mapped_data);
+            std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+            std::swap(m_data_offset, ivm.m_data_offset);
+            std::swap(m_fd, ivm.m_fd);
+            std::swap(m_wrapper.m_data, ivm.m_wrapper.m_data);
+            std::swap(m_wrapper.m_size, ivm.m_wrapper.m_size);
+            auto width = m_wrapper.width();
+            m_wrapper.width(ivm.m_wrapper.width());
+            ivm.m_wrapper.width(width);
+            std::swap(m_file_name, ivm.m_file_name);
+            std::swap(m_delete_on_close, ivm.m_delete_on_close);
+        }
     public:
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
@@ -95,29 +111,17 @@ class int_vector_mapper
             m_wrapper.m_data = nullptr;
             m_wrapper.m_size = 0;
         }
-        int_vector_mapper(int_vector_mapper&& ivm)
+        int_vector_mapper(int_vector_mapper&& ivm) : m_delete_on_close(false)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            swap_mapping(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                // the old mapping of this object is closed when tmp is destroyed
+                int_vector_mapper tmp(std::move(ivm));
+                swap_mapping(tmp);
+            }
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
-- 
2.43.0


From 0e95ae41318f9af4408f7a2e0da66ed6bd25df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 18/81] fix: int_vector_mapper: closing a mapped plain file
 must not pad it to whole words

---
 include/sdsl/int_vector_mapper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index cc5c0f5..bf88f12 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -83,6 +83,9 @@ class int_vector_mapper
                     // do we have to truncate?
                     size_type current_bit_size = m_wrapper.m_size;
                     size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
+                    if (0 == m_data_offset) { // a plain file is not padded to whole words
+                        data_size_in_bytes = (current_bit_size + 7) >> 3;
+                    }
                     if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
                         int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
                         if (tret == -1) {
-- 
2.43.0


From 7bbbc73179f6f9e6ee5b6831409328b55e610096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 19/81] fix: memory_manager: map empty files (plain
 int_vector_mapper of size 0)

---
 include/sdsl/memory_management.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..ed00e2e 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -425,6 +425,7 @@ class memory_manager
             return map;
 #else
             void* map = nullptr;
+            if (0 == file_size) file_size = 1; // a mapping of length 0 is an error
             if (!(mode&std::ios_base::out)) map = mmap(NULL,file_size,PROT_READ,MAP_SHARED,fd, 0);
             else map = mmap(NULL,file_size,PROT_READ | PROT_WRITE,MAP_SHARED,fd, 0);
             if(map == MAP_FAILED) map = nullptr; // unify windows and unix error behaviour
@@ -438,7 +439,7 @@ class memory_manager
             if (UnmapViewOfFile(addr)) return 0;
             return -1;
 #else
-            return munmap(addr, size);
+            return munmap(addr, 0 == size ? 1 : size); // see mmap_file
 #endif
             return -1;
         }
-- 
2.43.0


From 9a124a37ef5ceeb7dc35e8ec00d8577470700282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 20/81] fix: ram_fs: renaming a file to itself destroyed it;
 removing or renaming missing files reported success

---
 lib/ram_fs.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..1fd80bb 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -72,16 +72,20 @@ int
 ram_fs::remove(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map.erase(name);
-    return 0;
+    return m_map.erase(name) ? 0 : -1;
 }
 
 int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    if (!exists(old_filename)) {
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(m_map[old_filename]);
+        remove(old_filename);
+    }
     return 0;
 }
 
@@ -124,10 +128,10 @@ int remove(const std::string& file)
 
 int rename(const std::string& old_filename, const std::string& new_filename)
 {
+    if (is_ram_file(old_filename) != is_ram_file(new_filename)) {
+        return -1; // error, if only one of the files is a RAM-file
+    }
     if (is_ram_file(old_filename)) {
-        if (!is_ram_file(new_filename)) {  // error, if new file is not also RAM-file
-            return -1;
-        }
         return ram_fs::rename(old_filename, new_filename);
     } else {
         return std::rename(old_filename.c_str(), new_filename.c_str());
-- 
2.43.0


From fca4c7c510b9f2de980ee7450d77079ce281096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 21/81] fix: ram_filebuf: append/ate modes, relative seeks of
 output streams and seeks behind the end differed from disk files

---
 include/sdsl/ram_filebuf.hpp | 11 ++---
 lib/ram_filebuf.cpp          | 82 +++++++++++++++---------------------
 2 files changed, 37 insertions(+), 56 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index 04ccfe1..42ea73b 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -12,6 +12,8 @@ class ram_filebuf : public std::streambuf
 {
     private:
         ram_fs::content_type* m_ram_file = nullptr;  // file handle
+        std::size_t           m_gap    = 0;           // distance of the position to the end of the file, if it is behind it
+        bool                  m_append = false;       // write always at the end of the file
         void pbump64(std::ptrdiff_t);
 
     public:
@@ -33,13 +35,8 @@ class ram_filebuf : public std::streambuf
                 std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
 
         pos_type
-        pubseekoff(off_type off, std::ios_base::seekdir way,
-                   std::ios_base::openmode which = std::ios_base::in | std::ios_base::out);
-
-        pos_type
-        pubseekpos(pos_type sp,
-                   std::ios_base::openmode which = std::ios_base::in | std::ios_base::out);
-
+        seekoff(off_type off, std::ios_base::seekdir way,
+                std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
 
 //    std::streamsize
 //    xsputn(const char_type* s, std::streamsize n) override;
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..b2e0d25 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -1,4 +1,5 @@
 #include "sdsl/ram_filebuf.hpp"
+#include <algorithm>
 #include <iostream>
 #include <limits>
 
@@ -26,7 +27,7 @@ std::streambuf*
 ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
 {
     // open ram_file
-    if ((mode & std::ios_base::in) and !(mode & std::ios_base::trunc)) {
+    if ((mode & std::ios_base::in) and !(mode & (std::ios_base::trunc | std::ios_base::app))) {
         // file must exist, initial position at the start
         if (!ram_fs::exists(name)) {
             m_ram_file = nullptr;
@@ -48,13 +49,8 @@ ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
         m_ram_file->clear();
     }
     if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
-
-        }
-        setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        m_append = mode & std::ios_base::app;
+        seekpos(mode & std::ios_base::ate ? m_ram_file->size() : 0, mode);
     }
 // ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
     return m_ram_file ? this : nullptr;
@@ -78,55 +74,38 @@ ram_filebuf::close()
 }
 
 ram_filebuf::pos_type
-ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
+ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode)
 {
-    if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
-        setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-        setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-        pbump64(sp);
-    } else {
-        if (mode & std::ios_base::out) {
-            // extend buffer
-            m_ram_file->resize(sp, 0);
-            setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
-            setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-            pbump64(sp);
-        } else {
-            return pos_type(off_type(-1));
-        }
+    if (!is_open() or sp < (pos_type)0) {
+        return pos_type(off_type(-1));
+    }
+    std::size_t size = m_ram_file->size();
+    std::size_t pos  = std::min((std::size_t)(off_type)sp, size);
+    // a position behind the end is allowed; the gap is filled, if something is written there
+    m_gap = (std::size_t)(off_type)sp - pos;
+    setg(m_ram_file->data(), m_ram_file->data()+pos, m_ram_file->data()+size);
+    setp(m_ram_file->data(), m_ram_file->data()+size);
+    if (m_append) {
+        m_gap = 0;
+        pos   = size;
     }
+    pbump64(pos);
     return sp;
 }
 
 ram_filebuf::pos_type
-ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
-                        std::ios_base::openmode which)
+ram_filebuf::seekoff(off_type off, std::ios_base::seekdir way,
+                     std::ios_base::openmode which)
 {
-    if (std::ios_base::beg == way) {
-        if (seekpos(off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
-    } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
-    } else if (std::ios_base::end == way) {
-        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
+    if (!is_open()) {
+        return pos_type(off_type(-1));
     }
-    return gptr()-eback();
-}
-
-
-ram_filebuf::pos_type
-ram_filebuf::pubseekpos(pos_type sp, std::ios_base::openmode which)
-{
-    if (seekpos(sp, which) == pos_type(-1)) {
-        return pos_type(-1);
-    } else {
-        return gptr()-eback();
+    if (std::ios_base::cur == way) {
+        off += m_gap + ((which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase());
+    } else if (std::ios_base::end == way) {
+        off += m_ram_file->size();
     }
+    return seekpos(off, which);
 }
 
 int
@@ -139,11 +118,16 @@ ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
     if (m_ram_file) {
+        std::ptrdiff_t get_pos = gptr()-eback();
+        if (m_gap > 0) {
+            m_ram_file->resize(m_ram_file->size()+m_gap, 0);
+            m_gap = 0;
+        }
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
         pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+        setg(m_ram_file->data(), m_ram_file->data()+get_pos, m_ram_file->data()+m_ram_file->size());
     }
     return traits_type::to_int_type(c);
 }
-- 
2.43.0


From a17d6b74fa0a8120061dab68d60ede5097a2a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 22/81] fix: isfstream::seekg reports failed seeks;
 osfstream::tellp was declared but not defined

---
 lib/sfstream.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..279d506 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -135,6 +135,20 @@ osfstream::seekp(off_type off, std::ios_base::seekdir way)
 
 
 
+std::streampos
+osfstream::tellp()
+{
+    pos_type p = pos_type(off_type(-1));
+    if (!this->fail()) {
+        if (is_ram_file(m_file)) {
+            p = ((ram_filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        } else {
+            p = ((std::filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        }
+    }
+    return p;
+}
+
 //  IMPLEMENTATION OF ISFSTREAM
 
 isfstream::isfstream() : std::istream(nullptr)
@@ -216,6 +230,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -242,6 +257,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From c788bdbc67ced688abc4e9ccc71113c1706efb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 23/81] fix: ram_filebuf: writing to a closed RAM file was
 reported as successful

---
 lib/ram_filebuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index b2e0d25..227489a 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -117,7 +117,9 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
-    if (m_ram_file) {
+    if (!is_open()) {
+        return traits_type::eof();
+    } else {
         std::ptrdiff_t get_pos = gptr()-eback();
         if (m_gap > 0) {
             m_ram_file->resize(m_ram_file->size()+m_gap, 0);
-- 
2.43.0


From 6cad7fa84ac9f72b8a7a7703c4ed2f9b1c0f0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 24/81] fix: file_size of a missing file was undefined;
 store_to_file reported success when the file could not be opened

---
 lib/io.cpp   | 6 +++---
 lib/util.cpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..bdb0d87 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,8 +13,8 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
@@ -28,8 +28,8 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
@@ -44,8 +44,8 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..f9d8c0c 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,9 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (0 != stat(file.c_str(), &fs)) {
+            return 0;
+        }
         return fs.st_size;
     }
 }
-- 
2.43.0


From 8703276f3eb52e6daacf12983590758284acb4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:13 +0000
Subject: [PATCH 25/81] fix: load_vector_from_file reported success for missing
 files

---
 include/sdsl/io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..322b028 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -196,6 +196,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             return true;
         }
     } else {
+        isfstream in(file, std::ios::in | std::ios::binary);
+        if (!in) {
+            return false;
+        }
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
             v.resize(0);
@@ -206,7 +210,6 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                                    +"\" is not a multiple of "+util::to_string(num_bytes));
             return false;
         }
-        isfstream in(file, std::ios::in | std::ios::binary);
         if (in) {
             v.width(std::min((int)8*num_bytes, (int)max_int_width));
             v.resize(file_size / num_bytes);
-- 
2.43.0


From cbc64a03163c895d9257642245a172b9278f9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 26/81] fix: lcp_byte declares its index category, so that
 construct() accepts it

---
 include/sdsl/lcp_byte.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/lcp_byte.hpp b/include/sdsl/lcp_byte.hpp
index 7cca84b..a7b1656 100644
--- a/include/sdsl/lcp_byte.hpp
+++ b/include/sdsl/lcp_byte.hpp
@@ -63,7 +63,7 @@ class lcp_byte
         typedef ptrdiff_t                                difference_type;
 
         typedef lcp_plain_tag                            lcp_category;
-        typedef lcp_tag                                  index_tag;
+        typedef lcp_tag                                  index_category;
 
         enum { fast_access = 0,
                text_order  = 0,
-- 
2.43.0


From 5fcc6894ef0b086c1a85afd2e177acd11b5d32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 27/81] fix: insert_lcp_values keeps the length of the LCP
 array and closes the old file before replacing it

---
 lib/construct_lcp_helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..ce7c090 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,11 +35,14 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else {   // Value is still unknown, keep its place
+                out_buf[i] = 0;
             }
             ++calc_idx;
         }
     }
-    // Close file and replace old file with new one
+    // Close files and replace old file with new one
+    lcp_buffer.close();
     out_buf.close();
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
-- 
2.43.0


From 77f8601b9773fa8941515a01c07aaeb74e62c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 28/81] fix: construct_lcp_bwt_based does not divide by zero if
 all values are known at the end of a phase

---
 lib/construct_lcp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..ee6194d 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -819,7 +819,8 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
-            uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            // (all values may already be known)
+            uint8_t int_width_new = std::min(space_in_bit_for_lcp / std::max(remaining_lcp_values, (size_type)1), (size_type)bits::hi(n-1)+1);
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
             std::cout << "# l=" << remaining_lcp_values << " b=" << (int)int_width_new << " lcp_value_max=" << lcp_value_max << std::endl;
-- 
2.43.0


From 7d9c5b8bfd50c190155a6898ccdef8073167cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 29/81] fix: lcp_support_tree2 stores a large LCP value of the
 last interval if any of its copies is not reducible

---
 include/sdsl/lcp_support_tree2.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/lcp_support_tree2.hpp b/include/sdsl/lcp_support_tree2.hpp
index 83a6aa3..d67c21b 100644
--- a/include/sdsl/lcp_support_tree2.hpp
+++ b/include/sdsl/lcp_support_tree2.hpp
@@ -260,11 +260,13 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
         last_bwti = bwt_buf[i];
     }
 
+    is_one_big_and_not_reducable = false;
     while (!vec_stack.empty()) {
         y = vec_stack.top();
+        is_one_big_and_not_reducable |= is_big_and_not_reducable[vec_stack.size()-1];
         if (vec_stack.pop()) {
             if (y > M-2) {
-                if (is_big_and_not_reducable[vec_stack.size()]) {
+                if (is_one_big_and_not_reducable) {
                     val = M;
                     big_lcp_out.write((char*)&y, sizeof(y));
                     ++fc_cnt_big;
@@ -278,6 +280,7 @@ void construct_first_child_and_lf_lcp(int_vector_buffer<>& lcp_buf,
             }
             sml_lcp_out.write((const char*)&val, 1);
             ++fc_cnt;
+            is_one_big_and_not_reducable = false;
         }
     }
     // write number of elements of sml_lcp into the out file stream
-- 
2.43.0


From d8f37227e557f8c2ce00c0f47576cce9242f2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 30/81] fix: int_vector_buffer: clear the bits behind the last
 element of an opened file

An int_vector file may hold arbitrary bits behind its last element. They
became visible when a value was written behind the end of the sequence into
another block.
---
 include/sdsl/int_vector_buffer.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index c15d285..1dde305 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -166,6 +166,20 @@ class int_vector_buffer
                     uint8_t width = 0;
                     int_vector<t_width>::read_header(size, width, m_ifile);
                     m_buffer.width(width);
+                    if (size%64) {
+                        // the bits behind the last element can be arbitrary, clear
+                        // them as they may become elements when the buffer grows
+                        uint64_t last_word = 0;
+                        m_ifile.seekg(m_offset+(size/64)*8);
+                        m_ifile.read((char*) &last_word, sizeof(last_word));
+                        if (m_ifile.good() and (last_word & ~bits::lo_set[size%64])) {
+                            last_word &= bits::lo_set[size%64];
+                            m_ofile.seekp(m_offset+(size/64)*8);
+                            m_ofile.write((char*) &last_word, sizeof(last_word));
+                            m_ofile.flush();
+                        }
+                        m_ifile.clear();
+                    }
                 }
                 assert(m_ifile.good());
                 m_size = size/width();
-- 
2.43.0


From 2883fbcb49b0662f3acf628dbb77c65b73e72982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 31/81] fix: csa_wt: attach the ISA samples to the moved SA
 samples

---
 include/sdsl/csa_wt.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From ea446aa0c616f26d5805287d737138ebb3d2f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 32/81] fix: csa_sada: attach the ISA samples to the moved SA
 samples

---
 include/sdsl/csa_sada.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
-- 
2.43.0


From 393a1fa58d89be3103b8ca7d2d586ff8596518ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 33/81] fix: bwt_of_csa_wt::select did not compile

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..8c20766 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From 065fd45721664cab2720b3a6db6abbb99b2b0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 34/81] fix: traverse_csa_saisa::empty recursed endlessly

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 8c20766..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
-- 
2.43.0


From 129a2c83af6db74ce3cbaf2f7c9279f55aeb519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 35/81] fix: isa_of_csa_psi: handle samples which wrap around
 the end of the text

---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..8c41920 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) { // the sample is at the end of the text
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From 24fe33ad1636cebf529ab93b2ea74632d05b0e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 36/81] fix: sa_bwt_sampling: samples are stored undivided, do
 not multiply by the density

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From ff399d7911faaaca8f7b3e92e244ec69348c0318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 37/81] fix: move constructors of succinct_byte_alphabet and
 int_alphabet did not compile

---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From d6263f8ae0ee67de4f85df8eba0ef0049db8314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 38/81] fix: locate on a CST did not compile for another result
 container than int_vector<64>

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..60e72ae 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -152,7 +152,7 @@ t_rac locate(
     SDSL_UNUSED typename std::enable_if<std::is_same<cst_tag, typename t_cst::index_category>::value, cst_tag>::type x = cst_tag()
 )
 {
-    return locate(cst.csa, begin, end);
+    return locate<typename t_cst::csa_type, t_pat_iter, t_rac>(cst.csa, begin, end);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of a CST.
-- 
2.43.0


From e1fc29871ac5867bcdea02f16a31feac454e76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 39/81] fix: cst_fully: add the string_type used by count and
 locate

---
 include/sdsl/cst_fully.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..605df7d 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -131,6 +131,7 @@ class cst_fully
         typedef t_csa                                     csa_type;
         typedef lcp_fully<cst_fully>                      lcp_type;
         typedef typename t_csa::char_type                 char_type;
+        typedef typename t_csa::string_type  string_type;
         typedef std::pair<size_type, size_type>           node_type; // Nodes are represented by their interval over the CSA
         typedef size_type                                 leaf_type; // Index of a leaf
         typedef size_type                                 sampled_node_type; // Node in the sampled tree represented by its index in s
-- 
2.43.0


From 2119aa8d2259ee58cce10be7db341b440ad312d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 40/81] fix: forward_search: do not index the alphabet by a
 negative char

---
 include/sdsl/suffix_array_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..3035388 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,7 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto index = csa.char2comp[(typename t_csa::char_type)*current];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0


From c2a6172529cc81de95f72c6cf2ac4276ae0b9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 41/81] fix: cst_fully: child(v,c,char_pos) returns the
 position as the other CSTs do

The third parameter was the depth of v, so that the generic forward_search
passed a suffix array index where cst_fully expected a depth.
---
 include/sdsl/cst_fully.hpp | 40 +++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 605df7d..a82934f 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -690,10 +690,34 @@ class cst_fully
                 return root();
             }
             size_type d = depth(v);
-            return child(v, c, d);
+            return child_at_depth(v, c, d);
         }
 
-        node_type child(node_type v, char_type c, size_type d) const
+//! Get the child w of node v which edge label (v,w) starts with character c.
+        /*!
+         * \param v A node v.
+         * \param c First character of the edge label from v to the desired child.
+         * \param char_pos If the child w exists, then the suffix array index of the suffix
+         *                 which starts at the first character of the edge label (v,w) is
+         *                 stored in char_pos.
+         * \return The child node w which edge label (v,w) starts with c or root() if it does not exist.
+         */
+        node_type child(node_type v, char_type c, size_type& char_pos) const
+        {
+            if (is_leaf(v)) {
+                return root();
+            }
+            size_type d = depth(v);
+            node_type res = child_at_depth(v, c, d);
+            if (res != root()) {
+                char_pos = get_char_pos(res.first, d, m_csa);
+            }
+            return res;
+        }
+
+    private:
+        //! Get the child of the inner node v with depth d which edge label starts with c.
+        node_type child_at_depth(node_type v, char_type c, size_type d) const
         {
             leaf_type lower;
             leaf_type upper;
@@ -741,6 +765,8 @@ class cst_fully
             return node_type(lower, upper - 1);
         }
 
+    public:
+
 //! Get the i-th child of a node v.
         /*!
          * \param v A valid tree node of the cst.
@@ -756,14 +782,14 @@ class cst_fully
             size_type d = depth(v);
             size_type char_pos = get_char_pos(v.first, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            node_type res = child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
             while (i > 1) {
                 if (res.second >= v.second) {
                     return root();
                 }
                 char_pos = get_char_pos(res.second + 1, d, m_csa);
                 c = m_csa.F[char_pos];
-                res = child(v, c, d);
+                res = child_at_depth(v, c, d);
                 i--;
             }
 
@@ -784,12 +810,12 @@ class cst_fully
                 size_type d = depth(v);
                 size_type char_pos = get_char_pos(v.first, d, m_csa);
                 char_type c = m_csa.F[char_pos];
-                node_type v_i = child(v, c, d);
+                node_type v_i = child_at_depth(v, c, d);
                 while (v_i.second < v.second) {
                     ++res;
                     char_pos = get_char_pos(v_i.second + 1, d, m_csa);
                     c = m_csa.F[char_pos];
-                    v_i = child(v, c, d);
+                    v_i = child_at_depth(v, c, d);
                 }
                 return res;
             }
@@ -820,7 +846,7 @@ class cst_fully
             size_type d = depth(p);
             size_type char_pos = get_char_pos(v.second + 1, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            return child(p, c, d);
+            return child_at_depth(p, c, d);
         }
 
         char_type edge(node_type v, size_type d) const
-- 
2.43.0


From 7563541c1692c2f783366cf29f1b0aac05a1ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 42/81] fix: bidirectional_search: do not truncate the symbols
 of an integer alphabet

---
 include/sdsl/suffix_array_algorithm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 3035388..96829bb 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -264,7 +264,7 @@ typename csa_wt<t_wt>::size_type bidirectional_search(
     typename csa_wt<>::size_type r_fwd,
     typename csa_wt<>::size_type l_bwd,
     typename csa_wt<>::size_type r_bwd,
-    typename csa_wt<>::char_type c,
+    typename t_alphabet_strat::char_type c,
     typename csa_wt<>::size_type& l_fwd_res,
     typename csa_wt<>::size_type& r_fwd_res,
     typename csa_wt<>::size_type& l_bwd_res,
@@ -338,7 +338,7 @@ typename csa_wt<>::size_type bidirectional_search_backward(
     t_pat_iter it = end;
     while (begin < it and r_fwd+1-l_fwd > 0) {
         --it;
-        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename csa_wt<>::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
+        bidirectional_search(csa_fwd, l_fwd, r_fwd, l_bwd, r_bwd, (typename t_alphabet_strat::char_type)*it, l_fwd, r_fwd, l_bwd, r_bwd);
     }
     l_fwd_res = l_fwd;
     r_fwd_res = r_fwd;
@@ -403,7 +403,7 @@ bidirectional_search_forward(
 {
     t_pat_iter it = begin;
     while (it < end and r_fwd+1-l_fwd > 0) {
-        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename csa_wt<>::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
+        bidirectional_search(csa_bwd, l_bwd, r_bwd, l_fwd, r_fwd, (typename t_alphabet_strat::char_type)*it, l_bwd, r_bwd, l_fwd, r_fwd);
         ++it;
     }
     l_fwd_res = l_fwd;
-- 
2.43.0


From 8ecd308417fa0d016c955af9e4e148548b307055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 43/81] fix: extract(cst, v, text): return the length of the
 label

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 60e72ae..02f6b74 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
-- 
2.43.0


From 7d7cffddbd121ae12e51218da17a773c3ef7abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 44/81] fix: extract(cst, root()): return the empty label

std::string(0) is the constructor from a null pointer, which throws.
---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 02f6b74..1ab83f9 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -203,7 +203,7 @@ extract(
 {
     typedef typename t_cst::csa_type::string_type t_rac;
     if (v==cst.root()) {
-        return t_rac(0);
+        return t_rac();
     }
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
-- 
2.43.0


From 63a09d19b64e4ca9122473659324e4170d238104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 45/81] fix: cst_fully::depth: write the label to existing
 elements

---
 include/sdsl/cst_fully.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index a82934f..8915a1a 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -501,8 +501,7 @@ class cst_fully
 
             size_type i;
             sampled_node_type u;
-            std::vector<char_type> c;
-            c.reserve(delta);
+            std::vector<char_type> c(delta, 0);
             return depth_lca(v.first, v.second, i, u, c);
         }
 
-- 
2.43.0


From 7e4b55bf452ccabe841b27f85de2d8ff00acb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 46/81] fix: cst_dfs_const_forward_iterator: copies shared the
 stack and freed it twice

---
 include/sdsl/cst_iterators.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..d11d8e5 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -58,7 +58,7 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         bool	 m_visited;
         bool 	 m_valid;
         node_type* m_stack_cache;
-        uint32_t m_stack_size;
+        uint32_t m_stack_size = 0;
 
 
         inline node_type parent() {
@@ -95,8 +95,27 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator& it):
+            m_cst(it.m_cst), m_v(it.m_v), m_visited(it.m_visited), m_valid(it.m_valid),
+            m_stack_cache(nullptr), m_stack_size(it.m_stack_size)
+        {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache+cache_size, m_stack_cache);
+            }
+        }
+
+        //! Assignment operator
+        cst_dfs_const_forward_iterator& operator=(cst_dfs_const_forward_iterator it)
+        {
+            std::swap(m_cst, it.m_cst);
+            std::swap(m_v, it.m_v);
+            std::swap(m_visited, it.m_visited);
+            std::swap(m_valid, it.m_valid);
+            std::swap(m_stack_cache, it.m_stack_cache);
+            std::swap(m_stack_size, it.m_stack_size);
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From 8afa8ea9f2b12e213ab078be37e57d70b5facd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 47/81] fix: cst_sada::lca: a node is the LCA of itself and its
 descendants

---
 include/sdsl/cst_sada.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..750670d 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -717,8 +717,9 @@ class cst_sada
             } else if (v==w) {
                 return v;
             }
-            if (v == root())
-                return root();
+            if (m_bp_support.find_close(v) > w) { // v is an ancestor of w
+                return v;
+            }
             return m_bp_support.double_enclose(v, w);
         }
 
-- 
2.43.0


From 86a0fae0cc8899be48ecb7d7c5c325366b7800b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 48/81] fix: cst_sada::sl: the suffix link of a node of depth
 one is the root

sl of the leaf of the terminator returned the leaf of the whole text, and
sl(v, depth(v)) of a leaf read behind the inverse suffix array.
---
 include/sdsl/cst_sada.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 750670d..6eadff9 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -737,6 +737,8 @@ class cst_sada
             // get leftmost leaf in the tree rooted at v
             size_type left        = m_bp_rank10(v);
             if (is_leaf(v)) {
+                if (left == 0) // the path label consists only of the terminator
+                    return root();
                 return select_leaf(m_csa.psi[left]+1);
             }
             // get the rightmost leaf in the tree rooted at v
@@ -757,7 +759,7 @@ class cst_sada
          */
         node_type sl(node_type v, size_type i)const
         {
-            if (v == root())
+            if (i >= depth(v)) // nothing remains of the path label
                 return root();
             // get leftmost leaf in the tree rooted at v
             size_type left        = m_bp_rank10(v);
-- 
2.43.0


From 126182e131d6884c75dcdeab392cadf3956ed40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 49/81] fix: cst_fully::sl: the suffix link of the leaf of the
 terminator is the root

---
 include/sdsl/cst_fully.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 8915a1a..f4dc1ad 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -615,6 +615,9 @@ class cst_fully
             if (v == root()) {
                 return root();
             } else if (is_leaf(v)) {
+                if (v.first == 0) { // the path label consists only of the terminator
+                    return root();
+                }
                 size_t leaf = m_csa.psi[v.first];
                 return node_type(leaf, leaf);
             }
-- 
2.43.0


From ee73973c52e8fa227ba70f362a2723e0eaa68a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 50/81] fix: cst_fully::wl: return the root if the Weiner link
 does not exist

---
 include/sdsl/cst_fully.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index f4dc1ad..4b043ea 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -637,7 +637,9 @@ class cst_fully
         {
             size_type l, r;
             std::tie(l, r) = v;
-            backward_search(m_csa, l, r, c, l, r);
+            if (backward_search(m_csa, l, r, c, l, r) == 0) { // there exists no Weiner link
+                return root();
+            }
             return node_type(l, r);
         }
 
-- 
2.43.0


From 0aba62bce720f8f7dbce276c9f974056792ea06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 51/81] fix: cst_iterators.hpp: include what it uses

---
 include/sdsl/cst_iterators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index d11d8e5..69120f8 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,10 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <algorithm>
+#include <iterator>
+#include <queue>
+
 namespace sdsl
 {
 
-- 
2.43.0


From 06fc0288e09a23b95c8ae1d47fc9a39b7670bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 52/81] fix: k2_treap: the assignment operator takes a const
 reference (copying did not compile or recursed)

---
 include/sdsl/k2_treap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..b22a4ab 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
-- 
2.43.0


From 986403ce8a077fa505e45c37b1193db6c526a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 53/81] fix: k2_tree: the assignment operator takes a const
 reference (copying recursed without end)

---
 include/sdsl/k2_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..371990f 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From d021fec38c1e9ceaab41708610d14dff2adc493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 54/81] fix: louds_tree: serialize and swap (did not compile,
 wrong byte count)

---
 include/sdsl/louds_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..943f2b4 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -179,16 +179,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 115b5b0578f7785bd0ec0790ed063a5c59a1b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 55/81] fix: louds_node: a copy refers to its own members,
 nodes can be assigned

---
 include/sdsl/louds_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 943f2b4..0eef574 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos), nr(m_nr), pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr  = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From c413c4b44fbbd1a29fcadf6ddef194e21c7e30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 56/81] fix: rmq_support_sparse_table::load leaves no old
 tables behind

---
 include/sdsl/rmq_support_sparse_table.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..e8a3835 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -190,11 +190,9 @@ class rmq_support_sparse_table
         {
             set_vector(v);
             read_member(m_k, in);
-            if (m_k >0) {
-                m_table.resize(m_k);
-                for (size_type i=0; i < m_k; ++i)
-                    m_table[i].load(in);
-            }
+            m_table.resize(m_k);
+            for (size_type i=0; i < m_k; ++i)
+                m_table[i].load(in);
         }
 };
 
-- 
2.43.0


From 5ff22b8a71640c5210e81ae681746a35d61fc108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 57/81] fix: rmq_support_sparse_table: no table is written for
 a vector of two elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e8a3835..22f23e8 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 2d9b2e3640f03ed7a03cb866de1c196163d18f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 58/81] fix: write_member<std::string>: add the size to the own
 node of the structure tree

---
 lib/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index bdb0d87..93522ed 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -61,7 +61,7 @@ size_t write_member<std::string>(const std::string& t, std::ostream& out, struct
     written_bytes += write_member(t.size(), out, child, "length");
     out.write(t.c_str(), t.size());
     written_bytes += t.size();
-    structure_tree::add_size(v, written_bytes);
+    structure_tree::add_size(child, written_bytes);
     return written_bytes;
 }
 
-- 
2.43.0


From a503148d0697aeabf5596dbdaf4ed13e1e774dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 59/81] fix: _fuzzy_isa_sampling_support::serialize: hang the
 member below the own node

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index e8e057b..3d0e0af 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -915,7 +915,7 @@ class _fuzzy_isa_sampling_support
         {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            written_bytes += m_select_marked_sa.serialize(out, v, "select_marked_sa");
+            written_bytes += m_select_marked_sa.serialize(out, child, "select_marked_sa");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 9fc9d1181e4191c0d712769afa9ecc5f04c65864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 60/81] fix: write_structure of several objects: the root has
 the sum of their sizes

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 322b028..aa0f020 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -395,7 +395,7 @@ template<typename X, typename... Xs>
 void _write_structure(std::unique_ptr<structure_tree_node>& st_node, X x, Xs... xs)
 {
     nullstream ns;
-    serialize(x, ns, st_node.get(), "");
+    structure_tree::add_size(st_node.get(), serialize(x, ns, st_node.get(), ""));
     _write_structure(st_node, xs...);
 }
 
-- 
2.43.0


From 18eafd801e1592bc1c8390f83fe499107990a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 61/81] fix: dac_vector_dp: copying a non-const vector copies
 it instead of encoding its elements anew

---
 include/sdsl/dac_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 732e53d..f3d855d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -129,6 +129,9 @@ class dac_vector_dp
     public:
         // copy-and-swap
         dac_vector_dp() = default;
+        dac_vector_dp(dac_vector_dp& other) // otherwise the constructor for containers is chosen
+            : dac_vector_dp(static_cast<const dac_vector_dp&>(other)) {}
+
         dac_vector_dp(const dac_vector_dp& other)
             : m_size(other.m_size)
             , m_overflow(other.m_overflow)
-- 
2.43.0


From 7a8ff3ce4f1d67519a528035acf9d239c0435042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:58 +0000
Subject: [PATCH 62/81] fix: serialize of a std::vector: one node in the
 structure tree, the size is written first

---
 include/sdsl/io.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index aa0f020..a4c1096 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -134,9 +134,11 @@ serialize(const std::vector<X>& x,
           std::ostream& out, structure_tree_node* v=nullptr,
           std::string name="")
 {
-
-    return serialize(x.size(), out, v, name)
-           + serialize_vector(x, out, v, name);
+    structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(x));
+    uint64_t written_bytes = serialize(x.size(), out, child, "size");
+    written_bytes += serialize_vector(x, out, child, "elements");
+    structure_tree::add_size(child, written_bytes);
+    return written_bytes;
 }
 
 
-- 
2.43.0


From 8370a048bb2cbf9889316de2d8166daad7f287c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 63/81] fix: memory_monitor: an event that outlives stop() is
 not removed from the empty stack

---
 include/sdsl/memory_management.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index ed00e2e..bac5bf7 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -75,6 +75,7 @@ class memory_monitor
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
                     m.event_stack.emplace(name, usage);
+                    created = m.start_log;
                 }
             }
             ~mm_event_proxy()
@@ -82,6 +83,8 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    // stop() has completed the event already
+                    if (m.event_stack.empty() || created != m.start_log) return;
                     auto& cur = m.event_stack.top();
                     auto cur_time = timer::now();
                     cur.allocations.emplace_back(cur_time, m.current_usage);
-- 
2.43.0


From 84d610c02f981134e0df7174e338875d7af845b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 64/81] fix: hugepage_allocator::mm_alloc: look for a free
 block of the aligned size

---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..c002a97 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -451,7 +451,7 @@ hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
     mm_block_t* bptr = nullptr;
-    if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
+    if ((bptr=find_free_block(ALIGN(size_in_bytes + MM_BLOCK_OVERHEAD))) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
         block_markused(bptr);
         /* split if we have a block too large for us? */
-- 
2.43.0


From e9c60c7df99b87480c04b84efa9cc88147a28bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 65/81] fix: hugepage_allocator::mm_realloc: copy only the data
 of the old block

---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index c002a97..fb1c8f6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -574,7 +574,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize);
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From 80a76882b29634656ff6f81dabca61bed8ecdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 66/81] fix: near_bwd_excess: scan the rest of a block that
 does not start at a byte border

---
 lib/bp_support_algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bp_support_algorithm.cpp b/lib/bp_support_algorithm.cpp
index 40a9a0c..e45ce26 100644
--- a/lib/bp_support_algorithm.cpp
+++ b/lib/bp_support_algorithm.cpp
@@ -281,7 +281,7 @@ near_bwd_excess(const bit_vector& bp, uint64_t i, bit_vector::difference_type re
         excess += excess::data.word_sum[((*(b+(j>>6)))>>(j&0x3F))&0xFF];
     }
     excess -= 8;
-    for (difference_type j=std::min(l, r); j > begin; --j) {
+    for (difference_type j=std::min(l, r)-1; j >= begin; --j) {
         if (bp[j])
             ++excess;
         else
-- 
2.43.0


From 686a98774b6f03026299c66cdb5517306964a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 67/81] fix: bp_support_sada::level_anc(0,0) is the node itself

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..315354f 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return excess(0)+rel == 0 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From c4c455d8b9190a50618d0fa2b2b95908de101a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 68/81] fix: bp_support_g: rmq without an opening parenthesis,
 rmq_open up to a closing one

---
 include/sdsl/bp_support_g.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..6404235 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r) + 2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -542,17 +542,16 @@ class bp_support_g
          */
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
+            if (r+1 == size()) // the excess is zero at the end
+                return r;
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size())
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
-- 
2.43.0


From 8f4cde3c3bb99b465cfd7dcab565c522296bf946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 69/81] fix: bp_support_gg::rmq: do not look behind the end of
 the sequence

---
 include/sdsl/bp_support_gg.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/bp_support_gg.hpp b/include/sdsl/bp_support_gg.hpp
index 74d1632..4d42566 100644
--- a/include/sdsl/bp_support_gg.hpp
+++ b/include/sdsl/bp_support_gg.hpp
@@ -454,6 +454,8 @@ class bp_support_gg
         size_type rmq(size_type l, size_type r)const
         {
             assert(l<=r);
+            if (r+1 == size()) // the excess is zero at the end
+                return r;
             size_type m = rmq_open(l, r+1);
             if (m==size())
                 return r;
-- 
2.43.0


From cfe216950b6f59ef0484bea9eea9ce5f8faad3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 70/81] fix: bp_support_sada: only a scan that passed the first
 block reached the begin of the sequence

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 315354f..884ada1 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -331,7 +331,7 @@ class bp_support_sada
                 }
                 --sml_block_idx;
             }
-            if (sml_block_idx == 0 and desired_excess == 0)
+            if (sml_block_idx == (size_type)-1 and desired_excess == 0)
                 return -1;
             return size();
         }
-- 
2.43.0


From e5c15163937672206ee8bb7ff4744f1dbb8d36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 71/81] fix: k2_treap: the treap of a single point at the
 origin has no coordinate levels

---
 include/sdsl/k2_treap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index b22a4ab..544ea53 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -395,6 +395,9 @@ class k2_treap
         node_type
         root() const
         {
+            if (t == 0) { // a single point at the origin has no stored coordinates
+                return node_type(t, t_p(0,0), 0, m_maxval[0], t_p(0,0));
+            }
             return node_type(t, t_p(0,0), 0, m_maxval[0],
                              t_p(m_coord[t-1][0], m_coord[t-1][1]));
         }
-- 
2.43.0


From f3f21b17ba48bf81334924d3e604035d1ec7fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 72/81] fix: k2_treap: do not mark removed points by a value
 which does not fit the coordinate type

---
 include/sdsl/k2_treap.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 544ea53..bf62889 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -239,8 +239,6 @@ class k2_treap
             using namespace k2_treap_ns;
             using t_e = std::tuple<t_x, t_y, t_w>;
             m_t = get_t(v);
-            uint64_t M = precomp<t_k>::exp(t);
-            t_e MM = t_e(M,M,M);
 
             std::string id_part = util::to_string(util::pid())
                                   + "_" + util::to_string(util::id());
@@ -268,6 +266,7 @@ class k2_treap
                     level_nodes = 0;
                     cc = 0;
                     auto sp = std::begin(v);
+                    auto out = sp; // end of the points kept for the next level
                     for (auto ep = sp; ep != end;) {
                         ep = std::find_if(sp, end, [&sp,&l](const t_e& e) {
                             auto x1 = std::get<0>(*sp);
@@ -291,7 +290,6 @@ class k2_treap
                         }
 
                         val_buf.push_back(std::get<2>(*max_it));
-                        *max_it = MM;
                         --ep;
                         std::swap(*max_it, *ep);
                         if (l > 0) {
@@ -320,12 +318,14 @@ class k2_treap
                                 _sp = _ep;
                             }
                         }
+                        // keep the points of the group, except the maximum at *ep
+                        for (; sp != ep; ++sp, ++out) {
+                            *out = *sp;
+                        }
                         ++ep;
                         sp = ep;
                     }
-                    end = std::remove_if(begin(v), end, [&](t_e e) {
-                        return e == MM;
-                    });
+                    end = out;
                     last_level_nodes = level_nodes;
                 }
             }
-- 
2.43.0


From 868297a896a10feb93ed5488934115ab0187f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 73/81] fix: k2_treap: refuse coordinates above the largest
 power of k instead of overflowing it

---
 include/sdsl/k2_treap.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index bf62889..a7dd142 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -28,6 +28,8 @@
 #include <tuple>
 #include <algorithm>
 #include <climits>
+#include <limits>
+#include <stdexcept>
 #include <vector>
 
 //! Namespace for the succinct data structure library.
@@ -96,7 +98,12 @@ class k2_treap
             });
             uint64_t x = tupmax(*max_it);
             uint8_t res = 0;
-            while (precomp<t_k>::exp(res) <= x) { ++res; }
+            while (precomp<t_k>::exp(res) <= x) {
+                if (precomp<t_k>::exp(res) > std::numeric_limits<uint64_t>::max()/t_k) {
+                    throw std::logic_error("Maximal element of input is too big.");
+                }
+                ++res;
+            }
             return res;
         }
 
@@ -190,14 +197,7 @@ class k2_treap
                 return max_v;
             };
 
-            uint64_t x = max_buf_element();
-            uint8_t res = 0;
-            while (res <= 64 and precomp<t_k>::exp(res) <= x) { ++res; }
-            if (res == 65) {
-                throw std::logic_error("Maximal element of input is too big.");
-            }
-
-            if (precomp<t_k>::exp(res) <= std::numeric_limits<uint32_t>::max()) {
+            if (max_buf_element() <= std::numeric_limits<uint32_t>::max()) {
                 auto v = read<uint32_t,uint32_t,uint32_t>(bufs);
                 construct(v, buf_x.filename());
             } else {
-- 
2.43.0


From 4b4c22d75b9f71978d9779213e9b6c6cc9a5f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 74/81] fix: k2_tree: compute the height and the positions of a
 node with integers

---
 include/sdsl/k2_tree.hpp | 70 ++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 371990f..512f6b4 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -22,6 +22,7 @@
 #define INCLUDED_SDSL_K2_TREE
 
 #include <deque>
+#include <limits>
 #include <queue>
 #include <stdexcept>
 #include <tuple>
@@ -63,15 +64,36 @@ class k2_tree
 
         t_rank      k_t_rank;
 
-        uint8_t     k_k;
-        uint16_t    k_height;
+        uint8_t     k_k = k;
+        uint16_t    k_height = 0;
+
+        //! Smallest h>=1 with k^h >= size
+        static uint16_t height_for(size_type size)
+        {
+            uint16_t h = 1;
+            for (size_type p = k; p < size; p *= k) {
+                ++h;
+                if (p > std::numeric_limits<size_type>::max()/k)
+                    break; // k^h exceeds the range of size_type
+            }
+            return h;
+        }
+
+        //! Size of the submatrices of the root, i.e. k^(height-1)
+        size_type root_size() const
+        {
+            size_type n = 1;
+            for (uint16_t h = 1; h < k_height; ++h)
+                n *= k_k;
+            return n;
+        }
 
     protected:
 
         void build_from_matrix(const std::vector<std::vector <int>>& matrix)
         {
             // Makes the size a power of k.
-            int simulated_size = std::pow(k, k_height);
+            int simulated_size = root_size() * k;
             std::vector<std::deque<bit_vector>> acc(k_height + 1);
 
             k2_tree_ns::_build_from_matrix<bit_vector>(matrix, k,
@@ -131,8 +153,7 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             k_k * std::floor(row/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k_k * k_k + k_k * (row/n);
                 for (unsigned j = 0; j < k_k; j++)
                     _neigh(n/k_k, row % n, col + n * j, y + j, acc);
             }
@@ -160,8 +181,7 @@ class k2_tree
             }
 
             if (k_t[level] == 1) {
-                idx_type y = k_t_rank(level + 1) * std::pow(k_k, 2) +
-                             std::floor(col/static_cast<double>(n));
+                idx_type y = k_t_rank(level + 1) * k_k * k_k + col/n;
                 for (unsigned j = 0; j < k_k; j++)
                     _reverse_neigh(n/k_k, row + n * j, col % n,
                                    y + j * k_k, acc);
@@ -185,16 +205,15 @@ class k2_tree
                     idx_type> t_part_tuple;
 
             k_k = k;
-            k_height = std::ceil(std::log(size)/std::log(k_k));
-            k_height = k_height > 1 ? k_height : 1; // If size == 0
-            size_type k_2 = std::pow(k_k, 2);
+            k_height = height_for(size);
+            size_type k_2 = k_k * k_k;
             bit_vector k_t_ = bit_vector(k_2 * k_height * edges.size(), 0);
             bit_vector k_l_;
 
             std::queue<t_part_tuple> q;
             idx_type t = 0, last_level = 0;
             idx_type i, j, r_0, c_0, it, c, r;
-            size_type l = std::pow(k_k, k_height - 1);
+            size_type l = root_size();
             std::vector<idx_type> pos_by_chunk(k_2 + 1, 0);
 
             q.push(t_part_tuple(0, edges.size(), l, 0, 0));
@@ -287,10 +306,7 @@ class k2_tree
             }
             std::vector<bit_vector> t;
             k_k = k;
-            if (matrix.size() < k_k)
-                k_height = 1;
-            else // height = log_k n
-                k_height = std::ceil(std::log(matrix.size())/std::log(k_k));
+            k_height = height_for(matrix.size());
 
             build_from_matrix(matrix);
 
@@ -444,15 +460,15 @@ class k2_tree
         {
             if (k_t.size() == 0 && k_l.size() == 0)
                 return false;
-            size_type n = std::pow(k_k, k_height - 1);
-            size_type k_2 = std::pow(k_k, 2);
+            size_type n = root_size();
+            size_type k_2 = k_k * k_k;
             idx_type col, row;
 
             // This is duplicated to avoid an extra if at the loop. As idx_type
             // is unsigned and rank has an offset of one, is not possible to run
             // k_t_rank with zero as parameter at the first iteration.
-            row = std::floor(i/static_cast<double>(n));
-            col = std::floor(j/static_cast<double>(n));
+            row = i/n;
+            col = j/n;
             i = i % n;
             j = j % n;
             idx_type level = k_k * row + col;
@@ -461,8 +477,8 @@ class k2_tree
             while (level < k_t.size()) {
                 if (k_t[level] == 0)
                     return false;
-                row = std::floor(i/static_cast<double>(n));
-                col = std::floor(j/static_cast<double>(n));
+                row = i/n;
+                col = j/n;
                 i = i % n;
                 j = j % n;
                 level = k_t_rank(level + 1) * k_2 + k_k * row + col;
@@ -485,10 +501,9 @@ class k2_tree
 			// n = k^h / k
 			// k^h - dimension n of matrix nxn
 			// /k  - to calculate div only once and not for for all parameter again, always (n/k)
-            size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+            size_type n = root_size();
 			// y = k * i/n
-            idx_type y = k_k * std::floor(i/static_cast<double>(n));
+            idx_type y = k_k * (i/n);
             for (unsigned j = 0; j < k_k; j++)
                 _neigh(n/k_k, i % n, n * j, y + j, acc);
             return acc;
@@ -505,9 +520,8 @@ class k2_tree
             if (k_l.size() == 0 && k_t.size() == 0)
                 return acc;
             // Size of the first square division
-            size_type n =
-                static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
-            idx_type y = std::floor(i/static_cast<double>(n));
+            size_type n = root_size();
+            idx_type y = i/n;
             for (unsigned j = 0; j < k_k; j++)
                 _reverse_neigh(n/k_k, n * j, i % n, y + j * k_k, acc);
 
@@ -520,7 +534,7 @@ class k2_tree
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
 
-			size_type n = static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
+			size_type n = root_size();
 			struct state{
 				idx_type n, row1, row2, col1, col2, dr, dc, z;
 				state(idx_type n, idx_type row1, idx_type row2, idx_type col1, idx_type col2,
-- 
2.43.0


From 1e5982399be19585227718b0f46b6dea687b992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 75/81] fix: k2_tree::range of a graph without edges

---
 include/sdsl/k2_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 512f6b4..816d8da 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -533,6 +533,8 @@ class k2_tree
 			idx_type col1, idx_type col2
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
+			if (k_l.size() == 0 && k_t.size() == 0)
+				return res;
 
 			size_type n = root_size();
 			struct state{
-- 
2.43.0


From 7737243582ac8cf77a57e6cc0ffacf624c78511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 76/81] fix: util::dirname of a RAM-file in a sub-directory is
 a RAM directory

---
 lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index f9d8c0c..a61e716 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -71,7 +71,7 @@ std::string dirname(std::string file)
     if (ram_file) {
         if ("." == res) {
             res = ram_file_name("");
-        } else if ("/" ==res) {
+        } else {
             res = ram_file_name(res);
         }
     }
-- 
2.43.0


From c055d46a24c06a555a677447bda075b49d4052be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 77/81] fix: util::demangle let __cxa_demangle reallocate a
 buffer on the stack

---
 lib/util.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index a61e716..ba19496 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -107,13 +107,11 @@ uint64_t id()
 std::string demangle(const std::string& name)
 {
 #ifdef HAVE_CXA_DEMANGLE
-    char buf[4096];
-    size_t size = 4096;
     int status = 0;
-    abi::__cxa_demangle(name.c_str(), buf, &size, &status);
-    if (status==0)
-        return std::string(buf);
-    return name;
+    char* buf = abi::__cxa_demangle(name.c_str(), nullptr, nullptr, &status);
+    std::string res = (status==0 and buf != nullptr) ? std::string(buf) : name;
+    free(buf);
+    return res;
 #else
     return name;
 #endif
-- 
2.43.0


From a4ae782f2c1c3aaf159045f464b0a9262fc90dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 78/81] fix: construct_im removes its temporary file if the
 construction fails

---
 include/sdsl/construct.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index f6ab84b..52f0c96 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -68,7 +68,12 @@ void construct_im(t_index& idx, t_data data, uint8_t num_bytes=0)
 {
     std::string tmp_file = ram_file_name(util::to_string(util::pid())+"_"+util::to_string(util::id()));
     store_to_file(data, tmp_file);
-    construct(idx, tmp_file, num_bytes);
+    try {
+        construct(idx, tmp_file, num_bytes);
+    } catch (...) {
+        ram_fs::remove(tmp_file);
+        throw;
+    }
     ram_fs::remove(tmp_file);
 }
 
-- 
2.43.0


From ccdcb4c2d081d60ad9105723b6807d5846beb952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 79/81] fix: construct of a CST rebuilds text, SA and BWT if
 only the CSA is cached

---
 include/sdsl/construct.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index 52f0c96..a989728 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -243,9 +243,13 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
     const char* KEY_BWT  = key_bwt_trait<t_index::alphabet_category::WIDTH>::KEY_BWT;
     csa_tag csa_t;
     {
-        // (1) check, if the compressed suffix array is cached
+        // (1) check, if the compressed suffix array and the arrays, which are
+        //     required in the following steps, are cached
         typename t_index::csa_type csa;
-        if (!cache_file_exists(std::string(conf::KEY_CSA)+"_"+util::class_to_hash(csa), config)) {
+        if (!cache_file_exists(std::string(conf::KEY_CSA)+"_"+util::class_to_hash(csa), config)
+            or !cache_file_exists(KEY_TEXT, config)
+            or !cache_file_exists(conf::KEY_SA, config)
+            or !cache_file_exists(KEY_BWT, config)) {
             cache_config csa_config(false, config.dir, config.id, config.file_map);
             construct(csa, file, csa_config, num_bytes, csa_t);
             auto event = memory_monitor::event("store CSA");
-- 
2.43.0


From ab2b15ebaefe84ef6585d13575379a4cabf9c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:38 +0000
Subject: [PATCH 80/81] fix: util::id hands out unique ids when several threads
 ask at the same time

---
 include/sdsl/util.hpp | 3 ++-
 lib/util.cpp          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index c872503..07e54b3 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -25,6 +25,7 @@
 #include "sfstream.hpp"
 #include "ram_fs.hpp"
 #include "config.hpp"  // for constants
+#include <atomic>
 #include <iosfwd>      // forward declaration of ostream
 #include <stdint.h>    // for uint64_t uint32_t declaration
 #include <cassert>
@@ -237,7 +238,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index ba19496..24cc469 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From c1fd13d2c573dbe1c124107ce044f58e8dbb121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 81/81] fix: csa_sada decodes psi values into a local buffer,
 so that const queries of one object from several threads do not overwrite
 each other

---
 include/sdsl/csa_sada.hpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index d576922..1483f69 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -117,8 +117,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
-
         void copy(const csa_sada& csa)
         {
             m_psi        = csa.m_psi;
@@ -128,13 +126,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -154,7 +145,6 @@ class csa_sada
         //! Default Constructor
         csa_sada()
         {
-            create_buffer();
         }
         //! Default Destructor
         ~csa_sada() { }
@@ -162,7 +152,6 @@ class csa_sada
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
@@ -265,7 +254,6 @@ class csa_sada
                 m_isa_sample = std::move(csa.m_isa_sample);
                 m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
@@ -324,24 +312,26 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
+                if (enc_vector_type::sample_dens >= linear_decode_limit) {
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                     goto finish;
                 }
-                uint64_t* p = m_psi_buf.data();
+                // buffer for decoded psi values; local, so that several threads can query
+                std::vector<uint64_t> psi_buf(enc_vector_type::sample_dens+1);
+                uint64_t* p = psi_buf.data();
                 // extract the psi values between two samples
                 m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
+                p = psi_buf.data();
                 uint64_t smpl = m_psi.sample(lower_sb);
                 // handle border cases
                 if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
                 else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
                 // search the result linear
                 while ((*p++)+smpl < i);
 
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                return p-1-psi_buf.data() + lower_b - C[cc];
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -395,7 +385,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0

