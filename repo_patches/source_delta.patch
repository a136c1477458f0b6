From fd4c1fef446b632bc1acf05d0a2e94e80f3a52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 01/13] fix: BatchProof::Unserialize replaces the sorted
 targets of a reused object

The sorted target list was appended to instead of replaced, so decoding
into an object that already held targets gave a proof whose sorted
targets differ from its targets.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From ae660609307e147e6282a673d356d653c6015554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 02/13] fix: UndoBatch::Unserialize checks the length without
 32-bit wrap-around

With 2^30 as the number of targets the expected length wrapped to 8, so a
short buffer was accepted and read far past its end.
---
 src/batchproof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e789242 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -169,7 +169,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
-- 
2.43.0


From a2d5e11c8fc3246b37dfacda0a914a337f89eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 03/13] fix: RamForest::Undo adds the rows a restored forest
 does not have

---
 src/ram_forest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..010db7b 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -449,6 +449,8 @@ bool RamForest::Undo(const UndoBatch& undo)
     }
 
     for (uint8_t r = 1; r <= prev_state.NumRows(); ++r) {
+        // A restored forest might have fewer rows than the forest before the modification.
+        if (r >= m_data.size()) m_data.push_back(std::vector<Hash>());
         m_data[r].resize(m_num_leaves >> r);
         std::vector<NodePtr<RamForest::Node>> next_dirt;
 
-- 
2.43.0


From 3f08c9fbef6b6cf886c22831962c1c3440daca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 04/13] fix: Pollard keeps remembered leaves when rehashing
 their parent

---
 src/pollard.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..0f796f6 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -731,7 +731,12 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
-    m_sibling->Prune();
+
+    // A remembered leaf marks its sibling, so pruning would only keep the sibling.
+    // Keep both leaves in this case, the position of the remembered leaf has to stay known.
+    bool has_remembered_leaf = ForestState(m_num_leaves).DetectRow(m_position) == 1 &&
+                               (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd());
+    if (!has_remembered_leaf) m_sibling->Prune();
 }
 
 void Pollard::Node::ReHashNoPrune()
-- 
2.43.0


From 289f25d513149eceaa7f6ad941f1534bc9e43740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 05/13] fix: Pollard restores computed nodes it pruned when
 deleting remembered leaves

---
 src/pollard.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 0f796f6..96de983 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -225,18 +225,35 @@ NodePtr<Accumulator::Node> Pollard::SwapSubTrees(uint64_t from, uint64_t to)
 
     NodePtr<Accumulator::Node> rehash_path;
 
-    auto hook_in_sibling = [&rehash_path, state](NodePtr<InternalNode>& sibling, uint64_t pos) {
-        if (!sibling) {
-            uint8_t lr = pos & 1;
-            uint8_t lr_sib = state.Sibling(lr);
-            sibling = Accumulator::MakeNodePtr<InternalNode>();
-            std::dynamic_pointer_cast<Pollard::Node>(rehash_path)->m_sibling->m_nieces[lr_sib] = sibling;
+    // Nodes that can be computed from their children are not kept in the pollard.
+    // This hooks in the missing nodes on the path, the node itself and its sibling.
+    auto hook_in = [](const NodePtr<Accumulator::Node>& path, NodePtr<InternalNode>& node,
+                      NodePtr<InternalNode>& sibling, uint64_t pos) {
+        auto insert = [](NodePtr<InternalNode>& missing, const NodePtr<InternalNode>& parent_sibling,
+                         const NodePtr<InternalNode>& missing_sibling, uint8_t lr) {
+            missing = Accumulator::MakeNodePtr<InternalNode>();
+            parent_sibling->m_nieces[lr] = missing;
+            if (missing_sibling && missing_sibling->m_nieces[0] && missing_sibling->m_nieces[1]) {
+                Accumulator::ParentHash(missing->m_hash, missing_sibling->m_nieces[0]->m_hash,
+                                        missing_sibling->m_nieces[1]->m_hash);
+            }
+        };
+
+        auto parent = std::dynamic_pointer_cast<Pollard::Node>(path);
+        if (parent && !node) insert(node, parent->m_sibling, sibling, pos & 1);
+        if (parent && !sibling) insert(sibling, parent->m_sibling, node, (pos & 1) ^ 1);
+
+        // The roots always exist.
+        while (parent && parent->Parent()) {
+            auto grand_parent = std::dynamic_pointer_cast<Pollard::Node>(parent->Parent());
+            if (!parent->m_node) insert(parent->m_node, grand_parent->m_sibling, parent->m_sibling, parent->m_position & 1);
+            parent = grand_parent;
         }
     };
 
     auto [node_from, sibling_from] = ReadSiblings(from, rehash_path, true);
+    hook_in(rehash_path, node_from, sibling_from, from);
     CHECK_SAFE(node_from);
-    hook_in_sibling(sibling_from, from);
 
     NodePtr<InternalNode> node_to{nullptr}, sibling_to{nullptr};
     if (state.Sibling(from) == to) {
@@ -244,8 +261,8 @@ NodePtr<Accumulator::Node> Pollard::SwapSubTrees(uint64_t from, uint64_t to)
         sibling_to = node_from;
     } else {
         std::tie(node_to, sibling_to) = ReadSiblings(to, rehash_path, true);
+        hook_in(rehash_path, node_to, sibling_to, to);
         CHECK_SAFE(node_to);
-        hook_in_sibling(sibling_to, to);
     }
 
     std::swap(node_to->m_hash, node_from->m_hash);
-- 
2.43.0


From 70deb44134c3027149f9472290028b6fc134ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 06/13] fix: Accumulator::ComparePositionMap reports leaves the
 other map does not have

---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From 8789ffedeba977728fda9d6560b2f87ae290ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:30 +0000
Subject: [PATCH 07/13] fix: UndoBatch initializes its addition count

---
 include/batchproof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..7e8415f 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -57,7 +57,7 @@ public:
 class UndoBatch
 {
 private:
-    uint64_t m_num_additions;
+    uint64_t m_num_additions{0};
     std::vector<uint64_t> m_deleted_positions;
     std::vector<std::array<uint8_t, 32>> m_deleted_hashes;
 
-- 
2.43.0


From 856971ce7f0939a77856344e2cddffc2e7d71a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:36 +0000
Subject: [PATCH 08/13] fix: Pollard remembers targets only once their proof is
 verified

---
 src/pollard.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 96de983..428f67e 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -616,8 +616,6 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
-
                 ++target_hash;
                 continue;
             }
@@ -718,6 +716,9 @@ bool Pollard::Verify(const BatchProof& proof, const std::vector<Hash>& target_ha
     }
 
     // All targets are now remembered.
+    for (NodePtr<Pollard::Node>& proof_node : proof_tree) {
+        if (proof_node->IsTargetOrAncestor()) proof_node->m_sibling->m_nieces[0] = m_remember;
+    }
     for (int i = 0; i < target_hashes.size(); i++) {
         m_posmap[target_hashes[i]] = proof.GetSortedTargets()[i];
     }
-- 
2.43.0


From fee1940522e3d13d4738aa6e027bc00790bade9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 09/13] fix: Pollard::Prune clears the positions of the leaves
 it forgets

---
 src/pollard.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 428f67e..2f3fd85 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -370,6 +370,9 @@ void Pollard::Prune()
         INTERNAL_NODE(root)->Chop();
     }
     assert(m_remember.use_count() == 1);
+
+    // None of the leaves is known anymore.
+    m_posmap.clear();
 }
 
 uint64_t Pollard::CountNodes(const NodePtr<Pollard::InternalNode>& node) const
-- 
2.43.0


From e3ce804ba9704eafedbfb1fa5f0e55fd5b7adcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 10/13] fix: CreateProofTree does not move past the last proof
 hash

---
 src/pollard.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 2f3fd85..cd5e379 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -528,11 +528,8 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() && node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 67d2e058731706608d2279dec928d6f5a07736ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 11/13] fix: Commit flushes and reports whether the forest was
 saved

---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 010db7b..c114265 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -181,7 +181,9 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    // Nothing is saved before it has left the stream's buffer.
+    m_file.flush();
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From 7daf9ece6e3269d22ff5296650d9904928ba9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 12/13] fix: Restore gives an empty forest when the file ends
 early

---
 src/ram_forest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index c114265..84c437d 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -130,6 +130,7 @@ bool RamForest::Restore()
 
     // restore number of leaves
     m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!m_file.good()) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -142,6 +143,13 @@ bool RamForest::Restore()
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
             m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!m_file.good()) {
+                // The file ends early, there is no forest to restore.
+                m_num_leaves = 0;
+                m_data.assign(1, {});
+                m_posmap.clear();
+                return false;
+            }
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
-- 
2.43.0


From 08c360bd104f357b87406f30d142399b84075166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:58 +0000
Subject: [PATCH 13/13] fix: RamForest::Undo refuses undo data that can not
 belong to the forest before changing anything

---
 src/ram_forest.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 84c437d..f2f53bc 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -389,7 +389,19 @@ bool RamForest::Undo(const UndoBatch& undo)
 {
     if (m_data.size() == 0) return true;
 
+    // Undo data that can not belong to this forest is refused before anything changes.
+    if (undo.GetNumAdds() > m_num_leaves) return false;
+    if (undo.GetDeletedPositions().size() != undo.GetDeletedHashes().size()) return false;
+
     ForestState prev_state(m_num_leaves + undo.GetDeletedPositions().size() - undo.GetNumAdds());
+    if (!prev_state.CheckTargetsSanity(undo.GetDeletedPositions())) return false;
+
+    std::unordered_set<Hash, LeafHasher> deleted_hashes;
+    for (const Hash& hash : undo.GetDeletedHashes()) {
+        auto it = m_posmap.find(hash);
+        bool in_forest = it != m_posmap.end() && it->second < m_num_leaves - undo.GetNumAdds();
+        if (in_forest || !deleted_hashes.insert(hash).second) return false;
+    }
 
     auto undo_swaps = prev_state.UndoTransform(undo.GetDeletedPositions());
 
-- 
2.43.0

