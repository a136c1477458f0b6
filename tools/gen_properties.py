#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ST = "src/state.cpp"; SH = "src/state.h"; AC = "src/accumulator.cpp"; RF = "src/ram_forest.cpp"; PO = "src/pollard.cpp"
BP = "src/batchproof.cpp"; SHA = "src/crypto/sha512.cpp"; CM = "src/crypto/common.h"

p("C01", "Node numbering is one consistent binary forest",
  "For every leaf count and every node position of that forest, the position functions agree with one numbering in which rows are stored bottom-up one after another: the row of a node is detected correctly, row offsets are the first position of the row, parent, child, sibling, cousin, ancestor and left-descendant are the arithmetic relations of a binary tree, and moving to a child and back to the parent returns the same node.",
  ["inputs"], "all leaf counts up to 2^62 and all positions, rises, drops valid for them",
  "The tests look at a handful of positions of the 15-leaf forest; the relations have to hold for every leaf count, including ones at and next to powers of two and beyond 2^32.",
  [ST, SH, CM], [("ForestState::Parent/Child/Ancestor/LeftDescendant", ST), ("ForestState::DetectRow/RowOffset/NumRows", ST), ("CountBits", CM)],
  ["ForestState position functions"])
p("C02", "Roots partition the leaves into perfect trees, tallest first",
  "For every leaf count the forest has exactly one root per set bit of the leaf count, listed tallest tree first at the position of the top of a perfect tree, and every leaf lies under exactly one of them. For every node that exists in the forest, the reported path names the tree that contains it, the exact distance to that root and the left/right turns that lead from the root to it.",
  ["inputs"], "all leaf counts and all existing node positions (leaf counts up to 2^62 for root positions, up to 2^16 for paths)",
  "Only 15- and 8-leaf layouts are named in the tests, and paths are only used indirectly; the claim ranges over all leaf counts.",
  [ST, SH], [("ForestState::RootPosition(s)/HasRoot/NumRoots", ST), ("ForestState::Path/RootIndex", ST)], ["ForestState root and path functions"])
p("C03", "Proof positions are exactly the siblings needed, nothing else",
  "For every leaf count and every valid set of target leaves, the computed positions are exactly the targets and all their ancestors, and the proof positions are exactly the siblings of computed non-root nodes that are not themselves computed, both in ascending order without duplicates.",
  ["inputs"], "all leaf counts and all sorted target sets within the bounds",
  "The tests check two target sets in one forest; the pattern matching over neighbouring targets has many rare combinations.",
  [ST], [("ForestState::ProofPositions", ST)], ["ForestState::ProofPositions", "BatchProof from RamForest::Prove"])
p("C04", "Deletion moves survivors to the front, keeping every one exactly once",
  "For every leaf count and every valid target set, carrying out the deletion swaps in order (each exchanging two disjoint whole subtrees of equal height inside the forest) leaves all deleted leaves, and only those, in the positions past the new leaf count. The undo swap list, carried out backwards on leaves, restores every leaf to its original position.",
  ["inputs"], "all leaf counts and all sorted target sets within the bounds",
  "Existing tests only observe final root hashes of a few histories; the swap computation has interacting cases (collapses, roots in a row, converted collapses) that occur for specific leaf counts and target sets.",
  [ST, SH], [("ForestState::Transform", ST), ("ForestState::ConvertCollapses/SwapIfDescendant", ST), ("ForestState::UndoTransform", ST)], ["ForestState::Transform", "ForestState::UndoTransform"])
p("C05", "A target list is sane iff strictly ascending and inside the forest",
  "A list of deletion or proof targets is accepted exactly when it is empty, or strictly ascending with its largest entry a leaf of the forest; anything else (duplicates, wrong order, positions past the last leaf, too many targets) is refused. A batch proof passes its sanity check exactly when its targets in ascending order are sane and it carries no more hashes than proof positions for them.",
  ["inputs"], "all 64-bit leaf counts and target values, lists up to the bound",
  "Tests refuse one unsorted list; off-by-one boundaries and 64-bit extremes are not sampled.",
  [ST, BP], [("ForestState::CheckTargetsSanity", ST), ("BatchProof::CheckSanity", BP)], ["ForestState::CheckTargetsSanity", "BatchProof::CheckSanity"])
p("C06", "Forest roots always commit to exactly the current leaves",
  "After every history of modifications, the forest reports one root per perfect tree, tallest first, and each root equals the hash tree recomputed from the leaves currently stored at the positions under it; the leaf count is always additions minus deletions.",
  ["histories", "inputs"], "all histories of modifications within the bounds, all leaf hashes",
  "Tests compare against a handful of hard-coded roots or against another implementation that shares the same code.",
  [RF, AC, ST], [("RamForest::SwapSubTrees/SwapRange", RF), ("RamForest::Node::ReHash", RF), ("Accumulator::Remove/Add", AC), ("RamForest::FinalizeRemove", RF)],
  ["RamForest::Roots", "RamForest::GetLeaf", "Accumulator::NumLeaves"], [("m_data", "hashes by row", "include/ram_forest.h"), ("m_roots", "root nodes", "include/accumulator.h")])
p("C07", "A modification removes exactly the targets and adds exactly the leaves",
  "After every modification the forest holds exactly the leaves it held before, minus those at the target positions, plus the new leaves, each once, and new leaves occupy the last positions in the order given. Looking a leaf up by hash (through a proof) reports the position at which it is stored.",
  ["histories", "inputs"], "all histories of modifications within the bounds, all leaf hashes",
  "Tests only sample root hashes and a few proofs, not the full leaf set and lookup table after each step.",
  [RF, AC], [("Accumulator::UpdatePositionMapForRange/SubtreeSwap", AC), ("RamForest::NewLeaf/FinalizeRemove", RF)], ["RamForest::GetLeaf", "RamForest::Prove", "Accumulator::NumLeaves"],
  [("m_posmap", "leaf hash to position", "include/accumulator.h")])
p("C08", "Forest proofs exist for exactly the leaves and recompute the roots",
  "In every reachable forest a proof request succeeds exactly when all requested hashes are distinct leaves of the forest; the proof names the targets in the order requested, each at the position where that leaf is stored, and its hashes are exactly the sibling hashes needed to recompute the roots from the targets. Checking target hashes against the forest itself succeeds exactly when all of them are leaves.",
  ["histories", "inputs"], "all reachable forests and all requested hash lists within the bounds",
  "Tests request a few fixed sets; failing requests and order are sampled once.",
  [AC, RF, ST], [("Accumulator::Prove", AC), ("RamForest::Read", RF), ("RamForest::Verify", RF)], ["RamForest::Prove", "RamForest::Verify"])
p("C09", "Undo returns the forest to the state before the modification",
  "For every reachable forest and every modification of it, undoing that modification with the undo data it produced (also after serializing and reading back that data) restores leaf count, every leaf position, all roots and all proofs, and a stack of modifications can be undone in reverse order. Afterwards the forest behaves like one that never saw the modification.",
  ["histories", "inputs"], "all histories of modifications and undos within the bounds, all leaf hashes",
  "Tests undo sampled random histories and compare only roots.",
  [RF, ST, BP], [("RamForest::Undo", RF), ("RamForest::BuildUndoBatch", RF), ("ForestState::UndoTransform", ST)], ["RamForest::Undo", "RamForest::operator==", "RamForest::Roots", "RamForest::Prove"])
p("C10", "A forest stored to its file comes back identical and usable",
  "For every reachable forest, closing (or committing) it and opening its file again yields a forest with the same leaf count, leaves, roots and proofs, no matter what an earlier and larger commit left in the file. The reopened forest accepts further modifications, and the undo of earlier modifications, exactly like the original.",
  ["histories", "inputs"], "all histories with commits and reopenings within the bounds, all leaf hashes",
  "One test stores one 32-leaf forest and compares a single proof.",
  [RF], [("RamForest::Commit", RF), ("RamForest::Restore/RestoreRoots", RF), ("RamForest::Undo", RF)], ["RamForest(const std::string&)", "RamForest::Commit", "RamForest::Undo"])
p("C11", "A refused modification changes nothing",
  "When a modification is given a target list that is not strictly ascending or not inside the forest, it reports failure and neither removes nor adds anything: leaf count, roots, lookups and proofs of forest and pollard stay as they were.",
  ["inputs", "histories"], "all invalid target lists (64-bit values) within the length bound on all reachable states within the bounds",
  "Tests only look at the return value for one unsorted list.",
  [AC, RF, ST], [("Accumulator::Modify", AC), ("Accumulator::Remove", AC), ("RamForest::Modify", RF)], ["Modify return value", "Roots", "NumLeaves", "Prove"])
p("C12", "Adding leaves in one batch or many gives the same accumulator",
  "For forest and pollard, adding a sequence of leaves yields the same roots, leaf positions and remembered leaves however the sequence is split into batches, and these are the roots of the append-only hash forest over the sequence.",
  ["histories", "inputs"], "all batch splits of all leaf sequences within the bounds, all leaf hashes",
  "Tests add leaves in one batch per block and compare only between implementations.",
  [AC, RF, PO], [("Accumulator::Add", AC), ("RamForest::Add/MergeRoot", RF), ("Pollard::NewLeaf/MergeRoot", PO)], ["Roots", "Prove"])
p("C13", "Forest and pollard stay in agreement over every block history",
  "When forest and pollard process the same blocks, the pollard having verified (or remembered) the deleted leaves first, every modification succeeds on both and both report the same roots and leaf count afterwards, whichever leaves were marked to be remembered.",
  ["histories", "inputs"], "all block histories (additions, remember flags, deletions) within the bounds, all leaf hashes",
  "One pseudo-random history without remembered leaves is run; the pollard's sparse tree has many more shapes.",
  [PO, RF, AC], [("Pollard::SwapSubTrees/ReadSiblings", PO), ("Pollard::FinalizeRemove", PO), ("Pollard::Node::ReHash", PO), ("Accumulator::Remove", AC)], ["Roots", "NumLeaves", "Modify return value"],
  [("m_nieces", "sparse tree links, children hang below the sibling", PO)])
p("C14", "A pollard accepts a proof only if every target is the leaf there",
  "Whatever a pollard has cached and whatever targets, target hashes and proof hashes it is given, verification succeeds only if each target hash is the hash of the leaf stored at the corresponding (ascending) target position of the accumulator, as many hashes as targets were given, and no position is past the last leaf; this assumes only that the hash function has no collisions.",
  ["inputs", "histories"], "all proofs (positions, hash values, list lengths) within the bounds against all reachable pollards within the bounds",
  "Tests try a few wrong proofs; forged proofs exploiting cached nodes are an adversarial space no sample covers.",
  [PO, BP], [("Pollard::CreateProofTree", PO), ("Pollard::VerifyProofTree", PO), ("Pollard::Node::ReHashAndVerify", PO)], ["Pollard::Verify"])
p("C15", "A pollard accepts every honest proof",
  "Every proof a forest produces for some of its leaves is accepted, together with the target hashes in ascending position order, by every pollard at the same roots, whatever that pollard has cached; proof hashes that the pollard already holds may be left out.",
  ["histories", "inputs"], "all target sets and all reachable pollards within the bounds, all leaf hashes",
  "Tests verify a few sets on mostly empty pollards.",
  [PO, AC], [("Pollard::Verify", PO), ("Pollard::CreateProofTree", PO), ("Accumulator::Prove", AC)], ["Pollard::Verify", "RamForest::Prove"])
p("C16", "Verification never changes the roots; a failed one leaves no trace",
  "Verifying any proof leaves roots and leaf count of a pollard unchanged. If verification fails, the pollard's cached leaves, node count, provable leaves and later behaviour are exactly as if the proof had never been presented.",
  ["inputs", "histories"], "all proofs within the bounds against all reachable pollards within the bounds",
  "Tests check that verification failed, not what it left behind.",
  [PO], [("recovery of the proof tree in Pollard::Verify", PO), ("Pollard::VerifyProofTree", PO)], ["Pollard::Roots", "Pollard::NumCachedLeaves", "Pollard::CountNodes", "Pollard::Prove"])
p("C17", "Remembered leaves stay provable with valid proofs until deleted",
  "A leaf that a pollard was told to remember, or whose proof it has verified, stays provable by that pollard through all later blocks until it is deleted or pruned; every proof a pollard produces names the leaf's true position and equals the proof the full forest gives.",
  ["histories", "inputs"], "all block histories within the bounds, all remember choices, all leaf hashes",
  "Tests prove remembered leaves in fixed 8- and 16-leaf cases.",
  [PO, AC], [("Pollard::MergeRoot", PO), ("Pollard::InternalNode::Prune", PO), ("Accumulator::UpdatePositionMapForRange", AC), ("Pollard::FinalizeRemove", PO)], ["Pollard::Prove"])
p("C18", "Pruning forgets everything but the roots and nothing else",
  "After pruning, a pollard keeps its roots and leaf count, holds no other node and counts no cached leaf, proves no leaf that is not itself a root, and goes on to verify proofs and process blocks exactly like a pollard newly restored from the same roots.",
  ["histories", "inputs"], "all reachable pollards within the bounds",
  "Tests call Prune between single-leaf verifications of one forest only.",
  [PO], [("Pollard::Prune", PO), ("Pollard::InternalNode::Chop", PO)], ["Pollard::Prune", "Pollard::CountNodes", "Pollard::NumCachedLeaves", "Pollard::Verify", "Pollard::Prove"])
p("C19", "A pollard restored from roots and leaf count is a full replacement",
  "A pollard built from the roots and leaf count of any reachable accumulator reports those roots, accepts and refuses proofs as the original accumulator's leaves demand, and after verifying and applying further blocks has the same roots as the original.",
  ["histories", "inputs"], "all reachable accumulators and following blocks within the bounds, all leaf hashes",
  "One test restores a 15-leaf pollard and verifies one proof.",
  [PO], [("Pollard::Pollard(roots, num_leaves)", PO)], ["Pollard(roots, num_leaves)", "Pollard::Verify", "Pollard::Modify"])
p("C20", "No proof from outside can crash or corrupt the verifier",
  "Presenting arbitrary targets, target hashes and proof hashes, or arbitrary bytes decoded as a proof, to any reachable pollard makes verification return true or false: it never aborts, reads or writes outside its memory, or fails to terminate.",
  ["inputs", "histories"], "all proofs and byte strings within the bounds against all reachable pollards within the bounds",
  "Tests present a few malformed proofs; memory errors need specific shapes.",
  [PO, BP, ST], [("BatchProof::CheckSanity guard in Pollard::Verify", PO), ("Pollard::CreateProofTree", PO), ("BatchProof::Unserialize", BP)], ["Pollard::Verify", "BatchProof::Unserialize", "BatchProof::CheckSanity"])
p("C21", "Batch proofs survive serialization, and only well-formed bytes decode",
  "Encoding any batch proof with positions below 2^32 and decoding the bytes gives an equal proof with the same targets, ascending targets and hashes, whatever the decoding object held before. Decoding arbitrary bytes succeeds exactly when their length matches the counts in the header, then re-encodes to the same bytes, and never reads outside the buffer.",
  ["inputs"], "all proofs and byte strings within the length bounds",
  "One proof is encoded and decoded in the tests; malformed lengths and reuse of an object are not tried.",
  [BP, CM], [("BatchProof::Serialize/Unserialize", BP)], ["BatchProof::Serialize", "BatchProof::Unserialize", "BatchProof::GetSortedTargets"])
p("C22", "Undo data survives serialization, and only well-formed bytes decode",
  "Encoding any undo data with positions and addition count below 2^32 and decoding the bytes gives equal undo data, whatever the decoding object held before. Decoding arbitrary bytes succeeds exactly when their length matches the count in the header, then re-encodes to the same bytes, and never reads outside the buffer.",
  ["inputs"], "all undo batches and byte strings within the length bounds, all 32-bit header values",
  "One undo batch is encoded and decoded in the tests; header values chosen to overflow the length check are not tried.",
  [BP, CM], [("UndoBatch::Serialize/Unserialize", BP)], ["UndoBatch::Serialize", "UndoBatch::Unserialize"])
p("C23", "A parent hash is SHA-512/256 of left then right child",
  "The hash of an inner node is the standard SHA-512/256 digest of the 32 bytes of the left child followed by the 32 bytes of the right child, for every pair of child hashes.",
  ["inputs"], "all 2^512 pairs of child hashes",
  "The tests pin a few digests of particular inputs.",
  [AC, SHA, CM], [("Accumulator::ParentHash", AC), ("CSHA512::Finalize256", SHA), ("sha512::Transform", SHA)], ["Roots of a two-leaf forest and pollard", "CSHA512"])
p("C24", "The streaming hasher depends only on the bytes written",
  "For SHA-512 and SHA-512/256, the digest is the standard one for the concatenation of all bytes written since construction or reset, however they are split into writes, for messages of any length; a reset hasher is a fresh SHA-512 hasher, and the reported size is the number of bytes written.",
  ["inputs"], "all messages and splits up to the length bound (several hash blocks)",
  "The library only ever writes 32+32 bytes; no test covers other lengths, the 512-bit output, or block boundaries.",
  [SHA, "src/crypto/sha512.h", CM], [("CSHA512::Write", SHA), ("CSHA512::Finalize/Finalize256", SHA), ("CSHA512::Reset", SHA)], ["CSHA512"])
p("C25", "Byte-order helpers encode the right bytes and invert each other",
  "The fixed-width little- and big-endian read and write helpers store and load exactly the bytes of the value in that order at any address, each read inverts the matching write, and the bit-length helper returns the smallest shift that clears its argument.",
  ["inputs"], "all 16-, 32- and 64-bit values and all byte patterns",
  "No test addresses these helpers; they are sampled through a few serialized objects.",
  [CM, "src/compat/endian.h", "src/compat/byteswap.h"], [("ReadBE32/WriteBE32/ReadBE64/WriteBE64/ReadLE64/...", CM), ("CountBits", CM)], ["crypto/common.h helpers"])
p("C26", "Comparing lookups or forests tells exactly whether they agree",
  "Comparing the lookup table of one accumulator with another's reports agreement exactly when every leaf the first one knows is known to the second at the same position, also when the second does not know it. Two forests compare equal exactly when they have the same leaf count, roots and leaf positions; two proofs or undo records compare equal exactly when their contents are equal.",
  ["inputs", "histories"], "all pairs of reachable accumulators, proofs and undo records within the bounds",
  "Tests compare only agreeing tables and one differing pair of forests.",
  [AC, RF, BP], [("Accumulator::ComparePositionMap", AC), ("RamForest::operator==", RF), ("BatchProof::operator==, UndoBatch::operator==", BP)], ["ComparePositionMap", "RamForest::operator==", "BatchProof::operator==", "UndoBatch::operator=="])
p("C27", "Internal consistency checks never fire in valid use",
  "In every history of valid operations (adding distinct leaves, proving, verifying, deleting verified or remembered leaves, undoing, pruning, committing), no internal assertion or verification-build check fails and no memory is accessed outside live objects.",
  ["histories", "inputs"], "all histories of valid operations within the bounds",
  "The verification build runs the same samples as the ordinary tests; a check that can fail needs a specific history.",
  [AC, RF, PO, ST], [("assert / CHECK_SAFE", "src/check.h")], ["abort()", "memory accesses"])
p("C28", "A pollard keeps only roots and what its remembered leaves need",
  "Through every block history in which the pollard verifies honest proofs, it counts as cached exactly the leaves it was told to remember or has verified and that are not deleted since, and it holds no nodes beyond the roots, the nodes above those leaves and the siblings of these; with no such leaf it holds nothing but the roots.",
  ["histories", "inputs"], "all block histories within the bounds, all remember choices, all leaf hashes",
  "Tests compare a few node counts after one fixed history; leaked branches need a particular deletion under a particular cached shape.",
  [PO, AC], [("Pollard::Node::ReHash", PO), ("Pollard::MergeRoot", PO), ("Pollard::FinalizeRemove", PO), ("Pollard::CountNodes / NumCachedLeaves", "include/pollard.h")], ["Pollard::NumCachedLeaves", "Pollard::CountNodes"])
p("C29", "A block is its deletion followed by its additions, however submitted",
  "Submitting a block as a whole, its deletion and then its additions as two modifications, or through the interface common to all accumulators, gives the same leaf count, roots, leaf positions, lookups and proofs, and in a pollard also the same cached leaves and nodes.",
  ["histories", "inputs"], "all block histories within the bounds, all leaf hashes and remember choices",
  "Tests always submit whole blocks through one interface.",
  [AC, RF, PO], [("Accumulator::Modify", AC), ("RamForest::Modify", RF), ("Accumulator::Add", AC), ("RamForest::Add", RF)], ["Modify", "Roots", "GetLeaf", "Prove"])
p("C30", "Undo data names exactly what its block did",
  "The undo data a modification returns lists its targets in the order given, the hash of every deleted leaf exactly once and no other, and the number of added leaves.",
  ["histories", "inputs"], "all block histories within the bounds, all leaf hashes",
  "Tests only feed the record back into undo.",
  [RF, BP], [("RamForest::BuildUndoBatch", RF), ("UndoBatch", "include/batchproof.h")], ["UndoBatch::GetNumAdds", "UndoBatch::GetDeletedPositions", "UndoBatch::GetDeletedHashes"])
p("C31", "An accepted proof teaches a pollard exactly what an honest one would",
  "Whenever a pollard accepts a proof, whatever hashes it consisted of, the pollard is afterwards as if it had been given the forest's own proof for these targets: the same roots, cached leaves, nodes and provable leaves, each proved as the forest proves it, honest proofs of any leaves accepted, and the same behaviour over the next block.",
  ["inputs", "histories"], "all target sets, target hashes and proof hashes for all pollards within the bounds",
  "A forged hash that slips in beside an accepted leaf shows only when that branch is used later; tests never present a partly wrong proof to a partly filled pollard.",
  [PO], [("Pollard::CreateProofTree", PO), ("Pollard::VerifyProofTree", PO), ("Pollard::InitChildrenOfComputed", PO)], ["Pollard::Verify", "Pollard::Prove", "Pollard::CountNodes", "Pollard::Modify"])
p("C32", "Once Commit has returned true the forest survives the end of the process",
  "When Commit returns true, opening the file yields the committed forest (leaf count, leaves, roots, proofs), although the committing object was never closed and whatever modifications were made since without a further commit. Commit returns true exactly if the file could take the whole forest; after a failed one the forest in memory is unchanged.",
  ["crash points", "histories", "inputs"], "all histories with commits and all points after a commit within the bounds, all numbers of bytes the file can take",
  "Tests only ever reopen a file after its forest was destroyed in order.",
  [RF], [("RamForest::Commit", RF), ("RamForest::Restore", RF)], ["RamForest::Commit", "RamForest(const std::string&)"])
p("C33", "Opening a damaged file is survived and yields no made-up forest",
  "For every content of the file, opening it terminates without touching memory out of bounds. If it holds the hashes of all rows for the leaf count it names, the forest has that leaf count and these leaves, otherwise the forest is empty. Closing it again leaves the file as it was.",
  ["inputs"], "all file contents within the length bound",
  "Tests only open files the library has just written.",
  [RF], [("RamForest::Restore", RF), ("RamForest::~RamForest", RF)], ["RamForest(const std::string&)", "RamForest::NumLeaves", "RamForest::GetLeaf"])
p("C34", "Looking at an accumulator changes nothing",
  "Asking for proofs (possible or not), roots, leaves, counts, comparisons, or whether leaves belong to a forest has no effect: asked again the answers are the same, and later blocks, undo data, undo, proofs, cached leaves and nodes are those of an accumulator that was never asked.",
  ["histories", "inputs"], "all block histories and questions within the bounds",
  "Tests ask and compare once; a lookup that leaves something behind shows in a later block.",
  [AC, RF, PO], [("Accumulator::Prove", AC), ("Accumulator::Roots", AC), ("RamForest::Verify", RF), ("Pollard::ReadSiblings", PO)], ["Prove", "Roots", "GetLeaf", "RamForest::Verify", "CountNodes", "Modify", "Undo"])
p("C35", "Accumulators give back all memory",
  "Whatever a forest or pollard goes through (blocks, proofs accepted or refused, undo, prune, restore, commit), destroying it gives back every object it allocated; and repeating something that leaves the accumulator where it was (the same proof again, doing and undoing the same block) does not make it hold more.",
  ["histories", "inputs"], "all histories within the bounds; allocations through operator new and delete (std::vector and the like included)",
  "Tests never look at memory; a node that is kept alive by a forgotten reference, or a cycle of shared pointers, shows in no result.",
  [RF, PO], [("Pollard::InternalNode::~InternalNode", PO), ("Pollard::Prune", PO), ("RamForest::Undo", RF)], ["Modify", "Verify", "Undo", "Prune", "destructors"])
p("C36", "Undo data that cannot belong to the forest is refused without a trace",
  "Given any undo data, also data decoded from foreign bytes, Undo refuses it and leaves the forest as it was if it names more additions than there are leaves, positions that are not a sane target list for the leaf count it leads to, another number of hashes than of positions, a hash twice, or a hash that is a leaf of the forest before the additions. Otherwise it undoes, and making the block again (the same additions and targets) gives the forest and the undo data back.",
  ["inputs", "histories"], "all undo data within the size bounds, all forests within the bounds",
  "Tests only undo with the data the forest has just produced.",
  [RF, BP], [("RamForest::Undo", RF), ("ForestState::CheckTargetsSanity", "src/state.cpp")], ["RamForest::Undo"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
