// Undoing modifications of a forest. MAXN leaves, STEPS blocks, then up to STEPS undos in reverse order, then one more block
// on the forest and on a twin that never saw the undone blocks.
#include "acc.h"
static bool sameForest(RamForest& f, RamForest& g)
{
    std::vector<H32> a = stored(f), b = stored(g);
    int r = sx_and(f.NumLeaves() == g.NumLeaves(), sx_and(sameHashes(a, b), sameHashes(rootsOf(f), rootsOf(g))));
    return sx_and(r, sx_and(f == g, g == f));
}
static std::vector<H32> gone;
static Block block(const RamForest& f)
{
    Block b;
    b.targets = pickTargets(f.NumLeaves(), DENSE, MAXK);
    std::vector<H32> l = stored(f);
    for (uint64_t x : b.targets) gone.push_back(l[x]);
    b.adds = asLeaves(additions(ADDS, gone));
    return b;
}
// proofs of single leaves and of all leaves
static void checkProofs(RamForest& f)
{
    std::vector<H32> l = stored(f);
    int r = 1;
    for (uint64_t i = 0; i < l.size(); i += l.size() > 64 ? 13 : 1) {
        BatchProof p;
        r = sx_and(r, f.Prove(p, {l[i]}));
        r = sx_and(r, rightProof(p, l, {i}));
    }
    sx_assert(r, "after undo every leaf is proved as before");
    BatchProof p;
    sx_assert(f.Prove(p, l), "after undo all leaves can be proved at once");
}
extern "C" void harness()
{
    RamForest f(0), twin(0);
    UndoBatch u;
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<Leaf> first = asLeaves(newLeaves(n));
    sx_assert(f.Modify(u, first, {}), "adding leaves succeeds");
    sx_assert(twin.Modify(u, first, {}), "adding leaves succeeds");
    std::vector<Block> bl;
    std::vector<UndoBatch> undo;
    std::vector<std::vector<H32>> before, roots;
    for (int s = 0; s < STEPS; s++) {
        bl.push_back(block(f));
        before.push_back(stored(f));
        roots.push_back(rootsOf(f));
        UndoBatch w;
        sx_assert(f.Modify(w, bl[s].adds, bl[s].targets), "a valid modification succeeds");
        sx_assert(w.GetNumAdds() == bl[s].adds.size() && sameU64s(w.GetDeletedPositions(), bl[s].targets), "undo data names additions and targets");
        undo.push_back(w);
        n = n - bl[s].targets.size() + bl[s].adds.size();
    }
    uint64_t k = 1 + choose("undos", STEPS - 1);
    int ser = sx_flag("serialize");
    for (uint64_t j = 0; j < k; j++) {
        int s = STEPS - 1 - (int)j;
        UndoBatch w = undo[s];
        if (ser) {
            std::vector<uint8_t> bytes;
            w.Serialize(bytes);
            w = UndoBatch();
            sx_assert(w.Unserialize(bytes), "undo data decodes");
        }
        sx_assert(f.Undo(w), "undo succeeds");
        sx_assert(f.NumLeaves() == before[s].size(), "undo restores the leaf count");
        sx_assert(sameHashes(stored(f), before[s]), "undo restores every leaf position");
        sx_assert(sameHashes(rootsOf(f), roots[s]), "undo restores the roots");
        checkProofs(f);
    }
    for (int s = 0; s < STEPS - (int)k; s++) sx_assert(twin.Modify(u, bl[s].adds, bl[s].targets), "a valid modification succeeds");
    sx_assert(sameForest(f, twin), "after undo the forest equals one that never saw the modification");
#ifdef MORE
    gone.clear();
    Block b = block(f);
    UndoBatch x, y;
    std::vector<H32> was = stored(f);
    sx_assert(f.Modify(x, b.adds, b.targets), "a modification after undo succeeds");
    sx_assert(twin.Modify(y, b.adds, b.targets), "a modification after undo succeeds");
    sx_assert(sameForest(f, twin), "after undo the forest behaves like one that never saw the modification");
    sx_assert(x == y, "undo data after undo is the same");
    sx_assert(f.Undo(x), "undo succeeds");
    sx_assert(sameHashes(stored(f), was), "undo restores every leaf position");
#endif
    traceHashes("roots", rootsOf(f));
    sx_reach("end");
}
