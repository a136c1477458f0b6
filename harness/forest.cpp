// Histories of a forest. PROP selects the assertions: 6 roots, 7 leaves and positions, 8 proofs, 9 undo, 10 files, 11 refusals.
// MAXN: leaves at the start. STEPS blocks follow, each with a target set (any for up to DENSE leaves, else at most MAXK leaves or
// non-leaves) and 0..ADDS additions.
#include "acc.h"
#ifndef MINN
#define MINN 0
#endif
static void checkRoots(const RamForest& f, uint64_t n)
{
    sx_assert(f.NumLeaves() == n, "leaf count is additions minus deletions");
    std::vector<H32> l = stored(f);
    sx_assert(sameHashes(rootsOf(f), SpecForest(l).roots()), "roots are the hash trees over the stored leaves");
}
static BatchProof proveOne(RamForest& f, const H32& h, bool& ok)
{
    BatchProof p;
    ok = f.Prove(p, {h});
    return p;
}
static void checkPositions(RamForest& f)
{
    std::vector<H32> l = stored(f);
    int r = 1;
    for (uint64_t i = 0; i < l.size(); i++) {
        bool ok;
        BatchProof p = proveOne(f, l[i], ok);
        r = sx_and(r, ok);
        r = sx_and(r, sameU64s(p.GetTargets(), {i}));
    }
    sx_assert(r, "looking a leaf up reports the position at which it is stored");
}
#if PROP == 8
static void checkProofs(RamForest& f, const std::vector<H32>& gone)
{
    std::vector<H32> l = stored(f);
    uint64_t n = l.size();
    // a set of leaves in some order
    std::vector<uint64_t> pos = pickTargets(n, DENSE, MAXK);
    if (pos.size() > 1) {
        uint64_t c = choose("order", 2);
        if (c == 1) std::reverse(pos.begin(), pos.end());
        if (c == 2) std::rotate(pos.begin(), pos.begin() + 1, pos.end());
    }
    std::vector<H32> h = at(l, pos);
    BatchProof p;
    sx_assert(f.Prove(p, h), "distinct leaves can be proved");
    sx_assert(rightProof(p, l, pos), "a proof names the leaves in the order requested and the siblings needed");
    sx_assert(f.Verify(p, h), "leaves check against the forest");
    sx_assert(p.CheckSanity(n), "an honest proof is sane");
    traceU64s("targets", p.GetTargets());
    traceHashes("proof", p.GetHashes());
    // one more hash, anything at all
    H32 x;
    sx_sym(x.data(), 32, "hash");
    int leaf = 0, dup = 0;
    for (auto& y : l) leaf = sx_or(leaf, sameHash(x, y));
    for (auto& y : h) dup = sx_or(dup, sameHash(x, y));
    h.insert(h.begin() + (h.size() > 1 ? choose("where", 1) : 0), x);
    BatchProof q;
    bool ok = f.Prove(q, h);
    sx_assert(ok == sx_and(leaf, !dup), "a proof exists exactly for distinct leaves");
    sx_assert(f.Verify(p, h) == (leaf != 0), "hashes check against the forest iff all are leaves");
    if (ok) sx_reach("extra leaf"); else sx_reach("no proof");
    for (auto& g : gone) {
        BatchProof r;
        sx_assert(!f.Prove(r, {g}) && !f.Verify(r, {g}), "a deleted leaf has no proof");
        sx_reach("gone");
    }
}
#endif
extern "C" void harness()
{
    RamForest f(0);
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    bool batch = true;
    UndoBatch undo;
    std::vector<H32> first = newLeaves(n);
    sx_assert(f.Modify(undo, asLeaves(first), {}), "adding leaves succeeds");
    sx_assert(sameHashes(stored(f), first), "leaves are stored in the order given");
    (void)batch;
    std::vector<H32> gone;
#if PROP == 6
    checkRoots(f, n);
#elif PROP == 7
    checkPositions(f);
#endif
    for (int s = 0; s < STEPS; s++) {
        std::vector<H32> before = stored(f);
        std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK);
        for (uint64_t x : t) gone.push_back(before[x]);
        std::vector<Leaf> adds = asLeaves(additions(ADDS, gone));
        sx_assert(f.Modify(undo, adds, t), "a valid modification succeeds");
        n = n - t.size() + adds.size();
#if PROP == 6
        checkRoots(f, n);
#elif PROP == 7
        sx_assert(f.NumLeaves() == n, "leaf count is additions minus deletions");
        sx_assert(movedRight(before, t, adds, stored(f)), "exactly the targets are gone and exactly the new leaves are there");
        checkPositions(f);
#endif
    }
#if PROP == 8
    checkProofs(f, gone);
#endif
    traceHashes("roots", rootsOf(f));
    traceHashes("leaves", stored(f));
    sx_reach("end");
}
