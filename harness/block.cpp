// PROP 29: a block is its deletion followed by its additions, however it is submitted. PROP 30: undo data names what the block did.
// A history of STEPS blocks on twins: f and p take whole blocks, g and q deletion and additions one after the other, e the whole
// block through the interface common to all accumulators.
#include "acc.h"
static inline void remember(std::vector<Leaf>& v)
{
    std::vector<uint8_t> keep = pickFlags(v.size());
    for (size_t i = 0; i < v.size(); i++) v[i].second = keep[i];
}
extern "C" void harness()
{
    RamForest f(0);
    UndoBatch u;
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<Leaf> first = asLeaves(newLeaves(n));
#if PROP == 29
    RamForest g(0), e(0);
    Pollard p(0), q(0);
    UndoBatch v;
    remember(first);
    sx_assert(g.Modify(v, first, {}) && static_cast<Accumulator&>(e).Modify(first, {}) && p.Modify(first, {}) && q.Modify(first, {}), "adding leaves succeeds");
#endif
    sx_assert(f.Modify(u, first, {}), "adding leaves succeeds");
    std::vector<H32> free;
    for (int s = 0; s < STEPS; s++) {
        std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK);
        std::vector<H32> before = stored(f), gone = at(before, t);
        std::vector<Leaf> adds = asLeaves((free.insert(free.end(), gone.begin(), gone.end()), additions(ADDS, free)));
#if PROP == 29
        remember(adds);
        if (!t.empty()) {
            BatchProof a;
            sx_assert(f.Prove(a, gone) && p.Verify(a, gone) && q.Verify(a, gone), "an honest proof is accepted");
        }
#endif
        sx_assert(f.Modify(u, adds, t), "a valid modification succeeds");
        n = n - t.size() + adds.size();
#if PROP == 29
        sx_assert(g.Modify(v, {}, t) && g.Modify(v, adds, {}), "a valid modification succeeds");
        sx_assert(static_cast<Accumulator&>(e).Modify(adds, t), "a valid modification succeeds");
        sx_assert(p.Modify(adds, t) && q.Modify({}, t) && q.Modify(adds, {}), "a valid modification succeeds");
        sx_assert(f.NumLeaves() == n && g.NumLeaves() == n && e.NumLeaves() == n && p.NumLeaves() == n && q.NumLeaves() == n, "leaf counts agree");
        sx_assert(sx_and(sameHashes(stored(f), stored(g)), sameHashes(rootsOf(f), rootsOf(g))), "deletion and additions one after the other give the same forest");
        sx_assert(sx_and(sameHashes(stored(f), stored(e)), sameHashes(rootsOf(f), rootsOf(e))), "every interface gives the same forest");
        sx_assert(sameHashes(rootsOf(p), rootsOf(q)) && sameHashes(rootsOf(f), rootsOf(p)), "deletion and additions one after the other give the same pollard");
        sx_assert(p.CountNodes() == q.CountNodes() && p.NumCachedLeaves() == q.NumCachedLeaves(), "deletion and additions one after the other keep the same nodes");
        std::vector<H32> l = stored(f);
        for (auto& x : l) {
            BatchProof a, b, c, d, i;
            sx_assert(f.Prove(a, {x}) && g.Prove(b, {x}) && e.Prove(c, {x}) && a == b && a == c, "all forests give the same proofs");
            bool k = p.Prove(d, {x});
            sx_assert(k == q.Prove(i, {x}) && (!k || d == i), "both pollards give the same proofs");
        }
        sx_assert(f == g && f == e, "the forests compare equal");
#else
        sx_assert(u.GetNumAdds() == adds.size(), "undo data counts the additions");
        sx_assert(sameU64s(u.GetDeletedPositions(), t), "undo data names the targets");
        std::vector<H32> d;
        for (auto& x : u.GetDeletedHashes()) d.push_back(x);
        int all = d.size() == gone.size();
        if (all) for (auto& x : gone) all = sx_and(all, occursOnce(x, d));
        sx_assert(all, "undo data holds each deleted leaf once");
        // it says nothing about later blocks and survives them
        UndoBatch w = u;
        sx_assert(w == u, "a copy of undo data is equal");
        traceHashes("undo", d);
#endif
    }
    traceHashes("roots", rootsOf(f));
    sx_reach("end");
}
