// Modifications with target lists that are not strictly ascending or not inside the forest.
#include "acc.h"
extern "C" void harness()
{
    RamForest f(0);
    Pollard p(0);
    UndoBatch u;
    uint64_t n = choose("leaves", MAXN);
    std::vector<H32> h = newLeaves(n);
    std::vector<Leaf> first;
    for (auto& x : h) first.push_back(Leaf(x, sx_flag("remember")));
    sx_assert(f.Modify(u, first, {}) && p.Modify(first, {}), "adding leaves succeeds");
#ifdef BEFORE
    if (n && sx_flag("block")) {
        std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK);
        std::vector<H32> th = at(h, t);
        BatchProof b;
        sx_assert(f.Prove(b, th) && p.Verify(b, th), "honest proof is accepted");
        std::vector<Leaf> adds = asLeaves(newLeaves(choose("adds", 2)), true);
        sx_assert(f.Modify(u, adds, t) && p.Modify(adds, t), "a valid modification succeeds");
        n = f.NumLeaves();
    }
#endif
    std::vector<H32> l = stored(f), fr = rootsOf(f), pr = rootsOf(p);
    uint64_t nodes = p.CountNodes(), cached = p.NumCachedLeaves();
    std::vector<int> provable;
    for (auto& x : l) { BatchProof b; provable.push_back(p.Prove(b, {x})); }
    // any list that is not sane
    unsigned k = 1 + (unsigned)choose("targets", BAD - 1);
    std::vector<uint64_t> t;
    int sane = 1;
    for (unsigned i = 0; i < k; i++) {
        t.push_back(sx_u64("target"));
        sane = sx_and(sane, sx_and(t[i] < n, i == 0 || t[i - 1] < t[i]));
    }
    sx_assume(!sane);
    std::vector<Leaf> adds = asLeaves(newLeaves(choose("adds", 1)), true);
    UndoBatch before;
    int which = sx_flag("pollard") ? 2 : sx_flag("noundo");
    bool ok = which == 2 ? p.Modify(adds, t) : which == 1 ? static_cast<Accumulator&>(f).Modify(adds, t) : f.Modify(before, adds, t);
    sx_assert(!ok, "a bad target list is refused");
    sx_assert(f.NumLeaves() == n && p.NumLeaves() == n, "a refused modification keeps the leaf count");
    sx_assert(sx_and(sameHashes(stored(f), l), sx_and(sameHashes(rootsOf(f), fr), sameHashes(rootsOf(p), pr))), "a refused modification keeps leaves and roots");
    sx_assert(p.CountNodes() == nodes && p.NumCachedLeaves() == cached, "a refused modification keeps the pollard's nodes");
    for (size_t i = 0; i < l.size(); i++) {
        BatchProof a, b;
        sx_assert(f.Prove(a, {l[i]}) && rightProof(a, l, {i}), "a refused modification keeps lookups and proofs of the forest");
        sx_assert(p.Prove(b, {l[i]}) == (bool)provable[i], "a refused modification keeps the provable leaves of the pollard");
    }
    for (auto& x : adds) { BatchProof a; sx_assert(!f.Prove(a, {x.first}) && !p.Prove(a, {x.first}), "a refused modification adds nothing"); }
    // and both go on as usual
    std::vector<Leaf> more = asLeaves(newLeaves(1), true);
    sx_assert(f.Modify(u, more, {}) && p.Modify(more, {}), "adding leaves succeeds");
    sx_assert(sameHashes(rootsOf(f), rootsOf(p)), "roots agree after a refused modification");
    sx_assert(sameHashes(rootsOf(f), SpecForest(stored(f)).roots()), "roots are right after a refused modification");
    sx_trace("n", n);
    sx_reach("end");
}
