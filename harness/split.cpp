// The same additions in different batches. After the additions (and optionally one block with deletions) everything agrees.
#include "acc.h"
extern "C" void harness()
{
    RamForest f(0), g(0);
    Pollard p(0), q(0);
    UndoBatch u;
    uint64_t n = MINN + choose("leaves", MAXN - MINN), start = 0;
    std::vector<Leaf> all;
    std::vector<uint8_t> keep = pickFlags(n);
    for (auto& h : newLeaves(n)) all.push_back(Leaf(h, keep[all.size()]));
#ifdef RUN
    uint64_t at = sx_pick("cut", 0, n), one = sx_flag("one"); // cut before at, or one leaf at a time from there on
#endif
#ifdef BEFORE
    // a common past with deletions
    std::vector<Leaf> old = asLeaves(newLeaves(choose("old", BEFORE)), true);
    std::vector<uint64_t> t;
    sx_assert(f.Modify(u, old, {}) && g.Modify(u, old, {}) && p.Modify(old, {}) && q.Modify(old, {}), "adding leaves succeeds");
    for (uint64_t i = 0; i < old.size(); i++) if (sx_flag("target")) t.push_back(i);
    sx_assert(f.Modify(u, {}, t) && g.Modify(u, {}, t) && p.Modify({}, t) && q.Modify({}, t), "deletion succeeds");
#endif
    std::vector<H32> past = stored(f);
    sx_assert(f.Modify(u, all, {}) && p.Modify(all, {}), "adding leaves succeeds");
    std::vector<Leaf> batch;
    for (uint64_t i = 0; i < n; i++) {
        batch.push_back(all[i]);
#ifdef RUN
        bool cut = i + 1 == at || (one && i >= at);
#else
        bool cut = i + 1 < n && sx_flag("cut");
#endif
        if (i + 1 == n || cut) {
            sx_assert(g.Modify(u, batch, {}) && q.Modify(batch, {}), "adding leaves succeeds");
            batch.clear();
        }
    }
    for (auto& l : all) past.push_back(l.first);
    std::vector<H32> roots = SpecForest(past).roots();
    sx_assert(sx_and(sx_and(sameHashes(rootsOf(f), roots), sameHashes(rootsOf(g), roots)), sx_and(sameHashes(rootsOf(p), roots), sameHashes(rootsOf(q), roots))), "roots are those of the append-only hash forest");
    sx_assert(f.NumLeaves() == past.size() && g.NumLeaves() == past.size() && p.NumLeaves() == past.size() && q.NumLeaves() == past.size(), "leaf counts");
    sx_assert(sx_and(sameHashes(stored(f), past), sameHashes(stored(g), past)), "leaves are stored in order");
    sx_assert(f == g && g == f, "forests are equal");
    sx_assert(p.NumCachedLeaves() == q.NumCachedLeaves() && p.CountNodes() == q.CountNodes(), "pollards cache the same");
    for (uint64_t i = 0; i < past.size(); i++) {
        BatchProof a, b, c, d;
        bool pa = p.Prove(a, {past[i]}), qa = q.Prove(b, {past[i]});
        sx_assert(pa == qa, "pollards prove the same leaves");
        if (pa) sx_assert(a == b, "pollards give the same proofs");
        sx_assert(f.Prove(c, {past[i]}) && g.Prove(d, {past[i]}) && c == d, "forests give the same proofs");
        if (i >= past.size() - n && all[i - (past.size() - n)].second) {
            sx_assert(pa, "a remembered leaf can be proved");
            sx_reach("remembered");
        }
    }
    traceHashes("roots", rootsOf(f));
    sx_reach("end");
}
