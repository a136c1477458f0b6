// PROP 32: once Commit has returned true the file alone holds the forest. STEPS blocks, each followed by no commit, a commit, or (FULL)
// a commit for which the file can hold any number of bytes; the process ends at any point, without closing the file.
#include "acc.h"
static int same(RamForest& f, RamForest& g)
{
    int r = sx_and(f.NumLeaves() == g.NumLeaves(), sameHashes(stored(f), stored(g)));
    return sx_and(r, sx_and(sameHashes(rootsOf(f), rootsOf(g)), sx_and(f == g, g == f)));
}
static void sameProofs(RamForest& f, RamForest& g)
{
    std::vector<H32> l = stored(g);
    int r = 1;
    for (size_t i = 0; i < l.size(); i += l.size() > 64 ? 13 : 1) {
        BatchProof p, q;
        r = sx_and(r, sx_and(f.Prove(p, {l[i]}), g.Prove(q, {l[i]})));
        r = sx_and(r, p == q);
    }
    sx_assert(r, "the forest found in the file gives the same proofs");
}
extern "C" void harness()
{
    const char* path = sx_path(0);
    auto f = std::make_unique<RamForest>(std::string(path));
    auto twin = std::make_unique<RamForest>(0); // the forest last committed
    uint64_t n = MINN + choose("leaves", MAXN - MINN), last = 0, room = ~0ull;
    std::vector<std::pair<std::vector<Leaf>, std::vector<uint64_t>>> past;
    std::vector<Leaf> adds = asLeaves(newLeaves(n));
    std::vector<uint64_t> targets;
    UndoBatch u;
    bool known = false;
    for (int s = 0;; s++) {
        sx_assert(f->Modify(u, adds, targets), "a valid modification succeeds");
        past.push_back({adds, targets});
        if (sx_flag("commit")) {
#if FULL
            if (sx_flag("limit")) sx_file_limit(room = sx_u64("bytes"));
#endif
            uint64_t size = 8;
            for (uint64_t k = n; k; k >>= 1) size += 32 * k;
            bool ok = f->Commit();
            sx_trace("ok", ok);
            sx_assert(ok == (size <= room), "commit succeeds exactly if the file can hold the forest");
            if (!ok) {
                sx_reach("full");
                sx_assert(f->NumLeaves() == n, "a failed commit keeps the forest");
                return;
            }
            known = true;
            last = past.size();
        }
        if (s == STEPS || sx_flag("stop")) break;
        targets = pickTargets(n, DENSE, MAXK);
        adds = asLeaves(newLeaves(choose("adds", ADDS)));
        n = n - targets.size() + adds.size();
    }
    if (known) {
        for (uint64_t i = 0; i < last; i++) sx_assert(twin->Modify(u, past[i].first, past[i].second), "a valid modification succeeds");
        f.release(); // the process ends here
        RamForest g{std::string(path)};
        sx_assert(same(g, *twin), "after a commit the file holds the forest");
        sameProofs(g, *twin);
        traceHashes("leaves", stored(g));
        sx_reach(last == past.size() ? "committed" : "modified since");
    }
    sx_reach("end");
}
