// PROP 36: any undo data at all. MAXN leaves, up to STEPS blocks, then undo data with any 64-bit number of additions, up to DEL arbitrary
// 64-bit positions and up to DEL hashes, each of them arbitrary or a leaf of the forest.
#include "acc.h"
static void checkForest(RamForest& f, const std::vector<H32>& l, const char* what)
{
    sx_assert(f.NumLeaves() == l.size(), what);
    sx_assert(sx_and(sameHashes(stored(f), l), sameHashes(rootsOf(f), SpecForest(l).roots())), what);
    for (uint64_t i = 0; i < l.size(); i++) {
        BatchProof b;
        sx_assert(f.Prove(b, {l[i]}), what);
        sx_assert(rightProof(b, l, {i}), what);
    }
}
extern "C" void harness()
{
    RamForest f(0), twin(0);
    UndoBatch u, w, v;
    std::vector<Leaf> first = asLeaves(newLeaves(choose("leaves", MAXN)));
    sx_assert(f.Modify(u, first, {}) && twin.Modify(w, first, {}), "adding leaves succeeds");
    std::vector<H32> gone;
    for (int s = 0; s < STEPS; s++) {
        std::vector<uint64_t> t = pickTargets(f.NumLeaves(), DENSE, MAXK);
        if (t.empty()) break;
        gone = at(stored(f), t);
        std::vector<Leaf> adds = asLeaves(newLeaves(choose("adds", 1)));
        sx_assert(f.Modify(u, adds, t) && twin.Modify(w, adds, t), "a valid modification succeeds");
    }
    std::vector<H32> l = stored(f);
    uint64_t n = l.size(), adds = sx_u64("additions");
    std::vector<uint64_t> pos(choose("positions", DEL));
    std::vector<H32> del(choose("hashes", DEL));
    for (auto& x : pos) x = sx_u64("position");
    for (auto& x : del) {
        if (!gone.empty() && sx_flag("back")) x = gone[choose("gone", gone.size() - 1)];
        else if (n && sx_flag("there")) x = l[choose("which", n - 1)];
        else sx_sym(x.data(), 32, "hash");
    }
    // what belongs: no more additions than leaves, sane positions with one hash each, and these were no leaves without the additions
    int good = sx_and(adds <= n, pos.size() == del.size());
    uint64_t prev = n - adds + pos.size();
    for (size_t i = 0; i < pos.size(); i++) good = sx_and(good, sx_and(pos[i] < prev, i == 0 || pos[i - 1] < pos[i]));
    for (size_t i = 0; i < del.size(); i++) {
        for (size_t j = 0; j < i; j++) good = sx_and(good, !sx_eqbytes(del[i].data(), del[j].data(), 32));
        for (uint64_t j = 0; j < n; j++) good = sx_and(good, sx_or(j >= n - adds, !sx_eqbytes(del[i].data(), l[j].data(), 32)));
    }
    bool ok = f.Undo(UndoBatch(adds, pos, del));
    sx_assert(ok == (bool)good, "undo data is refused exactly if it cannot belong to the forest");
    if (!ok) {
        checkForest(f, l, "refused undo data changes nothing");
        sx_assert(f == twin && twin == f, "refused undo data changes nothing");
        sx_assert(f.Undo(u) && twin.Undo(w) && f == twin && twin == f, "a block can be undone after bad undo data was refused");
        sx_reach("refused");
    } else {
        adds = sx_conc(adds);
        for (auto& x : pos) x = sx_conc(x);
        std::vector<H32> b = stored(f), added(l.end() - (long)adds, l.end());
        sx_assert(b.size() == n - adds + pos.size(), "undo gives the leaf count before the block");
        for (auto& x : del) {
            int back = 0;
            for (uint64_t p : pos) back = sx_or(back, sx_eqbytes(b[p].data(), x.data(), 32));
            sx_assert(back, "undo puts the deleted leaves back");
        }
        checkForest(f, b, "undo gives a forest");
        sx_assert(f.Modify(v, asLeaves(added), pos), "the block can be done again");
        checkForest(f, l, "doing the block again gives the forest before undo");
        sx_assert(v.GetNumAdds() == adds && sameU64s(v.GetDeletedPositions(), pos) && sameHashes(v.GetDeletedHashes(), del), "doing the block again gives the undo data");
        sx_reach("undone");
    }
    sx_reach("end");
}
