// A forest in a file: STEPS blocks with the file closed or committed in between, then one more block or an undo after reopening.
#include "acc.h"
static std::vector<H32> gone;
static Block block(const RamForest& f)
{
    Block b;
    b.targets = pickTargets(f.NumLeaves(), DENSE, MAXK);
    std::vector<H32> l = stored(f);
    for (uint64_t x : b.targets) gone.push_back(l[x]);
    b.adds = asLeaves(additions(ADDS, gone));
    return b;
}
static void same(RamForest& f, RamForest& g, const char* msg)
{
    int r = sx_and(f.NumLeaves() == g.NumLeaves(), sameHashes(stored(f), stored(g)));
    r = sx_and(r, sx_and(sameHashes(rootsOf(f), rootsOf(g)), sx_and(f == g, g == f)));
    sx_assert(r, msg);
}
static void sameProofs(RamForest& f, RamForest& g)
{
    std::vector<H32> l = stored(g);
    int r = 1;
    for (size_t i = 0; i < l.size(); i += l.size() > 64 ? 13 : 1) {
        BatchProof p, q;
        r = sx_and(r, sx_and(f.Prove(p, {l[i]}), g.Prove(q, {l[i]})));
        r = sx_and(r, p == q);
    }
    BatchProof p, q;
    r = sx_and(r, sx_and(f.Prove(p, l), g.Prove(q, l)));
    sx_assert(sx_and(r, p == q), "the reopened forest gives the same proofs");
}
extern "C" void harness()
{
    const char* path = sx_path(0);
    auto f = std::make_unique<RamForest>(std::string(path));
    RamForest twin(0);
    sx_assert(f->NumLeaves() == 0 && rootsOf(*f).empty(), "a new file holds an empty forest");
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<Leaf> first = asLeaves(newLeaves(n));
    std::vector<UndoBatch> undo(1);
    sx_assert(f->Modify(undo[0], first, {}), "adding leaves succeeds");
    sx_assert(twin.Modify(undo[0], first, {}), "adding leaves succeeds");
    for (int s = 0; s < STEPS; s++) {
        int how = sx_flag("reopen") ? 2 : sx_flag("commit");
        if (how == 1) sx_assert(f->Commit(), "commit succeeds");
        if (how == 2) {
            f.reset();
            f = std::make_unique<RamForest>(std::string(path));
            same(*f, twin, "the reopened forest is the one that was closed");
            sx_reach("reopened");
        }
        Block b = block(*f);
        UndoBatch x, y;
        sx_assert(f->Modify(x, b.adds, b.targets), "a valid modification succeeds");
        sx_assert(twin.Modify(y, b.adds, b.targets), "a valid modification succeeds");
        sx_assert(x == y, "undo data does not depend on the file");
        undo.push_back(y);
        n = n - b.targets.size() + b.adds.size();
    }
    f.reset();
    f = std::make_unique<RamForest>(std::string(path));
    same(*f, twin, "the reopened forest is the one that was closed");
    sameProofs(*f, twin);
    uint64_t k = choose("undos", undo.size() - 1);
    if (k && sx_flag("commit")) sx_assert(f->Commit(), "commit succeeds");
    for (uint64_t j = 0; j < k; j++) {
        UndoBatch& w = undo[undo.size() - 1 - j];
        sx_assert(f->Undo(w), "undo succeeds on the reopened forest");
        sx_assert(twin.Undo(w), "undo succeeds");
        same(*f, twin, "undo on the reopened forest does what it does on the original");
        sx_reach("undone");
    }
#ifdef MORE
    if (k && sx_flag("reopen")) {
        f.reset();
        f = std::make_unique<RamForest>(std::string(path));
        same(*f, twin, "the reopened forest is the one that was closed");
    }
    gone.clear();
    Block b = block(*f);
    UndoBatch x, y;
    sx_assert(f->Modify(x, b.adds, b.targets), "a valid modification of the reopened forest succeeds");
    sx_assert(twin.Modify(y, b.adds, b.targets), "a valid modification succeeds");
    same(*f, twin, "the reopened forest behaves like the original");
    sx_assert(x == y, "undo data does not depend on the file");
#endif
    std::vector<H32> roots = rootsOf(*f), leaves = stored(*f);
    f.reset();
    f = std::make_unique<RamForest>(std::string(path));
    same(*f, twin, "the reopened forest is the one that was closed");
    traceHashes("roots", roots);
    traceHashes("leaves", leaves);
    sx_reach("end");
}
