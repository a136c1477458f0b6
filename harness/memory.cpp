// PROP 35: accumulators give back all memory. Forest (in memory or in a file) and pollard over a history of STEPS blocks; the pollard is
// shown honest and arbitrary proofs, pruned or restored; blocks are undone and done again.
#include "acc.h"
static const char* path;
static BatchProof honest(RamForest& f, const std::vector<uint64_t>& pos, std::vector<H32>& h)
{
    BatchProof b;
    h = at(stored(f), pos);
    sx_assert(f.Prove(b, h), "the forest proves its leaves");
    return b;
}
static void again(Pollard& p, const BatchProof& b, const std::vector<H32>& h, bool want)
{
    bool ok = p.Verify(b, h);
    if (want) sx_assert(ok, "an honest proof is accepted");
    uint64_t heap = sx_heap();
    p.Verify(b, h);
    sx_assert(sx_heap() == heap, "a proof shown again takes no more memory");
    if (!want) sx_reach(ok ? "accepted" : "refused");
}
static void run()
{
    bool file = FILES && sx_flag("file");
    auto f = file ? std::make_unique<RamForest>(std::string(path)) : std::make_unique<RamForest>(0);
    auto p = std::make_unique<Pollard>(0);
    UndoBatch u;
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<uint64_t> t;
    for (int s = 0;; s++) {
        std::vector<Leaf> adds = asLeaves(newLeaves(s ? choose("adds", ADDS) : n));
        std::vector<uint8_t> keep = pickFlags(adds.size());
        for (size_t i = 0; i < adds.size(); i++) adds[i].second = keep[i];
        sx_assert(f->Modify(u, adds, t) && p->Modify(adds, t), "a valid modification succeeds");
        if (sx_flag("undo")) {
            sx_assert(f->Undo(u) && f->Modify(u, adds, t) && f->Undo(u), "undo succeeds");
            uint64_t heap = sx_heap();
            sx_assert(f->Modify(u, adds, t) && f->Undo(u), "undo succeeds");
            sx_assert(sx_heap() == heap, "doing and undoing the same block again takes no more memory");
            sx_assert(f->Modify(u, adds, t), "a valid modification succeeds");
            sx_reach("undone");
        }
        if (s == STEPS) break;
        n = f->NumLeaves();
        std::vector<H32> h;
        t = pickTargets(n, DENSE, MAXK);
        if (!t.empty()) again(*p, honest(*f, t, h), h, true);
    }
    n = f->NumLeaves();
    uint64_t what = choose("then", 3);
    if (what == 1) p->Prune();
    if (what == 2) p = std::make_unique<Pollard>(rootsOf(*f), n);
    if (what == 3) sx_assert(!file || f->Commit(), "commit succeeds");
    std::vector<uint64_t> a = pickTargets(n, DENSE, MAXK);
    std::vector<H32> ph(choose("hashes", SpecProof(n, a).proof.size())), th(a.size());
    for (auto& x : ph) sx_sym(x.data(), 32, "proof");
    for (auto& x : th) sx_sym(x.data(), 32, "target");
    again(*p, BatchProof(a, ph), th, false);
    BatchProof b;
    std::vector<H32> r;
    p->Prove(b, th);
    f->Prove(b, th);
    p->Roots(r);
    uint64_t heap = sx_heap();
    p->Prove(b, th);
    f->Prove(b, th);
    p->Roots(r);
    f->Verify(b, th);
    sx_assert(sx_heap() == heap, "asking again takes no more memory");
}
extern "C" void harness()
{
    path = sx_path(0);
    uint64_t before = sx_heap();
    run();
    sx_assert(sx_heap() == before, "destroyed accumulators leave no memory behind");
    sx_reach("end");
}
