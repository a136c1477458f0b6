// PROP 34: looking at an accumulator changes nothing. f and p are asked everything before every block, g and q nothing.
#include "acc.h"
static std::vector<H32> ever;
static bool alike(Pollard& p, Pollard& q)
{
    bool r = p.NumLeaves() == q.NumLeaves() && p.CountNodes() == q.CountNodes() && p.NumCachedLeaves() == q.NumCachedLeaves();
    for (auto& h : ever) {
        BatchProof a, b;
        bool x = p.Prove(a, {h}), y = q.Prove(b, {h});
        r = r && x == y && (!x || a == b);
    }
    return r && sameHashes(rootsOf(p), rootsOf(q));
}
static void alike(RamForest& f, RamForest& g)
{
    int r = sx_and(f.NumLeaves() == g.NumLeaves(), sx_and(sameHashes(stored(f), stored(g)), sameHashes(rootsOf(f), rootsOf(g))));
    sx_assert(sx_and(r, f == g), "a forest that was looked at is the same");
    for (auto& h : ever) {
        BatchProof a, b;
        bool x = f.Prove(a, {h}), y = g.Prove(b, {h});
        sx_assert(x == y && (!x || a == b), "a forest that was looked at gives the same proofs");
    }
}
template <class A, class O> static void ask(A& a, O& other, const std::vector<H32>& hashes, const BatchProof& proof, const H32& x)
{
    for (int i = 0; i < 2; i++) {
        BatchProof b, c;
        bool one = a.Prove(b, hashes);
        if (one) sx_assert(b == proof, "asked again, the answer is the same");
        std::vector<H32> more(hashes);
        more.push_back(x);
        a.Prove(c, more);
        if (!hashes.empty()) {
            more.back() = hashes[0];
            sx_assert(!a.Prove(c, more), "a leaf named twice has no proof");
        }
        std::vector<H32> r;
        a.Roots(r);
        a.NumLeaves();
        a.ComparePositionMap(a);
        a.ComparePositionMap(other);
    }
}
extern "C" void harness()
{
    RamForest f(0), g(0);
    Pollard p(0), q(0);
    UndoBatch u, v;
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<uint64_t> t;
    for (int s = 0;; s++) {
        std::vector<Leaf> adds = asLeaves(newLeaves(s ? choose("adds", ADDS) : n));
        std::vector<uint8_t> keep = pickFlags(adds.size());
        for (size_t i = 0; i < adds.size(); i++) { adds[i].second = keep[i]; ever.push_back(adds[i].first); }
        sx_assert(f.Modify(u, adds, t) && g.Modify(v, adds, t) && p.Modify(adds, t) && q.Modify(adds, t), "a valid modification succeeds");
        sx_assert(u == v, "a forest that was looked at gives the same undo data");
        alike(f, g);
        sx_assert(alike(p, q), "a pollard that was looked at is the same");
        if (s == STEPS) break;
        n = f.NumLeaves();
        t = pickTargets(n, DENSE, MAXK);
        std::vector<H32> l = stored(g), h = at(l, t);
        BatchProof b;
        sx_assert(g.Prove(b, h), "the forest proves its leaves");
        H32 x;
        sx_sym(x.data(), 32, "hash");
        ask(f, p, h, b, x);
        ask(p, f, h, b, x);
        for (uint64_t i = 0; i < n; i++) sx_assert(sameHash(f.GetLeaf(i), l[i]), "asked again, the answer is the same");
        sx_assert(f.Verify(b, h), "leaves check against the forest");
        std::vector<H32> wrong(h);
        wrong.push_back(x);
        f.Verify(b, wrong);
        alike(f, g);
        sx_assert(alike(p, q), "a pollard that was looked at is the same");
        if (!t.empty()) sx_assert(p.Verify(b, h) && q.Verify(b, h), "an honest proof is accepted");
    }
    sx_assert(f.Undo(u) && g.Undo(v), "undo succeeds");
    alike(f, g);
    traceHashes("roots", rootsOf(f));
    sx_trace("nodes", p.CountNodes());
    sx_reach("end");
}
