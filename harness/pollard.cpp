// Forest and pollard over the same blocks. PROP 13: agreement. PROP 17: remembered leaves and their proofs. PROP 28: what is kept.
// Each of STEPS steps: optionally the pollard verifies a proof of some more leaves (EXTRA), then a block with a target set and
// 0..ADDS additions, each remembered or not. Before the block the pollard verifies the targets it does not remember yet, or all of them.
#include "acc.h"
static std::vector<uint8_t> known; // by leaf number
static std::vector<H32> hashes;
static int number(const H32& h)
{
    for (size_t i = 0; i < hashes.size(); i++) if (sameHash(hashes[i], h)) return (int)i;
    return -1;
}
static void check(RamForest& f, Pollard& p)
{
    sx_assert(f.NumLeaves() == p.NumLeaves(), "leaf counts agree");
    sx_assert(sameHashes(rootsOf(f), rootsOf(p)), "roots agree");
#if PROP == 17
    std::vector<H32> l = stored(f), kn;
    for (uint64_t i = 0; i < l.size(); i += l.size() > 64 ? 11 : 1) {
        BatchProof a, b;
        bool ok = p.Prove(a, {l[i]});
        bool k = known[number(l[i])];
        if (k) sx_assert(ok, "a remembered leaf is provable");
        if (ok) {
            sx_assert(f.Prove(b, {l[i]}) && a == b, "a pollard's proof is the forest's");
            sx_reach("proved");
        }
    }
    for (auto& x : l) if (known[number(x)]) kn.push_back(x);
    if (kn.size() > 1) {
        BatchProof a, b;
        sx_assert(p.Prove(a, kn) && f.Prove(b, kn) && a == b, "remembered leaves are provable together");
    }
    for (size_t i = 0; i < hashes.size(); i += hashes.size() > 64 ? 7 : 1)
        if (known[i] == 2) {
            BatchProof a;
            sx_assert(!p.Prove(a, {hashes[i]}), "a deleted leaf is not provable");
        }
#elif PROP == 28
    std::vector<H32> l = stored(f);
    uint64_t n = l.size(), kn = 0, most = 0;
    std::vector<uint8_t> need(n);
    for (uint64_t i = 0; i < n; i++) {
        need[i] = known[number(l[i])] == 1;
        kn += need[i];
    }
    sx_assert(p.NumCachedLeaves() == kn, "exactly the remembered leaves are counted");
    for (unsigned r = 0; r < 64; r++) most += n >> r & 1;
    for (unsigned r = 0; (n >> r) > 1; r++) // need: nodes of row r above or at remembered leaves
        for (uint64_t i = 0; i + 1 < (n >> r); i += 2) {
            need[i / 2] = need[i] | need[i + 1];
            if (need[i / 2]) most += 2;
        }
    sx_assert(p.CountNodes() <= most, "nothing is kept but roots, paths of remembered leaves and their siblings");
    if (!kn) sx_assert(p.CountNodes() == rootsOf(p).size(), "without remembered leaves only roots are kept");
    if (kn) sx_reach("some"); else sx_reach("none");
#endif
}
static void verify(RamForest& f, Pollard& p, const std::vector<uint64_t>& pos)
{
    std::vector<H32> h = at(stored(f), pos);
    BatchProof b;
    sx_assert(f.Prove(b, h), "the forest proves its leaves");
    sx_assert(p.Verify(b, h), "an honest proof is accepted");
    for (auto& x : h) known[number(x)] = 1;
}
static std::vector<Leaf> kept(const std::vector<H32>& l)
{
    std::vector<Leaf> v;
    std::vector<uint8_t> keep = pickFlags(l.size());
    for (size_t i = 0; i < l.size(); i++) {
        int k = number(l[i]);
        if (k < 0) {
            k = (int)known.size();
            hashes.push_back(l[i]);
            known.push_back(0);
        }
        known[k] = keep[i];
        v.push_back(Leaf(l[i], keep[i]));
    }
    return v;
}
extern "C" void harness()
{
    RamForest f(0);
    Pollard p(0);
    UndoBatch u;
    uint64_t n = MINN + choose("leaves", MAXN - MINN);
    std::vector<Leaf> first = kept(newLeaves(n));
    sx_assert(f.Modify(u, first, {}) && p.Modify(first, {}), "adding leaves succeeds");
    check(f, p);
    for (int s = 0; s < STEPS; s++) {
#if EXTRA
        if (n && sx_flag("extra")) {
            std::vector<uint64_t> e = pickTargets(n, DENSE, MAXK);
            verify(f, p, e);
            check(f, p);
        }
#endif
        std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK), need;
        std::vector<H32> l = stored(f);
#if TRUSTED
        for (uint64_t x : t) if (!known[number(l[x])]) need.push_back(x);
        if (need.size() < t.size() && sx_flag("all")) need = t;
        if (need.size() < t.size()) sx_reach("remembered target");
#else
        need = t;
#endif
        if (!need.empty()) verify(f, p, need);
        for (uint64_t x : t) known[number(l[x])] = 2;
        std::vector<H32> gone;
        for (size_t i = 0; i < hashes.size(); i++) if (known[i] == 2) gone.push_back(hashes[i]);
        std::vector<Leaf> adds = kept(additions(ADDS, gone));
        sx_assert(f.Modify(u, adds, t), "a valid modification of the forest succeeds");
        sx_assert(p.Modify(adds, t), "a valid modification of the pollard succeeds");
        n = f.NumLeaves();
        check(f, p);
    }
    traceHashes("roots", rootsOf(p));
    sx_trace("nodes", p.CountNodes());
    sx_reach("end");
}
