// Comparisons. MODE 0: lookup tables and forests with different pasts over the same pool of leaves. MODE 1: proofs. MODE 2: undo records.
#include "acc.h"
#if MODE == 0
struct Side {
    RamForest f{0};
    Pollard p{0};
    std::vector<H32> known;
    Side(const std::vector<H32>& pool)
    {
        std::vector<H32> left(pool);
        std::vector<Leaf> first;
        UndoBatch u;
        uint64_t k = choose("leaves", pool.size());
        for (uint64_t i = 0; i < k; i++) {
            uint64_t j = choose("which", left.size() - 1);
            first.push_back(Leaf(left[j], sx_flag("remember")));
            if (first.back().second) known.push_back(left[j]);
            left.erase(left.begin() + j);
        }
        sx_assert(f.Modify(u, first, {}) && p.Modify(first, {}), "adding leaves succeeds");
        if (DELETE && k && sx_flag("delete")) {
            std::vector<uint64_t> t = {choose("target", k - 1)};
            H32 gone = f.GetLeaf(t[0]);
            BatchProof b;
            sx_assert(f.Prove(b, {gone}) && p.Verify(b, {gone}), "an honest proof is accepted");
            sx_assert(f.Modify(u, {}, t) && p.Modify({}, t), "a valid modification succeeds");
            for (size_t i = 0; i < known.size(); i++) if (sameHash(known[i], gone)) { known.erase(known.begin() + i); break; }
        }
    }
};
static int find(const std::vector<H32>& v, const H32& h)
{
    for (size_t i = 0; i < v.size(); i++) if (sameHash(v[i], h)) return (int)i;
    return -1;
}
static void compare(const Accumulator& a, const std::vector<H32>& aKnows, const std::vector<H32>& aLeaves, Accumulator& b, const std::vector<H32>& bKnows, const std::vector<H32>& bLeaves)
{
    bool want = true;
    for (auto& h : aKnows) want = want && find(bKnows, h) >= 0 && find(aLeaves, h) == find(bLeaves, h);
    bool got = a.ComparePositionMap(b);
    sx_trace("compare", got);
    sx_assert(got == want, "lookup tables agree iff every leaf the first knows is known to the second at the same position");
    if (want) sx_reach("agree"); else sx_reach("differ");
}
extern "C" void harness()
{
    std::vector<H32> pool = newLeaves(MAXN);
    Side a(pool), b(pool);
    std::vector<H32> al = stored(a.f), bl = stored(b.f);
    compare(a.f, al, al, b.f, bl, bl);
    compare(a.p, a.known, al, b.f, bl, bl);
    compare(a.f, al, al, b.p, b.known, bl);
    compare(a.p, a.known, al, b.p, b.known, bl);
    bool same = sameHashes(al, bl);
    sx_assert((a.f == b.f) == same, "forests compare equal iff they hold the same leaves at the same positions");
    if (same) sx_reach("equal");
}
#elif MODE == 1
static std::vector<uint64_t> list(const char* name, uint64_t k)
{
    std::vector<uint64_t> v;
    for (uint64_t i = 0; i < k; i++) v.push_back(sx_u64(name));
    return v;
}
static std::vector<H32> hashesOf(const char* name, uint64_t k)
{
    std::vector<H32> v(k);
    for (auto& h : v) sx_sym(h.data(), 32, name);
    return v;
}
extern "C" void harness()
{
    std::vector<uint64_t> ta = list("ta", choose("targets", MAXK)), tb = list("tb", choose("targets", MAXK));
    std::vector<H32> ha = hashesOf("ha", choose("hashes", MAXH)), hb = hashesOf("hb", choose("hashes", MAXH));
    BatchProof a(ta, ha), b(tb, hb), none;
    bool got = a == b;
    sx_assert(got == sx_and(sameU64s(ta, tb), sameHashes(ha, hb)), "proofs are equal iff targets and hashes are");
    sx_assert((a == none) == (ta.empty() && ha.empty()), "the empty proof equals only itself");
    if (got) sx_reach("equal"); else sx_reach("different");
    UndoBatch x(sx_u64("na"), ta, ha), y(sx_u64("nb"), tb, hb), u, v;
    got = x == y;
    sx_assert(got == sx_and(x.GetNumAdds() == y.GetNumAdds(), sx_and(sameU64s(ta, tb), sameHashes(ha, hb))), "undo records are equal iff all their parts are");
    sx_assert(u == v && u.GetNumAdds() == 0, "an empty undo record is the same each time");
    if (got) sx_reach("equal undo"); else sx_reach("different undo");
}
#endif
