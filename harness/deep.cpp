// Pollards restored from the roots of forests with up to 2^MAXH + 2^(MAXH - 1) leaves. Only the nodes on and next to the paths of up to MAXK leaves
// are known, all other hashes are arbitrary. PROP 14: arbitrary proofs. 15: honest proofs, also with held hashes left out.
// 16: failed verifications. 20: arbitrary targets and hashes.
#include "acc.h"
#include <map>
#define DISTINCT (PROP == 15) // all hashes of the forest differ
static uint64_t n;
static unsigned R;
struct Deep {
    std::vector<uint64_t> targets;
    std::vector<H32> leaves, proof, roots;
    std::vector<uint64_t> proofPos;
};
static std::map<std::pair<unsigned, uint64_t>, H32> node; // what is known of the forest
static H32 arbitrary(const char* name)
{
    H32 h;
    sx_sym(h.data(), 32, name);
    return h;
}
static H32 parent(const H32& a, const H32& b)
{
    uint8_t d[64];
    for (int k = 0; k < 32; k++) { d[k] = a[k]; d[32 + k] = b[k]; }
    H32 h;
    sx_ideal_hash(h.data(), d, 64);
    return h;
}
// fills in the nodes on the paths of these leaves, new siblings being arbitrary
static void know(const std::vector<uint64_t>& leaves)
{
    std::vector<uint64_t> cur(leaves);
    for (uint64_t x : cur) if (!node.count({0, x})) node[{0, x}] = PROP == 20 ? arbitrary("leaf") : newLeaf();
    for (unsigned r = 0; r <= R && !cur.empty(); r++) {
        std::vector<uint64_t> next;
        for (uint64_t i : cur) {
            if (specIsRoot(n, r, i)) continue;
            if (!node.count({r, i ^ 1})) node[{r, i ^ 1}] = DISTINCT || (r == 0 && PROP != 20) ? newLeaf() : arbitrary("sibling");
            node[{r + 1, i >> 1}] = parent(node[{r, i & ~1ull}], node[{r, i | 1}]);
            if (next.empty() || next.back() != i >> 1) next.push_back(i >> 1);
        }
        cur = next;
    }
}
static std::vector<H32> roots()
{
    std::vector<H32> v;
    for (int r = (int)R; r >= 0; r--)
        if ((n >> r) & 1) {
            if (!node.count({r, (n >> r) - 1})) node[{r, (n >> r) - 1}] = arbitrary("root");
            v.push_back(node[{r, (n >> r) - 1}]);
        }
    return v;
}
static std::vector<std::pair<unsigned, uint64_t>> proofNodes(const std::vector<uint64_t>& targets)
{
    std::vector<std::pair<unsigned, uint64_t>> v;
    std::vector<uint64_t> cur(targets);
    for (unsigned r = 0; r <= R && !cur.empty(); r++) {
        std::vector<uint64_t> next;
        for (size_t k = 0; k < cur.size(); k++) {
            uint64_t i = cur[k];
            if (specIsRoot(n, r, i)) continue;
            bool sib = (k && cur[k - 1] == (i ^ 1)) || (k + 1 < cur.size() && cur[k + 1] == (i ^ 1));
            if (!sib) v.push_back({r, i ^ 1});
            if (next.empty() || next.back() != i >> 1) next.push_back(i >> 1);
        }
        cur = next;
    }
    return v;
}
static bool isHeld(unsigned r, uint64_t i, const std::vector<uint64_t>& leaves)
{
    for (auto [x, y] : proofNodes(leaves)) if (x == r && y == i) return true;
    return r == 0 && std::find(leaves.begin(), leaves.end(), i) != leaves.end();
}
extern "C" void harness()
{
    static const unsigned heights[] = {HEIGHTS};
    unsigned h = heights[choose("height", sizeof(heights) / sizeof(*heights) - 1)];
    n = 1ull << h;
    switch (choose("shape", h > 1 ? 3 : 0)) {
    case 1: n |= 1; break;
    case 2: n |= n >> 1; break;
    case 3: n = n - 1; break;
    }
    R = specRows(n);
    // candidates: both ends of the first tree, its middle, and the last leaves
    uint64_t first = 1ull << (63 - __builtin_clzll(n));
    std::vector<uint64_t> cand = {0, 1, first / 2 - 1, first - 1, first, n - 2, n - 1};
    std::sort(cand.begin(), cand.end());
    cand.erase(std::unique(cand.begin(), cand.end()), cand.end());
    while (cand.back() >= n) cand.pop_back();
    auto pick = [&](unsigned k) {
        std::vector<uint64_t> t;
        for (uint64_t c : cand) if (t.size() < k && sx_flag("leaf")) t.push_back(c);
        return t;
    };
    std::vector<uint64_t> t = pick(MAXK), c = CACHE ? pick(CACHE) : std::vector<uint64_t>();
    know(t);
    std::vector<uint64_t> both(t);
    both.insert(both.end(), c.begin(), c.end());
    std::sort(both.begin(), both.end());
    both.erase(std::unique(both.begin(), both.end()), both.end());
    know(both);
    std::vector<H32> rt = roots();
    Pollard p(rt, n);
    sx_assert(p.NumLeaves() == n && sameHashes(rootsOf(p), rt), "a restored pollard reports the roots and leaf count");
    auto hashesAt = [&](const std::vector<uint64_t>& v) { std::vector<H32> r; for (uint64_t x : v) r.push_back(node[{0, x}]); return r; };
    auto proofOf = [&](const std::vector<uint64_t>& v) { std::vector<H32> r; for (auto& q : proofNodes(v)) r.push_back(node[q]); return r; };
    if (!c.empty()) {
        sx_assert(p.Verify(BatchProof(c, proofOf(c)), hashesAt(c)), "an honest proof is accepted");
#if PROP != 20
        BatchProof b;
        sx_assert(p.Prove(b, hashesAt(c)) && sameU64s(b.GetTargets(), c) && sameHashes(b.GetHashes(), proofOf(c)), "a verified leaf is provable with the same proof");
#endif
    }
    uint64_t nodes = p.CountNodes(), cached = p.NumCachedLeaves();
#if PROP == 15
    std::vector<H32> ph;
    bool omit = sx_flag("omit");
    for (auto& q : proofNodes(t)) if (!(omit && isHeld(q.first, q.second, c))) ph.push_back(node[q]);
    sx_assert(p.Verify(BatchProof(t, ph), hashesAt(t)), "an honest proof is accepted");
    if (omit && ph.size() < proofNodes(t).size()) sx_reach("omitted");
    for (uint64_t x : t) {
        BatchProof b;
        sx_assert(p.Prove(b, {node[{0, x}]}) && sameU64s(b.GetTargets(), {x}) && sameHashes(b.GetHashes(), proofOf({x})), "a verified leaf is provable with the right proof");
    }
#else
    std::vector<uint64_t> given(t);
#if PROP == 20
    for (auto& x : given) if (sx_flag("any")) x = sx_u64("target");
#endif
    uint64_t want = proofNodes(t).size();
    // all proof hashes, or a few less, or one more
    uint64_t less = choose("less", 3);
    std::vector<H32> ph;
    for (uint64_t i = 0; i + less < want + 1; i++) ph.push_back(arbitrary("proof"));
    std::vector<H32> th;
    for (size_t i = 0; i < t.size(); i++) th.push_back(arbitrary("target"));
    bool ok = p.Verify(BatchProof(given, ph), th);
    sx_trace("ok", ok);
#if PROP == 14
    if (ok) {
        sx_assert(sameHashes(th, hashesAt(t)), "a proof is accepted only if every target hash is the leaf there");
        if (!t.empty()) sx_reach("accepted");
    }
#elif PROP == 31
    if (ok && !t.empty()) {
        Pollard q(rt, n);
        if (!c.empty()) q.Verify(BatchProof(c, proofOf(c)), hashesAt(c));
        sx_assert(q.Verify(BatchProof(t, proofOf(t)), hashesAt(t)), "an honest proof is accepted");
        sx_assert(p.CountNodes() == q.CountNodes() && p.NumCachedLeaves() == q.NumCachedLeaves(), "an accepted proof teaches what the honest proof does");
        for (uint64_t x : both) {
            BatchProof b;
            sx_assert(p.Prove(b, {node[{0, x}]}) && sameU64s(b.GetTargets(), {x}) && sameHashes(b.GetHashes(), proofOf({x})), "a verified leaf is provable with the right proof");
        }
        sx_assert(p.Verify(BatchProof(both, proofOf(both)), hashesAt(both)), "an honest proof is accepted");
        sx_reach("accepted");
    }
#elif PROP == 16
    if (!ok) {
        sx_assert(p.CountNodes() == nodes && p.NumCachedLeaves() == cached, "a failed verification leaves no trace");
        for (uint64_t x : both) {
            BatchProof b;
            bool k = std::find(c.begin(), c.end(), x) != c.end();
            sx_assert(p.Prove(b, {node[{0, x}]}) == k, "a failed verification changes no provable leaf");
        }
        sx_assert(p.Verify(BatchProof(t, proofOf(t)), hashesAt(t)), "an honest proof is accepted after a failed verification");
    }
#endif
    if (!ok) sx_reach("refused");
#endif
    sx_assert(p.NumLeaves() == n && sameHashes(rootsOf(p), rt), "verification keeps roots and leaf count");
    (void)nodes; (void)cached;
    traceHashes("roots", rootsOf(p));
    sx_reach("end");
}
