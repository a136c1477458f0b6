// Roots and paths of a forest.
// MODE 0: any leaf count up to 2^MAXROWS, one row / one node at a time. MODE 1: whole root lists for leaf counts up to MAXN.
// MODE 2: whole root lists for leaf counts with at most BITS set bits, up to 2^MAXROWS.
#include "spec.h"
#include <state.h>
using namespace utreexo;
static uint8_t popc(uint64_t x)
{
    uint8_t c = 0;
    for (int k = 0; k < 64; k++) c += (uint8_t)((x >> k) & 1);
    return c;
}
#if MODE == 0
extern "C" void harness()
{
    uint64_t n = sx_range("n", 1, (1ull << MAXROWS));
    ForestState st(n);
    unsigned R = (unsigned)sx_conc(st.NumRows());
    sx_assert(st.NumRoots() == popc(n), "number of roots");
    #ifdef MAXROW
    unsigned r = (unsigned)sx_pick("row", 0, R < MAXROW ? R : MAXROW);
#else
    unsigned r = (unsigned)sx_pick("row", 0, R);
#endif
    sx_assert(st.HasRoot((uint8_t)r) == ((n >> r) & 1), "root on a row iff the bit is set");
    if ((n >> r) & 1) {
        sx_assert(st.RootPosition((uint8_t)r) == specOff(R, r) + (n >> r) - 1, "root position");
        sx_reach("root");
    }
    // an existing node: all its leaves are in the forest
    uint64_t i = sx_u64("index");
    sx_assume(i < (n >> r));
    uint64_t pos = specOff(R, r) | i;
    auto [tree, len, bits] = st.Path(pos);
    unsigned l = (unsigned)sx_conc(len);
    sx_assert(r + l <= R, "distance to the root is within the forest");
    unsigned t = r + l;
    sx_assert((n >> t) & 1, "there is a tree of the height the path ends at");
    uint64_t base = t + 1 < 64 ? n >> (t + 1) << (t + 1) : 0;
    uint64_t leaf = i << r;
    sx_assert(base <= leaf && leaf - base < (1ull << t), "the named tree contains the node");
    sx_assert(tree == popc(n >> (t + 1)), "trees are counted from the tallest");
    uint64_t turns = (leaf - base) >> r;
    sx_assert((~bits & ((1ull << l) - 1)) == turns, "turns from the root to the node");
    sx_assert(st.RootIndex(pos) == tree, "root index is the tree of the path");
    sx_trace("tree", tree);
    sx_trace("len", len);
    sx_reach("end");
}
#else
extern "C" void harness()
{
#if MODE == 1
    uint64_t n = sx_pick("n", 0, MAXN);
#else
    uint64_t n = 0;
    unsigned hi = MAXROWS;
    for (int k = 0; k < BITS; k++) {
        unsigned b = (unsigned)sx_pick("bit", 0, hi);
        n |= 1ull << b;
        if (b == 0) break;
        hi = b - 1;
        if (k + 1 < BITS && !sx_bool("more")) break;
    }
#endif
    ForestState st(n);
    unsigned R = specRows(n);
    std::vector<uint64_t> want, got = st.RootPositions();
    uint64_t covered = 0;
    for (int r = (int)R; r >= 0; r--)
        if ((n >> r) & 1) {
            uint64_t i = (n >> r) - 1;
            sx_assert(i << r == covered, "trees cover the leaves in order without gap or overlap");
            covered += 1ull << r;
            want.push_back(specOff(R, r) + i);
        }
    sx_assert(covered == n, "every leaf is under a root");
    sx_assert(sameU64s(got, want), "root positions, tallest first");
    sx_assert(st.NumRoots() == want.size(), "number of roots");
    for (size_t k = 0; k < want.size(); k++) {
        auto [tree, len, bits] = st.Path(want[k]);
        sx_assert(tree == k && len == 0, "a root is the top of its own tree");
    }
#if MODE == 1
    uint64_t m = sx_pick("m", 0, n);
#else
    uint64_t m = n & (n - 1);
#endif
    std::vector<uint64_t> wantm;
    for (int r = (int)R; r >= 0; r--)
        if ((m >> r) & 1) wantm.push_back(specOff(R, r) + (m >> r) - 1);
    sx_assert(sameU64s(st.RootPositions(m), wantm), "root positions after deletions, in the old numbering");
    traceU64s("roots", got);
    sx_reach("end");
}
#endif
