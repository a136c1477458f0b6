// Deletion swaps: where leaves end up.
// MODE 0: any leaf count up to 2^MAXROWS, up to MAXK targets anywhere (all symbolic), fate of an arbitrary leaf.
// MODE 1: leaf counts up to MAXN with every target set up to DENSE leaves, else at most MAXK targets or non-targets; fate of all leaves.
#include "spec.h"
#include <state.h>
using namespace utreexo;
#ifndef MINN
#define MINN 1
#endif
#if MODE == 0
extern "C" void harness()
{
    std::vector<uint64_t> t;
    uint64_t n = sx_range("n", 1, 1ull << MAXROWS);
    ForestState st(n);
    unsigned R = (unsigned)sx_conc(st.NumRows());
    unsigned k = (unsigned)sx_pick("k", 0, MAXK);
    for (unsigned i = 0; i < k; i++) {
        t.push_back(sx_u64("target"));
        sx_assume(t[i] < n);
        if (i) sx_assume(t[i - 1] < t[i]);
    }
    auto swaps = st.Transform(t);
    sx_assert(swaps.size() <= R, "swaps happen below the top row");
    uint64_t x = sx_u64("leaf"); // an arbitrary leaf
    sx_assume(x < n);
    uint64_t y = x;
    int good = 1;
    for (unsigned r = 0; r < swaps.size(); r++)
        for (auto& s : swaps[r]) {
            uint64_t off = specOff(R, r), a = s.m_from - off, b = s.m_to - off;
            good = sx_and(good, sx_and(a < (n >> r), b < (n >> r)));
            uint64_t low = y & ((1ull << r) - 1), up = y >> r;
            up = sx_ite(up == a, b, sx_ite(up == b, a, up));
            y = up << r | low;
        }
    sx_assert(good, "swaps exchange whole subtrees of one row inside the forest");
    int isTarget = 0;
    for (uint64_t v : t) isTarget = sx_or(isTarget, v == x);
    sx_assert(sx_and(y < n, (y >= n - k) == isTarget), "exactly the deleted leaves end up behind the survivors");
    auto undo = st.UndoTransform(t);
    uint64_t z = y;
    good = 1;
    for (auto it = undo.rbegin(); it != undo.rend(); ++it) {
        uint64_t len = it->m_is_range_swap ? it->m_range : 1, a = it->m_from, b = it->m_to;
        good = sx_and(good, sx_and(sx_and(a <= n, b <= n), sx_and(sx_and(len <= n - a, len <= n - b), sx_or(a >= b + len, b >= a + len))));
        z = sx_ite(z - a < len, z - a + b, sx_ite(z - b < len, z - b + a, z));
    }
    sx_assert(good, "undo swaps exchange disjoint ranges of leaves");
    sx_assert(z == x, "undo swaps bring every leaf back");
    sx_trace("y", y);
    sx_trace("swaps", undo.size());
    sx_reach("end");
}
#else
extern "C" void harness()
{
    uint64_t n = sx_pick("n", MINN, MAXN);
    unsigned R = specRows(n);
    ForestState st(n);
    std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK), at;
    for (uint64_t i = 0; i < n; i++) at.push_back(i);
    auto swaps = st.Transform(t);
    sx_assert(swaps.size() <= R, "swaps happen below the top row");
    for (unsigned r = 0; r < swaps.size(); r++)
        for (auto& s : swaps[r]) {
            uint64_t off = specOff(R, r), a = s.m_from - off, b = s.m_to - off;
            sx_assert(s.m_from >= off && s.m_to >= off && a < (n >> r) && b < (n >> r), "swaps exchange whole subtrees of one row inside the forest");
            if (a != b) for (uint64_t j = 0; j < (1ull << r); j++) std::swap(at[(a << r) + j], at[(b << r) + j]);
        }
    std::vector<uint8_t> isTarget(n, 0);
    for (uint64_t x : t) isTarget[x] = 1;
    for (uint64_t i = 0; i < n; i++) sx_assert(isTarget[at[i]] == (i >= n - t.size()), "exactly the deleted leaves end up behind the survivors");
    traceU64s("at", at);
    auto undo = st.UndoTransform(t);
    for (auto it = undo.rbegin(); it != undo.rend(); ++it) {
        uint64_t len = it->m_is_range_swap ? it->m_range : 1, a = it->m_from, b = it->m_to;
        sx_assert(a <= n && b <= n && len <= n - a && len <= n - b && (a >= b + len || b >= a + len), "undo swaps exchange disjoint ranges of leaves");
        for (uint64_t j = 0; j < len; j++) std::swap(at[a + j], at[b + j]);
    }
    for (uint64_t i = 0; i < n; i++) sx_assert(at[i] == i, "undo swaps bring every leaf back");
    sx_reach("end");
}
#endif
