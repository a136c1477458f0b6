// Node numbering against the arithmetic definition, for every leaf count up to 2^MAXROWS.
#include "spec.h"
#include <state.h>
using namespace utreexo;
extern "C" void harness()
{
    uint64_t n = sx_range("n", 1, 1ull << MAXROWS);
    ForestState st(n);
    unsigned R = (unsigned)sx_conc(st.NumRows());
    sx_assert(R <= MAXROWS && n <= (1ull << R) && (R == 0 || n > (1ull << (R - 1))), "number of rows");
    sx_assert(st.MaxNodes() == (2ull << R) - 1, "node count of the numbering");
    unsigned r = (unsigned)sx_pick("row", 0, R);
    uint64_t i = sx_u64("index");
    sx_assume(i < (1ull << (R - r)));
    uint64_t pos = specOff(R, r) | i;
    int rows = sx_and(st.DetectRow(pos) == r, sx_and(st.RowOffset(pos) == specOff(R, r), st.RowOffset((uint8_t)r) == specOff(R, r)));
    sx_assert(rows, "row and row offset of a node");
    if (r < R) {
        int up = sx_and(st.Parent(pos) == specOff(R, r + 1) + (i >> 1), sx_and(st.Sibling(pos) == specOff(R, r) + (i ^ 1), st.RightSibling(pos) == specOff(R, r) + (i | 1)));
        up = sx_and(up, st.Ancestor(pos, 1) == st.Parent(pos));
        if (r + 1 < R) up = sx_and(up, st.Cousin(pos) == specOff(R, r) + (i ^ 2));
        sx_assert(up, "parent, sibling, right sibling, cousin");
        uint64_t k = sx_range("rise", 1, R - r);
        uint64_t off = (2ull << R) - ((2ull << (R - r)) >> k);
        sx_assert(sx_and(st.Ancestor(pos, 0) == pos, st.Ancestor(pos, (uint8_t)k) == off + (i >> k)), "ancestors");
        sx_reach("inner");
    }
    if (r > 0) {
        uint64_t c = specOff(R, r - 1) + 2 * i;
        sx_assert(pos >= n, "inner positions come after all leaves");
        int down = sx_and(st.LeftChild(pos) == c, sx_and(st.Child(pos, 0) == c, st.Child(pos, 1) == c + 1));
        down = sx_and(down, sx_and(st.Parent(st.Child(pos, 0)) == pos, st.Parent(st.Child(pos, 1)) == pos));
        uint64_t k = sx_range("drop", 1, r);
        uint64_t off = (2ull << R) - ((2ull << (R - r)) << k);
        down = sx_and(down, sx_and(st.LeftDescendant(pos, 0) == pos, st.LeftDescendant(pos, (uint8_t)k) == off + (i << k)));
        sx_assert(down, "children and left descendants");
        sx_reach("children");
    }
    sx_trace("pos", pos);
    sx_trace("parent", st.Parent(pos));
    sx_reach("end");
}
