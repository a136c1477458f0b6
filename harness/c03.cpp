// Proof and computed positions against their definition.
// MODE 0: any leaf count up to 2^MAXROWS, up to MAXK targets anywhere (all symbolic), membership of an arbitrary node.
// MODE 1: leaf counts up to MAXN with every target set up to DENSE leaves, else at most MAXK targets or non-targets; whole lists.
#include "spec.h"
#include <state.h>
using namespace utreexo;
#ifndef MINN
#define MINN 0
#endif
extern "C" void harness()
{
#if MODE == 0
    uint64_t n = sx_range("n", 1, 1ull << MAXROWS);
    ForestState st(n);
    unsigned R = (unsigned)sx_conc(st.NumRows());
    unsigned k = (unsigned)sx_pick("k", 0, MAXK);
    std::vector<uint64_t> t;
    for (unsigned i = 0; i < k; i++) {
        t.push_back(sx_u64("target"));
        sx_assume(t[i] < n);
        if (i) sx_assume(t[i - 1] < t[i]);
    }
    auto [proof, computed] = st.ProofPositions(t);
    int asc = 1;
    for (size_t i = 0; i < computed.size(); i++) asc = sx_and(asc, sx_and(computed[i] < (2ull << R) - 1, i == 0 || computed[i - 1] < computed[i]));
    sx_assert(asc, "computed positions ascend without duplicates");
    asc = 1;
    for (size_t i = 0; i < proof.size(); i++) asc = sx_and(asc, sx_and(proof[i] < (2ull << R) - 1, i == 0 || proof[i - 1] < proof[i]));
    sx_assert(asc, "proof positions ascend without duplicates");
    // an arbitrary node of the numbering
    unsigned r = (unsigned)sx_pick("row", 0, R);
    uint64_t i = sx_u64("index");
    sx_assume(i < (1ull << (R - r)));
    uint64_t pos = specOff(R, r) | i;
    int isComputed = 0, isSibling = 0, gotC = 0, gotP = 0;
    int exists = i < (n >> r), root = sx_and((n >> r) & 1, i == (n >> r) - 1);
    for (uint64_t x : t) {
        isComputed = sx_or(isComputed, x >> r == i);
        isSibling = sx_or(isSibling, x >> r == (i ^ 1));
    }
    isComputed = sx_and(isComputed, exists);
    isSibling = sx_and(sx_and(isSibling, exists), sx_and(!isComputed, sx_and(!root, (i ^ 1) < (n >> r))));
    for (uint64_t x : computed) gotC = sx_or(gotC, x == pos);
    for (uint64_t x : proof) gotP = sx_or(gotP, x == pos);
    sx_assert(gotC == isComputed, "computed positions are the targets and their ancestors");
    sx_assert(gotP == isSibling, "proof positions are the siblings not computed");
    sx_trace("computed", computed.size());
    sx_trace("proof", proof.size());
    for (uint64_t x : proof) sx_trace("p", x);
#else
    uint64_t n = sx_pick("n", MINN, MAXN);
    std::vector<uint64_t> t = pickTargets(n, DENSE, MAXK);
    SpecProof s(n, t);
    auto [proof, computed] = ForestState(n).ProofPositions(t);
    sx_assert(sameU64s(computed, s.computed), "computed positions are the targets and their ancestors");
    sx_assert(sameU64s(proof, s.proof), "proof positions are the siblings not computed");
    traceU64s("p", proof);
#endif
    sx_reach("end");
}
