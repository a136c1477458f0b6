// Histories over the real accumulators, next to a reference list of leaves.
#pragma once
#include "spec.h"
#include <algorithm>
#include <include/batchproof.h>
#include <include/pollard.h>
#include <include/ram_forest.h>
#include <memory>
using namespace utreexo;
static_assert(sizeof(Hash) == sizeof(H32), "");
static inline H32 newLeaf()
{
    H32 h;
    sx_atom(h.data());
    return h;
}
static inline std::vector<H32> newLeaves(uint64_t n)
{
    std::vector<H32> v;
    for (uint64_t i = 0; i < n; i++) v.push_back(newLeaf());
    return v;
}
static inline std::vector<Leaf> asLeaves(const std::vector<H32>& v, bool remember = false)
{
    std::vector<Leaf> r;
    for (auto& h : v) r.push_back(Leaf(h, remember));
    return r;
}
// 0..max, one path each
static inline uint64_t choose(const char* name, uint64_t max)
{
    uint64_t r = 0;
    while (r < max && sx_flag(name)) r++;
    return r;
}
// Up to max additions: new leaves or, with AGAIN, leaves that were deleted before (gone).
static inline std::vector<H32> additions(uint64_t max, std::vector<H32>& gone)
{
    std::vector<H32> v;
    for (uint64_t k = choose("adds", max); k > 0; k--) {
#ifdef AGAIN
        if (!gone.empty() && sx_flag("again")) {
            uint64_t i = choose("which", gone.size() - 1);
            v.push_back(gone[i]);
            gone.erase(gone.begin() + (long)i);
            sx_reach("again");
            continue;
        }
#endif
        v.push_back(newLeaf());
    }
    (void)gone;
    return v;
}
struct Block {
    std::vector<uint64_t> targets;
    std::vector<Leaf> adds;
};
// What a forest stores, read through its public interface.
static inline std::vector<H32> stored(const RamForest& f)
{
    std::vector<H32> v;
    for (uint64_t i = 0; i < f.NumLeaves(); i++) v.push_back(f.GetLeaf(i));
    return v;
}
static inline std::vector<H32> rootsOf(const Accumulator& a)
{
    std::vector<H32> v;
    a.Roots(v);
    return v;
}
static inline int occursOnce(const H32& h, const std::vector<H32>& v)
{
    unsigned c = 0;
    for (auto& x : v) c += sameHash(x, h);
    return c == 1;
}
static inline std::vector<H32> survivors(const std::vector<H32>& v, const std::vector<uint64_t>& targets)
{
    std::vector<uint8_t> dead(v.size(), 0);
    for (uint64_t t : targets) dead[t] = 1;
    std::vector<H32> r;
    for (size_t i = 0; i < v.size(); i++) if (!dead[i]) r.push_back(v[i]);
    return r;
}
static inline std::vector<H32> at(const std::vector<H32>& v, const std::vector<uint64_t>& pos)
{
    std::vector<H32> r;
    for (uint64_t p : pos) r.push_back(v[p]);
    return r;
}
// after is before without the targets, in any order, followed by the added leaves
static inline int movedRight(const std::vector<H32>& before, const std::vector<uint64_t>& targets, const std::vector<Leaf>& adds, const std::vector<H32>& after)
{
    std::vector<H32> keep = survivors(before, targets);
    if (after.size() != keep.size() + adds.size()) return 0;
    int r = 1;
    std::vector<H32> head(after.begin(), after.begin() + keep.size());
    for (auto& h : keep) r = sx_and(r, occursOnce(h, head));
    for (size_t i = 0; i < adds.size(); i++) r = sx_and(r, sameHash(adds[i].first, after[keep.size() + i]));
    return r;
}
// the proof an honest prover has to give for these positions (any order) of these leaves
static inline int rightProof(const BatchProof& p, const std::vector<H32>& leaves, const std::vector<uint64_t>& pos)
{
    std::vector<uint64_t> sorted(pos);
    std::sort(sorted.begin(), sorted.end());
    SpecForest sf(leaves);
    SpecProof sp(leaves.size(), sorted);
    std::vector<H32> want;
    for (auto [r, i] : sp.proofNode) want.push_back(sf.row[r][i]);
    return sx_and(sameU64s(p.GetTargets(), pos), sx_and(sameU64s(p.GetSortedTargets(), sorted), sameHashes(p.GetHashes(), want)));
}
