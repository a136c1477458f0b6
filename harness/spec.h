// Reference definitions the harnesses compare the library with. Nothing here calls the library.
#pragma once
#include "sx.h"
#include <array>
#include <vector>
typedef std::array<uint8_t, 32> H32;
// Rows of a forest with n leaves: the smallest R with 2^R >= n.
static inline unsigned specRows(uint64_t n)
{
    unsigned r = 0;
    while (r < 63 && (1ull << r) < n) r++;
    return r;
}
// First position of row r in a forest with R rows.
static inline uint64_t specOff(unsigned R, unsigned r) { return (2ull << R) - (2ull << (R - r)); }
static inline bool specIsRoot(uint64_t n, unsigned r, uint64_t i) { return ((n >> r) & 1) && i == (n >> r) - 1; }
struct SpecForest {
    uint64_t n;
    unsigned R;
    std::vector<std::vector<H32>> row; // row[r][i]: hash over the leaves [i << r, (i + 1) << r)
    SpecForest(const std::vector<H32>& leaves) : n(leaves.size()), R(specRows(leaves.size()))
    {
        row.push_back(leaves);
        for (unsigned r = 1; r <= R; r++) {
            std::vector<H32> v;
            for (uint64_t i = 0; i < (n >> r); i++) {
                uint8_t b[64];
                for (int k = 0; k < 32; k++) { b[k] = row[r - 1][2 * i][k]; b[32 + k] = row[r - 1][2 * i + 1][k]; }
                H32 h;
                sx_ideal_hash(h.data(), b, 64);
                v.push_back(h);
            }
            row.push_back(v);
        }
    }
    std::vector<H32> roots() const
    {
        std::vector<H32> v;
        for (int r = (int)R; r >= 0; r--)
            if ((n >> r) & 1) v.push_back(row[r][(n >> r) - 1]);
        return v;
    }
};
// Which nodes a proof of the (concrete) targets computes, and which siblings it needs, in position order.
struct SpecProof {
    std::vector<uint64_t> proof, computed;
    std::vector<std::pair<unsigned, uint64_t>> proofNode; // (row, index) of every proof position
    SpecProof(uint64_t n, const std::vector<uint64_t>& targets)
    {
        unsigned R = specRows(n);
        std::vector<uint8_t> cur(n, 0);
        for (uint64_t t : targets) cur[t] = 1;
        for (unsigned r = 0; r <= R; r++) {
            std::vector<uint8_t> next((n >> (r + 1)) + 1, 0);
            for (uint64_t i = 0; i < (n >> r); i++) {
                if (!cur[i]) continue;
                computed.push_back(specOff(R, r) + i);
                if (!specIsRoot(n, r, i)) next[i >> 1] = 1;
            }
            for (uint64_t i = 0; i < (n >> r); i++) {
                if (cur[i] || specIsRoot(n, r, i)) continue;
                if (cur[i ^ 1]) {
                    proof.push_back(specOff(R, r) + i);
                    proofNode.push_back({r, i});
                }
            }
            cur = next;
        }
    }
};
static inline int sameHash(const H32& a, const H32& b) { return sx_eqbytes(a.data(), b.data(), 32); }
static inline int sameHashes(const std::vector<H32>& a, const std::vector<H32>& b)
{
    if (a.size() != b.size()) return 0;
    int r = 1;
    for (size_t i = 0; i < a.size(); i++) r = sx_and(r, sameHash(a[i], b[i]));
    return r;
}
static inline int sameU64s(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
{
    if (a.size() != b.size()) return 0;
    int r = 1;
    for (size_t i = 0; i < a.size(); i++) r = sx_and(r, a[i] == b[i]);
    return r;
}
static inline void traceHashes(const char* name, const std::vector<H32>& v)
{
    sx_trace(name, v.size());
    for (auto& h : v) sx_trace_bytes(name, h.data(), 32);
}
static inline void traceU64s(const char* name, const std::vector<uint64_t>& v)
{
    sx_trace(name, v.size());
    for (auto h : v) sx_trace(name, h);
}
// A set of targets among n leaves (n concrete): any set if n <= dense, otherwise at most k leaves or all but at most k leaves.
static inline std::vector<uint64_t> pickTargets(uint64_t n, uint64_t dense, unsigned k)
{
    std::vector<uint64_t> t;
#ifdef SHAPED
    // a pattern over 4 runs of 1, 2, 4, ... leaves, repeated, with up to k exceptions
    if (n > dense) {
        unsigned mask = (unsigned)sx_pick("pattern", 0, 15), shift = (unsigned)sx_pick("runs", 0, SHAPED), left = k;
        for (uint64_t i = 0; i < n; i++) {
            unsigned flip = left > 0 ? sx_flag("target") : 0;
            if (flip) left--;
            if (flip ^ (mask >> (i >> shift & 3) & 1)) t.push_back(i);
        }
        return t;
    }
#endif
#ifdef RUN
    // one run of at most RUN neighbours, or (if RUN is 4 or more) all but such a run
    if (n > dense) {
        uint64_t from = sx_pick("from", 0, n - 1), to = sx_pick("to", from, std::min<uint64_t>(from + RUN, n) - 1) + 1;
        int most = RUN >= 4 ? sx_flag("most") : 0;
        for (uint64_t i = 0; i < n; i++) if ((i >= from && i < to) != most) t.push_back(i);
        return t;
    }
#endif
    unsigned most = n > dense ? sx_flag("most") : 0, left = n > dense ? k : (unsigned)n;
    for (uint64_t i = 0; i < n; i++) {
        unsigned flip = left > 0 ? sx_flag("target") : 0;
        if (flip) left--;
        if (flip ^ most) t.push_back(i);
    }
    return t;
}
// Which of k new leaves are remembered: any choice, or a pattern when SHAPED is defined and k > 4, or at most one when RUN is defined.
static inline std::vector<uint8_t> pickFlags(uint64_t k)
{
    std::vector<uint8_t> v(k);
#ifdef SHAPED
    for (uint64_t i : pickTargets(k, 4, MAXK)) v[i] = 1;
#elif defined RUN
    // one leaf at most
    uint64_t i = sx_pick("remembered", 0, k);
    if (i < k) v[i] = 1;
#else
    for (uint64_t i = 0; i < k; i++) v[i] = sx_flag("remember");
#endif
    return v;
}
