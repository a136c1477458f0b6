// C23 and C24: the streaming hasher against the FIPS 180-4 definition, for arbitrary message bytes.
// Runs with the real CSHA512 code (no ideal hash).
#include "acc.h"
#include <crypto/sha512.h>
#include <string.h>
#ifndef MODE
#define MODE 0
#endif
namespace fips {
static const uint64_t K[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull,
    0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull,
    0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull, 0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull,
    0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull,
    0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull,
    0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull,
    0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull,
    0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull, 0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull,
    0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull,
    0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull};
static uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void block(uint64_t* H, const uint8_t* p)
{
    uint64_t W[80];
    for (int t = 0; t < 16; t++) {
        W[t] = 0;
        for (int j = 0; j < 8; j++) W[t] = W[t] << 8 | p[t * 8 + j];
    }
    for (int t = 16; t < 80; t++) {
        uint64_t s1 = rotr(W[t - 2], 19) ^ rotr(W[t - 2], 61) ^ (W[t - 2] >> 6), s0 = rotr(W[t - 15], 1) ^ rotr(W[t - 15], 8) ^ (W[t - 15] >> 7);
        W[t] = s1 + W[t - 7] + s0 + W[t - 16];
    }
    uint64_t a = H[0], b = H[1], c = H[2], d = H[3], e = H[4], f = H[5], g = H[6], h = H[7];
    for (int t = 0; t < 80; t++) {
        uint64_t ch = (e & f) ^ (~e & g), maj = (a & b) ^ (a & c) ^ (b & c);
        uint64_t t1 = h + (rotr(e, 14) ^ rotr(e, 18) ^ rotr(e, 41)) + ch + K[t] + W[t];
        uint64_t t2 = (rotr(a, 28) ^ rotr(a, 34) ^ rotr(a, 39)) + maj;
        h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    H[0] += a; H[1] += b; H[2] += c; H[3] += d; H[4] += e; H[5] += f; H[6] += g; H[7] += h;
}
// the digest after compressing the last n bytes of a message of total bytes into state H
static void finish(uint64_t* H, const uint8_t* msg, size_t n, uint64_t total, uint8_t* out, size_t outlen)
{
    size_t blocks = (n + 1 + 16 + 127) / 128;
    for (size_t k = 0; k < blocks; k++) {
        uint8_t p[128];
        for (size_t i = 0; i < 128; i++) {
            size_t at = k * 128 + i, end = blocks * 128;
            p[i] = at < n ? msg[at] : at == n ? 0x80 : at + 8 >= end ? (uint8_t)(total * 8 >> (8 * (end - 1 - at))) : 0;
        }
        block(H, p);
    }
    for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(H[i / 8] >> (56 - 8 * (i % 8)));
}
// variant 256: SHA-512/256, 512: SHA-512. The first outlen bytes of the digest.
static void hash(int variant, const uint8_t* msg, size_t n, uint8_t* out, size_t outlen)
{
    uint64_t H5[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
    uint64_t H2[8] = {0x22312194fc2bf72cull, 0x9f555fa3c84c64c2ull, 0x2393b86b6f53b151ull, 0x963877195940eabdull, 0x96283ee2a88effe3ull, 0xbe5e1e2553863992ull, 0x2b0199fc2c85b8aaull, 0x0eb72ddc81c52ca2ull};
    uint64_t* H = variant == 256 ? H2 : H5;
    finish(H, msg, n, n, out, outlen);
}
} // namespace fips

#if MODE == 0
// C23: forests and pollards of 2..MAXN leaves, then one leaf deleted and one added
#ifndef MAXN
#define MAXN 2
#endif
static H32 parent(const H32& l, const H32& r)
{
    uint8_t m[64];
    H32 out;
    memcpy(m, l.data(), 32);
    memcpy(m + 32, r.data(), 32);
    fips::hash(256, m, 64, out.data(), 32);
    return out;
}
// the roots of a forest with these leaves in this order, tallest first
static std::vector<H32> treeRoots(std::vector<H32> v)
{
    std::vector<H32> out;
    while (!v.empty()) {
        size_t k = 1;
        while (k * 2 <= v.size()) k *= 2;
        std::vector<H32> t(v.begin(), v.begin() + k);
        v.erase(v.begin(), v.begin() + k);
        for (; t.size() > 1; ) {
            std::vector<H32> u;
            for (size_t i = 0; i < t.size(); i += 2) u.push_back(parent(t[i], t[i + 1]));
            t.swap(u);
        }
        out.push_back(t[0]);
    }
    return out;
}
static void same(Accumulator& a, const std::vector<H32>& leaves)
{
    std::vector<H32> want = treeRoots(leaves);
    std::vector<Hash> got;
    a.Roots(got);
    if (got.size() != want.size()) sx_fail("wrong number of roots");
    for (size_t i = 0; i < want.size(); i++) sx_same(got[i].data(), want[i].data(), 32, "a node hash is not the SHA-512/256 of left then right child");
}
extern "C" void harness()
{
    size_t n = sx_pick("leaves", 2, MAXN);
    std::vector<H32> hashes(n);
    for (auto& h : hashes) sx_sym(h.data(), 32, "leaf");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) sx_assume(!sx_eqbytes(hashes[i].data(), hashes[j].data(), 32));
    RamForest f(0);
    Pollard p(0);
    UndoBatch undo;
    f.Modify(undo, asLeaves(hashes), {});
    static_cast<Accumulator&>(p).Modify(asLeaves(hashes, true), {});
    same(f, hashes);
    same(p, hashes);
    sx_reach("added");
    // delete the last leaf but one: its sibling or the last leaf moves
    static_assert(MAXN <= 4, "");
    uint64_t t = n - 2;
    BatchProof proof;
    if (!f.Prove(proof, {Hash(hashes[t])})) sx_fail("no proof");
    if (!p.Verify(proof, {Hash(hashes[t])})) sx_fail("an honest proof is refused");
    sx_reach("verified");
    f.Modify(undo, {}, {t});
    static_cast<Accumulator&>(p).Modify({}, {t});
    std::vector<H32> left = hashes;
    left.erase(left.begin() + t);
    same(f, left);
    same(p, left);
    sx_reach("deleted");
}
#elif MODE == 3
// C24, messages of any length: a hasher that has compressed any number of blocks to any state and holds TAILS bytes, then writes
// LASTS bytes and is finalized. State and count are found in the hasher by what they are after writing; where the hasher keeps them otherwise
// there is nothing to decide here.
static int wordAt(const CSHA512& h, size_t i, uint64_t& w)
{
    if ((i + 1) * 8 > sizeof(CSHA512)) return 0;
    memcpy(&w, (const uint8_t*)&h + i * 8, 8);
    return 1;
}
extern "C" void harness()
{
    static const size_t tails[] = {TAILS}, lasts[] = {LASTS};
    const size_t r = tails[sx_pick("held", 0, sizeof(tails) / sizeof(*tails) - 1)], l = lasts[sx_pick("last", 0, sizeof(lasts) / sizeof(*lasts) - 1)];
    static const uint64_t iv[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
    size_t count = 0, state = 0, nc = 0, ns = 0;
    {
        uint8_t zero[128] = {0};
        CSHA512 x, y;
        memset((void*)&x, 0, sizeof x);
        memset((void*)&y, 0, sizeof y);
        x.Reset();
        y.Reset();
        x.Write(zero, 77);
        y.Write(zero, 105);
        for (size_t i = 0; i < sizeof(CSHA512) / 8; i++) {
            uint64_t a, b;
            wordAt(x, i, a);
            wordAt(y, i, b);
            if (a == 77 && b == 105) count = i, nc++;
            int same = 1;
            for (size_t k = 0; k < 8; k++) same &= wordAt(x, i + k, a) && a == iv[k];
            if (same) state = i, ns++;
        }
    }
    if (nc != 1 || ns != 1) return;
    std::vector<uint8_t> msg(r + l + 1);
    for (size_t i = 0; i < r + l; i += 128) sx_sym(msg.data() + i, r + l - i < 128 ? r + l - i : 128, "message");
    uint64_t S[8], S2[8], blocks = sx_u64("blocks") >> 11;
    sx_sym(S, 64, "state");
    CSHA512 h;
    h.Write(msg.data(), r);
    memcpy((uint8_t*)&h + state * 8, S, 64);
    uint64_t total = blocks * 128 + r;
    memcpy((uint8_t*)&h + count * 8, &total, 8);
    sx_assert(h.Size() == total, "Size is not the number of bytes written");
    h.Write(msg.data() + r, l);
    sx_assert(h.Size() == total + l, "Size is not the number of bytes written");
    CSHA512 other = h;
    uint8_t want[64], got[64], got2[64];
    h.Finalize256(got);
    other.Finalize(got2);
    memcpy(S2, S, 64);
    fips::finish(S2, msg.data(), r + l, total + l, want, 64);
    sx_same(got2, want, 64, "the digest is not that of the bytes written");
    sx_same(got, want, 32, "the digest is not that of the bytes written");
    sx_reach("any length");
}
#else
// C24
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 8
#endif
#ifndef CUTSTEP
#define CUTSTEP 1
#endif
#ifndef CUTS
#define CUTS 1
#endif
extern "C" void harness()
{
    size_t n = sx_pick("length", LO, HI);
    std::vector<uint8_t> msg(n + 1);
    for (size_t i = 0; i < n; i += 128) sx_sym(msg.data() + i, n - i < 128 ? n - i : 128, "message");
    uint8_t want[64], got[64], got2[80];
#ifdef VARIANT256
    CSHA512 h{(int)CSHA512::OUTPUT_SIZE_256};
    const int variant = 256;
#else
    CSHA512 h;
    const int variant = 512;
#endif
#ifdef RESET
    // whatever was written before does not matter after Reset
    size_t pre = sx_pick("before", 0, RESET);
    std::vector<uint8_t> junk(pre + 1);
    sx_sym(junk.data(), pre, "junk");
    h.Write(junk.data(), pre);
    if (sx_flag("finalized")) h.Finalize(got);
    h.Reset();
    sx_assert(h.Size() == 0, "Size after Reset");
#endif
    size_t at = 0;
    for (int i = 0; i < CUTS; i++) {
        size_t k = sx_pick("cut", 0, (n - at) / CUTSTEP) * CUTSTEP;
        h.Write(msg.data() + at, k);
        at += k;
        sx_assert(h.Size() == at, "Size is not the number of bytes written");
    }
    h.Write(msg.data() + at, n - at);
    sx_assert(h.Size() == n, "Size is not the number of bytes written");
#ifdef RESET
    const int v = 512; // Reset starts a SHA-512
#else
    const int v = variant;
#endif
    CSHA512 other = h;
    memset(got, 0xa5, 64);
    h.Finalize256(got);
    for (size_t i = 32; i < 64; i++) sx_assert(got[i] == 0xa5, "bytes beyond the digest written");
    memset(got2, 0xa5, 80);
    other.Finalize(got2);
    for (size_t i = 64; i < 80; i++) sx_assert(got2[i] == 0xa5, "bytes beyond the digest written");
#if MODE == 1
    // against the definition
    fips::hash(v, msg.data(), n, want, 64);
#else
    // against the same bytes in one write
    CSHA512 one = v == 256 ? CSHA512{(int)CSHA512::OUTPUT_SIZE_256} : CSHA512{};
    one.Write(msg.data(), n);
    sx_assert(one.Size() == n, "Size is not the number of bytes written");
    one.Finalize(want);
#endif
    sx_same(got2, want, 64, MODE == 1 ? "the digest is not that of the bytes written" : "the digest depends on how the bytes were split into writes");
    sx_same(got, want, 32, MODE == 1 ? "the digest is not that of the bytes written" : "the digest depends on how the bytes were split into writes");
    sx_reach("digest");
}
#endif
