#include <signal.h>
#include <sys/resource.h>
// Native side of sx.h: runs a harness on recorded inputs against the real build.
#include "../harness/sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <string>
#include <vector>
#include <unistd.h>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> ins;
static size_t pos;
static void load()
{
    static bool done = false;
    if (done) return;
    done = true;
    const char* p = getenv("SX_INPUT");
    FILE* f = p ? fopen(p, "r") : nullptr;
    if (!f) { fprintf(stderr, "no SX_INPUT\n"); _exit(78); }
    static char line[1 << 16], nm[256], hx[1 << 16];
    unsigned n;
    while (fgets(line, sizeof line, f)) {
        hx[0] = 0;
        if (sscanf(line, "in %255s %u %65000s", nm, &n, hx) < 2) continue;
        In i;
        i.name = nm;
        for (unsigned k = 0; k < n; k++) { unsigned v = 0; sscanf(hx + 2 * k, "%2x", &v); i.b.push_back((unsigned char)v); }
        ins.push_back(i);
    }
    fclose(f);
}
static void take(void* p, size_t n, const char* name)
{
    load();
    if (pos >= ins.size() || ins[pos].name != name || ins[pos].b.size() != n) {
        fprintf(stderr, "sx: input mismatch at %zu: want %s/%zu have %s/%zu\n", pos, name, n, pos < ins.size() ? ins[pos].name.c_str() : "-", pos < ins.size() ? ins[pos].b.size() : 0);
        fflush(stdout);
        _exit(79);
    }
    memcpy(p, ins[pos++].b.data(), n);
}
// counted for sx_heap; malloc keeps the checks of the sanitizer
static uint64_t news;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); news += malloc_usable_size(p) + 16; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) news -= malloc_usable_size(p) + 16; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) news += malloc_usable_size(p) + 16; return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
extern "C" {
uint64_t sx_heap() { return news; }
void sx_sym(void* p, size_t n, const char* name) { if (n) take(p, n, name); }
uint64_t sx_u64(const char* n) { uint64_t v; take(&v, 8, n); return v; }
uint32_t sx_u32(const char* n) { uint32_t v; take(&v, 4, n); return v; }
uint8_t sx_u8(const char* n) { uint8_t v; take(&v, 1, n); return v; }
int sx_bool(const char* n) { uint8_t v; take(&v, 1, n); return v & 1; }
void sx_atom(void* p) { take(p, 32, "atom"); }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_assume(int c) { if (!c) { fprintf(stderr, "sx: assumption does not hold\n"); fflush(stdout); _exit(77); } }
void sx_assert(int c, const char* m) { if (!c) { fprintf(stderr, "PROPERTY VIOLATED: %s\n", m); fflush(stdout); _exit(1); } }
void sx_fail(const char* m) { sx_assert(0, m); }
void sx_same(const void* a, const void* b, size_t n, const char* m) { sx_assert(memcmp(a, b, n) == 0, m); }
void sx_reach(const char*) {}
void sx_trace(const char* n, uint64_t v) { printf("tr %s %llx\n", n, (unsigned long long)v); }
void sx_trace_bytes(const char* n, const void* p, size_t k) { printf("tr %s ", n); for (size_t i = 0; i < k; i++) printf("%02x", ((const unsigned char*)p)[i]); printf("\n"); }
int sx_eqbytes(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
int sx_and(int a, int b) { return a && b; }
int sx_or(int a, int b) { return a || b; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
const char* sx_path(int i)
{
    static std::string s[4];
    const char* d = getenv("SX_TMP");
    s[i & 3] = std::string(d ? d : "/tmp") + "/f" + std::to_string(i);
    return s[i & 3].c_str();
}
void sx_file_limit(uint64_t n)
{
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit r;
    getrlimit(RLIMIT_FSIZE, &r);
    r.rlim_cur = n > r.rlim_max ? r.rlim_max : n;
    setrlimit(RLIMIT_FSIZE, &r);
}
// independent SHA-512/256
static uint64_t rr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
extern const uint64_t sx_K[80];
void sx_ideal_hash(void* out, const void* data, size_t n)
{
    std::vector<unsigned char> m((const unsigned char*)data, (const unsigned char*)data + n);
    uint64_t s[8] = {0x22312194fc2bf72cull, 0x9f555fa3c84c64c2ull, 0x2393b86b6f53b151ull, 0x963877195940eabdull, 0x96283ee2a88effe3ull, 0xbe5e1e2553863992ull, 0x2b0199fc2c85b8aaull, 0x0eb72ddc81c52ca2ull};
    m.push_back(0x80);
    while (m.size() % 128 != 112) m.push_back(0);
    for (int i = 0; i < 8; i++) m.push_back(0);
    for (int i = 7; i >= 0; i--) m.push_back((unsigned char)((n * 8ull) >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 128) {
        uint64_t W[80], v[8];
        for (int i = 0; i < 16; i++) { W[i] = 0; for (int j = 0; j < 8; j++) W[i] = W[i] << 8 | m[o + 8 * i + j]; }
        for (int i = 16; i < 80; i++) W[i] = (rr(W[i - 2], 19) ^ rr(W[i - 2], 61) ^ (W[i - 2] >> 6)) + W[i - 7] + (rr(W[i - 15], 1) ^ rr(W[i - 15], 8) ^ (W[i - 15] >> 7)) + W[i - 16];
        memcpy(v, s, sizeof v);
        for (int i = 0; i < 80; i++) {
            uint64_t t1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + sx_K[i] + W[i];
            uint64_t t2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            for (int k = 7; k > 0; k--) v[k] = v[k - 1];
            v[4] += t1;
            v[0] = t1 + t2;
        }
        for (int k = 0; k < 8; k++) s[k] += v[k];
    }
    for (int i = 0; i < 32; i++) ((unsigned char*)out)[i] = (unsigned char)(s[i / 8] >> (8 * (7 - i % 8)));
}
}
int main()
{
    load();
    harness();
    fflush(stdout);
    return 0;
}
extern "C" { extern const uint64_t sx_K[80]; const uint64_t sx_K[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull, 0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull, 0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull, 0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull, 0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull, 0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull, 0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull, 0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull}; }
