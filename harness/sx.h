// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sx_sym(void* p, size_t n, const char* name); // n arbitrary bytes
uint64_t sx_u64(const char* name);
uint32_t sx_u32(const char* name);
uint8_t sx_u8(const char* name);
int sx_bool(const char* name);                    // 0 or 1
void sx_atom(void* p32);                          // an arbitrary leaf hash: differs from all other leaf hashes, from constants and from every digest
uint64_t sx_conc(uint64_t v);                     // explore every feasible value of v, one per path
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_same(const void* a, const void* b, size_t n, const char* msg); // assert equal bytes; for large terms
void sx_fail(const char* msg);
void sx_reach(const char* label);                 // witness that the path is not vacuous
void sx_trace(const char* name, uint64_t v);      // observation compared with the native run
void sx_trace_bytes(const char* name, const void* p, size_t n);
void sx_ideal_hash(void* out32, const void* data, size_t n); // SHA-512/256 of data
int sx_eqbytes(const void* a, const void* b, size_t n);      // equality as a value, no branching
int sx_and(int a, int b);
int sx_or(int a, int b);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
const char* sx_path(int i);                       // a file name private to this run
uint64_t sx_heap();                               // bytes that operator new gave out and nobody gave back (and 16 per object)
void sx_file_limit(uint64_t n);                   // from here on writing past the first n bytes of a file fails
void harness();
}
static inline uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) // symbolic value in [lo, hi]
{
    uint64_t v = sx_u64(name);
    sx_assume(v >= lo);
    sx_assume(v <= hi);
    return v;
}
static inline uint64_t sx_pick(const char* name, uint64_t lo, uint64_t hi) // one path per value the solver finds in [lo, hi]
{
    return lo == hi ? lo : sx_conc(sx_range(name, lo, hi));
}
__attribute__((noinline, optnone)) static int sx_flag(const char* name) // 0 or 1, one path each
{
    if (sx_bool(name)) return 1;
    return 0;
}
