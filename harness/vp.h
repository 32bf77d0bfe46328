// Harness interface.  The same harness source runs symbolically (vpsym interprets its bitcode) and natively
// (native/rt.cpp replays a recorded counterexample against the compiled library).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_main(void);
void vp_sym(void* p, size_t n, const char* name);                       // arbitrary bytes
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi);          // arbitrary integer in [lo,hi]
void vp_assume(int c);
void vp_assert(int c, const char* msg);
void vp_assert_eq(const void* a, const void* b, size_t n, const char* msg);
int vp_eq(const void* a, const void* b, size_t n);                      // equality as a value, no forking
uint64_t vp_ite(int c, uint64_t a, uint64_t b);
void vp_cover(const char* name);                                        // must be reached (vacuity guard)
uint64_t vp_param(const char* name, uint64_t def);
uint64_t vp_concretize(uint64_t v);                                     // exhaustive case split
int vp_prot(const void* p);                                             // 0 none, 1 read-only, 2 read-write, 3 ordinary memory
uint64_t vp_live(void);                                                 // live heap and guarded blocks
uint64_t vp_sodium_live(void);
uint64_t vp_sodium_unlocked(void);                                      // guarded blocks currently accessible
int vp_symbolic(void);
int vp_readable(const void* p, size_t n);
uint64_t vp_rnd_count(void);                                            // bytes drawn from the generator so far
void vp_rnd_copy(void* dst, uint64_t off, size_t n);                    // copy of drawn bytes [off,off+n)
int vp_const(uint64_t v);                                               // is the value a literal on this path?
uint64_t vp_table(const uint8_t* t, uint64_t n, uint64_t i);            // t[i] for i < n, no forking
uint64_t vp_norm(uint64_t v);                                           // the same value, with its term in canonical form if it depends on one input byte
void vp_print(const char* name, uint64_t v);
}
