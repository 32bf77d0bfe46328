// Native replay runtime: feeds recorded inputs to the harness, checks its assertions on the real library.
#include "../harness/vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <sodium.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

static std::map<std::string, std::deque<std::string>>* inputs;
static std::map<std::string, uint64_t>* params;
static bool tracking = false;
// allocation tracking without allocating: open-addressing table
static void* tab[1 << 16];
static unsigned char kind[1 << 16];
static uint64_t liveN = 0;
static unsigned slotOf(void* p) {
  unsigned h = (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & 0xffff;
  while (tab[h] && tab[h] != p) h = (h + 1) & 0xffff;
  return h;
}
static void track(void* p, int k) {
  if (!p || !tracking) return;
  unsigned h = slotOf(p);
  if (!tab[h]) tab[h] = p;
  if (!kind[h]) liveN++;
  kind[h] = (unsigned char)k;
}
static void fail(const char* what);
static void untrack(void* p, int k) {
  if (!p) return;
  unsigned h = slotOf(p);
  if (!tab[h] || !kind[h]) {
    if (tab[h] && tracking) fail(k == 3 ? "double sodium_free" : "double free");
    return;
  }
  if (kind[h] != k && tracking) fail("memory released with the wrong deallocator");
  kind[h] = 0;
  liveN--;
}
static void fail(const char* what) {
  tracking = false;
  fprintf(stdout, "REPLAY-VIOLATION %s\n", what);
  fflush(stdout);
  _exit(99);
}
static const size_t HUGE_ALLOC = 16u << 20;
static void huge(size_t n) { if (tracking && n > HUGE_ALLOC) fail("allocation of unreasonable size"); }
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
void* __real_sodium_malloc(size_t);
void* __real_sodium_allocarray(size_t, size_t);
void __real_sodium_free(void*);
void* __wrap_malloc(size_t n) { huge(n); void* p = __real_malloc(n); track(p, 1); return p; }
void* __wrap_calloc(size_t n, size_t m) { huge(n * m); void* p = __real_calloc(n, m); track(p, 1); return p; }
void __wrap_free(void* p) { untrack(p, 1); __real_free(p); }
void* __wrap_sodium_malloc(size_t n) { huge(n); void* p = __real_sodium_malloc(n); track(p, 3); return p; }
void* __wrap_sodium_allocarray(size_t n, size_t m) { huge(n * m); void* p = __real_sodium_allocarray(n, m); track(p, 3); return p; }
void __wrap_sodium_free(void* p) { untrack(p, 3); __real_sodium_free(p); }
}
void* operator new(size_t n) { huge(n); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); track(p, 2); return p; }
void* operator new[](size_t n) { huge(n); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); track(p, 4); return p; }
void operator delete(void* p) noexcept { untrack(p, 2); __real_free(p); }
void operator delete[](void* p) noexcept { untrack(p, 4); __real_free(p); }
void operator delete(void* p, size_t) noexcept { untrack(p, 2); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { untrack(p, 4); __real_free(p); }

static std::string take(const std::string& name, size_t n) {
  bool t = tracking;
  tracking = false;
  std::string r(n, 0);
  auto it = inputs->find(name);
  if (it != inputs->end() && !it->second.empty()) {
    std::string h = it->second.front();
    it->second.pop_front();
    for (size_t i = 0; i < n && 2 * i + 1 < h.size(); i++) r[i] = (char)strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16);
  } else if (name == "rnd") {
    static uint64_t c = 0x9e3779b97f4a7c15ULL;
    for (size_t i = 0; i < n; i++) { c ^= c << 13; c ^= c >> 7; c ^= c << 17; r[i] = (char)c; }
  }
  tracking = t;
  return r;
}
#define QUIET bool t_ = tracking; tracking = false
#define LOUD tracking = t_
extern "C" {
void vp_sym(void* p, size_t n, const char* name) { QUIET; { std::string s = take(name, n); memcpy(p, s.data(), n); } LOUD; }
uint64_t vp_range(const char* name, uint64_t lo, uint64_t hi) {
  QUIET;
  uint64_t v = 0;
  { std::string s = take(name, 8); memcpy(&v, s.data(), 8); }
  if (v < lo || v > hi) { fprintf(stdout, "REPLAY-ASSUMPTION range %s\n", name); fflush(stdout); _exit(77); }
  LOUD;
  return v;
}
void vp_assume(int c) { if (!c) { fprintf(stdout, "REPLAY-ASSUMPTION\n"); fflush(stdout); _exit(77); } }
void vp_assert(int c, const char* m) { if (!c) fail(m); }
void vp_assert_eq(const void* a, const void* b, size_t n, const char* m) { if (n && memcmp(a, b, n)) fail(m); }
int vp_eq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
uint64_t vp_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void vp_cover(const char*) {}
uint64_t vp_param(const char* n, uint64_t d) { QUIET; auto it = params->find(n); uint64_t v = it == params->end() ? d : it->second; LOUD; return v; }
uint64_t vp_concretize(uint64_t v) { return v; }
int vp_const(uint64_t) { return 1; }
uint64_t vp_norm(uint64_t v) { return v; }
uint64_t vp_table(const uint8_t* t, uint64_t n, uint64_t i) { return i < n ? t[i] : 0; }
static int protOf(const void* p) {
  QUIET;
  int r = -1;
  {
    std::ifstream f("/proc/self/maps");
    std::string l;
    while (std::getline(f, l)) {
      unsigned long a, b;
      char pr[8];
      if (sscanf(l.c_str(), "%lx-%lx %7s", &a, &b, pr) == 3 && (uintptr_t)p >= a && (uintptr_t)p < b)
        r = pr[0] == '-' ? 0 : pr[1] == 'w' ? 2 : 1;
    }
  }
  LOUD;
  return r;
}
int vp_prot(const void* p) {
  unsigned h = slotOf(const_cast<void*>(p));
  if (tab[h] == p && kind[h] == 3) return protOf(p);
  for (unsigned i = 0; i < (1 << 16); i++)
    if (tab[i] && kind[i] == 3 && (uintptr_t)p >= (uintptr_t)tab[i] && (uintptr_t)p < ((uintptr_t)tab[i] | 4095) + 1) return protOf(p);
  return 3;
}
uint64_t vp_live(void) { return liveN; }
uint64_t vp_sodium_live(void) { uint64_t n = 0; for (unsigned i = 0; i < (1 << 16); i++) if (tab[i] && kind[i] == 3) n++; return n; }
uint64_t vp_sodium_unlocked(void) {
  uint64_t n = 0;
  for (unsigned i = 0; i < (1 << 16); i++) if (tab[i] && kind[i] == 3 && protOf(tab[i]) != 0) n++;
  return n;
}
int vp_symbolic(void) { return 0; }
int vp_readable(const void*, size_t) { return 1; }
void vp_print(const char* n, uint64_t v) { fprintf(stdout, "%s = %llx\n", n, (unsigned long long)v); }
}
static const char* rname() { return "replay"; }
static std::string* rndLog;
static void rbuf(void* const p, const size_t n) { QUIET; { std::string s = take("rnd", n); memcpy(p, s.data(), n); *rndLog += s; } LOUD; }
extern "C" uint64_t vp_rnd_count(void) { return rndLog->size(); }
extern "C" void vp_rnd_copy(void* d, uint64_t off, size_t n) { for (size_t i = 0; i < n; i++) ((char*)d)[i] = off + i < rndLog->size() ? (*rndLog)[off + i] : 0; }
static uint32_t rrand() { uint32_t v; rbuf(&v, 4); return v; }
static uint32_t runi(const uint32_t ub) { uint32_t v = rrand(); return ub < 2 ? 0 : v % ub; }
static struct randombytes_implementation impl = {rname, rrand, nullptr, runi, rbuf, nullptr};
static void misuse() { fail("sodium_misuse"); }

int main(int argc, char** argv) {
  inputs = new std::map<std::string, std::deque<std::string>>();
  rndLog = new std::string();
  params = new std::map<std::string, uint64_t>();
  std::ifstream f(argc > 1 ? argv[1] : "/dev/null");
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream ls(l);
    std::string n, h;
    ls >> n;
    if (n == "#param") {
      std::string v;
      ls >> h >> v;
      (*params)[h] = strtoull(v.c_str(), nullptr, 0);
      continue;
    }
    if (n.empty() || n[0] == '#') continue;
    ls >> h;
    (*inputs)[n].push_back(h);
  }
  if (sodium_init() < 0) return 3;
  randombytes_set_implementation(&impl);
  sodium_set_misuse_handler(misuse);
  alarm(60);
  tracking = true;
  vp_main();
  tracking = false;
  puts("REPLAY-OK");
  fflush(stdout);
  _exit(0);
}
