// What exists at take() must be unchanged at check(): live blocks from operator
// new, the program's own data and every other private writable mapping apart
// from stacks, malloc's heap and the C library's.
#pragma once
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <new>
namespace jffreeze {
struct Rec { char* p; size_t n; uint64_t h; };
static Rec* tab;      // open addressing, by address
static size_t cap, used;
static uint64_t mode;
struct Keep { const char* p; size_t n; };
static Keep keep[64];
static int nkeep;
static size_t slot(char* p) {
  size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull % cap;
  while (tab[i].p && tab[i].p != p) i = (i + 1) % cap;
  return i;
}
static void put(char* p, size_t n) {
  if ((used + 1) * 2 > cap) {
    Rec* old = tab;
    size_t oc = cap;
    cap = cap ? cap * 2 : 1 << 16;
    tab = (Rec*)calloc(cap, sizeof(Rec));
    used = 0;
    for (size_t i = 0; i < oc; i++) if (old[i].p && old[i].n != (size_t)-1) { tab[slot(old[i].p)] = old[i]; used++; }
    free(old);
  }
  size_t i = slot(p);
  if (!tab[i].p) used++;
  tab[i] = {p, n, 0};
}
static void drop(char* p) { if (cap) { size_t i = slot(p); if (tab[i].p) { if (tab[i].h) { printf("JF-ASSERT-FAILED shared-write (free)\n"); fflush(stdout); _exit(1); } tab[i].n = (size_t)-1; } } }
static bool kept(const char* p) { for (int i = 0; i < nkeep; i++) if (p >= keep[i].p && p < keep[i].p + keep[i].n) return true; return false; }
static uint64_t hash(const char* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull ^ n;
  for (size_t i = 0; i < n; i++) { if (nkeep && kept(p + i)) continue; h = (h ^ (uint8_t)p[i]) * 0x100000001b3ull; }
  return h | 1;
}
struct Map { char *lo, *hi; uint64_t h; char* copy; };
static Map maps[4096];
static int nmaps;
static char line[4096];
static void readMaps() {
  nmaps = 0;
  FILE* f = fopen("/proc/self/maps", "r");
  char exe[1024];
  ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
  exe[k > 0 ? k : 0] = 0;
  while (f && fgets(line, sizeof line, f)) {
    unsigned long lo, hi;
    char perm[8], path[1024] = "";
    if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %1023[^\n]", &lo, &hi, perm, path) < 3) continue;
    const char* q = path;
    while (*q == ' ') q++;
    if (perm[1] != 'w') continue;
    if (strncmp(q, "[heap]", 6) == 0 || strncmp(q, "[stack", 6) == 0) continue;
    if (*q && strcmp(q, exe) != 0) continue;
    char* e = (char*)&errno;
    if (e >= (char*)lo && e < (char*)hi) continue;
    if ((char*)tab >= (char*)lo && (char*)tab < (char*)hi) continue;
    maps[nmaps++] = {(char*)lo, (char*)hi, 0, nullptr};
  }
  if (f) fclose(f);
}
static bool own(const Map& m, const char* p) {
  auto in = [&](const void* a, size_t n) { return p >= (const char*)a && p < (const char*)a + n; };
  (void)m;
  return in(&tab, sizeof tab) || in(&cap, sizeof cap) || in(&used, sizeof used) || in(&mode, sizeof mode) || in(keep, sizeof keep) || in(&nkeep, sizeof nkeep) || in(maps, sizeof maps) || in(&nmaps, sizeof nmaps) || in(line, sizeof line);
}
// mappings that malloc made by itself hold blocks it changes: only their live blocks count
static bool mallocs(const Map& m) {
  for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].n != (size_t)-1 && tab[i].p >= m.lo && tab[i].p < m.hi) return true;
  return false;
}
static void take() {
  readMaps();
  for (int i = 0; i < nmaps; i++) {
    Map& m = maps[i];
    if (mallocs(m)) { m = maps[--nmaps]; i--; continue; }
    m.copy = (char*)malloc(m.hi - m.lo);
  }
  for (int i = 0; i < nmaps; i++) memcpy(maps[i].copy, maps[i].lo, maps[i].hi - maps[i].lo);
  for (size_t i = 0; i < cap; i++) if (tab[i].p && tab[i].n != (size_t)-1) tab[i].h = hash(tab[i].p, tab[i].n);
}
static void check() {
  bool bad = false;
  for (size_t i = 0; i < cap && !bad; i++)
    if (tab[i].p && tab[i].n != (size_t)-1 && tab[i].h) { if (hash(tab[i].p, tab[i].n) != tab[i].h) { bad = true; if (getenv("JF_FRZ_DEBUG")) fprintf(stderr, "changed block %p of %zu\n", tab[i].p, tab[i].n); } tab[i].h = 0; }
  for (int i = 0; i < nmaps && !bad; i++) {
    Map& m = maps[i];
    for (char* p = m.lo; p < m.hi; p++) if (*p != m.copy[p - m.lo] && !own(m, p) && !kept(p)) { bad = true; if (getenv("JF_FRZ_DEBUG")) fprintf(stderr, "changed %p in %p-%p\n", p, m.lo, m.hi); break; }
  }
  for (size_t i = 0; i < cap; i++) tab[i].h = 0;
  for (int i = 0; i < nmaps; i++) free(maps[i].copy);
  nmaps = 0;
  if (bad) { printf("JF-ASSERT-FAILED shared-write\n"); fflush(stdout); _exit(1); }
}
}  // namespace jffreeze
#define JF_NEW(sig, n, a) void* operator new sig { void* p = a ? aligned_alloc((size_t)(a), ((n) + (size_t)(a) - 1) / (size_t)(a) * (size_t)(a)) : malloc(n ? n : 1); if (!p) abort(); jffreeze::put((char*)p, n); return p; }
JF_NEW((size_t n), n, 0)
JF_NEW((size_t n, std::align_val_t a), n, (size_t)a)
void operator delete(void* p) noexcept { if (p) { jffreeze::drop((char*)p); free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
extern "C" void jf_freeze(uint64_t m) {
  if (m == 0) { if (jffreeze::mode == 1) jffreeze::check(); jffreeze::nkeep = 0; }
  jffreeze::mode = m;
  if (m == 1) jffreeze::take();
}
extern "C" void jf_keep(const void* p, uint64_t n) { jffreeze::keep[jffreeze::nkeep++ & 63] = {(const char*)p, (size_t)n}; }
