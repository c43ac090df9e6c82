// Counts the live allocations of the process.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdint>
namespace jflive { inline std::atomic<int64_t> n{0}; }
extern "C" {
uint64_t jf_heap_live() { return (uint64_t)jflive::n.load(); }
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* jflive_took(void* p) { if (p) jflive::n++; return p; }
void* malloc(size_t n) { return jflive_took(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return jflive_took(__libc_calloc(n, m)); }
void* memalign(size_t a, size_t n) { return jflive_took(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return jflive_took(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = jflive_took(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  void* q = __libc_realloc(p, n);
  if (!q && !n) jflive::n--;
  return q;
}
void free(void* p) { if (p) { jflive::n--; __libc_free(p); } }
}
