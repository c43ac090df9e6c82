"""The arena hands out disjoint, aligned, live memory and accounts for it."""
from jf import Spec
from common import *


def spec(tier):
    q = tier == "quick"
    h = "#include \"arena.h\"\n" + PRELUDE + r'''
// The system allocator: any address it likes (16-aligned, apart from the live
// chunks), or failure.
struct Sys { uint64_t base, size; bool live; };
static Sys g_sys[16];
static int g_n, g_calls, g_fails;
static bool g_on;
static uint64_t g_wide;
// a number with few free bits: small, or spread over both words
static uint64_t num(const char* n, uint64_t bits) {
  if (!g_wide) { uint64_t v = sym<uint64_t>(n); jf_assume(v >> bits == 0); return v; }
  uint16_t lo = sym<uint16_t>(n), hi = sym<uint16_t>(n);
  jf_assume((lo >> 8 == 0) & (hi >> (bits - 10) == 0));
  return (uint64_t)hi << 32 | lo;
}
#ifdef JF_NATIVE
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
#else
static void* __real_malloc(size_t n) { return ::operator new(n); }
static void __real_free(void* p) { ::operator delete(p); }
#endif
JF_STUB_R(void*, malloc)(size_t n) {
  if (!g_on) return __real_malloc(n);
  g_calls++;
  uint8_t fail = sym<uint8_t>("malloc fails");
  uint64_t a = num("malloc address", 16);
  a <<= 4;
  if (jf_concretize(fail & 1)) { g_fails++; return nullptr; }
  jf_assume(a >= 16);
  for (int i = 0; i < g_n; i++) if (g_sys[i].live) jf_assume((a + n <= g_sys[i].base) | (g_sys[i].base + g_sys[i].size <= a));
  g_sys[g_n++] = Sys{a, n, true};
  return (void*)a;
}
JF_STUB_R(void, free)(void* p) {
  if (!g_on) { __real_free(p); return; }
  bool found = false;
  for (int i = 0; i < g_n; i++) if (g_sys[i].live && g_sys[i].base == (uint64_t)p) { g_sys[i].live = false; found = true; break; }
  jf_assert(found, "only live chunks are freed, once");
}
struct Blk { uint64_t p, n; };
static uint64_t total() {
  uint64_t t = 0;
  for (int i = 0; i < g_n; i++) t += g_sys[i].live ? g_sys[i].size : 0;
  return t;
}
static int live() { int n = 0; for (int i = 0; i < g_n; i++) n += g_sys[i].live; return n; }
static bool inside(uint64_t p, uint64_t n) {
  bool r = false;
  for (int i = 0; i < g_n; i++) r |= g_sys[i].live & (p >= g_sys[i].base) & (n <= g_sys[i].size) & (p - g_sys[i].base <= g_sys[i].size - n);
  return r;
}
alignas(16) static char g_arena[sizeof(Arena)];
// ops: 2 Reset, 3 Allocate with the default alignment, others Allocate with an alignment
JF_H h_arena(uint64_t ops, uint64_t n, uint64_t wide) {
  g_on = false;
  g_n = g_calls = g_fails = 0;
  g_wide = wide;
  uint64_t minc = num("min chunk size", 12);
  Arena& A = *new (g_arena) Arena(minc);
  Blk b[8];
  int nb = 0;
  jf_assert(A.total_bytes() == 0 && A.avail_bytes() == 0, "a new arena holds nothing");
  for (uint64_t k = 0; k < n; k++) {
    uint64_t op = ops >> 4 * k & 15;
    if (op == 2) {
      bool had = live() > 0;
      uint64_t first = had ? 0 : 0;
      for (int i = g_n - 1; i >= 0; i--) if (g_sys[i].live) first = g_sys[i].size;
      g_on = true;
      A.Reset();
      g_on = false;
      nb = 0;
      jf_assert(live() == (had ? 1 : 0), "Reset keeps one chunk");
      if (had) jf_assert(A.total_bytes() == first && A.avail_bytes() == first, "all of the first chunk is available again");
      jf_assert(A.total_bytes() == total(), "total_bytes is what is held");
      continue;
    }
    uint64_t size = num("size", 12), al = 8;
    if (op != 3) al = op == 1 ? 1 : op == 4 ? 2 : op == 5 ? 16 : op == 6 ? 32 : op == 7 ? 64 : 4096;
    uint64_t avail = A.avail_bytes(), tot = A.total_bytes();
    int calls = g_calls, fails = g_fails;
    g_on = true;
    uint64_t p = (uint64_t)(op == 3 ? A.Allocate(size) : A.Allocate(size, al));
    g_on = false;
    jf_assert(A.total_bytes() == total(), "total_bytes is what is held");
    jf_assert(g_calls - calls <= 1, "at most one request to the system");
    if (size == 0) {
      jf_assert(!p && A.avail_bytes() == avail && A.total_bytes() == tot && g_calls == calls, "an empty request changes nothing");
      continue;
    }
    if (size <= avail && avail - size >= al - 1) jf_assert(g_calls == calls, "nothing is requested from the system while there is room");
    if (g_fails != fails) {
      jf_assert(!p && A.total_bytes() == tot && A.avail_bytes() == avail, "a failed request changes nothing");
      continue;
    }
    jf_assert(p != 0, "a request fails only when the system does");
    jf_assert((p & (al - 1)) == 0, "aligned");
    jf_assert(inside(p, size), "inside a live chunk");
    for (int i = 0; i < nb; i++) jf_assert((p + size <= b[i].p) | (b[i].p + b[i].n <= p), "apart from every earlier block");
    for (int i = 0; i < nb; i++) jf_assert(inside(b[i].p, b[i].n), "earlier blocks stay alive");
    b[nb++] = Blk{p, size};
  }
  g_on = true;
  A.~Arena();
  g_on = false;
  jf_assert(live() == 0, "destruction returns every chunk");
}
// objects: destroyed once each, latest first, before their memory is reused
static int g_log[16], g_nlog, g_made;
static Arena* g_a;
struct Obj {
  int id; uint64_t v; Obj* before;
  Obj(int i, uint64_t x, Obj* b) : id(i), v(x), before(b) { g_made++; }
  ~Obj() {
    g_log[g_nlog++] = id;
    if (before) jf_assert(before->id >= 0, "an earlier object is alive when a later one is destroyed");
    id = -1;
  }
};
struct Plain { uint64_t v; char c; };
struct alignas(64) Wide { uint64_t v; ~Wide() { g_log[g_nlog++] = (int)v; } };
// ops: 1 Obj, 2 Plain, 3 raw bytes, 4 Reset, 5 Wide
JF_H h_objects(uint64_t ops, uint64_t n, uint64_t minc) {
  g_nlog = g_made = 0;
  {
    Arena A(minc);
    Obj* last = nullptr;
    std::vector<Obj*> objs;
    std::vector<uint64_t> vals;
    std::vector<Plain*> plains;
    std::vector<uint64_t> pv;
    std::vector<int> order;
    for (uint64_t k = 0; k < n; k++) {
      switch (ops >> 4 * k & 15) {
        case 1: {
          uint64_t v = sym<uint64_t>("value");
          Obj* o = A.Create<Obj>((int)k, v, last);
          jf_assert(o && ((uint64_t)o & (alignof(Obj) - 1)) == 0, "placed");
          last = o; objs.push_back(o); vals.push_back(v); order.push_back((int)k);
          break;
        }
        case 2: {
          uint64_t v = sym<uint64_t>("value");
          Plain* o = A.Create<Plain>(Plain{v, 'x'});
          jf_assert(o && ((uint64_t)o & 7) == 0, "placed");
          plains.push_back(o); pv.push_back(v);
          break;
        }
        case 3: {
          uint64_t s = sym<uint64_t>("size");
          jf_assume(s <= 9);
          s = jf_concretize(s);
          uint8_t* p = A.Allocate(s, 1);
          for (uint64_t i = 0; i < s; i++) p[i] = 0xcc;
          break;
        }
        case 5: {
          Wide* o = A.Create<Wide>();
          jf_assert(o && ((uint64_t)o & 63) == 0, "placed");
          o->v = k; order.push_back((int)k);
          break;
        }
        default: {
          A.Reset();
          jf_assert(g_nlog == (int)order.size(), "Reset destroys every object once");
          for (int i = 0; i < g_nlog; i++) jf_assert(g_log[i] == order[order.size() - 1 - i], "latest first");
          order.clear(); objs.clear(); vals.clear(); plains.clear(); pv.clear();
          g_nlog = 0; last = nullptr;
        }
      }
      for (size_t i = 0; i < objs.size(); i++) jf_assert(objs[i]->id >= 0 && objs[i]->v == vals[i], "objects keep their values");
      for (size_t i = 0; i < plains.size(); i++) jf_assert(plains[i]->v == pv[i] && plains[i]->c == 'x', "plain objects keep their values");
    }
    jf_assert(g_nlog == 0, "nothing is destroyed early");
    g_made = (int)order.size();
    for (int i = 0; i < g_made; i++) g_log[15 - i] = order[i];
  }
  jf_assert(g_nlog == g_made, "destruction destroys every object once");
  for (int i = 0; i < g_nlog; i++) jf_assert(g_log[i] == g_log[15 - (g_nlog - 1 - i)], "latest first");
}
'''
    import itertools
    jobs = []
    hist = list(itertools.product((1, 3, 4, 5, 6, 7, 8), repeat=2)) + [(a, 2, b) for a in (1, 3, 7) for b in (1, 3, 8)]
    hist += [(1, 1, 1), (3, 3, 3), (7, 1, 3), (3, 8, 1), (5, 1, 6), (3, 3, 2, 3), (1, 7, 2, 7, 1)]
    if not q:
        hist += list(itertools.product((1, 3, 5, 7), repeat=3)) + [x + (2,) + y for x in itertools.product((1, 3, 7), repeat=2) for y in itertools.product((1, 3, 7), repeat=2)]
        hist += [(3, 3, 3, 3), (1, 3, 7, 1), (7, 7, 1, 1), (3, 2, 3, 2, 3), (1, 8, 2, 2, 1)]
    for ops in dict.fromkeys(hist):
        for w in ((0, 1) if len(ops) < 3 or not q else (0,)):
            jobs.append((f"a{''.join(map(str, ops))}{'w' * w}", "h_arena", [sum(x << 4 * i for i, x in enumerate(ops)), len(ops), w], 200))
    for ops in itertools.product((1, 2, 3, 4, 5), repeat=4 if q else 5):
        if q and (any(ops.count(x) > 1 for x in (2, 3, 4, 5)) or ops[0] == 4):
            continue
        for mc in ((40,) if q else (0, 40, 80, 4096)):
            jobs.append((f"o{''.join(map(str, ops))}_{mc}", "h_objects", [sum(x << 4 * i for i, x in enumerate(ops)), len(ops), mc], 100))
    return Spec(progs=[], harness=h, jobs=jobs, exact_arena=False, use_progs=False, wraps=["malloc", "free"],
                bounds=f"{len(set(hist))} histories of 2 to 5 Allocate/Reset operations with every size and minimum chunk size below 2^12 (and, in the variants of two words, h*2^32+l with h < 4 and l < 256), alignments from 1 to 4096, every address below 2^20 (or of that two-word form) the system allocator may choose and every pattern of its failures; histories of {4 if q else 5} Create/Allocate/Reset operations with four object kinds",
                assumptions=["the system allocator returns null or 16-aligned memory apart from what it has handed out", "sizes so large that they wrap 64 bits are outside the interface's contract (asserted in debug builds)"],
                explanation="malloc and free are replaced by a model whose addresses and failures are symbolic; blocks are compared as address intervals.")
