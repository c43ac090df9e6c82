"""MurmurHash3X8632 is the published MurmurHash3_x86_32."""
from jf import Spec
from common import *
import lists


def spec(tier):
    t = lists.Tab()
    q = tier == "quick"
    h = PRELUDE + lists.RUNTIME + r'''
inline uint32_t rot(uint32_t x, int r) { return x << r | x >> (32 - r); }
inline uint32_t blk(uint32_t k) { return rot(k * 0xcc9e2d51u, 15) * 0x1b873593u; }
// MurmurHash3_x86_32 from its published description, over a byte string
inline uint32_t ref(const uint8_t* d, uint32_t n, uint32_t h) {
  uint32_t i = 0;
  for (; i + 4 <= n; i += 4) {
    uint32_t k = (uint32_t)d[i] | (uint32_t)d[i + 1] << 8 | (uint32_t)d[i + 2] << 16 | (uint32_t)d[i + 3] << 24;
    h = rot(h ^ blk(k), 13) * 5 + 0xe6546b64u;
  }
  uint32_t k = 0;
  if (n - i >= 3) k ^= (uint32_t)d[i + 2] << 16;
  if (n - i >= 2) k ^= (uint32_t)d[i + 1] << 8;
  if (n - i >= 1) k ^= d[i];
  if (i < n) h ^= blk(k);
  h ^= n;
  h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16;
  return h;
}
template <class T> void murmur(const P& p, uint64_t n) {
  JfSlot in[1];
  T* a = symArr<T>(n, "a");
  setList(in[0], a, n);
  auto r = call<uint32_t>(p, in);
  jf_assert(r.ok, "evaluates without error");
  jf_assert(r.v == ref((const uint8_t*)a, n * sizeof(T), 0x9747b28cu), "the hash of the elements' bytes");
}
// the published test vectors for this seed pin the reference itself
JF_H h_vec(uint64_t) {
  jf_assert(ref((const uint8_t*)"", 0, 0x9747b28cu) == 0xebb6c228u, "published vector for the empty string");
  jf_assert(ref((const uint8_t*)"a", 1, 0x9747b28cu) == 0x7fa09ea6u, "published vector for a");
  jf_assert(ref((const uint8_t*)"aa", 2, 0x9747b28cu) == 0x5d211726u, "published vector for aa");
  jf_assert(ref((const uint8_t*)"aaa", 3, 0x9747b28cu) == 0x283e0130u, "published vector for aaa");
  jf_assert(ref((const uint8_t*)"aaaa", 4, 0x9747b28cu) == 0x5a97808au, "published vector for aaaa");
  jf_assert(ref((const uint8_t*)"abc", 3, 0x9747b28cu) == 0xc84a62ddu, "published vector for abc");
  jf_assert(ref((const uint8_t*)"Hello, world!", 13, 0x9747b28cu) == 0x24884cbau, "published vector for Hello, world!");
}
'''
    for ty in NUM:
        ns = [0, 1, 3, 4, 5, 6, 7, 8, 9] if W[ty] == 8 else [0, 1, 2, 3] if W[ty] < 64 else [0, 1, 2]
        if not q:
            ns = list(range(0, 33)) if W[ty] == 8 else list(range(0, 18))
        elif W[ty] == 8:
            ns += [16, 19]
        t.add(f"murmur_{ty}", f("MurmurHash3X8632", inn("l" + ty, 0)), f"murmur<{CT[ty]}>($P, x)", [(n,) for n in ns if n * W[ty] != 16], 120)
    return Spec(progs=t.progs, harness=h + t.cpp(), jobs=t.jobs + [("vectors", "h_vec", [0], 30)],
                bounds=f"lists of 0, 1, 3 and up to {19 if q else 32} bytes ({3 if q else 17} wider elements), every content; two bytes alone are left out (undecided within the time limit), two-byte tails after full blocks are included",
                assumptions=["lists of 2^31 bytes or more are outside the bounds"],
                explanation="The optimised IR with the IR of the hash against the published algorithm, itself pinned by published test vectors.")
