"""The container format of compiled expressions: exact, and safe to decode."""
from jf import Spec
from common import *


def spec(tier):
    q = tier == "quick"
    h = PRELUDE + r'''
#include "compiled_artifact.h"
static std::string symStr(size_t n, const char* name) { std::string s(n, 'x'); if (n) jf_sym(&s[0], 1, n, name); return s; }
static bool eqS(std::string_view a, std::string_view b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i];
  return r;
}
// what was decoded, written again, is what was read
static void canonical(const ArtifactHeader& hd, std::string_view obj, std::string_view blob) {
  const char* b = blob.data();
  jf_assert(obj.size() <= blob.size(), "the object lies inside the blob");
  jf_assert(obj.data() >= b && obj.data() + obj.size() <= b + blob.size(), "the object lies inside the blob");
  std::string again;
  Status st = SerializeArtifact(hd, obj, &again);
  jf_assert(st.ok(), "what decodes can be encoded");
  jf_assert(again.size() == blob.size(), "decoding loses and invents nothing");
  jf_assert(eqS(again, blob), "decoding loses and invents nothing");
}
// one path for every value a length or count that leads on can have
static bool pinWord(char* b, size_t n, size_t& pos, size_t w, size_t unit, size_t& v) {
  if (n - pos < w) return false;
  uint64_t x = 0;
  for (size_t i = 0; i < w; i++) x |= (uint64_t)(uint8_t)b[pos + i] << 8 * i;
  pos += w;
  if (x > (n - pos) / unit) return false;
  v = jf_concretize(x);
  for (size_t i = 0; i < w; i++) b[pos - w + i] = (char)(v >> 8 * i);
  return true;
}
static void pin(char* b, size_t n) {
  size_t pos = 8, v;
  if (n < 8) return;
  for (int i = 0; i < 3; i++) { if (!pinWord(b, n, pos, 4, 1, v)) return; pos += v; }
  if (n - pos < 2) return;
  pos += 2;
  if (!pinWord(b, n, pos, 4, 1, v)) return;
  pos += v;
  if (!pinWord(b, n, pos, 8, 1, v)) return;
  pos += v;
  size_t k;
  if (!pinWord(b, n, pos, 4, 8, k)) return;
  for (size_t i = 0; i < k; i++) {
    if (n - pos < 4) return;
    pos += 4;
    if (!pinWord(b, n, pos, 4, 1, v)) return;
    pos += v;
  }
}
// a whole blob of symbolic bytes
JF_H h_any(uint64_t n, uint64_t l0, uint64_t l1, uint64_t l2) {
  char* b = symArr<char>(n, "blob");
  if (l0 < n) {
    // the lengths of the three strings are given, everything else is free
    size_t pos = 8, l[3] = {l0, l1, l2};
    for (int i = 0; i < 3; i++) { for (int k = 0; k < 4; k++) b[pos++] = k ? 0 : (char)l[i]; pos += l[i]; }
  }
  pin(b, n);
  std::string_view blob(b, n);
  ArtifactHeader hd;
  std::string_view obj;
  Status st = DeserializeArtifact(blob, &hd, &obj);
  if (st.ok()) canonical(hd, obj, blob);
}
struct Shape { uint64_t l[3], entries, obj, ext[2], next; };
static Shape shape(uint64_t k) {
  static const Shape s[] = {{{0, 0, 0}, 1, 0, {0, 0}, 0}, {{1, 2, 1}, 1, 3, {0, 0}, 0}, {{2, 0, 3}, 3, 2, {2, 0}, 1}, {{1, 1, 1}, 2, 5, {0, 3}, 2}, {{3, 16, 2}, 4, 9, {1, 1}, 2}};
  return s[k];
}
static void make(const Shape& s, ArtifactHeader& hd, std::string& obj) {
  hd.llvm_version = symStr(s.l[0], "version");
  hd.target_triple = symStr(s.l[1], "triple");
  hd.cpu_name = symStr(s.l[2], "cpu");
  hd.mode = s.entries == 1 ? ArtifactMode::kSingle : ArtifactMode::kBatch;
  if (s.entries == 1 && (sym<uint8_t>("batch") & 1)) hd.mode = ArtifactMode::kBatch;
  hd.fp_math_mode = (sym<uint8_t>("fast") & 1) ? FPMathMode::kFast : FPMathMode::kStrict;
  for (uint64_t i = 0; i < s.entries; i++) hd.per_entry_ret_types.push_back((ValueType)(sym<uint8_t>("type") % 25));
  for (uint64_t i = 0; i < s.next; i++) { ArtifactExtension e; e.tag = sym<uint32_t>("tag"); e.payload = symStr(s.ext[i], "payload"); hd.extensions.push_back(e); }
  obj = symStr(s.obj, "object");
}
JF_H h_round(uint64_t k) {
  ArtifactHeader hd, got;
  std::string obj, out;
  make(shape(k), hd, obj);
  Status st = SerializeArtifact(hd, obj, &out);
  jf_assert(st.ok(), "encodes");
  std::string_view o;
  // a used header is overwritten
  got.llvm_version = "old"; got.per_entry_ret_types.resize(7); got.extensions.resize(2);
  st = DeserializeArtifact(out, &got, &o);
  jf_assert(st.ok(), "what was encoded decodes");
  jf_assert(eqS(got.llvm_version, hd.llvm_version), "the LLVM version survives");
  jf_assert(eqS(got.target_triple, hd.target_triple), "the target survives");
  jf_assert(eqS(got.cpu_name, hd.cpu_name), "the CPU survives");
  jf_assert(got.mode == hd.mode, "the mode survives");
  jf_assert(got.fp_math_mode == hd.fp_math_mode, "the floating point mode survives");
  jf_assert(got.per_entry_ret_types.size() == hd.per_entry_ret_types.size(), "the number of entries survives");
  for (size_t i = 0; i < hd.per_entry_ret_types.size(); i++) jf_assert(got.per_entry_ret_types[i] == hd.per_entry_ret_types[i], "each return type survives");
  jf_assert(got.extensions.size() == hd.extensions.size(), "the extensions survive");
  for (size_t i = 0; i < hd.extensions.size(); i++) {
    jf_assert(got.extensions[i].tag == hd.extensions[i].tag, "each extension's tag survives");
    jf_assert(eqS(got.extensions[i].payload, hd.extensions[i].payload), "each extension's payload survives");
  }
  jf_assert(eqS(o, obj), "the object survives");
  jf_assert(o.data() >= out.data() && o.data() + o.size() <= out.data() + out.size(), "the object is a view into the blob");
}
// every blob cut off, or continued, is refused
JF_H h_cut(uint64_t k, uint64_t lo, uint64_t hi) {
  ArtifactHeader hd;
  std::string obj, out;
  make(shape(k), hd, obj);
  jf_assert(SerializeArtifact(hd, obj, &out).ok(), "encodes");
  uint64_t n = out.size() - (k == 0 ? 0 : 0);
  for (uint64_t len = lo; len < hi && len < n; len++) {
    char* b = (char*)malloc(len);
    if (len) memcpy(b, out.data(), len);
    ArtifactHeader got;
    std::string_view o;
    jf_assert(!DeserializeArtifact(std::string_view(b, len), &got, &o).ok(), "a truncated blob is refused");
  }
  if (lo == 0) {
    std::string more = out + symStr(1 + k, "tail");
    ArtifactHeader got;
    std::string_view o;
    jf_assert(!DeserializeArtifact(more, &got, &o).ok(), "a blob with bytes after its end is refused");
  }
}
// one aligned word of a valid blob replaced by any other, at every place
JF_H h_word(uint64_t k, uint64_t at, uint64_t w) {
  ArtifactHeader hd;
  std::string obj, out;
  make(shape(k), hd, obj);
  jf_assert(SerializeArtifact(hd, obj, &out).ok(), "encodes");
  if (at + w > out.size()) return;
  char* b = (char*)malloc(out.size());
  memcpy(b, out.data(), out.size());
  jf_sym(b + at, 1, w, "word");
  pin(b, out.size());
  ArtifactHeader got;
  std::string_view o;
  Status st = DeserializeArtifact(std::string_view(b, out.size()), &got, &o);
  if (st.ok()) canonical(got, o, std::string_view(b, out.size()));
}
// the compatibility decision
JF_H h_host(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  ArtifactHeader hd;
  hd.llvm_version = symStr(a, "version");
  hd.target_triple = symStr(b, "triple");
  hd.cpu_name = symStr(c, "cpu");
  std::string hv = symStr(d & 3, "hv"), ht = symStr(d >> 2 & 3, "ht"), hc = symStr(d >> 4 & 3, "hc");
  LoadCompiledOptions o;
  o.check_llvm_version = sym<uint8_t>("cv") & 1;
  o.check_target_triple = sym<uint8_t>("ct") & 1;
  o.check_cpu_name = sym<uint8_t>("cc") & 1;
  bool batch = sym<uint8_t>("batch") & 1, wantBatch = sym<uint8_t>("want") & 1;
  hd.mode = batch ? ArtifactMode::kBatch : ArtifactMode::kSingle;
  Status st = CheckHostCompatibility(hd, o, hv, ht, hc, wantBatch ? ArtifactMode::kBatch : ArtifactMode::kSingle);
  bool ok = batch == wantBatch;
  ok &= !o.check_llvm_version | eqS(hd.llvm_version, hv);
  ok &= !o.check_target_triple | eqS(hd.target_triple, ht);
  ok &= !o.check_cpu_name | eqS(hd.cpu_name, hc);
  jf_assert(st.ok() == ok, "loads exactly when the mode and every enabled check match");
}
'''
    size = [43 - 3, 0, 0, 0, 0]
    S = [([0, 0, 0], 1, 0, []), ([1, 2, 1], 1, 3, []), ([2, 0, 3], 3, 2, [2]), ([1, 1, 1], 2, 5, [0, 3]), ([3, 16, 2], 4, 9, [1, 1])]
    size = [4 + 4 + 12 + sum(l) + 2 + 4 + e + 8 + o + 4 + sum(8 + x for x in ex) + 4 for l, e, o, ex in S]
    jobs = []
    for k in range(5 if not q else 4):
        jobs.append((f"round_{k}", "h_round", [k], 120))
        for lo in range(0, size[k], 12):
            jobs.append((f"cut_{k}_{lo}", "h_cut", [k, lo, lo + 12], 200))
        for at in range(0, size[k]):
            for w in ((4,) if q else (1, 2, 4, 8)):
                jobs.append((f"word_{k}_{at}_{w}", "h_word", [k, at, w], 120))
    for n in (list(range(0, 28, 3)) if q else range(0, 36)):
        jobs.append((f"any_{n}", "h_any", [n, 99, 0, 0], 300 if q else 800))
    for a, b, c in [(0, 0, 0), (1, 0, 2)] if q else [(0, 0, 0), (1, 0, 2), (3, 1, 0), (2, 2, 2), (0, 9, 1)]:
        for t in range(0, 40, 3) if q else range(0, 52):
            n = 20 + a + b + c + t
            jobs.append((f"any_{n}_{a}{b}{c}", "h_any", [n, a, b, c], 300 if q else 800))
    for a, b, c, d in [(0, 0, 0, 0), (1, 1, 1, 0b010101), (2, 1, 0, 0b000110), (1, 2, 3, 0b110110), (1, 1, 1, 0b101001), (3, 3, 3, 0b111111)]:
        jobs.append((f"host_{a}{b}{c}_{d}", "h_host", [a, b, c, d], 120))
    return Spec(progs=[], harness=h, jobs=jobs, use_progs=False, exact_arena=False,
                bounds=f"containers of the shapes {S[:4 if q else 5]} (lengths of the three texts, entries, object bytes, extension payloads) with every content; every truncation of them; every replacement of {'4' if q else '1, 2, 4 or 8'} neighbouring bytes at every place; every byte string of up to {24 if q else 35} bytes, and of up to {62 if q else 85} bytes with the lengths of the three texts fixed and everything else free; host texts of up to 3 characters, every combination of the checks",
                assumptions=["the digits of numbers in error messages are not modelled", "one allocation above 64 MiB counts as a failure: these inputs are at most 100 bytes long"],
                explanation="The encoder and decoder run on symbolic headers and on symbolic bytes; lengths that keep the decoder going are split by value, all others stay symbolic.")
