"""The boxed result is the value the compiled expression returned."""
from jf import Spec
from common import *
import engine


def spec(tier):
    q = tier == "quick"
    h = engine.PRE + r'''
template <class R> struct Boxed { typedef R type; };
template <> struct Boxed<StringStruct> { typedef std::string type; };
template <> struct Boxed<StringListStruct> { typedef std::vector<std::string> type; };
''' + "".join(f"template <> struct Boxed<{LT[t]}> {{ typedef std::vector<{CT[t]}> type; }};\n" for t in NUM) + r'''
static char g_args[8];
// the result holds what entry i returned; the entry's memory is overwritten first
template <class R> void boxed(const RetType& r, int i) {
  Ent& e = g_e[i];
  typedef typename Boxed<R>::type B;
  jf_assert(std::holds_alternative<B>(r), "the result holds the expression's type");
  const B* b = std::get_if<B>(&r);
  if constexpr (std::is_same_v<R, StringListStruct>) {
    jf_assert(b->size() == e.n, "as many strings as returned");
    StringStruct* s = (StringStruct*)e.payload;
    for (uint32_t k = 0; k < e.n; k++) {
      std::string keep(s[k].data, s[k].len);
      if (s[k].len) memset(s[k].data, 0x5a, s[k].len);
      jf_assert((*b)[k].size() == keep.size(), "each string's length");
      bool eq = true;
      for (size_t j = 0; j < keep.size(); j++) eq &= (*b)[k][j] == keep[j];
      jf_assert(eq, "each string's bytes, copied out of the execution's memory");
    }
  } else if constexpr (Elem<R>::list) {
    typedef typename Elem<R>::type T;
    jf_assert(b->size() == e.n, "the length returned");
    T* d = (T*)e.payload;
    for (uint32_t k = 0; k < e.n; k++) {
      T keep = d[k];
      memset(&d[k], 0x5a, sizeof(T));
      T got = (*b)[k];
      jf_assert(memcmp(&got, &keep, sizeof(T)) == 0, "each element, copied out of the execution's memory");
    }
  } else {
    jf_assert(memcmp(b, e.payload, sizeof(R)) == 0, "the value, bit for bit");
  }
}
static void boxedAs(int t, const RetType& r, int i) {
  switch (t) {
''' + "".join(f"    case {k}: boxed<{r}>(r, i); break;\n" for k, (_, r) in enumerate(engine.TYPES)) + r'''
  }
}
template <class R> RetType earlier() {
  typename Boxed<R>::type b{};
  if constexpr (Elem<R>::list) b.resize(2);
  if constexpr (std::is_same_v<R, StringStruct>) b = "earlier";
  return RetType(b);
}
// what the result may hold before: something of the same type, or of another
static RetType previous(uint64_t p, int t) {
  if (p == 3) switch (t) {
''' + "".join(f"    case {k}: return earlier<{r}>();\n" for k, (_, r) in enumerate(engine.TYPES)) + r'''
  }
  if (p == 1) return RetType(std::string("an earlier result"));
  if (p == 2) return RetType(std::vector<int64_t>{1, 2, 3});
  return RetType(1.5f);
}
static uint64_t choice(const char* n, uint64_t k) { uint64_t c = sym<uint64_t>(n); jf_assume(c < k); return jf_concretize(c); }
// the length, the overload and what the result held before are chosen by the solver
JF_H h_single(uint64_t t, uint64_t max, uint64_t, uint64_t) {
  uint64_t n = choice("length", max + 1), y = choice("overload", 2), p = choice("earlier", 4);
  setup(0, (int)t, (uint32_t)n);
  for (int k = 0; k < 2; k++) g_e[0].err[k] = false;
  ExecEngine e;
  std::unique_ptr<ExecNode> root;
  jf_assert(e.Compile(root, g_noreg).ok(), "compiles");
  ExecContext ctx(64);
  RetType r = previous(p, (int)t);
  Status st = y ? e.Execute(ctx, (void*)g_args, &r) : e.Execute((void*)g_args, &r);
  jf_assert(st.ok(), "executes");
  boxedAs((int)t, r, 0);
}
JF_H h_batch(uint64_t t, uint64_t n, uint64_t, uint64_t) {
  const int N = 3;
  uint64_t y = choice("overload", 4), p = choice("results before", 6);
  for (int i = 0; i < N; i++) {
    setup(i, (int)((t + 9 * i) % 22), (uint32_t)((n + i) % 3));
    g_e[i].err[0] = g_e[i].err[1] = false;
  }
  BatchExecEngine e;
  jf_assert(e.Compile(nodes(N), g_noreg).ok(), "compiles");
  ExecContext ctx(64);
  std::vector<RetType> rs;
  for (uint64_t k = 0; k < p; k++) rs.push_back(previous(3 - k % 4, g_e[k % N].fn));
  if (y < 2) {
    Status st = y ? e.ExecuteAll(ctx, (void*)g_args, &rs) : e.ExecuteAll((void*)g_args, &rs);
    jf_assert(st.ok(), "executes");
  } else {
    while (rs.size() < N) rs.push_back(previous(0, 0));
    for (int i = 0; i < N; i++) {
      Status st = y & 1 ? e.ExecuteAt(i, ctx, (void*)g_args, &rs[i]) : e.ExecuteAt(i, (void*)g_args, &rs[i]);
      jf_assert(st.ok(), "executes");
    }
  }
  for (int i = 0; i < N; i++) boxedAs(g_e[i].fn, rs[i], i);
}
'''
    jobs = []
    for t in range(22):
        nm = engine.NAMES[t]
        jobs.append((f"single_{nm}", "h_single", [t, 0 if t < 10 else 3 if q else 8, 0, 0], 60))
        jobs.append((f"batch_{nm}", "h_batch", [t, t % 3, 0, 0], 60))
    return Spec(progs=[], harness=h, jobs=jobs, exact_arena=False, wraps=engine.WRAPS, use_progs=False,
                bounds=f"all 22 result types, lists of up to {3 if q else 8} elements and strings of up to {3 if q else 8} bytes, every content; an earlier result of the same or another type in the RetType; ExecEngine and BatchExecEngine, own and caller's context",
                assumptions=["the compiled entry is replaced by one returning a symbolic value of the type"],
                explanation="The engines' dispatch runs symbolically for each result type; the entry's memory is overwritten before the comparison, so a result that refers to it is seen.")
