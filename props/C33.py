"""An error shows the part of the program that is wrong, and the text that is there."""
import itertools, random
from jf import Spec
from common import *
import C28

RENDER = r"""
// ---- what a message looks like, written down independently
static std::string dec(uint64_t v) { std::string r; do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return r; }
extern "C" int64_t jf_between(const char* what, int64_t lo, int64_t hi) {
  int8_t v = sym<int8_t>(what);
  jf_assume((v >= lo) & (v <= hi));
  return (int8_t)jf_concretize((uint8_t)v);
}
static bool eqs(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  bool r = true;
  for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]);
  return r;
}
// text: '.' an arbitrary byte, ',' an arbitrary byte but a newline, 'n' a newline
JF_H h_render(const char* shape, uint64_t len, uint64_t msg, uint64_t notes, uint64_t hints, uint64_t warn, uint64_t bad) {
  std::string text;
  for (uint64_t i = 0; i < len; i++) {
    char c = shape[i];
    if (c == 'n') { text.push_back('\n'); continue; }
    char v = sym<char>("byte");
    if (c == ',') jf_assume(v != '\n');
    text.push_back(v);
  }
  // its lines
  std::vector<std::string> lines(1);
  for (char c : text) { if (c == '\n') lines.emplace_back(); else lines.back().push_back(c); }
  const int n = (int)lines.size();
  int bl, bc, el, ec;
  if (bad == 0) {
    bl = (int)jf_between("begin line", 1, n);
    el = (int)jf_between("end line", bl, n);
    bc = (int)jf_between("begin column", 1, (int)lines[bl - 1].size() + 1);
    // the column after the last one
    ec = (int)jf_between("end column", bl == el ? bc : 1, (int)lines[el - 1].size() + 1);
  } else {   // a place outside the text
    bl = (int)jf_between("begin line", bad == 1 ? -1 : 1, bad == 1 ? 0 : n + 2);
    el = (int)jf_between("end line", -1, n + 2);
    bc = (int)jf_between("begin column", -1, 6);
    ec = (int)jf_between("end column", -1, 6);
  }
  std::string m, note[3], hint[3];
  for (uint64_t i = 0; i < msg; i++) m.push_back(sym<char>("message"));
  for (uint64_t i = 0; i < notes; i++) note[i] = std::string(1, sym<char>("note")) + "n";
  for (uint64_t i = 0; i < hints; i++) hint[i] = std::string(1, sym<char>("hint")) + "h";
  Diagnostic d(warn ? Diagnostic::Level::kWarning : Diagnostic::Level::kError, m, SourceLocation{std::string_view(text.data(), text.size()), bl, bc, el, ec});
  for (uint64_t i = 0; i < notes || i < hints; i++) {   // in any order among themselves
    if (i < hints) d.WithHint(hint[i]);
    if (i < notes) d.WithNote(note[i]);
  }
  std::string r = d.Render();
  std::string want = std::string(warn ? "warning: " : "error: ") + m;
  const bool located = bl > 0 && len;
  std::string gutter = " ";
  if (located) {
    std::string head = want + "\n  --> line " + dec(bl) + ", column ";
    if (bad) {   // at least the place is there, and the notes and hints
      jf_assert(r.size() >= head.size() && eqs(r.substr(0, head.size()), head), "the message and the place come first");
      std::string tail;
      for (uint64_t i = 0; i < notes; i++) tail += "= note: " + note[i];
      jf_assert(!hints || (r.size() > 10 && eqs(r.substr(r.size() - 10), "= hint: " + hint[hints - 1])), "hints come last");
      return;
    }
    want = head + dec(bc);
    gutter = " " + std::string(dec(el).size(), ' ');
    want += "\n" + gutter + " |";
    for (int k = bl; k <= el; k++) {
      const std::string& s = lines[k - 1];
      std::string no = dec(k);
      want += "\n " + std::string(dec(el).size() - no.size(), ' ') + no + " | " + s;
      // the part of this line, one mark at least
      int from = k == bl ? bc : 1, to = k == el ? ec : (int)s.size() + 1;
      if (to <= from) to = from + 1;
      want += "\n" + gutter + " | ";
      for (int c = 1; c < to; c++) want.push_back(c < from ? ' ' : '^');
    }
  }
  for (uint64_t i = 0; i < notes; i++) want += "\n" + gutter + " = note: " + note[i];
  for (uint64_t i = 0; i < hints; i++) want += "\n" + gutter + " = hint: " + hint[i];
  jf_assert(eqs(r, want), "the text at the place is quoted exactly, line by line, and marked from its first column to its last");
}
// ---- results of operations
JF_H h_status(uint64_t len, uint64_t kind) {
  std::string m;
  for (uint64_t i = 0; i < len; i++) m.push_back(sym<char>("message"));
  static const char* const name[] = {"OK", "Argument Invalid: ", "Runtime Error: ", "Parse Error: ", "NotImplemented: "};
  auto make = [&](uint64_t k) {
    switch (k) {
      case 1: return Status::InvalidArgument(m);
      case 2: return Status::RuntimeError(m, ":", 7);
      case 3: return Status::ParseError("x", m);
      case 4: return Status::NotImplemented(m);
      default: return Status::OK();
    }
  };
  std::string text[] = {"OK", m, m + ":7", "x" + m, m};
  std::string want = kind ? name[kind] + text[kind] : "OK";
  Status a = make(kind);
  jf_assert(a.ok() == (kind == 0) && eqs(a.ToString(), want), "a status has its kind and message");
  Status b(std::move(a));
  jf_assert(b.ok() == (kind == 0) && eqs(b.ToString(), want), "a moved status is the same");
  for (uint64_t k = 0; k < 5; k++) {
    Status c = make(k);
    Status e = make(kind);
    c = std::move(e);
    jf_assert(c.ok() == (kind == 0) && eqs(c.ToString(), want), "an assigned status is the same");
    std::string keep = m;
    m = sym<uint8_t>("shorter") ? "earlier" : "";
    Status d = make(k);
    m = keep;
    Status f = make(kind);
    d = std::move(f);
    jf_assert(d.ok() == (kind == 0) && eqs(d.ToString(), want), "an assigned status replaces the earlier one");
  }
  Status none;
  jf_assert(none.ok() && none.ToString() == "OK", "no status is success");
}
"""


def spec(tier):
    q = tier == "quick"
    h, jobs = C28.spec(tier, where=True)
    # rendering is of interest here, so that what the validator shows is told apart by another way
    R = []
    shapes = ["", ",", "..", "...", "....", "n", "nn", ",n,", ",,,,", ",n,,n,", "nnn,", ",,nn,,", "n,.n", ".n.", ",,,n,,,n,,", "nnnnnnnn,n,n,", ",nnnnnnnnn,"]
    if not q:
        shapes += [".....", "n....", "....n", ",,,,,,,,", "nn..nn", ",,,n,,,n,,n,", "n" * 12 + ",", "," + "n" * 98 + ",n,", ".nnnnnnnnn."]
    for s in shapes:
        R.append((s, 1, 0, 0, 0, 0))
    for notes in range(3):
        for hints in range(3):
            for w in (0, 1):
                R.append((",n,", notes, notes, hints, w, 0))
                R.append(("", 2, notes, hints, w, 0) if w else (",", 2, notes, hints, w, 1))
    for s in ("", ",", ".,", ",n,") if q else ("", ",", ".,", ",n,", "...", ",nn,"):
        for b in (1, 2):
            R.append((s, 1, 1, 1, 0, b))
    rj = []
    src = ""
    for i, (s, m, n, k, w, b) in enumerate(R):
        src += f'JF_H h_r{i}() {{ h_render("{s}", {len(s)}, {m}, {n}, {k}, {w}, {b}); }}\n'
        rj.append((f"r{i}:{s or '_'}:{m}{n}{k}{w}{b}", f"h_r{i}", [], 300))
    for n in (0, 1, 4):
        for k in range(5):
            rj.append((f"s{n}_{k}", "h_status", [n, k], 100))
    return Spec(progs=[], use_progs=False, harness=h + RENDER + src, jobs=rj + jobs, exact_arena=False,
                wraps=["_ZNK9jitfusion17FunctionSignature8ToStringB5cxx11Ev",
                       "_ZN9jitfusion10TypeHelper12TypeToStringB5cxx11ENS_9ValueTypeE", "_ZN9jitfusion10TypeHelper20BinaryOPTypeToStringB5cxx11ENS_12BinaryOPTypeE",
                       "_ZN9jitfusion10TypeHelper19UnaryOPTypeToStringB5cxx11ENS_11UnaryOPTypeE"],
                bounds=f"{len(R)} shapes of a text of up to " + ("18" if q else "104") + " bytes, up to four of them arbitrary, with every place in it; statuses of each kind with messages of up to 4 bytes; {len(jobs)} tree shapes with every operator and type of every leaf".replace("{len(jobs)}", str(len(jobs))),
                assumptions=["the printing of integers is replaced by code of the same format", "names of types in messages are replaced", "hash containers are modelled with one bucket"],
                explanation="Rendering runs on a symbolic text and symbolic places and must give the text laid down independently; the validator runs on trees with symbolic types and must show its error at the first part that breaks a rule.")
