// Instantiates the parts of std::string that the standard headers declare
// `extern template`, so that they are encoded instead of assumed.
#include <cstdlib>
#include <cstring>
#include <string>
template class std::basic_string<char>;

// std::runtime_error, whose message is a pointer after the virtual table's
namespace { struct JfRuntimeError { void* vptr; char* text; }; }
static char* jf_text(const char* p, size_t n) { char* r = (char*)malloc(n + 1); memcpy(r, p, n); r[n] = 0; return r; }
extern "C" {
__attribute__((weak, used)) void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(JfRuntimeError* t, const std::string& m) { t->text = jf_text(m.data(), m.size()); }
__attribute__((weak, used)) void _ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(JfRuntimeError* t, const std::string& m) { t->text = jf_text(m.data(), m.size()); }
__attribute__((weak, used)) void _ZNSt13runtime_errorC2ERKS_(JfRuntimeError* t, const JfRuntimeError& o) { t->text = jf_text(o.text, strlen(o.text)); }
__attribute__((weak, used)) void _ZNSt13runtime_errorC1ERKS_(JfRuntimeError* t, const JfRuntimeError& o) { t->text = jf_text(o.text, strlen(o.text)); }
__attribute__((weak, used)) const char* _ZNKSt13runtime_error4whatEv(const JfRuntimeError* t) { return t->text; }
__attribute__((weak, used)) void _ZNSt13runtime_errorD2Ev(JfRuntimeError* t) { free(t->text); }
__attribute__((weak, used)) void _ZNSt13runtime_errorD1Ev(JfRuntimeError* t) { free(t->text); }
}
