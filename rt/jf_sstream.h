// Force-included when the library is compiled for symbolic execution: a
// self-contained string stream, so that message formatting stays inside the
// encoded code instead of libstdc++'s compiled locale machinery.
#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
extern "C" int jf_symbolic(unsigned long long v);
namespace std {
class jf_stringstream {
  std::string s_;

 public:
  jf_stringstream() = default;
  explicit jf_stringstream(const std::string& s) : s_(s) {}
  jf_stringstream& operator<<(const std::string& s) { s_ += s; return *this; }
  jf_stringstream& operator<<(std::string_view s) { s_.append(s.data(), s.size()); return *this; }
  jf_stringstream& operator<<(const char* s) { s_ += s; return *this; }
  jf_stringstream& operator<<(char c) { s_ += c; return *this; }
  jf_stringstream& operator<<(signed char c) { s_ += (char)c; return *this; }
  jf_stringstream& operator<<(unsigned char c) { s_ += (char)c; return *this; }
  jf_stringstream& operator<<(bool b) { s_ += b ? '1' : '0'; return *this; }
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
  jf_stringstream& operator<<(T v) {
    if constexpr (std::is_floating_point_v<T>) { s_ += "<fp>"; return *this; }
    else {
      // the digits of a number that is not fixed are not part of any property
      if (jf_symbolic((unsigned long long)v)) { s_ += "<n>"; return *this; }
      bool neg = v < 0;
      unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
      char b[24]; int n = 0;
      do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u);
      if (neg) s_ += '-';
      while (n) s_ += b[--n];
      return *this;
    }
  }
  // a position in a text, as Bison's location.hh prints it
  template <typename T, typename = std::enable_if_t<std::is_class_v<T> && !std::is_convertible_v<T, std::string_view>>, typename = void>
  jf_stringstream& operator<<(const T& t) { object(t, 0); return *this; }
  template <typename T> auto object(const T& t, int) -> decltype(t.begin.line, t.end.column, void()) {
    int c = t.end.column > 0 ? t.end.column - 1 : 0;
    *this << t.begin.line << "." << t.begin.column;
    if (t.begin.line < t.end.line) *this << '-' << t.end.line << '.' << c;
    else if (t.begin.column < c) *this << '-' << c;
  }
  template <typename T> void object(const T&, long) { s_ += "<object>"; }
  std::string str() const { return s_; }
  void str(const std::string& s) { s_ = s; }
};
}  // namespace std
#define stringstream jf_stringstream
#define ostringstream jf_stringstream
