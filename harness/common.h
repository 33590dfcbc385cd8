// Helpers shared by the drivers.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "google/output_string.h"

using std::string;
using std::vector;

// splitmix64: every random choice is a function of the seed.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(int n) { return below(n) == 0; }
};

inline int HexVal(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
inline string FromHex(const string& h) {
  if (h == "-") return string();
  string r;
  r.reserve(h.size() / 2);
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)(HexVal(h[i]) * 16 + HexVal(h[i + 1])));
  return r;
}
inline string ToHex(const string& s) {
  if (s.empty()) return "-";
  static const char* d = "0123456789abcdef";
  string r;
  r.reserve(s.size() * 2);
  for (unsigned char c : s) { r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
  return r;
}

// A heap block of exactly the given size, so that the address sanitizer sees any
// access beyond it and any access after it has been given up.
class Exact {
 public:
  Exact(const char* p, size_t n) : p_(new char[n]), n_(n) { if (n) memcpy(p_, p, n); }
  explicit Exact(const string& s) : p_(new char[s.size()]), n_(s.size()) { if (n_) memcpy(p_, s.data(), n_); }
  ~Exact() { delete[] p_; }
  const char* data() const { return p_; }
  size_t size() const { return n_; }
 private:
  char* p_;
  size_t n_;
  Exact(const Exact&);
  void operator=(const Exact&);
};

// An output object that counts how often it would have had to grow, never changes what it
// has been given, and checks that nobody clears it.
class GrowOutput : public open_vcdiff::OutputStringInterface {
 public:
  GrowOutput() : cap_(0), grows(0), cleared(0) {}
  virtual open_vcdiff::OutputStringInterface& append(const char* s, size_t n) {
    need(text.size() + n);
    text.append(s, n);
    return *this;
  }
  virtual void clear() { ++cleared; text.clear(); }
  virtual void push_back(char c) { need(text.size() + 1); text.push_back(c); }
  virtual void ReserveAdditionalBytes(size_t n) { need(text.size() + n); }
  virtual size_t size() const { return text.size(); }
  string text;
 private:
  void need(size_t n) { if (n > cap_) { cap_ = n; ++grows; } }
  size_t cap_;
 public:
  int grows, cleared;
};

// A minimal string class for the template interface.
class PlainOut {
 public:
  PlainOut& append(const char* s, size_t n) { v.insert(v.end(), s, s + n); return *this; }
  void clear() { v.clear(); }
  void push_back(char c) { v.push_back(c); }
  void reserve(size_t n) { v.reserve(n); }
  size_t size() const { return v.size(); }
  vector<char> v;
};

// Chunkings as lists of chunk lengths.
typedef vector<size_t> Chunking;
inline string Show(const Chunking& c) {
  std::ostringstream o;
  for (size_t i = 0; i < c.size(); ++i) { if (i) o << ","; if (i > 60) { o << "..."; break; } o << c[i]; }
  return o.str();
}
inline Chunking Fixed(size_t len, size_t k) {
  Chunking r;
  for (size_t p = 0; p < len; p += k) r.push_back(len - p < k ? len - p : k);
  return r;
}
inline Chunking RandomChunking(Rng* g, size_t len) {
  Chunking r;
  size_t p = 0;
  int style = (int)g->below(4);
  size_t mx = style == 0 ? 4 : style == 1 ? 16 : style == 2 ? len + 1 : 64;
  while (p < len) {
    size_t k = g->below(mx + 1);
    if (k > len - p) k = len - p;
    if (k == 0 && g->chance(2)) k = 1 < len - p ? 1 : len - p;
    r.push_back(k);
    p += k;
  }
  if (g->chance(4)) r.push_back(0);
  return r;
}

// Progress, so that the orchestrator knows what was running when the process died.
inline void Begin(const char* what) {
  alarm(200);          // no item takes anywhere near this long
  static FILE* f = NULL;
  static bool tried = false;
  if (!tried) { tried = true; const char* n = getenv("VERIF_PROGRESS"); if (n) f = fopen(n, "w"); }
  if (f) { rewind(f); fprintf(f, "%s\n", what); fflush(f); }
}
#endif
