// Data too large to write down: ~piece+piece+... with pieces
//   h:HEX, r:SEED:LEN random bytes, a:SEED:LEN random letters, s:SEED:LEN random bytes below 128, b:BYTE:LEN a run, d:OFF:LEN part of the dictionary,
//   t:OFF:LEN part of the data so far (may overlap what it produces)
//   c:SEED:BLOCKS  blocks of 16 bytes, all different, for which the polynomial of base 257 modulo 2^23 has one value
//   x:SEED:BLOCKS:SEED2  the same, each followed by 32 random bytes
//   z:SEED:PERIOD:LEN  16 equal bytes and PERIOD - 16 random ones, again and again
#ifndef VERIF_EXPAND_H_
#define VERIF_EXPAND_H_
#include "common.h"

inline vector<string> Split(const string& s, char sep) {
  vector<string> r;
  string cur;
  for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(ch);
  r.push_back(cur);
  return r;
}

inline void Colliding(uint64_t seed, size_t blocks, string* r) {
  const uint32_t mask = (1u << 23) - 1, want = 0x2a5a5a & mask;
  Rng g(seed);
  for (size_t i = 0; i < blocks;) {
    unsigned char b[16];
    uint32_t h = 0;
    for (int k = 0; k < 16; ++k) b[k] = k < 13 ? (unsigned char)g.next() : 0;
    for (int k = 0; k < 16; ++k) h = (h * 257 + b[k]) & mask;
    const uint32_t rest = (want - h) & mask;
    const uint32_t x = rest / 66049, y = rest % 66049 / 257, z = rest % 257;
    if (x > 255 || y > 255 || z > 255) continue;
    b[13] = (unsigned char)x; b[14] = (unsigned char)y; b[15] = (unsigned char)z;
    r->append((const char*)b, 16);
    ++i;
  }
}

inline string Expand(const string& x, const string& dict) {
  if (x[0] != '~') return FromHex(x);
  string r;
  for (const string& piece : Split(x.substr(1), '+')) {
    vector<string> f = Split(piece, ':');
    if (f[0] == "h") { r += FromHex(f[1]); continue; }
    size_t a = strtoull(f[1].c_str(), NULL, 10), n = strtoull(f[2].c_str(), NULL, 10);
    if (f[0] == "r") { Rng g(a); for (size_t i = 0; i < n; ++i) r.push_back((char)g.next()); }
    else if (f[0] == "s") { Rng g(a); for (size_t i = 0; i < n; ++i) r.push_back((char)(g.next() & 127)); }
    else if (f[0] == "a") { Rng g(a); for (size_t i = 0; i < n; ++i) r.push_back((char)('a' + g.below(26))); }
    else if (f[0] == "b") r.append(n, (char)a);
    else if (f[0] == "d") r += dict.substr(a, n);
    else if (f[0] == "t") for (size_t i = 0; i < n; ++i) r.push_back(r[a + i]);
    else if (f[0] == "c") Colliding(a, n, &r);
    else if (f[0] == "x") {
      string b;
      Colliding(a, n, &b);
      Rng g(strtoull(f[3].c_str(), NULL, 10));
      for (size_t i = 0; i < n; ++i) { r += b.substr(16 * i, 16); for (int k = 0; k < 32; ++k) r.push_back((char)g.next()); }
    }
    else if (f[0] == "z") {
      Rng g(a);
      const size_t len = strtoull(f[3].c_str(), NULL, 10);
      for (size_t i = 0; i < len; ++i) r.push_back(i % n < 16 ? (char)0 : (char)(g.next() | 1));
    }
  }
  return r;
}
#endif
