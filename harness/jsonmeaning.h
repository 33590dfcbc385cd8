// What a JSON text means: spec/VcdJson.tla, definition by definition, for texts too large for TLC.
#ifndef VERIF_JSONMEANING_H_
#define VERIF_JSONMEANING_H_
#include <stdint.h>
#include <string>
#include <vector>

namespace jsonmeaning {
typedef std::string Bytes;
struct Item { bool str; Bytes s; int64_t v; };
struct Result { bool ok; Bytes target; };

inline size_t SkipWs(const Bytes& d, size_t p) {
  while (p < d.size() && (d[p] == 32 || d[p] == 9 || d[p] == 10 || d[p] == 13)) ++p;
  return p;
}
inline int Hex(unsigned char c) { return c >= 48 && c <= 57 ? c - 48 : c >= 97 && c <= 102 ? c - 87 : c >= 65 && c <= 70 ? c - 55 : -1; }

// position of the first byte behind the element, or 0
inline size_t ReadItem(const Bytes& d, size_t p, Item* it) {
  if (p >= d.size()) return 0;
  it->s.clear(); it->v = 0; it->str = d[p] == '"';
  if (it->str) {
    for (++p;;) {
      if (p >= d.size()) return 0;
      const unsigned char c = (unsigned char)d[p];
      if (c == '"') return p + 1;
      if (c < 32 || c > 127) return 0;
      if (c != '\\') { it->s.push_back((char)c); ++p; continue; }
      if (p + 1 >= d.size()) return 0;
      static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
      int k = -1;
      for (int i = 0; i < 8; ++i) if (d[p + 1] == from[i]) k = i;
      if (k >= 0) { it->s.push_back(to[k]); p += 2; continue; }
      if (d[p + 1] != 'u' || p + 5 >= d.size()) return 0;
      int v = 0;
      for (int i = 2; i < 6; ++i) { const int h = Hex((unsigned char)d[p + i]); if (h < 0) return 0; v = v * 16 + h; }
      if (v > 127) return 0;
      it->s.push_back((char)v);
      p += 6;
    }
  }
  if (d[p] == '0') return p + 1;
  if (d[p] < '1' || d[p] > '9') return 0;
  while (p < d.size() && d[p] >= '0' && d[p] <= '9' && it->v < 200000000) it->v = it->v * 10 + (d[p++] - '0');
  return p;
}

inline Result Read(const Bytes& d, const Bytes& dict) {
  Result r;
  r.ok = false;
  size_t p = SkipWs(d, 0);
  if (p >= d.size() || d[p] != '[') return r;
  size_t q = SkipWs(d, p + 1);
  std::vector<Item> items;
  if (q < d.size() && d[q] == ']') { r.ok = SkipWs(d, q + 1) >= d.size(); return r; }
  for (;;) {
    Item it;
    q = ReadItem(d, SkipWs(d, p + 1), &it);
    if (!q) return r;
    items.push_back(it);
    p = SkipWs(d, q);
    if (p >= d.size()) return r;
    if (d[p] == ']') break;
    if (d[p] != ',') return r;
  }
  if (SkipWs(d, p + 1) < d.size()) return r;
  for (size_t i = 0; i < items.size(); ++i) {
    if (items[i].str) { r.target += items[i].s; continue; }
    if (i + 1 >= items.size() || items[i + 1].str) return r;
    const size_t off = (size_t)items[i].v, n = (size_t)items[i + 1].v;
    if (off >= dict.size() + r.target.size()) return r;
    for (size_t k = 0; k < n; ++k) r.target.push_back(off + k < dict.size() ? dict[off + k] : r.target[off + k - dict.size()]);
    ++i;
  }
  r.ok = true;
  return r;
}
inline bool Denotes(const Bytes& text, const Bytes& dict, const Bytes& target) {
  if (target.empty()) return text.empty();
  const Result r = Read(text, dict);
  return r.ok && r.target == target;
}
}  // namespace jsonmeaning
#endif
