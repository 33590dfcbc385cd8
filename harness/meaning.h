// What a delta file means: spec/VcdRfc.tla and the operators of spec/VcdFormat.tla it uses, definition by definition,
// for files that are too large for TLC.  Uses nothing of the code under test.  meaning.cc compares it with the
// specification's own verdicts and targets.
#ifndef VERIF_MEANING_H_
#define VERIF_MEANING_H_
#include <stdint.h>
#include <string>
#include <utility>
#include <vector>

namespace meaning {
typedef std::string Bytes;
inline int64_t At(const Bytes& d, int64_t p) { return (unsigned char)d[(size_t)p]; }

// positions count from 0 here; e is the first position not to be read
struct Int { bool ok; int64_t v, p; };
inline Int Varint(const Bytes& d, int64_t p, int64_t e) {
  int64_t r = 0;
  for (;; ++p) {
    if (p >= e) return {false, 0, p};
    r += At(d, p) % 128;
    if (At(d, p) < 128) return {true, r, p + 1};
    if (r > 16777215) return {false, 0, p};
    r *= 128;
  }
}
inline Int Varint32(const Bytes& d, int64_t p, int64_t e) {
  uint64_t r = 0;
  for (;; ++p) {
    if (p >= e) return {false, 0, p};
    r += At(d, p) % 128;
    if (At(d, p) < 128) { if (r >> 32) return {false, 0, p}; return {true, (int64_t)r, p + 1}; }
    if (r >> 56) return {false, 0, p};
    r *= 128;
  }
}
inline uint32_t Adler(const Bytes& s) {
  uint32_t a = 0, b = 0;
  for (unsigned char c : s) { a = (a + c) % 65521; b = (b + a) % 65521; }
  return (b << 16) | a;
}
enum { NOOP, ADD, RUN, COPY };
inline Bytes DefaultTable() {
  Bytes t(1536, '\0');
  for (int op = 0; op < 256; ++op) {
    int e[6] = {0, 0, 0, 0, 0, 0};   // inst1 size1 mode1 inst2 size2 mode2
    if (op == 0) e[0] = RUN;
    else if (op <= 18) { e[0] = ADD; e[1] = op - 1; }
    else if (op <= 162) { int m = (op - 19) / 16, k = (op - 19) % 16; e[0] = COPY; e[1] = k == 0 ? 0 : k + 3; e[2] = m; }
    else if (op <= 234) { int k = op - 163; e[0] = ADD; e[1] = k % 12 / 3 + 1; e[3] = COPY; e[4] = k % 3 + 4; e[5] = k / 12; }
    else if (op <= 246) { int k = op - 235; e[0] = ADD; e[1] = k % 4 + 1; e[3] = COPY; e[4] = 4; e[5] = k / 4 + 6; }
    else { e[0] = COPY; e[1] = 4; e[2] = op - 247; e[3] = ADD; e[4] = 1; }
    const int field[6] = {0, 3, 1, 4, 2, 5};
    for (int f = 0; f < 6; ++f) t[256 * f + op] = (char)e[field[f]];
  }
  return t;
}
inline bool TableValid(const Bytes& t, int64_t last) {
  bool add = false, run = false;
  std::vector<bool> copy((size_t)last + 1, false);
  for (int op = 0; op < 256; ++op) {
    const int64_t i1 = At(t, op), i2 = At(t, 256 + op), s1 = At(t, 512 + op), s2 = At(t, 768 + op), m1 = At(t, 1024 + op), m2 = At(t, 1280 + op);
    if (i1 > 3 || i2 > 3 || m1 > last || m2 > last) return false;
    if ((i1 == NOOP && s1) || (i2 == NOOP && s2) || (i1 != COPY && m1) || (i2 != COPY && m2)) return false;
    if (s1 == 0 && i2 == NOOP) {
      if (i1 == ADD) add = true;
      if (i1 == RUN) run = true;
      if (i1 == COPY) copy[(size_t)m1] = true;
    }
  }
  for (bool c : copy) if (!c) return false;
  return add && run;
}

struct Cfg {
  const Bytes* dict;
  bool allow;
  int64_t maxFile, maxWin, planned;
  Bytes tab;
  int64_t near, same;
  bool ext;
};
struct Window {
  bool ok;
  Bytes win;
  int64_t p;                  // behind it
  int64_t indicator, srclen, dl, il, al, ck;   // ck -1: none
  bool inter;
  size_t insts;
};
inline Window ReadWindow(const Cfg& cfg, const Bytes& d, int64_t p, const Bytes& prior) {
  Window w;
  w.ok = false; w.p = p; w.ck = -1; w.srclen = 0; w.insts = 0; w.inter = false; w.dl = w.il = w.al = 0;
  const int64_t end = (int64_t)d.size();
  const int64_t wi = w.indicator = At(d, p);
  const bool src = wi & 1, tgt = wi & 2, hasck = cfg.ext && (wi & 4);
  if ((src && tgt) || (tgt && !cfg.allow)) return w;
  const Bytes& from = tgt ? prior : *cfg.dict;
  int64_t q = p + 1, sbase = 0;
  if (src || tgt) {
    Int a = Varint(d, q, end);
    if (!a.ok) return w;
    Int b = Varint(d, a.p, end);
    if (!b.ok || a.v > (int64_t)from.size() || b.v > (int64_t)from.size() - a.v) return w;
    w.srclen = a.v; sbase = b.v; q = b.p;
  }
  Int dlen = Varint(d, q, end);
  if (!dlen.ok) return w;
  Int tlen = Varint(d, dlen.p, end);
  if (!tlen.ok || tlen.p >= end || tlen.v > cfg.maxWin || At(d, tlen.p) % 8) return w;
  Int l1 = Varint(d, tlen.p + 1, end);
  if (!l1.ok) return w;
  Int l2 = Varint(d, l1.p, end);
  if (!l2.ok) return w;
  Int l3 = Varint(d, l2.p, end);
  if (!l3.ok) return w;
  int64_t body = l3.p;
  if (hasck) {
    Int c = Varint32(d, body, end);
    if (!c.ok) return w;
    w.ck = c.v; body = c.p;
  }
  const int64_t room = dlen.v - (body - dlen.p);
  if (room < 0 || room != l1.v + l2.v + l3.v || body > end - room) return w;
  w.dl = l1.v; w.il = l2.v; w.al = l3.v;
  const bool inter = w.inter = cfg.ext && l1.v == 0 && l3.v == 0;
  int64_t dp = body, ip = body + l1.v, ap = ip + l2.v;
  const int64_t de = ip, ie = ap, ae = body + room;
  int64_t pend = -1, next = 0;
  std::vector<int64_t> near((size_t)cfg.near, 0), same((size_t)cfg.same * 256, 0);
  while ((int64_t)w.win.size() < tlen.v) {
    // the next instruction
    int64_t inst, size, mode;
    for (;;) {
      if (pend >= 0) { inst = At(cfg.tab, 256 + pend); size = At(cfg.tab, 768 + pend); mode = At(cfg.tab, 1280 + pend); pend = -1; break; }
      if (ip >= ie) return w;
      const int64_t op = At(d, ip++);
      if (At(cfg.tab, 256 + op) != NOOP) pend = op;
      inst = At(cfg.tab, op); size = At(cfg.tab, 512 + op); mode = At(cfg.tab, 1024 + op);
      if (inst != NOOP) break;
    }
    if (size == 0) {
      Int x = Varint(d, ip, ie);
      if (!x.ok) return w;
      size = x.v; ip = x.p;
    }
    ++w.insts;
    if (size > tlen.v - (int64_t)w.win.size()) return w;
    int64_t* rd = inter ? &ip : &dp;
    int64_t* ra = inter ? &ip : &ap;
    const int64_t red = inter ? ie : de, rea = inter ? ie : ae;
    if (inst == ADD) {
      if (size > red - *rd) return w;
      w.win.append(d, (size_t)*rd, (size_t)size);
      *rd += size;
    } else if (inst == RUN) {
      if (*rd >= red) return w;
      w.win.append((size_t)size, d[(size_t)*rd]);
      ++*rd;
    } else {
      const int64_t here = w.srclen + (int64_t)w.win.size();
      int64_t a;
      if (*ra >= rea) return w;
      if (mode >= 2 + cfg.near) { a = same[(size_t)((mode - 2 - cfg.near) * 256 + At(d, *ra))]; ++*ra; }
      else {
        Int x = Varint(d, *ra, rea);
        if (!x.ok) return w;
        *ra = x.p;
        a = mode == 0 ? x.v : mode == 1 ? here - x.v : near[(size_t)(mode - 2)] + x.v;
        if (a > 2147483647) return w;
      }
      if (a < 0 || a >= here) return w;
      for (int64_t i = 0; i < size; ++i) w.win.push_back(a + i < w.srclen ? from[(size_t)(sbase + a + i)] : w.win[(size_t)(a + i - w.srclen)]);
      if (cfg.near) { near[(size_t)next] = a; next = (next + 1) % cfg.near; }
      if (cfg.same) same[(size_t)(a % (cfg.same * 256))] = a;
    }
  }
  if (ip != ie || pend >= 0 || (!inter && (dp != de || ap != ae))) return w;
  if (hasck && (int64_t)Adler(w.win) != w.ck) return w;
  w.ok = true;
  w.p = body + room;
  return w;
}

struct File { bool valid; Bytes target; int64_t next; std::vector<int64_t> sizes; };
inline File ReadWindows(const Cfg& cfg, const Bytes& d, int64_t p) {
  File f;
  f.valid = false; f.next = p;
  for (;;) {
    const int64_t have = (int64_t)f.target.size();
    if ((cfg.planned >= 0 && !f.sizes.empty() && have == cfg.planned) || p >= (int64_t)d.size()) {
      f.valid = !(cfg.planned >= 0 && have != cfg.planned);
      f.next = p;
      return f;
    }
    Window w = ReadWindow(cfg, d, p, f.target);
    const int64_t lim = cfg.planned >= 0 && cfg.planned < cfg.maxFile ? cfg.planned : cfg.maxFile;
    if (!w.ok || (int64_t)w.win.size() > lim - have) return f;
    f.target += w.win;
    f.sizes.push_back((int64_t)w.win.size());
    p = w.p;
  }
}
inline File Read(const Bytes& d, int64_t p0, Cfg cfg) {
  File f;
  f.valid = false; f.next = p0;
  const int64_t n = (int64_t)d.size() - p0;
  if (n == 0) { f.valid = cfg.planned < 0; return f; }
  if (n < 5 || At(d, p0) != 214 || At(d, p0 + 1) != 195 || At(d, p0 + 2) != 196 || (At(d, p0 + 3) != 0 && At(d, p0 + 3) != 83)) return f;
  if (At(d, p0 + 4) & 1) return f;
  cfg.tab = DefaultTable(); cfg.near = 4; cfg.same = 3;
  cfg.ext = At(d, p0 + 3) == 83;
  if (!(At(d, p0 + 4) & 2)) return ReadWindows(cfg, d, p0 + 5);
  if (cfg.planned >= 0) return f;
  Int nn = Varint(d, p0 + 5, (int64_t)d.size());
  if (!nn.ok) return f;
  Int ns = Varint(d, nn.p, (int64_t)d.size());
  if (!ns.ok || nn.v > 255 || ns.v > 255 || nn.v + ns.v > 254) return f;
  const Bytes def = DefaultTable();
  Cfg tc = {&def, true, 67108864, 67108864, 1536, Bytes(), 0, 0, false};
  File t = Read(d, ns.p, tc);
  if (!t.valid || !TableValid(t.target, nn.v + ns.v + 1)) return f;
  cfg.tab = t.target; cfg.near = nn.v; cfg.same = ns.v;
  return ReadWindows(cfg, d, t.next);
}
inline Cfg DefaultCfg(const Bytes* dict) { return {dict, true, 67108864, 67108864, -1, Bytes(), 0, 0, false}; }
inline Cfg Unlimited(const Bytes* dict, bool ext) { return {dict, true, 2147483647, 2147483647, -1, DefaultTable(), 4, 3, ext}; }
}  // namespace meaning
#endif
