// Drives address caches.
//   cachescript FILE RULES
// Per line:  id near same op op ...
//   e:ADDR:HERE            encode with one cache, decode with the other
//   d:MODE:HEX:HERE[=R]    decode (with the second cache)
//   i                      Init() both again
// or  id pairs SEED N FROM TO   N random copies for the pairs of cache sizes number FROM..TO-1
// RULES: record  print  R id op op ...     judge  BAD lines
#include "common.h"
#include <config.h>
#include <limits.h>
#include "addrcache.h"
#include "varint_bigendian.h"
#include "vcdiff_defs.h"
using namespace open_vcdiff;

static vector<string> Split(const string& s, char sep) {
  vector<string> r;
  string cur;
  for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(ch);
  r.push_back(cur);
  return r;
}
struct Pair {
  VCDiffAddressCache e, d;
  Pair(int near, int same) : e((unsigned char)near, (unsigned char)same), d((unsigned char)near, (unsigned char)same) {}
  bool Init() { return e.Init() && d.Init(); }
  // the bytes, as the writer writes them
  string Encode(VCDAddress a, VCDAddress here, int* mode) {
    VCDAddress v = -77;
    unsigned char m = e.EncodeAddress(a, here, &v);
    *mode = m;
    string s;
    if (e.WriteAddressAsVarintForMode(m)) VarintBE<int32_t>::AppendToString(v, &s);
    else s.push_back((char)(unsigned char)v);
    return s;
  }
  VCDAddress Decode(int mode, const string& bytes, VCDAddress here, int* used) {
    Exact b(bytes);
    const char* p = b.data();
    VCDAddress r = d.DecodeAddress(here, (unsigned char)mode, &p, b.data() + b.size());
    *used = (int)(p - b.data());
    return r;
  }
};

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  bool record = strstr(argv[2], "record") != NULL, judge = strstr(argv[2], "judge") != NULL;
  long n = 0, copies = 0, decodes = 0, pairs = 0;
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, a, b, op;
    is >> id >> a >> b;
    Begin(id.c_str());
    ++n;
    if (a == "pairs") {
      int cnt, from, to, k = 0;
      is >> cnt >> from >> to;
      Rng rng(strtoull(b.c_str(), NULL, 10) * 1000003);
      for (int near = 0; near <= 254; ++near)
        for (int same = 0; near + same <= 254; ++same, ++k) {
          if (k < from || k >= to) continue;
          ++pairs;
          Pair p(near, same);
          if (!p.Init()) { std::cout << "BAD " << id << " Init refuses " << near << "," << same << "\n"; continue; }
          vector<VCDAddress> seen;
          VCDAddress here = rng.chance(4) ? INT_MAX - 100000 : 1 + (VCDAddress)rng.below(rng.chance(2) ? 300 : 200000);
          int mod = (same ? same : 1) * 256, bad = 0;
          const int fill = cnt + 2 * near;          // enough to fill the near cache
          for (int i = 0; i < fill && !bad; ++i) {
            if (rng.chance(40 + 3 * near)) { p.Init(); seen.clear(); }
            int64_t x = 0;
            switch (rng.below(7)) {
              case 0: x = seen.empty() ? 0 : seen[rng.below(seen.size())]; break;
              case 1: x = (seen.empty() ? 0 : (int64_t)seen[rng.below(seen.size())]) + (int64_t)mod * (int64_t)(1 + rng.below(3)); break;
              case 2: x = (seen.empty() ? 0 : (int64_t)seen[rng.below(seen.size())]) + (int64_t)rng.below(200); break;
              case 3: x = (int64_t)here - 1 - (int64_t)rng.below(200); break;
              case 4: x = (int64_t)rng.below(200); break;
              case 5: x = (seen.empty() ? 0 : (int64_t)seen[rng.below(seen.size())]) - (int64_t)rng.below(300); break;
              default: x = (int64_t)rng.below((uint64_t)here);
            }
            if (x < 0 || x >= here) x = (int64_t)rng.below((uint64_t)here);
            VCDAddress addr = (VCDAddress)x;
            int mode = -1, used = 0;
            ++copies;
            string s = p.Encode(addr, here, &mode);
            VCDAddress got = p.Decode(mode, s, here, &used);
            if (got != addr || used != (int)s.size()) {
              ++bad;
              std::cout << "BAD " << id << " caches " << near << "," << same << ": copy " << i << " from " << addr << " at " << here
                        << " encoded as mode " << mode << " " << ToHex(s) << " is decoded as " << got << " (" << used << " bytes)\n";
            }
            seen.push_back(addr);
            if (here < INT_MAX - 400) here += (VCDAddress)rng.below(300);
          }
        }
      continue;
    }
    Pair p(atoi(a.c_str()), atoi(b.c_str()));
    std::ostringstream res;
    if (!p.Init()) { std::cout << "BAD " << id << " Init refuses valid sizes\n"; continue; }
    while (is >> op) {
      vector<string> eq = Split(op, '='), f = Split(eq[0], ':');
      if (f[0] == "i") { if (!p.Init()) std::cout << "BAD " << id << " Init fails\n"; res << " i"; }
      else if (f[0] == "e") {
        int mode = -1, used = 0;
        VCDAddress addr = atoi(f[1].c_str()), here = atoi(f[2].c_str());
        string s = p.Encode(addr, here, &mode);
        VCDAddress got = p.Decode(mode, s, here, &used);
        ++copies;
        res << " e:" << addr << ":" << here << ":" << mode << ":" << ToHex(s) << ":" << got;
        if (judge && (got != addr || used != (int)s.size()))
          std::cout << "BAD " << id << " " << op << " encoded as mode " << mode << " " << ToHex(s) << " is decoded as " << got << "\n";
      } else {
        int used = 0;
        VCDAddress here = atoi(f[3].c_str());
        VCDAddress got = p.Decode(atoi(f[1].c_str()), FromHex(f[2]), here, &used);
        ++decodes;
        res << " d:" << f[1] << ":" << f[2] << ":" << here << ":" << got << ":" << used;
        if (judge && eq.size() > 1 && got != atoi(eq[1].c_str())) std::cout << "BAD " << id << " " << op << " is decoded as " << got << "\n";
      }
    }
    if (record) std::cout << "R " << id << res.str() << "\n";
  }
  std::cout << "STAT scripts " << n << " copies " << copies << " decodes " << decodes << " pairs " << pairs << "\n";
  return 0;
}
