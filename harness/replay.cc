// Replays delta files generated from the specification into the streaming decoder, in many
// chunkings, and compares with what the specification says about every prefix.
//
//   replay CASES RULES SEED NRANDOM
//
// Each line of CASES:  id dict delta allow maxFile maxWin valid out err errDone steps comp sizes
//   out    what the machine delivers until the end or the error
//   err    the number of bytes after which the machine reports an error, or 0
//   steps  k:n,...   after k bytes, n bytes have been delivered
//   comp   k,...     decoding may be finished after k bytes
//
// RULES is a comma separated subset of
//   accept   a valid delta is accepted and yields the target
//   reject   an invalid delta is not accepted
//   sticky   after an error everything is refused (needs a build with NDEBUG)
//   goon     calls are made after an error, too, but not judged (needs a build with NDEBUG)
//   chunk    all chunkings agree on verdict and (on success) output
//   deliver  after each accepted chunk exactly the determined data has been delivered
//   late     the call that contains byte err is refused; what is delivered by then is determined
//   early    late, and nothing else is refused, and the maximum target file size is kept
//   finish   finishing after any prefix succeeds exactly if the prefix is complete
//   grow     the output object grows at most once per window
//   allow    the other setting of SetAllowVcdTarget makes no difference (where stated)
//   kinds    every kind of output object receives the same bytes
#include "common.h"
#include "google/vcdecoder.h"

using open_vcdiff::VCDiffStreamingDecoder;
using open_vcdiff::VCDiffDecoder;

struct Case {
  string id;
  std::shared_ptr<string> dict;
  string delta;
  bool allow;
  size_t max_file, max_win;
  bool valid;
  string out;
  size_t err, err_done;
  vector<std::pair<size_t, size_t> > steps;
  std::set<size_t> comp;
  vector<size_t> sizes;
  size_t DeliveredAt(size_t k) const {
    size_t r = 0;
    for (size_t i = 0; i < steps.size() && steps[i].first <= k; ++i) r = steps[i].second;
    return r;
  }
  bool ErrorBy(size_t k) const { return err && k >= err; }
};

static std::set<string> rules;
static bool On(const char* r) { return rules.count(r) > 0; }
static long nruns = 0, ncalls = 0, nbad = 0, nfin = 0;

static void Bad(const Case& c, const string& rule, const string& what, const Chunking& ch) {
  if (++nbad <= 50)
    std::cout << "BAD " << c.id << " " << rule << " | " << what << " | chunks " << Show(ch) << std::endl;
}

struct Result {
  bool ok;
  string out;
};

static string Num(size_t n) { std::ostringstream o; o << n; return o.str(); }

static Result RunOne(const Case& c, const Chunking& ch, bool allow, const Exact& dict, bool judge) {
  ++nruns;
  VCDiffStreamingDecoder dec;
  GrowOutput out;
  Result res;
  res.ok = true;
  dec.SetAllowVcdTarget(allow);
  dec.SetMaximumTargetFileSize(c.max_file);
  dec.SetMaximumTargetWindowSize(c.max_win);
  dec.StartDecoding(dict.data(), dict.size());
  size_t pos = 0;
  bool failed = false;
  for (size_t i = 0; i < ch.size(); ++i) {
    size_t before = out.text.size();
    bool r;
    {
      Exact buf(c.delta.data() + pos, ch[i]);
      r = dec.DecodeChunkToInterface(buf.data(), buf.size(), &out);
    }
    ++ncalls;
    pos += ch[i];
    if (!judge) { if (!r) { failed = true; break; } continue; }
    if (failed) {
      if (On("sticky") && (r || out.text.size() != before)) {
        Bad(c, "sticky", "a call after a failed call was not refused", ch);
        res.ok = false;
        return res;
      }
      continue;
    }
    if (out.cleared) { Bad(c, "deliver", "the output object was cleared", ch); break; }
    if (!r) {
      failed = true;
      if ((On("deliver") || On("late")) && allow == c.allow) {
        // Nothing may have been delivered that the bytes so far do not determine.
        if (out.text.size() > c.out.size() || c.out.compare(0, out.text.size(), out.text) != 0)
          Bad(c, "deliver", "a failed call delivered undetermined data", ch);
      }
      if (!On("sticky") && !On("goon")) break;   // a further call ends the process unless NDEBUG is defined
      continue;
    }
    if ((On("early") || On("late")) && c.ErrorBy(pos)) {
      Bad(c, "late", "bytes up to " + Num(pos) + " accepted, error due at " + Num(c.err), ch);
    }
    if (On("deliver") && !c.ErrorBy(pos) && allow == c.allow) {
      size_t want = c.DeliveredAt(pos);
      if (out.text.size() != want)
        Bad(c, "deliver", "after " + Num(pos) + " bytes delivered " + Num(out.text.size()) + " expected " + Num(want), ch);
      else if (out.text.compare(0, string::npos, c.out, 0, want) != 0)
        Bad(c, "deliver", "wrong data after " + Num(pos) + " bytes", ch);
    }
  }
  bool fin = dec.FinishDecoding();
  ++ncalls;
  if (judge && failed && fin && On("reject")) Bad(c, "reject", "FinishDecoding succeeded after a failed call", ch);
  res.ok = !failed && fin;
  res.out = out.text;
  if (!judge) return res;
  if (res.ok && !c.valid && On("reject")) Bad(c, "reject", "an invalid delta file was accepted", ch);
  if (c.valid && On("accept")) {
    if (!res.ok) Bad(c, "accept", string("a valid delta file was rejected by ") + (failed ? "DecodeChunk" : "FinishDecoding"), ch);
    else if (res.out != c.out) Bad(c, "accept", "the target is wrong, size " + Num(res.out.size()) + " expected " + Num(c.out.size()), ch);
  }
  if (On("early") && c.err == 0 && failed) Bad(c, "early", "rejected within the limits", ch);
  if (On("early") && out.text.size() > c.max_file) Bad(c, "early", "more than the maximum target file size delivered", ch);
  if (On("grow") && res.ok) {
    size_t n = 0;
    for (size_t i = 0; i < c.sizes.size(); ++i) n += c.sizes[i] > 0;
    if ((size_t)out.grows > n) Bad(c, "grow", "output grew " + Num(out.grows) + " times for " + Num(n) + " windows", ch);
  }
  return res;
}

static void Judge(const Case& c, Rng* g, int nrandom) {
  const size_t L = c.delta.size();
  Exact dict(*c.dict);
  bool heavy = L > 1200 || c.out.size() > 20000 || c.dict->size() > 100000;
  bool vast = L > 60000 || c.out.size() > 1000000;
  vector<Chunking> all;
  all.push_back(Chunking(1, L));
  if (vast) {
    all.push_back(Fixed(L, 65536 + L / 100));
    all.push_back(Fixed(L, 1 << 20));
    const size_t cuts[] = {1, L / 2, L - 1, (size_t)g->below(L + 1), (size_t)g->below(L + 1)};
    for (size_t k : cuts) { Chunking x; x.push_back(k); x.push_back(L - k); all.push_back(x); }
    for (int i = 0; i < 2; ++i) {
      Chunking x;
      for (size_t p = 0; p < L;) { size_t k = g->below(L / 3 + 2); if (k > L - p) k = L - p; x.push_back(k); p += k; }
      all.push_back(x);
    }
    nrandom = 0;
  }
  if (!vast && L <= 4000) all.push_back(Fixed(L, 1));
  if (!vast) for (size_t k : {2, 3, 7, 64}) all.push_back(Fixed(L, k));
  if (vast) {
  } else if (!heavy) {
    for (size_t k = 1; k < L; ++k) { Chunking x; x.push_back(k); x.push_back(L - k); all.push_back(x); }
    // one byte at a time with empty chunks in between
    Chunking e;
    for (size_t k = 0; k < L; ++k) { e.push_back(0); e.push_back(1); }
    all.push_back(e);
  } else {
    for (int i = 0; i < 12; ++i) { size_t k = g->below(L + 1); Chunking x; x.push_back(k); x.push_back(L - k); all.push_back(x); }
  }
  for (int i = 0; i < nrandom; ++i) all.push_back(RandomChunking(g, L));
  Result first = RunOne(c, all[0], c.allow, dict, true);
  for (size_t i = 1; i < all.size(); ++i) {
    Result r = RunOne(c, all[i], c.allow, dict, true);
    if (On("chunk")) {
      if (r.ok != first.ok) Bad(c, "chunk", string("verdict ") + (r.ok ? "accept" : "reject") + " differs from the whole file in one chunk", all[i]);
      else if (r.ok && r.out != first.out) Bad(c, "chunk", "output differs from the whole file in one chunk", all[i]);
    }
  }
  // Finish after each prefix.
  if (On("finish")) {
    for (size_t k = 0; k <= L; ++k) {
      if (vast && k > 3 && k + 2 < L && !g->chance(L / 4 + 1)) continue;
      if (heavy && !vast && !(k + 40 > L || k < 8 || g->chance(60))) continue;
      VCDiffStreamingDecoder dec;
      string out;
      dec.SetAllowVcdTarget(c.allow);
      dec.SetMaximumTargetFileSize(c.max_file);
      dec.SetMaximumTargetWindowSize(c.max_win);
      dec.StartDecoding(dict.data(), dict.size());
      Exact buf(c.delta.data(), k);
      bool ok = dec.DecodeChunk(buf.data(), k, &out);
      bool fin = dec.FinishDecoding();
      ++nfin;
      bool want = !c.ErrorBy(k) && c.comp.count(k);
      if ((ok && fin) && !want) Bad(c, "finish", "prefix of " + Num(k) + " bytes accepted as complete", Chunking(1, k));
      if (!(ok && fin) && want) Bad(c, "finish", "complete prefix of " + Num(k) + " bytes not accepted", Chunking(1, k));
    }
  }
  if (On("allow") && c.valid && !c.allow) {
    // Disallowed and valid: contains no target window, must be the same when allowed.
    for (int i = 0; i < 4 && i < (int)all.size(); ++i) {
      Result r = RunOne(c, all[i], true, dict, false);
      if (!r.ok || r.out != c.out) Bad(c, "allow", "differs when target windows are allowed", all[i]);
    }
  }
  if (On("kinds") && c.valid && c.allow && c.max_file >= 67108864 && c.max_win >= 67108864) {
    string s; PlainOut p;
    string enc(c.delta);
    VCDiffDecoder d1, d2;
    s = "old contents";
    if (!d1.Decode(dict.data(), dict.size(), enc, &s) || s != c.out) Bad(c, "kinds", "VCDiffDecoder::Decode to std::string", all[0]);
    if (!d2.Decode(dict.data(), dict.size(), enc, &p) || string(p.v.begin(), p.v.end()) != c.out) Bad(c, "kinds", "VCDiffDecoder::Decode to a user string class", all[0]);
    // streaming into a string that already has contents
    VCDiffStreamingDecoder d4;
    string t = "prefix";
    d4.StartDecoding(dict.data(), dict.size());
    bool ok = true;
    size_t pos = 0;
    Chunking x = vast ? Fixed(L, L / 3 + 1) : RandomChunking(g, L);
    for (size_t i = 0; i < x.size() && ok; ++i) { ok = d4.DecodeChunk(c.delta.data() + pos, x[i], &t); pos += x[i]; }
    if (!ok || !d4.FinishDecoding() || t != "prefix" + c.out) Bad(c, "kinds", "streaming into a string with contents", x);
    nruns += 4;
  }
}

static vector<string> Split(const string& s, char sep) {
  vector<string> r;
  string cur;
  for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(ch);
  r.push_back(cur);
  return r;
}

// An expression: tokens xHEX, rLENGTH:BYTE, bLENGTH:SEED, aFROM:TO:PLUS (checksum of a part of the target), cut.
static string Expand(const string& e, const string& target) {
  if (e[0] != '=') return FromHex(e);
  string r;
  std::map<string, string> blocks;
  for (const string& t : Split(e.substr(1), ',')) {
    if (t == "cut") { r.resize(r.size() - 1); continue; }
    if (t[0] == 'x') { r += FromHex(t.substr(1)); continue; }
    vector<string> f = Split(t.substr(1), ':');
    const size_t n = strtoull(f[0].c_str(), NULL, 10);
    const uint64_t v = strtoull(f[1].c_str(), NULL, 10);
    if (t[0] == 'r') r.append(n, (char)v);
    else if (t[0] == 'b') {
      string& b = blocks[t];
      if (b.size() != n) {
        Rng g(v);
        b.resize(n);
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t x = g.next(); memcpy(&b[i], &x, 8); }
        for (; i < n; ++i) b[i] = (char)g.next();
      }
      r += b;
    } else if (t[0] == 'a') {
      uint32_t a = 0, b = 0;
      for (size_t i = n; i < v; ++i) { a = (a + (unsigned char)target[i]) % 65521; b = (b + a) % 65521; }
      uint32_t c = (b << 16 | a) + (uint32_t)strtoull(f[2].c_str(), NULL, 10);
      for (int s = 28; s > 0; s -= 7) r.push_back((char)(128 | (c >> s & 127)));
      r.push_back((char)(c & 127));
    }
  }
  return r;
}

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::ifstream in(argv[1]);
  for (const string& r : Split(argv[2], ',')) rules.insert(r);
  uint64_t seed = strtoull(argv[3], NULL, 10);
  int nrandom = atoi(argv[4]);
  std::map<string, std::shared_ptr<string> > dicts;
  string line;
  long n = 0;
  while (std::getline(in, line)) {
    vector<string> f = Split(line, ' ');
    if (f[0] == "DICT" && f[2].compare(0, 5, "wide:") == 0) {      // WideByte of the specification
      const size_t len = strtoull(f[2].c_str() + 5, NULL, 10);
      std::shared_ptr<string> s = std::make_shared<string>();
      s->resize(len);
      char* p = &(*s)[0];
      for (size_t i = 0; i < len; ++i) p[i] = (char)(i % 251 + (i / 65536) * 7 + (i / 256) % 13);
      dicts[f[1]] = s;
      continue;
    }
    if (f[0] == "DICT") { dicts[f[1]] = std::make_shared<string>(FromHex(f[2])); continue; }
    if (f.size() < 13) { std::cout << "BADLINE" << std::endl; return 2; }
    Case c;
    c.id = f[0];
    c.out = Expand(f[7], "");
    c.dict = f[1][0] == '@' ? dicts[f[1]] : std::make_shared<string>(Expand(f[1], ""));
    c.delta = Expand(f[2], c.out);
    c.allow = f[3] == "1";
    c.max_file = strtoull(f[4].c_str(), NULL, 10);
    c.max_win = strtoull(f[5].c_str(), NULL, 10);
    c.valid = f[6] == "1";
    c.err = strtoull(f[8].c_str(), NULL, 10);
    c.err_done = strtoull(f[9].c_str(), NULL, 10);
    if (f[10] != "-") for (const string& p : Split(f[10], ',')) {
      vector<string> q = Split(p, ':');
      c.steps.push_back(std::make_pair(strtoull(q[0].c_str(), NULL, 10), strtoull(q[1].c_str(), NULL, 10)));
    }
    if (f[11] != "-") for (const string& p : Split(f[11], ',')) c.comp.insert(strtoull(p.c_str(), NULL, 10));
    if (f[12] != "-") for (const string& p : Split(f[12], ',')) c.sizes.push_back(strtoull(p.c_str(), NULL, 10));
    Begin(c.id.c_str());
    Rng g(seed * 1000003 + n);
    Judge(c, &g, nrandom);
    ++n;
  }
  std::cout << "STAT cases " << n << " runs " << nruns << " calls " << ncalls << " finishes " << nfin << " bad " << nbad << std::endl;
  return 0;
}
