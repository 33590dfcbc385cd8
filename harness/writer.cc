// Drives VCDiffCodeTableWriter (and JSONCodeTableWriter).
//   writer FILE RULES
// "TABLE name HEX" defines a code table.  Then, per line:  id inter near same TABLE DICT op op ...
//   a:HEX add   A:SEED:N add of N random bytes   r:N:BYTE run   c:ADDR:N copy   k:VALUE checksum (k:* the right one)   o output   i Init()
// DICT is HEX or ~SEED:N, N random bytes.
// TABLE "default" is the default table, through the constructor for it if near and same are 4 and 3;
// "json" is the JSON writer.
// RULES: record  print  R id app app ...   (what each "o" appended, and finish for json)
//        round   what was written means the requested data (meaning.h), and the decoder decodes it to that
#include "common.h"
#include "meaning.h"
#include <config.h>
#include "google/vcdecoder.h"
#include "google/encodetable.h"
#include "google/jsonwriter.h"
#include "addrcache.h"
#include "codetable.h"
#include "vcdiff_defs.h"
using namespace open_vcdiff;

static vector<string> Split(const string& s, char sep) {
  vector<string> r;
  string cur;
  for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(ch);
  r.push_back(cur);
  return r;
}
static uint32_t Adler0(const string& s) {
  uint32_t a = 0, b = 0;
  for (unsigned char c : s) { a = (a + c) % 65521; b = (b + a) % 65521; }
  return (b << 16) | a;
}
static void Varint(string* o, uint32_t v) {
  string r(1, (char)(v & 127));
  while (v >>= 7) r.insert(r.begin(), (char)(128 | (v & 127)));
  *o += r;
}
static string Random(uint64_t seed, size_t n) {
  Rng g(seed);
  string r;
  for (size_t i = 0; i < n; ++i) r.push_back((char)g.next());
  return r;
}
static void Effect(const string& dict, const string& op, string* win) {
  vector<string> f = Split(op, ':');
  if (f[0] == "A") *win += Random(strtoull(f[1].c_str(), NULL, 10), strtoull(f[2].c_str(), NULL, 10));
  if (f[0] == "a") *win += FromHex(f[1]);
  else if (f[0] == "r") win->append(strtoull(f[1].c_str(), NULL, 10), (char)atoi(f[2].c_str()));
  else if (f[0] == "c") {
    size_t a = strtoull(f[1].c_str(), NULL, 10), n = strtoull(f[2].c_str(), NULL, 10);
    for (size_t i = 0; i < n; ++i) win->push_back(a + i < dict.size() ? dict[a + i] : (*win)[a + i - dict.size()]);
  }
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  bool record = strstr(argv[2], "record") != NULL, round = strstr(argv[2], "round") != NULL;
  long nscripts = 0, nwindows = 0, nreqs = 0;
  std::map<string, string> tables;
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, tname, d;
    int inter, near, same;
    is >> id;
    if (id == "TABLE") { is >> tname >> d; tables[tname] = FromHex(d); continue; }
    is >> inter >> near >> same >> tname >> d;
    Begin(id.c_str());
    ++nscripts;
    const string dict = d[0] == '~' ? Random(strtoull(d.c_str() + 1, NULL, 10), strtoull(Split(d, ':')[1].c_str(), NULL, 10)) : FromHex(d);
    vector<string> ops;
    string op;
    while (is >> op) ops.push_back(op);
    VCDiffCodeTableData table = VCDiffCodeTableData::kDefaultCodeTableData;
    if (tables.count(tname)) memcpy(&table, tables[tname].data(), 1536);
    std::unique_ptr<CodeTableWriterInterface> w;
    bool json = tname == "json";
    if (json) w.reset(new JSONCodeTableWriter);
    else if (tname == "default" && near == 4 && same == 3) w.reset(new VCDiffCodeTableWriter(inter != 0));
    else w.reset(new VCDiffCodeTableWriter(inter != 0, (unsigned char)near, (unsigned char)same, table, (unsigned char)(near + same + 1)));
    std::ostringstream res;
    if (!w->Init(dict.size())) { std::cout << "BAD " << id << " Init failed\n"; continue; }
    string target, delta, win;
    GrowOutput out;
    bool badck = false;
    for (size_t i = 0; i < ops.size(); ++i) {
      vector<string> f = Split(ops[i], ':');
      ++nreqs;
      if (f[0] == "i") { if (!w->Init(dict.size())) std::cout << "BAD " << id << " Init failed\n"; win.clear(); }
      else if (f[0] == "a") { Exact b(FromHex(f[1])); w->Add(b.data(), b.size()); Effect(dict, ops[i], &win); }
      else if (f[0] == "A") { Exact b(Random(strtoull(f[1].c_str(), NULL, 10), strtoull(f[2].c_str(), NULL, 10))); w->Add(b.data(), b.size()); Effect(dict, ops[i], &win); }
      else if (f[0] == "r") { w->Run(strtoull(f[1].c_str(), NULL, 10), (unsigned char)atoi(f[2].c_str())); Effect(dict, ops[i], &win); }
      else if (f[0] == "c") { w->Copy(atoi(f[1].c_str()), strtoull(f[2].c_str(), NULL, 10)); Effect(dict, ops[i], &win); }
      else if (f[0] == "k") {
        uint32_t ck;
        if (f[1] == "*") {
          string full = win;
          for (size_t j = i + 1; j < ops.size() && ops[j] != "o" && ops[j] != "i"; ++j) Effect(dict, ops[j], &full);
          ck = Adler0(full);
        } else { ck = (uint32_t)strtoull(f[1].c_str(), NULL, 10); badck = true; }
        w->AddChecksum(ck);
      } else if (f[0] == "o") {
        size_t before = out.text.size();
        w->Output(&out);
        res << " " << ToHex(out.text.substr(before));
        target += win;
        win.clear();
        ++nwindows;
      }
    }
    if (json) { size_t before = out.text.size(); w->FinishEncoding(&out); res << " " << ToHex(out.text.substr(before)); }
    if (out.cleared) std::cout << "BAD " << id << " the output object was cleared\n";
    if (record) std::cout << "R " << id << res.str() << "\n";
    if (round && !badck && !json) {
      // an extended-format file around the windows; the table, if not the default, embedded as literal data
      string file("\xD6\xC3\xC4\x53", 4);
      if (tname == "default" && near == 4 && same == 3) file.push_back(0);
      else {
        file.push_back(2);
        Varint(&file, near);
        Varint(&file, same);
        string t((const char*)&table, 1536), body, enc;
        Varint(&enc, 1536);
        enc.push_back(0);
        body.push_back(1);
        Varint(&body, 1536);
        Varint(&enc, 1536);
        Varint(&enc, body.size());
        enc.push_back(0);
        enc += t + body;
        file += string("\xD6\xC3\xC4\x00\x00\x00", 6);
        Varint(&file, enc.size());
        file += enc;
      }
      file += out.text;
      VCDiffStreamingDecoder dec;
      string got;
      dec.StartDecoding(dict.data(), dict.size());
      bool ok = dec.DecodeChunk(file.data(), file.size(), &got);
      ok = ok && dec.FinishDecoding();
      const meaning::File means = meaning::Read(file, 0, meaning::Unlimited(&dict, true));
      if (!means.valid || means.target != target) std::cout << "BAD " << id << " the windows written do not mean what was requested\n";
      else if (!ok) std::cout << "BAD " << id << " the decoder rejects the windows written\n";
      else if (got != target) std::cout << "BAD " << id << " the windows written decode to something else\n";
    }
  }
  std::cout << "STAT scripts " << nscripts << " windows " << nwindows << " requests " << nreqs << "\n";
  return 0;
}
