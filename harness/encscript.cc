// Executes scripts of encoder calls.
//   encscript FILE RULES SEED
// One script per line:  id flags match dict op op ...
//   flags  1 interleaved, 2 checksum, 4 JSON          match  0 or 1
//   ops    start  chunk:DATA  finish  whole:DATA (VCDiffEncoder::Encode on one and the same object)
//          flags:N match:N settings of that object (at first those of the script)
//          must:N:P,P,...  none of the N bytes at the positions P of the next chunk may all be literal data
//          one:P:N   of the next chunk the N bytes at P must be part of one copy (rule compact)
// An op may carry "=ret": the result it must have.
// DATA and dict are HEX, or ~piece+piece+... with pieces
//   r:SEED:LEN random bytes, a:SEED:LEN random letters, b:BYTE:LEN a run, d:OFF:LEN part of the dictionary,
//   t:OFF:LEN part of the data so far (may overlap what it produces), h:HEX, and others: expand.h
// RULES:
//   record   print  R id ret:apphex ...
//   fresh    every encoding yields what a fresh encoder yields for the same chunks; refused calls and
//            empty chunks append nothing
//   round    every encoding decodes to the concatenation of its chunks, however the delta is cut
//   insts    print  I id <instructions seen by a writer, per chunk>
//   copies   the instructions given to a writer reproduce the chunk; copies are from where they may be
//   found    what "must" says; no short copies
//   compact  copies are as long as they can be, literal data between them is one instruction, a window exceeds the
//            chunk by no more than 64 bytes
//   format   header, and one window of the requested format per chunk, read by meaning.h (C12)
//   ck       checksums (C05)
//   json     the JSON text of a finished encoding, read by jsonmeaning.h (C17)
#include "expand.h"
#include "jsonmeaning.h"
#include "meaning.h"
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
#include "google/codetablewriter_interface.h"
using namespace open_vcdiff;

static std::set<string> rules;
static bool On(const char* r) { return rules.count(r) > 0; }
static long nscripts = 0, ncalls = 0, nrounds = 0, nbytes = 0, nmust = 0;

// Sees the instructions and checks that they reproduce the chunk.
class Recorder : public CodeTableWriterInterface {
 public:
  Recorder(const string* dict, bool match) : dict_(dict), match_(match), bad(false), range(false), shortcopy(0) {}
  virtual bool Init(size_t) { return true; }
  virtual void WriteHeader(OutputStringInterface*, VCDiffFormatExtensionFlags) {}
  virtual void Add(const char* d, size_t n) { insts << " A:" << n; list.push_back({false, 0, produced.size(), n}); produced.append(d, n); copied.resize(produced.size(), false); }
  virtual void Copy(int32_t off, size_t n) {
    insts << " C:" << off << ":" << n;
    list.push_back({true, (size_t)off, produced.size(), n});
    if (n < 32) shortcopy = n ? n : 1;
    if (off < 0 || (size_t)off >= dict_->size() + produced.size()) { bad = true; return; }
    if ((size_t)off < dict_->size() ? (size_t)off + n > dict_->size() : !match_) range = true;
    for (size_t i = 0; i < n; ++i) {
      size_t x = (size_t)off + i;
      produced.push_back(x < dict_->size() ? (*dict_)[x] : produced[x - dict_->size()]);
    }
    copied.resize(produced.size(), true);
  }
  virtual void Run(size_t n, unsigned char b) { insts << " R:" << n; list.push_back({false, 0, produced.size(), n}); produced.append(n, (char)b); copied.resize(produced.size(), true); }
  virtual void AddChecksum(VCDChecksum) {}
  virtual void Output(OutputStringInterface*) {}
  virtual void FinishEncoding(OutputStringInterface*) {}
  virtual bool VerifyDictionary(const char*, size_t) const { return true; }
  virtual bool VerifyChunk(const char*, size_t) const { return true; }
  const string* dict_;
  const bool match_;
  std::ostringstream insts;
  struct Inst { bool copy; size_t from, at, n; };
  vector<Inst> list;
  string Loose() const {
    const size_t d = dict_->size();
    for (size_t i = 0; i < list.size(); ++i) {
      const Inst& x = list[i];
      if (!x.copy) {
        if (i > 0 && !list[i - 1].copy) return "literal data in pieces at " + std::to_string(x.at);
        continue;
      }
      const string& src = x.from < d ? *dict_ : produced;
      const size_t b = x.from < d ? x.from : x.from - d;
      if (b + x.n < src.size() && x.at + x.n < produced.size() && src[b + x.n] == produced[x.at + x.n])
        return "the copy for " + std::to_string(x.at) + " could be longer";
      if (i > 0 && !list[i - 1].copy && b > 0 && src[b - 1] == produced[x.at - 1])
        return "the copy for " + std::to_string(x.at) + " could start earlier";
    }
    return "";
  }
  string produced;
  vector<bool> copied;
  bool bad, range;
  size_t shortcopy;
};

static bool DecodeAll(const string& dict, const string& delta, const Chunking& ch, bool allow, string* out) {
  VCDiffStreamingDecoder dec;
  dec.SetAllowVcdTarget(allow);
  dec.StartDecoding(dict.data(), dict.size());
  size_t pos = 0;
  for (size_t k : ch) {
    Exact b(delta.data() + pos, k);
    pos += k;
    if (!dec.DecodeChunk(b.data(), b.size(), out)) return false;
  }
  return dec.FinishDecoding();
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  for (const string& r : Split(argv[2], ',')) rules.insert(r);
  uint64_t seed = argc > 3 ? strtoull(argv[3], NULL, 10) : 1;
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, d, op;
    int flags, match;
    is >> id >> flags >> match >> d;
    Begin(id.c_str());
    Rng g(seed * 7919 + nscripts);
    ++nscripts;
    const string dict = Expand(d, "");
    // The caller's dictionary is gone as soon as the constructors have returned.
    std::unique_ptr<Exact> given(new Exact(dict));
    HashedDictionary hd(given->data(), given->size());
    VCDiffEncoder whole(given->data(), given->size());
    given.reset();
    if (!hd.Init()) { std::cout << "BAD " << id << " HashedDictionary::Init failed\n"; continue; }
    VCDiffStreamingEncoder enc(&hd, (VCDiffFormatExtensionFlags)flags, match != 0);
    whole.SetFormatFlags((VCDiffFormatExtensionFlags)flags);
    whole.SetTargetMatching(match != 0);
    std::ostringstream res;
    // the encoding in progress
    bool on = false;
    vector<string> chunks;      // accepted, including empty ones
    string target, text;        // since the start
    GrowOutput out;
    string wholeout = "old";
    int wflags = flags, wmatch = match;
    int step = 0;
    bool stop = false;
    vector<std::pair<size_t, size_t> > must, ones;
    auto bad = [&](const string& what) {
      std::cout << "BAD " << id << " op " << step << " " << op.substr(0, 60) << ": " << what << "\n";
      stop = true;
    };
    while (!stop && is >> op) {
      ++step;
      ++ncalls;
      string want;
      size_t eq = op.find('=');
      if (eq != string::npos) { want = op.substr(eq + 1); op.resize(eq); }
      size_t c = op.find(':');
      string name = op.substr(0, c), arg = c == string::npos ? "" : op.substr(c + 1);
      string data;
      if (name == "chunk" || name == "whole") data = Expand(arg, dict);
      nbytes += data.size();
      size_t before = out.text.size();
      bool ret = false;
      string app;
      if (name == "must") {
        vector<string> f = Split(arg, ':');
        for (const string& p : Split(f[1], ',')) must.push_back(std::make_pair((size_t)strtoull(p.c_str(), NULL, 10), (size_t)strtoull(f[0].c_str(), NULL, 10)));
        continue;
      }
      if (name == "one") {
        vector<string> f = Split(arg, ':');
        ones.push_back(std::make_pair((size_t)strtoull(f[0].c_str(), NULL, 10), (size_t)strtoull(f[1].c_str(), NULL, 10)));
        continue;
      }
      if (name == "flags") { wflags = atoi(arg.c_str()); whole.SetFormatFlags((VCDiffFormatExtensionFlags)wflags); continue; }
      if (name == "match") { wmatch = atoi(arg.c_str()); whole.SetTargetMatching(wmatch != 0); continue; }
      if (name == "start") {
        ret = enc.StartEncodingToInterface(&out);
        app = out.text.substr(before);
        if (ret) { on = true; chunks.clear(); target.clear(); text = app; }
      } else if (name == "chunk") {
        {
          Exact b(data);
          ret = enc.EncodeChunkToInterface(b.data(), b.size(), &out);
        }
        app = out.text.substr(before);
        if (ret && on) { chunks.push_back(data); target += data; text += app; }
      } else if (name == "finish") {
        ret = enc.FinishEncodingToInterface(&out);
        app = out.text.substr(before);
        text += app;
      } else if (name == "whole") {
        Exact b(data);
        ret = whole.Encode(b.data(), b.size(), &wholeout);
        app = wholeout;
      }
      if (out.cleared) bad("the output object was cleared");
      if (!want.empty() && (want == "1") != ret) bad(string("returned ") + (ret ? "true" : "false"));
      if (On("record")) res << " " << (ret ? 1 : 0) << ":" << ToHex(app);
      if (On("fresh") && !stop) {
        if (!ret && (name != "whole" || (wflags & 4)) && !app.empty()) bad("a refused call appended output");
        if (name == "chunk" && data.empty() && !app.empty()) bad("an empty chunk appended output");
        if (ret) {
          const bool one = name == "whole";
          VCDiffStreamingEncoder fresh(&hd, (VCDiffFormatExtensionFlags)(one ? wflags : flags), (one ? wmatch : match) != 0);
          string all;
          bool ok = fresh.StartEncoding(&all);
          if (name == "whole") {
            ok = ok && fresh.EncodeChunk(data.data(), data.size(), &all) && fresh.FinishEncoding(&all);
            if (!ok || all != app) bad("VCDiffEncoder::Encode differs from a fresh streaming encoder");
          } else {
            // without the empty chunks
            for (const string& x : chunks) if (!x.empty()) ok = ok && fresh.EncodeChunk(x.data(), x.size(), &all);
            if (name == "finish") ok = ok && fresh.FinishEncoding(&all);
            if (!ok || all != text) bad("the output differs from that of a fresh encoder");
          }
        }
      }
      if (On("round") && !stop && ret && !((name == "whole" ? wflags : flags) & 4) && (name == "finish" || name == "whole")) {
        const string& delta = name == "whole" ? app : text;
        const string& tgt = name == "whole" ? data : target;
        vector<Chunking> cs;
        cs.push_back(Chunking(1, delta.size()));
        if (delta.size() < 3000) cs.push_back(Fixed(delta.size(), 1));
        cs.push_back(Fixed(delta.size(), 1 + g.below(40)));
        cs.push_back(RandomChunking(&g, delta.size()));
        cs.push_back(RandomChunking(&g, delta.size()));
        for (const Chunking& ch : cs) {
          string got;
          ++nrounds;
          if (!DecodeAll(dict, delta, ch, !g.chance(3), &got)) { bad("decoding failed, chunks " + Show(ch)); break; }
          if (got != tgt) { bad("decoding yields something else, chunks " + Show(ch)); break; }
        }
        VCDiffDecoder simple;
        string got = "x";
        if (!stop && (!simple.Decode(dict.data(), dict.size(), delta, &got) || got != tgt)) bad("VCDiffDecoder::Decode does not restore the target");
      }
      const bool ext = (flags & 3) != 0;
      if (On("format") && !stop && ret && !(flags & 4)) {
        if (name == "start" && app != string("\xD6\xC3\xC4", 3) + (ext ? 'S' : '\0') + '\0') bad("file header");
        if (name == "finish" && !app.empty()) bad("finish appended");
      }
      if (On("json") && !stop && ret && ((name == "finish" && (flags & 4)) || (name == "whole" && (wflags & 4)))) {
        if (!jsonmeaning::Denotes(name == "whole" ? app : text, dict, name == "whole" ? data : target)) bad("the text does not denote the target");
      }
      if ((On("format") || On("ck")) && !stop && ret && !(flags & 4) && name == "chunk" && !data.empty()) {
        meaning::Window w;
        if (!app.empty()) w = meaning::ReadWindow(meaning::Unlimited(&dict, ext), app, 0, "");
        if (On("format") && (app.empty() || !w.ok || (size_t)w.p != app.size() || w.win != data)) bad("no complete window of this chunk alone");
        else if (On("format") && (w.indicator >> 3 || !(w.indicator & 4) != !(flags & 2) || w.inter != !!(flags & 1))) bad("window format");
        else if (On("ck") && (app.empty() || w.ck != (flags & 2 ? (int64_t)meaning::Adler(data) : -1))) bad("checksum");
      }
      if (On("compact") && !stop && name == "chunk" && ret && !(flags & 4) && app.size() > data.size() + 64)
        bad("a window of " + std::to_string(app.size()) + " bytes for " + std::to_string(data.size()));
      if ((On("insts") || On("copies") || On("found") || On("compact")) && !stop && name == "chunk" && ret) {
        Recorder* rec = new Recorder(&dict, match != 0);
        VCDiffStreamingEncoder e2(&hd, (VCDiffFormatExtensionFlags)flags, match != 0, rec);
        string o;
        Exact b(data);
        if (!e2.StartEncoding(&o) || !e2.EncodeChunk(b.data(), b.size(), &o)) bad("refused");
        if (On("copies") && (rec->bad || rec->produced != data)) bad("the instructions given to the writer do not reproduce the chunk");
        if (On("copies") && rec->range) bad("a copy from where none may be taken:" + rec->insts.str().substr(0, 1000));
        if (On("found") && rec->shortcopy) bad("a copy of fewer than 32 bytes:" + rec->insts.str().substr(0, 1000));
        if (On("found")) for (const std::pair<size_t, size_t>& m : must) {
          ++nmust;
          bool lit = m.first + m.second <= rec->copied.size();
          for (size_t k = 0; lit && k < m.second; ++k) lit = !rec->copied[m.first + k];
          if (lit) { bad("the " + std::to_string(m.second) + " bytes at " + std::to_string(m.first) + " are sent as literal data:" + rec->insts.str().substr(0, 1000)); break; }
        }
        if (On("compact") && !stop && !rec->bad && rec->produced == data && !rec->Loose().empty()) bad(rec->Loose() + ":" + rec->insts.str().substr(0, 1000));
        if (On("compact") && !stop) for (const std::pair<size_t, size_t>& m : ones) {
          ++nmust;
          bool in = false;
          for (const Recorder::Inst& x : rec->list) if (x.copy && x.at <= m.first && x.at + x.n >= m.first + m.second) in = true;
          if (!in) { bad("the " + std::to_string(m.second) + " bytes at " + std::to_string(m.first) + " are not copied at once:" + rec->insts.str().substr(0, 1000)); break; }
        }
        ones.clear();
        must.clear();
        res << " |" << rec->insts.str();
      }
      if (name == "finish" && ret) on = false;
    }
    if (On("record") && !stop) std::cout << "R " << id << res.str() << "\n";
    if (On("insts") && !stop) std::cout << "I " << id << res.str() << "\n";
  }
  std::cout << "STAT scripts " << nscripts << " calls " << ncalls << " rounds " << nrounds << " bytes " << nbytes << " musts " << nmust << "\n";
  return 0;
}
