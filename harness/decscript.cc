// Executes scripts of decoder calls and reports what each call returned and appended.
//   decscript FILE        one script per line: id op op ...
//   ops: start:HEX chunk:HEX finish maxfile:N maxwin:N allow:B decode:DICT:HEX new
// Data may be given as @k, referring to a line "PIECE k HEX" at the top of the file.
// An op may carry what is expected of it: op=ret:HEX, or op=ret:* (nothing said about output).
// In a script with an op "?finish", no call is made after a failed one until "?finish" (such calls end
// the process unless NDEBUG is defined); skipped calls are reported as "skip".
// A script whose id begins with "!" is not reported.
// %k stands for the ops of a line "MACRO k op op ...".
// Output: R id ret:apphex ...  - or, for scripts with expectations, BAD lines and a STAT line.
#include "common.h"
#include "google/vcdecoder.h"
using open_vcdiff::VCDiffStreamingDecoder;
using open_vcdiff::VCDiffDecoder;

static std::map<string, string> pieces;
static std::map<string, string> macros;
static string Expand(const string& line) {
  if (line.find('%') == string::npos) return line;
  std::istringstream is(line);
  string w, r;
  while (is >> w) {
    if (w[0] != '%') { r += w + " "; continue; }
    size_t eq = w.find('=');
    string k = w.substr(1, eq == string::npos ? string::npos : eq - 1);
    r += macros[k] + (eq == string::npos ? "" : w.substr(eq)) + " ";
  }
  return r;
}
static string Bytes(const string& t) { return t[0] == '@' ? pieces[t.substr(1)] : FromHex(t); }

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  string line;
  long scripts = 0, calls = 0, bad = 0;
  while (std::getline(in, line)) {
    if (line.compare(0, 6, "MACRO ") == 0) {
      size_t sp = line.find(' ', 6);
      macros[line.substr(6, sp - 6)] = Expand(line.substr(sp + 1));
      continue;
    }
    std::istringstream is(Expand(line));
    string id, op;
    is >> id;
    if (id == "PIECE") { string k, h; is >> k >> h; pieces[k] = FromHex(h); continue; }
    Begin(id.c_str());
    std::unique_ptr<VCDiffStreamingDecoder> dec(new VCDiffStreamingDecoder);
    std::unique_ptr<VCDiffDecoder> whole(new VCDiffDecoder);
    std::unique_ptr<Exact> dict, dict2;
    GrowOutput out;
    std::ostringstream res;
    bool expecting = false;
    const bool careful = line.find(" ?") != string::npos;
    bool skipping = false;
    const bool quiet = id[0] == '!';
    if (quiet) { id.erase(0, 1); Begin(id.c_str()); }
    int step = 0;
    ++scripts;
    while (is >> op) {
      ++step;
      ++calls;
      string want;
      size_t eq = op.find('=');
      if (eq != string::npos) { want = op.substr(eq + 1); op.resize(eq); expecting = true; }
      if (op[0] == '?') { op.erase(0, 1); skipping = false; }
      if (skipping && op.compare(0, 6, "chunk:") == 0) { if (!quiet) res << " skip"; continue; }
      size_t c = op.find(':');
      string name = op.substr(0, c), arg = c == string::npos ? "" : op.substr(c + 1);
      size_t before = out.text.size();
      string kept = out.text;
      bool ret = true;
      string app;
      if (name == "start") {
        // The previous dictionary need not stay around once decoding has ended, but a refused
        // StartDecoding keeps using it; the script decides by "start" after "finish".
        std::unique_ptr<Exact> d(new Exact(Bytes(arg)));
        dec->StartDecoding(d->data(), d->size());
        dict2.swap(dict);
        dict.swap(d);
        if (d) { static vector<Exact*> keep; keep.push_back(d.release()); if (keep.size() > 64) { delete keep[0]; keep.erase(keep.begin()); } }
      } else if (name == "chunk") {
        Exact b(Bytes(arg));
        ret = dec->DecodeChunkToInterface(b.data(), b.size(), &out);
      } else if (name == "finish") {
        ret = dec->FinishDecoding();
      } else if (name == "maxfile") {
        ret = dec->SetMaximumTargetFileSize(strtoull(arg.c_str(), NULL, 10));
      } else if (name == "maxwin") {
        ret = dec->SetMaximumTargetWindowSize(strtoull(arg.c_str(), NULL, 10));
      } else if (name == "allow") {
        dec->SetAllowVcdTarget(arg == "1");
      } else if (name == "new") {
        dec.reset(new VCDiffStreamingDecoder);
      } else if (name == "decode") {
        size_t c2 = arg.find(':');
        string dd = Bytes(arg.substr(0, c2));
        string enc = Bytes(arg.substr(c2 + 1));
        Exact d(dd);
        string t = "garbage";
        ret = whole->Decode(d.data(), d.size(), enc, &t);
        app = t;
      }
      if (name != "decode") {
        if (out.text.size() < before || out.text.compare(0, before, kept) != 0) {
          std::cout << "BAD " << id << " call " << step << " (" << op << "): earlier output was changed\n";
          break;
        }
        app = out.text.substr(before);
      }
      if (careful && name == "chunk" && !ret) skipping = true;
      if (!want.empty()) {
        string got = (want[1] == ':' && want.compare(2, string::npos, "*") == 0) ? string(ret ? "1:*" : "0:*")
                                                                                 : string(ret ? "1:" : "0:") + ToHex(app);
        if (got != want) {
          std::cout << "BAD " << id << " call " << step << " (" << op << "): expected " << want << ", got "
                    << (ret ? 1 : 0) << ":" << ToHex(app) << "\n";
          ++bad;
          break;
        }
      } else if (!expecting && !quiet) {
        res << " " << (ret ? 1 : 0) << ":" << ToHex(app);
      }
    }
    if (!expecting && !quiet) std::cout << "R " << id << res.str() << "\n";
  }
  std::cout << "STAT scripts " << scripts << " calls " << calls << " bad " << bad << "\n";
  std::cout.flush();
  return 0;
}
