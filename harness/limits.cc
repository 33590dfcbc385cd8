// Decodings whose totals do not fit in 32 bits.
//   limits FILE    one script per line: id op op ...
//   ops: maxfile:N=R maxwin:N=R burst:K=R (K windows of 2^26 bytes) window:N=R
// A window is one RUN.  With "skip" left out of a script the calls are made in order until one fails.
// Prints BAD lines: another return value than R, or other output than what the window stands for.
#include "common.h"
#include "google/vcdecoder.h"
using open_vcdiff::VCDiffStreamingDecoder;

// Counts what is delivered, and remembers whether it was the right byte.
class Counter : public open_vcdiff::OutputStringInterface {
 public:
  Counter() : n(0), want(0), wrong(false) {}
  virtual ~Counter() {}
  virtual OutputStringInterface& append(const char* s, size_t k) {
    if (k > 0 && (s[0] != want || memcmp(s, s + 1, k - 1) != 0)) wrong = true;
    n += k;
    return *this;
  }
  virtual void clear() {}
  virtual void push_back(char c) { if (c != want) wrong = true; ++n; }
  virtual void ReserveAdditionalBytes(size_t) {}
  virtual size_t size() const { return n; }
  uint64_t n;
  char want;
  bool wrong;
};

static string Varint(uint64_t n) {
  string r(1, (char)(n & 127));
  for (n >>= 7; n > 0; n >>= 7) r.insert(r.begin(), (char)(128 | (n & 127)));
  return r;
}
static string Window(uint64_t n, char b, bool interleaved) {
  string inst = string(1, '\0') + Varint(n), data(1, b), body;
  if (interleaved) body = Varint(n) + '\0' + Varint(0) + Varint(inst.size() + 1) + Varint(0) + inst + data;
  else body = Varint(n) + '\0' + Varint(1) + Varint(inst.size()) + Varint(0) + data + inst;
  return string(1, '\0') + Varint(body.size()) + body;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  string line;
  long scripts = 0, windows = 0, bad = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, op;
    is >> id;
    Begin(id.c_str());
    ++scripts;
    VCDiffStreamingDecoder dec;
    dec.SetAllowVcdTarget(false);
    Counter out;
    bool started = false, over = false;
    int step = 0;
    while (!over && is >> op) {
      ++step;
      size_t c = op.find(':'), e = op.find('=');
      const string name = op.substr(0, c);
      const uint64_t n = strtoull(op.c_str() + c + 1, NULL, 10);
      const bool want = op[e + 1] == '1';
      bool ret = true;
      if (name == "maxfile") ret = dec.SetMaximumTargetFileSize(n);
      else if (name == "maxwin") ret = dec.SetMaximumTargetWindowSize(n);
      else {
        if (!started) {
          dec.StartDecoding("", 0);
          ret = dec.DecodeChunkToInterface("\xd6\xc3\xc4S\0", 5, &out);
          started = true;
        }
        uint64_t k = name == "burst" ? n : 1, size = name == "burst" ? 1u << 26 : n;
        for (; ret && k > 0; --k) {
          out.want = (char)(++windows * 37);
          const uint64_t before = out.n;
          const string w = Window(size, out.want, windows & 1);
          ret = dec.DecodeChunkToInterface(w.data(), w.size(), &out);
          if (out.wrong || (ret ? out.n != before + size : (!want && out.n != before))) {
            std::cout << "BAD " << id << " step " << step << " (" << op << "): returned " << ret << " and delivered " << out.n - before
                      << " bytes" << (out.wrong ? ", some of them wrong" : "") << "\n";
            ++bad;
            over = true;
            break;
          }
        }
      }
      if (!over && ret != want) {
        std::cout << "BAD " << id << " step " << step << " (" << op << ") returned " << ret << " after " << out.n << " bytes\n";
        ++bad;
        over = true;
      }
    }
  }
  std::cout << "STAT scripts " << scripts << " windows " << windows << " bad " << bad << "\n";
  return 0;
}
