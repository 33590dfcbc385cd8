// What decoding takes in memory.
//   memscript FILE    scripts as for decscript: id op op ...
// Counts what the library allocates inside its calls.  Prints
//   M id step live peak        per call (live before it, the largest amount live during it), with "record"
//   L id n n n                 what is left, in three rounds, when the decoder has been destroyed
#include "common.h"
#include <new>
#include "google/vcdecoder.h"
using open_vcdiff::VCDiffStreamingDecoder;

static bool inside = false;
static long live = 0, peak = 0;
struct Header { size_t n; size_t counted; };
static void* Take(size_t n) {
  Header* h = (Header*)malloc(n + sizeof(Header));
  if (!h) throw std::bad_alloc();
  h->n = n;
  h->counted = inside;
  if (inside) { live += n; if (live > peak) peak = live; }
  return h + 1;
}
static void Give(void* p) {
  if (!p) return;
  Header* h = (Header*)p - 1;
  if (h->counted) live -= h->n;
  free(h);
}
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

// The caller's own memory is not counted.
class Sink : public open_vcdiff::OutputStringInterface {
 public:
  Sink() : n(0) {}
  virtual OutputStringInterface& append(const char*, size_t k) { n += k; return *this; }
  virtual void clear() {}
  virtual void push_back(char) { ++n; }
  virtual void ReserveAdditionalBytes(size_t) {}
  virtual size_t size() const { return n; }
  size_t n;
};

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  string line;
  long scripts = 0, calls = 0;
  while (std::getline(in, line)) {
    std::istringstream head(line);
    string id, op;
    head >> id;
    Begin(id.c_str());
    ++scripts;
    long left[3] = {0, 0, 0};
    std::ostringstream res;
    for (int round = 0; round < 3; ++round) {
      std::istringstream is(line);
      is >> id;
      live = peak = 0;
      inside = true;
      VCDiffStreamingDecoder* dec = new VCDiffStreamingDecoder;
      inside = false;
      vector<Exact*> dicts;
      const bool careful = line.find(" ?") != string::npos;
      bool skipping = false;
      while (is >> op) {
        if (op[0] == '?') { op.erase(0, 1); skipping = false; }
        size_t c = op.find(':');
        string name = op.substr(0, c), arg = c == string::npos ? "" : op.substr(c + 1);
        if ((skipping && name == "chunk") || name == "decode") { if (!round) res << " skip"; continue; }
        bool ret = true;
        Sink out;
        const long before = live;
        peak = live;
        if (name == "start") {
          dicts.push_back(new Exact(FromHex(arg)));
          inside = true;
          dec->StartDecoding(dicts.back()->data(), dicts.back()->size());
        } else if (name == "chunk") {
          Exact b(FromHex(arg));
          inside = true;
          ret = dec->DecodeChunkToInterface(b.data(), b.size(), &out);
        } else if (name == "finish") {
          inside = true;
          ret = dec->FinishDecoding();
        } else if (name == "maxfile") dec->SetMaximumTargetFileSize(strtoull(arg.c_str(), NULL, 10));
        else if (name == "maxwin") dec->SetMaximumTargetWindowSize(strtoull(arg.c_str(), NULL, 10));
        else if (name == "allow") dec->SetAllowVcdTarget(arg == "1");
        inside = false;
        if (careful && name == "chunk" && !ret) skipping = true;
        ++calls;
        if (!round) res << " " << before << ":" << peak << ":" << out.n;
      }
      inside = true;
      delete dec;
      inside = false;
      for (Exact* d : dicts) delete d;
      left[round] = live;
    }
    std::cout << "M " << id << res.str() << "\nL " << id << " " << left[0] << " " << left[1] << " " << left[2] << "\n";
  }
  std::cout << "STAT scripts " << scripts << " calls " << calls << "\n";
  return 0;
}
