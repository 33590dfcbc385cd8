// What encoding takes in memory.
//   encmem FILE    scripts as for encscript: id flags match dict op op ...  with ops start, chunk:DATA, finish,
//                  whole:DATA and rep:N (the next chunk is given N times)
// Counts what the library allocates inside its calls.  Prints
//   M id step step ...   a step being size:count:before:peak:after:out; the first two are the construction of the
//                        HashedDictionary and of the encoders
//   L id n n n           what is left, in three rounds, when all objects have been destroyed
#include "expand.h"
#include <new>
#include "google/vcencoder.h"
using namespace open_vcdiff;

static bool inside = false;
static long live = 0, peak = 0;
struct Header { size_t n; size_t counted; };
static void* Take(size_t n) {
  Header* h = (Header*)malloc(n + sizeof(Header));
  if (!h) throw std::bad_alloc();
  h->n = n;
  h->counted = inside;
  if (inside) { live += n; if (live > peak) peak = live; }
  return h + 1;
}
static void Give(void* p) {
  if (!p) return;
  Header* h = (Header*)p - 1;
  if (h->counted) live -= h->n;
  free(h);
}
void* operator new(size_t n) { return Take(n); }
void* operator new[](size_t n) { return Take(n); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }

// The caller's own memory is not counted.
class Sink {
 public:
  Sink() : n(0) {}
  Sink& append(const char*, size_t k) { n += k; return *this; }
  void clear() { n = 0; }
  void push_back(char) { ++n; }
  void reserve(size_t) {}
  size_t size() const { return n; }
  size_t n;
};

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  string line;
  long scripts = 0, calls = 0;
  while (std::getline(in, line)) {
    std::istringstream head(line);
    string id, d, op;
    int flags, match;
    head >> id >> flags >> match >> d;
    Begin(id.c_str());
    ++scripts;
    const string dict = Expand(d, "");
    long left[3] = {0, 0, 0};
    std::ostringstream res;
    for (int round = 0; round < 3; ++round) {
      std::istringstream is(line);
      is >> id >> flags >> match >> d;
      live = peak = 0;
      auto step = [&](size_t size, long count, long before, size_t out) {
        inside = false;
        if (!round) res << " " << size << ":" << count << ":" << before << ":" << peak << ":" << live << ":" << out;
        ++calls;
      };
      inside = true;
      HashedDictionary* hd = new HashedDictionary(dict.data(), dict.size());
      hd->Init();
      step(dict.size(), 1, 0, 0);
      inside = true;
      long before = peak = live;
      VCDiffStreamingEncoder* enc = new VCDiffStreamingEncoder(hd, (VCDiffFormatExtensionFlags)flags, match != 0);
      VCDiffEncoder* whole = new VCDiffEncoder(dict.data(), dict.size());
      whole->SetFormatFlags((VCDiffFormatExtensionFlags)flags);
      whole->SetTargetMatching(match != 0);
      step(dict.size(), 1, before, 0);
      long rep = 1;
      while (is >> op) {
        size_t c = op.find(':');
        string name = op.substr(0, c), arg = c == string::npos ? "" : op.substr(c + 1);
        if (name == "rep") { rep = atol(arg.c_str()); continue; }
        const string data = name == "chunk" || name == "whole" ? Expand(arg, dict) : "";
        Sink out;
        before = peak = live;
        inside = true;
        if (name == "start") enc->StartEncoding(&out);
        else if (name == "chunk") for (long i = 0; i < rep; ++i) enc->EncodeChunk(data.data(), data.size(), &out);
        else if (name == "finish") enc->FinishEncoding(&out);
        else if (name == "whole") whole->Encode(data.data(), data.size(), &out);
        step(data.size(), rep, before, out.n);
        rep = 1;
      }
      inside = true;
      delete enc;
      delete whole;
      delete hd;
      inside = false;
      left[round] = live;
    }
    std::cout << "M " << id << res.str() << "\nL " << id << " " << left[0] << " " << left[1] << " " << left[2] << "\n";
  }
  std::cout << "STAT scripts " << scripts << " calls " << calls << "\n";
  return 0;
}
