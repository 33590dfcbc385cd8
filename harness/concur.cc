// Several threads, one dictionary.
//   concur FILE
// Per line:  id free|sched SEED K ORDER role role ...
//   role  e<flags><m>    streaming encoder on the shared dictionary (flags: 1 interleaved, 2 checksum, 4 JSON; m: target matches)
//         v              VCDiffEncoder of its own
//         d:DICT:DELTA   streaming decoder
// Every role makes K calls.  The roles run alone (each in a process of its own), then together: "sched": call by call in the
// given ORDER (digits, 1 = first role), "free": all at once, several rounds.
// prints  R id t:text ... | text,text;text,text   for sched;  BAD id ... for whatever differs, races or crashes
#include "common.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <condition_variable>
#include <algorithm>
#include <functional>
#include <mutex>
#include <thread>
#include "google/vcdecoder.h"
#include "google/vcencoder.h"
using namespace open_vcdiff;

static string Text(Rng* r, const string& dict, size_t n) {
  string t;
  while (t.size() < n) {
    if (!dict.empty() && r->chance(2)) { size_t a = r->below(dict.size()); t += dict.substr(a, 1 + r->below(90)); }
    else if (!t.empty() && r->chance(3)) { size_t a = r->below(t.size()); t += t.substr(a, 1 + r->below(90)); }
    else for (int i = 0, k = 1 + (int)r->below(20); i < k; ++i) t.push_back((char)(32 + r->below(95)));
  }
  return t.substr(0, n);
}
static vector<string> Split(const string& s, char sep) {
  vector<string> r;
  string cur;
  for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur.push_back(ch);
  r.push_back(cur);
  return r;
}

// One role: its calls, one after the other.
class Role {
 public:
  Role(const string& spec, const HashedDictionary* d, const string& dict, uint64_t seed, int calls) : calls_(calls), next_(0), refused_(false) {
    Rng r(seed * 7919 + 13);
    kind_ = spec[0];
    if (kind_ == 'e') {
      int f = spec[1] - '0';
      enc_.reset(new VCDiffStreamingEncoder(d, (f & 1 ? VCD_FORMAT_INTERLEAVED : 0) | (f & 2 ? VCD_FORMAT_CHECKSUM : 0) |
                                                   (f & 4 ? VCD_FORMAT_JSON : 0), spec[2] == '1'));
    } else if (kind_ == 'v') {
      own_dict_ = Text(&r, dict, 300);
      own_.reset(new VCDiffEncoder(own_dict_.data(), own_dict_.size()));
      own_->SetTargetMatching(r.chance(2));
    } else {
      vector<string> f = Split(spec, ':');
      own_dict_ = FromHex(f[1]);
      delta_ = FromHex(f[2]);
      dec_.reset(new VCDiffStreamingDecoder);
    }
    for (int i = 0; i < calls; ++i) data_.push_back(Text(&r, dict, 60 + r.below(500)));
    for (int i = 1; i < calls - 2; ++i) cuts_.push_back(r.below(delta_.size() + 1));
    cuts_.push_back(0); cuts_.push_back(delta_.size());
    std::sort(cuts_.begin(), cuts_.end());
  }
  bool Done() const { return next_ >= calls_; }
  string Call() {
    int k = next_++;
    if (refused_) return "-";  // nothing may be asked of it any more
    bool last = k == calls_ - 1;
    string out;
    bool ok = true;
    if (kind_ == 'e') ok = k == 0 ? enc_->StartEncoding(&out) : last ? enc_->FinishEncoding(&out) : enc_->EncodeChunk(data_[k].data(), data_[k].size(), &out);
    else if (kind_ == 'v') ok = own_->Encode(data_[k].data(), data_[k].size(), &out);
    else if (k == 0) dec_->StartDecoding(own_dict_.data(), own_dict_.size());
    else if (last) ok = dec_->FinishDecoding();
    else ok = dec_->DecodeChunk(delta_.data() + cuts_[k - 1], cuts_[k] - cuts_[k - 1], &out);
    if (!ok) refused_ = true;
    return (ok ? "t" : "f") + ToHex(out);
  }
 private:
  char kind_;
  int calls_, next_;
  bool refused_;
  string own_dict_, delta_;
  vector<string> data_;
  vector<size_t> cuts_;
  std::unique_ptr<VCDiffStreamingEncoder> enc_;
  std::unique_ptr<VCDiffEncoder> own_;
  std::unique_ptr<VCDiffStreamingDecoder> dec_;
};

// Runs f in a process of its own; what it writes is returned.  *died is set to a description if it does not end well.
static string Apart(const std::function<string()>& f, string* died) {
  int p[2];
  if (pipe(p)) exit(3);
  char err[] = "concerrXXXXXX";
  int fe = mkstemp(err);
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fe, 2);
    alarm(60);
    string s = f();
    for (size_t i = 0; i < s.size();) { ssize_t k = write(p[1], s.data() + i, s.size() - i); if (k <= 0) _exit(4); i += k; }
    _exit(0);
  }
  close(p[1]);
  string out;
  char buf[65536];
  ssize_t k;
  while ((k = read(p[0], buf, sizeof(buf))) > 0) out.append(buf, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    std::ostringstream d;
    if (WIFSIGNALED(st)) d << "signal " << WTERMSIG(st) << (WTERMSIG(st) == SIGALRM ? " (did not end)" : "");
    else d << "status " << WEXITSTATUS(st);
    std::ifstream e(err);
    string l;
    for (int i = 0; i < 40 && std::getline(e, l); ++i) d << " / " << l;
    *died = d.str();
  }
  close(fe);
  unlink(err);
  return out;
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  long lines = 0, calls = 0;
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, mode, order, spec;
    uint64_t seed;
    int K;
    is >> id >> mode >> seed >> K >> order;
    vector<string> specs;
    while (is >> spec) specs.push_back(spec);
    const int N = (int)specs.size();
    Begin(id.c_str());
    ++lines;
    Rng r(seed * 104729 + 7);
    const string dict = Text(&r, "", 200 + r.below(900));
    string died;
    vector<string> solo;
    bool bad = false;
    for (int i = 0; i < N && !bad; ++i) {
      solo.push_back(Apart([&]() {
        HashedDictionary hd(dict.data(), dict.size());
        if (!hd.Init()) return string("no dictionary");
        Role role(specs[i], &hd, dict, seed * 16 + i, K);
        string s;
        while (!role.Done()) s += (s.empty() ? "" : ",") + role.Call();
        return s;
      }, &died));
      if (!died.empty()) { std::cout << "SKIP " << id << " role " << i + 1 << " alone: " << died << "\n"; bad = true; }
    }
    if (bad) continue;
    if (mode == "sched") {
      string res = Apart([&]() {
        HashedDictionary hd(dict.data(), dict.size());
        if (!hd.Init()) return string("no dictionary");
        std::mutex mu;
        std::condition_variable cv;
        size_t at = 0;
        string s;
        vector<std::thread> ts;
        for (int i = 0; i < N; ++i) ts.emplace_back([&, i]() {
          std::unique_ptr<Role> role;
          for (int k = 0; k < K; ++k) {
            std::unique_lock<std::mutex> l(mu);
            cv.wait(l, [&]() { return at < order.size() && order[at] - '1' == i; });
            if (!role) role.reset(new Role(specs[i], &hd, dict, seed * 16 + i, K));
            s += (s.empty() ? "" : " ") + std::to_string(i + 1) + ":" + role->Call();
            ++at;
            cv.notify_all();
          }
        });
        for (std::thread& t : ts) t.join();
        return s;
      }, &died);
      if (!died.empty()) { std::cout << "BAD " << id << " in this order: " << died << "\n"; continue; }
      std::cout << "R " << id << " " << res << " | ";
      for (int i = 0; i < N; ++i) std::cout << (i ? ";" : "") << solo[i];
      std::cout << "\n";
      calls += (long)order.size();
    } else {
      const int rounds = 3;
      string res = Apart([&]() {
        HashedDictionary hd(dict.data(), dict.size());
        if (!hd.Init()) return string("no dictionary");
        vector<string> got(N * rounds);
        std::mutex mu;
        std::condition_variable cv;
        int waiting = 0;
        vector<std::thread> ts;
        for (int i = 0; i < N; ++i) ts.emplace_back([&, i]() {
          {
            std::unique_lock<std::mutex> l(mu);
            ++waiting;
            cv.notify_all();
            cv.wait(l, [&]() { return waiting == N; });
          }
          Rng rr(seed + i * 31);
          for (int q = 0; q < rounds; ++q) {
            Role role(specs[i], &hd, dict, seed * 16 + i, K);
            string s;
            while (!role.Done()) {
              for (volatile int spin = (int)rr.below(3000); spin > 0; spin = spin - 1) {}
              s += (s.empty() ? "" : ",") + role.Call();
            }
            got[i * rounds + q] = s;
          }
        });
        for (std::thread& t : ts) t.join();
        string s;
        for (int i = 0; i < N; ++i)
          for (int q = 0; q < rounds; ++q)
            if (got[i * rounds + q] != solo[i]) s += " thread " + std::to_string(i + 1) + " (" + specs[i].substr(0, 3) + ") round " + std::to_string(q + 1);
        return s;
      }, &died);
      if (!died.empty()) std::cout << "BAD " << id << " together: " << died << "\n";
      else if (!res.empty()) std::cout << "BAD " << id << " other output than alone:" << res << "\n";
      calls += (long)N * K * rounds;
    }
  }
  std::cout << "STAT scenarios " << lines << " calls " << calls << "\n";
  return 0;
}
