// meaning FILE: compares meaning.h with the verdicts and targets of the specification.
// Lines as for replay: key dict delta allow maxFile maxWin valid out ...
// or JSON texts: json-key dict text ok target
#include "common.h"
#include "jsonmeaning.h"
#include "meaning.h"
int main(int, char** argv) {
  std::ifstream in(argv[1]);
  string line;
  long n = 0, nv = 0;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string key, dict, d, out;
    int allow, valid;
    long long mf, mw;
    if (line.compare(0, 5, "json-") == 0) {
      is >> key >> dict >> d >> valid >> out;
      jsonmeaning::Result r = jsonmeaning::Read(FromHex(d), FromHex(dict));
      ++n;
      nv += valid;
      if (r.ok != (valid != 0) || (valid && r.target != FromHex(out))) std::cout << "BAD " << key << " valid " << valid << "\n";
      continue;
    }
    is >> key >> dict >> d >> allow >> mf >> mw >> valid >> out;
    const string dic = FromHex(dict), delta = FromHex(d);
    meaning::Cfg cfg = meaning::DefaultCfg(&dic);
    cfg.allow = allow != 0; cfg.maxFile = mf; cfg.maxWin = mw;
    meaning::File f = meaning::Read(delta, 0, cfg);
    ++n;
    nv += valid;
    if (f.valid != (valid != 0)) std::cout << "BAD " << key << " valid " << valid << "\n";
    else if (valid && f.target != FromHex(out)) std::cout << "BAD " << key << " target\n";
  }
  std::cout << "STAT meanings_compared " << n << " meanings_valid " << nv << "\n";
  return 0;
}
