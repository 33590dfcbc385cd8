// Runs the vcdiff program in scratch directories.
//   clirun FILE VCDIFF
// Per line:  id cmd DICT IN OUT flag flag ...
//   DICT  HEX | ~missing | ~none (no --dictionary)
//   IN    f:HEX named file   r:HEX standard input is a file   p:HEX:N standard input is a pipe, N bytes at a time
//         e:HEX standard input delivers the data, then a read error   ~missing   ~dir (a directory, by name)   x standard input is closed
//   OUT   f:CAP named file that can take CAP bytes (-1: any)   s:CAP standard output is such a file   p standard output is a pipe
//         q standard output is a pipe nobody reads   x standard output is closed   n /dev/full, by name   d standard output is /dev/full
//         ~nodir a file in a directory that does not exist   ~dir a directory
// prints  R id STATUS HEX   (STATUS: exit status, s<signal>, or T if it did not end)
#include "common.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>

static double Now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void Put(const string& name, const string& data) { std::ofstream f(name.c_str(), std::ios::binary | std::ios::trunc); f << data; }
static string Get(const string& name) {
  std::ifstream f(name.c_str(), std::ios::binary);
  std::ostringstream s;
  s << f.rdbuf();
  return s.str();
}
static void All(int fd, const char* p, size_t n) {
  while (n > 0) { ssize_t k = write(fd, p, n); if (k <= 0) return; p += k; n -= k; }
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  const string prog = argv[2];
  signal(SIGPIPE, SIG_IGN);
  signal(SIGXFSZ, SIG_IGN);
  char tmpl[] = "cliXXXXXX";
  if (!mkdtemp(tmpl) || chdir(tmpl) != 0) return 3;
  long n = 0, late = 0;
  string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    string id, cmd, dict, src, dst, flag;
    is >> id >> cmd >> dict >> src >> dst;
    Begin(id.c_str());
    if (late >= 2) { std::cout << "R " << id << " N -\n"; continue; }     // not run: two have not ended
    ++n;
    vector<string> args;
    args.push_back(prog);
    if (cmd != "-") args.push_back(cmd);
    if (dict == "~missing") args.push_back("--dictionary=missing/dict");
    else if (dict != "~none") { Put("dict", FromHex(dict)); args.push_back("--dictionary=dict"); }
    bool dec = cmd == "decode" || cmd == "patch";
    const string inflag = dec ? "--delta=" : "--target=", outflag = dec ? "--target=" : "--delta=";
    int fin = -1, fout = -1, rout = -1;
    pid_t feeder = -1;
    long cap = -1;
    bool stdout_file = false, closein = false, closeout = false;
    if (src[0] == 'f') { Put("in", FromHex(src.substr(2))); args.push_back(inflag + "in"); }
    else if (src[0] == 'r') { Put("in", FromHex(src.substr(2))); fin = open("in", O_RDONLY); }
    else if (src[0] == 'p') {
      size_t k = src.rfind(':');
      string data = FromHex(src.substr(2, k - 2));
      size_t piece = strtoul(src.c_str() + k + 1, NULL, 10);
      int p[2];
      if (pipe(p)) return 3;
      feeder = fork();
      if (feeder == 0) {
        close(p[0]);
        for (size_t i = 0; i < data.size(); i += piece) All(p[1], data.data() + i, std::min(piece, data.size() - i));
        _exit(0);
      }
      close(p[1]);
      fin = p[0];
    } else if (src[0] == 'e') {
      // a peer that closes without having read what was sent to it: after the data, ECONNRESET
      string data = FromHex(src.substr(2));
      int s[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return 3;
      int big = 1 << 22;
      setsockopt(s[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
      All(s[1], "x", 1);
      All(s[0], data.data(), data.size());
      close(s[0]);
      fin = s[1];
    } else if (src == "~missing") args.push_back(inflag + "missing/in");
    else if (src == "~dir") { mkdir("adir", 0700); args.push_back(inflag + "adir"); }
    else if (src == "x") closein = true;
    if (dst[0] == 'f' || dst[0] == 's') {
      cap = atol(dst.c_str() + 2);
      Put("out", string(5000, 'Z'));
      if (dst[0] == 'f') args.push_back(outflag + "out");
      else { fout = open("out", O_WRONLY | O_TRUNC); stdout_file = true; }
    } else if (dst == "p" || dst == "q") {
      int p[2];
      if (pipe(p)) return 3;
      fout = p[1];
      if (dst == "p") rout = p[0]; else close(p[0]);
    } else if (dst == "x") closeout = true;
    else if (dst == "n") args.push_back(outflag + "/dev/full");
    else if (dst == "d") fout = open("/dev/full", O_WRONLY);
    else if (dst == "~nodir") args.push_back(outflag + "missing/out");
    else if (dst == "~dir") { mkdir("adir", 0700); args.push_back(outflag + "adir"); }
    while (is >> flag) args.push_back(flag);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      int nul = open("/dev/null", O_RDWR);
      if (fin < 0) fin = nul;
      if (fout < 0) fout = nul;
      dup2(fin, 0);
      dup2(fout, 1);
      dup2(nul, 2);
      for (int fd = 3; fd < 64; ++fd) close(fd);
      if (closein) close(0);
      if (closeout) close(1);
      if (cap >= 0) { struct rlimit r = {(rlim_t)cap, (rlim_t)cap}; setrlimit(RLIMIT_FSIZE, &r); }
      vector<char*> av;
      for (string& a : args) av.push_back(const_cast<char*>(a.c_str()));
      av.push_back(NULL);
      execv(prog.c_str(), av.data());
      _exit(126);
    }
    if (fin >= 0) close(fin);
    if (fout >= 0) close(fout);
    string out, status;
    double deadline = Now() + 40;
    if (rout >= 0) {
      char buf[65536];
      while (Now() < deadline) {
        struct pollfd pf = {rout, POLLIN, 0};
        if (poll(&pf, 1, 200) <= 0) continue;
        ssize_t k = read(rout, buf, sizeof(buf));
        if (k <= 0) break;
        out.append(buf, k);
      }
      close(rout);
    }
    int st = 0;
    pid_t got = 0;
    long naps = 0;
    while ((got = waitpid(pid, &st, WNOHANG)) == 0 && Now() < deadline) usleep(++naps < 100 ? 200 : 2000);
    if (got == 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); status = "T"; ++late; }
    else if (WIFEXITED(st)) status = std::to_string(WEXITSTATUS(st));
    else status = "s" + std::to_string(WTERMSIG(st));
    if (feeder > 0) { kill(feeder, SIGKILL); int x; waitpid(feeder, &x, 0); }
    if (dst[0] == 'f' || stdout_file) out = Get("out");
    std::cout << "R " << id << " " << status << " " << ToHex(out) << "\n";
    unlink("in"); unlink("out"); unlink("dict"); rmdir("adir");
  }
  if (chdir("..") == 0) rmdir(tmpl);
  std::cout << "STAT runs " << n << "\n";
  return 0;
}
