// Runs one case per input line.  The code under test may abort (assert),
// crash, call exit() or hang: every case therefore runs in a child process
// that is restarted after the case it died on, and the death is reported as
// an observation of that case ({"died": ...}).
#ifndef VERIF_HARNESS_HH
#define VERIF_HARNESS_HH
#include "json.hh"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
inline int run_cases(int argc, char **argv, std::function<JV(JV const &)> fn) {
  if (argc < 3) { std::cerr << "usage: driver CASES OUT\n"; return 2; }
  std::vector<std::string> cases;
  { std::ifstream is(argv[1]); for (std::string l; std::getline(is, l);) if (!l.empty()) cases.push_back(l); }
  { std::ofstream os(argv[2], std::ios::trunc); }
  int const limit_s = argc > 3 ? std::atoi(argv[3]) : 10;
  size_t next = 0;
  while (next < cases.size()) {
    int pfd[2];
    if (pipe(pfd)) return 2;
    std::cout.flush();
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(pfd[0]);
      struct rlimit rl { 0, 0 };
      setrlimit(RLIMIT_CORE, &rl);
      struct rlimit rs { 3ul << 30, 3ul << 30 };
      if (!getenv("VERIF_STDERR")) setrlimit(RLIMIT_AS, &rs);
      int dn = open("/dev/null", O_WRONLY);
      if (!getenv("VERIF_STDERR")) { dup2(dn, 2); dup2(dn, 1); }
      FILE *out = fopen(argv[2], "a");
      for (size_t i = next; i < cases.size(); ++i) {
        alarm(limit_s);
        JV c = JV::parse(cases[i]);
        JV r;
        try { r = fn(c); }
        catch (std::exception &e) { r = JV::obj(); r.set("died", std::string("exception ") + e.what()); }
        JV o = JV::obj();
        o.set("id", c.has("id") ? c["id"] : JV(i));
        o.set("obs", r);
        std::string s = o.str(); s += '\n';
        fwrite(s.data(), 1, s.size(), out);
        fflush(out);
        char b = 1;
        if (write(pfd[1], &b, 1) != 1) _exit(3);
      }
      fclose(out);
      _exit(0);
    }
    close(pfd[1]);
    char buf[4096]; ssize_t n; size_t done = 0;
    while ((n = read(pfd[0], buf, sizeof buf)) > 0) done += n;
    close(pfd[0]);
    int st = 0; waitpid(pid, &st, 0);
    next += done;
    if (next < cases.size()) {
      JV c = JV::parse(cases[next]);
      JV o = JV::obj();
      o.set("id", c.has("id") ? c["id"] : JV(next));
      JV r = JV::obj();
      std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout") : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
      r.set("died", why);
      o.set("obs", r);
      std::ofstream os(argv[2], std::ios::app);
      os << o.str() << '\n';
      next += 1;
    }
  }
  return 0;
}
#endif
