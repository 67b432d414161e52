// A forked child that reports how it ended: exit 61 = served and right, 62 = served with a wrong value, anything else = refused.
#pragma once
#include "io.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
namespace vf {
inline void spill(const std::string& f, const std::string& s) { std::ofstream o(f.c_str(), std::ios::binary | std::ios::trunc); o << s; }
struct End { int code = 0, sig = 0; bool threw = false; std::string said; bool served() const { return !sig && (code == 61 || code == 62); } };
template <class G> End child(Case& c, G g) {
  std::string out = c.scratch + "/said"; fflush(0); std::cout.flush(); std::cerr.flush(); pid_t p = fork();
  if (p == 0) {
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2); rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); alarm(60); int rc;
    try { rc = g() ? 61 : 62; } catch (const std::string& s) { fprintf(stderr, "%s\n", s.c_str()); rc = 60; } catch (std::exception& e) { fprintf(stderr, "%s\n", e.what()); rc = 60; }
    fflush(0); std::cout.flush(); _exit(rc);
  }
  End e; int st = 0; waitpid(p, &st, 0); if (WIFSIGNALED(st)) e.sig = WTERMSIG(st); else e.code = WEXITSTATUS(st); e.threw = e.code == 60; e.said = slurp(out); return e;
}
inline std::string tell(const End& e) { std::string s = e.said.size() > 200 ? e.said.substr(e.said.size() - 200) : e.said; return (e.sig ? "killed by signal " + std::to_string(e.sig) : "exit " + std::to_string(e.code)) + "; it said: " + s; }
// a damaged length may ask for any amount of memory
inline void small_memory() {
#ifndef __SANITIZE_ADDRESS__
  rlimit l = {600ul << 20, 600ul << 20}; setrlimit(RLIMIT_AS, &l);
#endif
}
}
