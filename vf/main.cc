// Driver: forked sessions, crash capture, shrinking, replay, statistics.
#include "vf.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <map>
#include <fstream>
#include <iostream>
namespace vf {
std::vector<Test>& tests() { static std::vector<Test> t; return t; }
}
using namespace vf;

static Shared* sh;
static int g_argc; static char** g_argv;
static std::string g_scratch;
static int g_timeout = 120;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

static void clean_scratch(const std::string& d) {
  if (DIR* p = opendir(d.c_str())) {
    while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
    closedir(p);
  }
}

static void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("VF_VERBOSE")) {
    // keep the sanitizer's report for the parent
    int e = open((g_scratch + "/.stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(e, 2);
  }
}

static void put(char* d, size_t n, const std::string& s) { strncpy(d, s.c_str(), n - 1); d[n - 1] = 0; }

#ifdef VF_MEMONLY
long vf_heap();                           // what is allocated now
// The same case again and again: whatever it allocates for good, it allocates each time.
static bool keeps_memory(int t, int n0, long& step) {
  std::vector<uint64_t> ch(sh->c + n0, sh->c + sh->n); std::string desc = sh->desc; int n1 = sh->n; long m[4];
  { uint64_t h = t; for (uint64_t x : ch) h = mix(h ^ x); if (h % 3) return false; }
  for (int k = 0; k < 4; ++k) {
    sh->n = n0;
    { Case r; r.replay = true; r.in = ch; r.sh = sh; r.scratch = g_scratch; try { case_begin(r); tests()[t].f(r); } catch (...) {} }
    m[k] = vf_heap();
  }
  sh->n = n1; put(sh->desc, sizeof sh->desc, desc); sh->sig[0] = sh->msg[0] = 0; step = m[3] - m[2];
  return m[1] - m[0] == step && m[2] - m[1] == step && step > 0;
}
#endif
// Runs one case in this process. Returns 0 passed, 1 failed.
static int run_case(Case& c, int t) {
  alarm(g_timeout); int n0 = sh->n;
  int rc = 0;
  try { case_begin(c); tests()[t].f(c); }
  catch (Failure& f) { put(sh->sig, sizeof sh->sig, f.sig); put(sh->msg, sizeof sh->msg, f.msg); rc = 1; }
  catch (Discard&) { c.nontriv = false; }
  catch (std::exception& e) { put(sh->sig, sizeof sh->sig, "exception"); put(sh->msg, sizeof sh->msg, std::string("uncaught exception: ") + e.what()); rc = 1; }
  catch (std::string& e) { put(sh->sig, sizeof sh->sig, "exception"); put(sh->msg, sizeof sh->msg, "uncaught exception: " + e); rc = 1; }
  catch (const char* e) { put(sh->sig, sizeof sh->sig, "exception"); put(sh->msg, sizeof sh->msg, std::string("uncaught exception: ") + e); rc = 1; }
  catch (...) { put(sh->sig, sizeof sh->sig, "exception"); put(sh->msg, sizeof sh->msg, "uncaught exception of unknown type"); rc = 1; }
#ifdef VF_MEMONLY                          // the statement tables of other properties run here for the sanitizer and the heap only
  if (rc && tests()[t].name.compare(0, 4, "own:")) { rc = 0; sh->sig[0] = sh->msg[0] = 0; }
  long step = 0;
  if (!rc && keeps_memory(t, n0, step)) { put(sh->sig, sizeof sh->sig, "leak"); put(sh->msg, sizeof sh->msg, "each repetition leaves " + std::to_string(step) + " more bytes allocated"); rc = 1; }
#endif
  alarm(0);
  return rc;
}

static std::string tail_stderr() {
  std::ifstream f(g_scratch + "/.stderr");
  std::string s((std::istreambuf_iterator<char>(f)), {});
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p == std::string::npos) p = s.find("runtime error");
  if (p == std::string::npos) p = s.size() > 600 ? s.size() - 600 : 0;
  return s.substr(p, 900);
}

// Classifies a child's end. Returns true when it failed.
static bool classify(int st, std::string& sig, std::string& msg) {
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->state == 2) return false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && sh->state == 1) { sig = sh->sig; msg = sh->msg; return true; }
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM) { sig = "hang"; msg = "no answer within the time limit"; }
    else { sig = "crash"; msg = std::string("killed by signal ") + strsignal(s); }
  } else { sig = "abort"; msg = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " in the middle of the case"; }
  msg += "; stderr: " + tail_stderr();
  return true;
}

static bool replay_once(int t, const std::vector<uint64_t>& ch, std::string& sig, std::string& msg,
                        std::vector<uint64_t>* used = nullptr, std::string* desc = nullptr) {
  sh->n = 0; sh->state = 0; sh->sig[0] = sh->msg[0] = sh->desc[0] = 0;
  clean_scratch(g_scratch);
  pid_t p = fork();
  if (p == 0) {
    quiet();
    Case c; c.replay = true; c.in = ch; c.sh = sh; c.scratch = g_scratch;
    alarm(g_timeout);
    try { session_begin(c, g_argc, g_argv); } catch (Discard&) { sh->state = 2; _exit(0); }
    sh->test = t;
    int rc = run_case(c, t);
    sh->state = rc ? 1 : 2;
    fflush(0);
    _exit(rc ? 99 : 0);
  }
  int st; waitpid(p, &st, 0);
  bool f = classify(st, sig, msg);
  if (used) used->assign(sh->c, sh->c + sh->n);
  if (desc) *desc = sh->desc;
  return f;
}

static void shrink(int t, std::vector<uint64_t>& best, std::string& sig, std::string& msg, double budget) {
  double t0 = now();
  std::string osig = sig;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (now() - t0 > budget) return false;
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (cand == best) return false;
    std::string s, m; std::vector<uint64_t> used;
    if (!replay_once(t, cand, s, m, &used) || s != osig) return false;
    while (!used.empty() && used.back() == 0) used.pop_back();
    best = used.size() <= cand.size() ? used : cand; msg = m;
    return true;
  };
  bool prog = true;
  while (prog && now() - t0 < budget) {
    prog = false;
    for (size_t k = best.size(); k >= 1; k /= 2)                 // delete blocks
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget;) {
        auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (attempt(cand)) prog = true; else i += k;
      }
    for (size_t k = best.size(); k >= 2; k /= 2)                 // zero blocks
      for (size_t i = 0; i + k <= best.size() && now() - t0 < budget; i += k) {
        auto cand = best; bool any = false;
        for (size_t j = i; j < i + k; ++j) { any |= cand[j] != 0; cand[j] = 0; }
        if (any && attempt(cand)) prog = true;
      }
    for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {  // lower each
      if (!best[i]) continue;
      auto cand = best; cand[i] = 0;
      if (attempt(cand)) { prog = true; continue; }
      uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
      for (int it = 0; it < 24 && hi - lo > 1 && i < best.size(); ++it) {
        uint64_t mid = lo + (hi - lo) / 2; cand = best; cand[i] = mid;
        if (attempt(cand)) { hi = i < best.size() ? std::min(best[i], mid) : 0; prog = true; } else lo = mid;
      }
    }
  }
}

// One session in a forked child: a geometry and percase cases. Never returns.
static void child_session(uint64_t sseed, uint64_t shard, uint64_t nsh, uint64_t s, uint64_t percase,
                          const std::vector<int>& order, int wfd) {
  quiet();
  FILE* st = fdopen(wfd, "w");
  Case g; g.sh = sh; g.rng = Rng(sseed); g.scratch = g_scratch;
  alarm(g_timeout);
  try { session_begin(g, g_argc, g_argv); } catch (Discard&) { sh->state = 2; _exit(0); }
  std::vector<uint64_t> geom(sh->c, sh->c + sh->n);
  std::string gdesc = sh->desc;
  for (uint64_t k = 0; k < percase; ++k) {
    int t = order[(shard + nsh * (s * percase + k)) % order.size()];
    Case c; c.sh = sh; c.rng = Rng(mix(sseed + 31 * k + 5)); c.scratch = g_scratch;
    sh->n = geom.size(); sh->test = t; put(sh->desc, sizeof sh->desc, gdesc);
    int rc = run_case(c, t);
    uint64_t h = t; for (int i = 0; i < sh->n; ++i) h = mix(h ^ sh->c[i]);
    fprintf(st, "%d %d %llu %s\n", t, (int)c.nontriv, (unsigned long long)h, esc(sh->desc).c_str());
    fflush(st);
    if (rc) { sh->state = 1; fflush(0); _exit(99); }
  }
  sh->state = 2; fflush(0);
#if defined(__SANITIZE_ADDRESS__)
  exit(0);
#else
  _exit(0);
#endif
}

static bool session_once(uint64_t sseed, uint64_t shard, uint64_t nsh, uint64_t s, uint64_t percase,
                         const std::vector<int>& order, std::string& sig, std::string& msg) {
  sh->n = 0; sh->state = 0; sh->test = -1; sh->sig[0] = sh->msg[0] = sh->desc[0] = 0;
  clean_scratch(g_scratch);
  int fd = open("/dev/null", O_WRONLY);
  pid_t p = fork();
  if (p == 0) child_session(sseed, shard, nsh, s, percase, order, fd);
  close(fd);
  int st; waitpid(p, &st, 0);
  return classify(st, sig, msg);
}

static std::map<std::string, std::string> args;

int main(int argc, char** argv) {
  g_argc = argc; g_argv = argv;
#ifndef __SANITIZE_ADDRESS__
  // eight of these run at once, and broken code may ask for anything
  rlimit lim = {4ul << 30, 4ul << 30}; setrlimit(RLIMIT_DATA, &lim);
#endif
  for (int i = 1; i + 1 < argc; i += 2) args[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, double d) { return args.count(k) ? atof(args[k].c_str()) : d; };
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_scratch = args["--scratch"];
  if (g_scratch.empty()) { fprintf(stderr, "--scratch DIR needed\n"); return 2; }
  mkdir(g_scratch.c_str(), 0700);
  g_timeout = (int)num("--timeout", 120);
  if (args.count("--list")) { for (auto& t : tests()) puts(t.name.c_str()); return 0; }

  uint64_t seed = (uint64_t)num("--seed", 1), shard = (uint64_t)num("--shard", 0), nsh = (uint64_t)num("--shards", 1);
  double tlimit = num("--time", 20), shrinkt = num("--shrink", 20);
  uint64_t sessions = (uint64_t)num("--sessions", 100), percase = (uint64_t)num("--per", 12);
  std::set<std::string> known; { std::ifstream f(args["--known"]); std::string l; while (std::getline(f, l)) known.insert(l); }
  std::string filter = args["--test"];

  std::vector<int> order;                   // weighted rotation over the tests
  for (size_t i = 0; i < tests().size(); ++i)
    if (filter.empty() || tests()[i].name.find(filter) != std::string::npos)
      for (int k = 0; k < tests()[i].weight; ++k) order.push_back(i);
  if (order.empty()) { fprintf(stderr, "no tests\n"); return 2; }
  { Rng r(7); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }

  if (args.count("--replay")) {              // file: test name line, then choices
    std::ifstream f(args["--replay"]); std::string name; std::getline(f, name);
    if (name.compare(0, 8, "session ") == 0) {
      uint64_t q[5]; std::istringstream is(name.substr(8)); for (auto& x : q) is >> x;
      std::string sig, msg;
      if (session_once(q[0], q[1], q[2], q[3], q[4], order, sig, msg)) { printf("FAIL %s:%s\n%s\n%s\n", tests()[sh->test < 0 ? 0 : sh->test].name.c_str(), sig.c_str(), sh->desc, msg.c_str()); return 1; }
      printf("PASS session\n"); return 0;
    }
    std::vector<uint64_t> ch; uint64_t v; while (f >> v) ch.push_back(v);
    int t = -1; for (size_t i = 0; i < tests().size(); ++i) if (tests()[i].name == name) t = i;
    if (t < 0) { fprintf(stderr, "no test %s\n", name.c_str()); return 2; }
    std::string sig, msg, desc;
    if (replay_once(t, ch, sig, msg, nullptr, &desc)) { printf("FAIL %s:%s\n%s\n%s\n", name.c_str(), sig.c_str(), desc.c_str(), msg.c_str()); return 1; }
    printf("PASS %s\n%s\n", name.c_str(), desc.c_str());
    return 0;
  }

  std::ofstream out(args["--out"]);
  uint64_t cases = 0, nontriv = 0; std::set<uint64_t> hashes; std::map<std::string, int> knownhits;
  std::map<std::string, uint64_t> per_test; std::vector<std::string> samples;
  std::map<std::string, int> fails;
  double t0 = now();
  uint64_t s = 0;
  int nviol = 0;
  // One shared statistics pipe per session.
  for (; s < sessions && now() - t0 < tlimit && nviol < 3; ++s) {
    int fd[2]; if (pipe(fd)) return 2;
    sh->n = 0; sh->state = 0; sh->test = -1; sh->sig[0] = sh->msg[0] = sh->desc[0] = 0;
    clean_scratch(g_scratch);
    uint64_t sseed = mix(seed * 1000003 + shard * 7919 + s * 104729 + 17);
    pid_t p = fork();
    if (p == 0) { close(fd[0]); child_session(sseed, shard, nsh, s, percase, order, fd[1]); }
    close(fd[1]);
    FILE* st = fdopen(fd[0], "r"); char* line = 0; size_t cap = 0;
    while (getline(&line, &cap, st) > 0) {
      int t, nt; unsigned long long h; int off = 0;
      if (sscanf(line, "%d %d %llu %n", &t, &nt, &h, &off) < 3) continue;
      ++cases; per_test[tests()[t].name]++;
      if (nt && hashes.insert(h).second) ++nontriv;
      std::string d(line + off); while (!d.empty() && d.back() == '\n') d.pop_back();
      if (nt && (samples.size() < 6 || (samples.size() < 14 && mix(h) % 97 == 0)))
        samples.push_back("{\"test\":\"" + esc(tests()[t].name) + "\",\"case\":\"" + esc(d.substr(0, 300)) + "\"}");
    }
    free(line); fclose(st);
    int wst; waitpid(p, &wst, 0);
    std::string sig, msg;
    if (!classify(wst, sig, msg)) continue;
    int t = sh->test;
    std::vector<uint64_t> ch(sh->c, sh->c + sh->n);
    if (t < 0) {   // died while building the geometry: blame the first test
      t = order[0];
    }
    std::string key = tests()[t].name + ":" + sig;
    if (known.count(key)) { knownhits[key]++; continue; }
    if (fails[key]++) continue;
    // Confirm alone, three times.
    bool ok = true; std::string s2, m2;
    for (int i = 0; i < 3 && ok; ++i) ok = replay_once(t, ch, s2, m2);
    if (!ok) {
      // Perhaps it needs what earlier cases of the session left behind.
      // A failed comparison is a violation even when it comes and goes (threads, stale memory).
      bool sess = false; std::string s3, m3;
      for (int i = 0; i < 4 && !sess; ++i) sess = session_once(sseed, shard, nsh, s, percase, order, s3, m3) && sh->test == t;
      if (!sess && (sig == "crash" || sig == "hang" || sig == "abort")) { out << "{\"kind\":\"unreproduced\",\"key\":\"" << esc(key) << "\",\"msg\":\"" << esc(msg) << "\"}\n"; continue; }
      if (!sess) { s3 = sig; m3 = "(intermittent) " + msg; }
      ++nviol;
      out << "{\"kind\":\"violation\",\"test\":\"" << esc(tests()[t].name) << "\",\"sig\":\"" << esc(s3) << "\",\"msg\":\"" << esc(m3)
          << "\",\"desc\":\"session " << esc(sh->desc) << "\",\"session\":[" << sseed << "," << shard << "," << nsh << "," << s << "," << percase << "]}\n";
      out.flush();
      continue;
    }
    sig = s2; msg = m2; key = tests()[t].name + ":" + sig;
    if (known.count(key)) { knownhits[key]++; continue; }
    shrink(t, ch, sig, msg, shrinkt);
    std::string desc; replay_once(t, ch, s2, m2, nullptr, &desc);
    ++nviol;
    out << "{\"kind\":\"violation\",\"test\":\"" << esc(tests()[t].name) << "\",\"sig\":\"" << esc(sig) << "\",\"msg\":\"" << esc(m2.empty() ? msg : m2)
        << "\",\"desc\":\"" << esc(desc) << "\",\"choices\":[";
    for (size_t i = 0; i < ch.size(); ++i) out << (i ? "," : "") << ch[i];
    out << "]}\n";
    out.flush();
  }
  for (auto& k : knownhits) out << "{\"kind\":\"known\",\"key\":\"" << esc(k.first) << "\",\"n\":" << k.second << "}\n";
  out << "{\"kind\":\"stats\",\"cases\":" << cases << ",\"nontrivial\":" << nontriv << ",\"sessions\":" << s << ",\"tests\":" << per_test.size()
      << ",\"wall\":" << now() - t0 << ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) out << (i ? "," : "") << samples[i];
  out << "],\"per_test\":{";
  bool first = true; for (auto& k : per_test) { out << (first ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; first = false; }
  out << "}}\n";
  clean_scratch(g_scratch); unlink((g_scratch + "/.stderr").c_str()); rmdir(g_scratch.c_str());
  return nviol ? 1 : 0;
}
