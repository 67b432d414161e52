// A map file whose writer dies at any of its write calls (or inside an appending one), or whose device is full from there on, holds what was
// last flushed or closed, and can be written on. The write calls of the child are counted; the chosen one ends the process or begins to fail.
#include "child.h"
#include <set>
#include <memory>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
namespace QDP { class XMLReader { public: XMLReader(XMLReader&, const std::string&) {} int count(const std::string&) { return 0; } void close() {} }; class XMLWriter {}; inline void push(XMLWriter&, const std::string&) {} inline void pop(XMLWriter&) {} template <class T> void write(XMLWriter&, const std::string&, const T&) {} template <class T> void read(XMLReader&, const std::string&, T&) {} }
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_disk.cc"
#include "qdp_disk_map_slice.h"
namespace vf {
// shared with the children
struct Watch { long calls, die, part; int done, doing, result, full, failed, wrong; };
static Watch* watch = 0;
static ssize_t put(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
static bool due(int fd, const char* p, size_t n) {
  if (!watch || fd <= 2) return false;
  long k = watch->calls++; if (watch->die < 0 || (watch->full ? k < watch->die : k != watch->die)) return false;
  if (watch->full && watch->failed) return true;
  // in-place writes are whole or absent, appended ones may be cut anywhere
  struct stat st; off_t at = lseek(fd, 0, SEEK_CUR); if (!fstat(fd, &st) && at == st.st_size) { size_t k = watch->part % (n + 1), d = 0; while (d < k) { ssize_t w = put(fd, p + d, k - d); if (w <= 0) break; d += w; } }
  if (watch->full) { watch->failed = 1; return true; }
  _exit(77);
}
}
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (vf::due(fd, (const char*)p, n)) { errno = ENOSPC; return -1; } return vf::put(fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { std::string s; for (int i = 0; i < n; ++i) s.append((const char*)v[i].iov_base, v[i].iov_len); if (vf::due(fd, s.data(), s.size())) { errno = ENOSPC; return -1; } return vf::put(fd, s.data(), s.size()); }
namespace vf {
struct Text { std::string s; };
inline void enc(std::string& o, const Text& t) { enc(o, (int)t.s.size()); o += t.s; }
inline void gen(Case& c, Text& t) { t.s = gen_string(c); if (c.chance(1, 6)) t.s += std::string(c.below(20000), (char)('a' + c.below(26))); }
inline void write(BinaryWriter& b, const Text& t) { writeDesc(b, t.s); }
inline void read(BinaryReader& b, Text& t) { readDesc(b, t.s); }
namespace {
typedef std::map<int, std::string> State;                // key -> encoded value
const std::ios_base::openmode RW = std::ios_base::in | std::ios_base::out, RWT = RW | std::ios_base::trunc, RO = std::ios_base::in;
template <class V> struct Op { int kind, key; V val; };    // 0 insert, 1 get, 2 flush, 3 close and open again
template <class V> struct Story { std::vector<Op<V>> ops; std::string user; };
template <class V> Story<V> story(Case& c, int n, int keys) { Story<V> s; for (int i = 0; i < n; ++i) { Op<V> o; int r = (int)c.below(12); o.kind = r < 7 ? 0 : r < 9 ? 1 : r < 11 ? 2 : 3; o.key = (int)c.below(keys); if (o.kind == 0) gen(c, o.val); s.ops.push_back(o); } return s; }
// the states after 0, 1, 2, ... completed syncs
template <class V> std::vector<State> syncs(State now, const Story<V>& s) { std::vector<State> r{now}; for (auto& o : s.ops) { if (o.kind == 0) now[o.key] = encoded(o.val); else if (o.kind >= 2) r.push_back(now); } r.push_back(now); return r; }
inline void sync() { if (!watch->failed) { watch->doing = 0; ++watch->done; } }      // with a full device the sync under way stays unfinished
template <class V> void perform(const std::string& f, const Story<V>& s, bool fresh) {
  auto m = std::make_unique<MapObjectDisk<int, V>>(); if (fresh) { m->insertUserdata(s.user); m->open(f, RWT); } else m->open(f, RW);
  for (auto& o : s.ops) switch (o.kind) {
    case 0: { int rc = m->insert(o.key, o.val); if ((rc == 0) == (watch->failed != 0)) watch->wrong = 1; } break;
    case 1: if (!watch->failed) { V v; m->get(o.key, v); } break;
    case 2: watch->doing = 1; m->flush(); sync(); break;
    default: watch->doing = 1; m->close(); sync(); if (watch->failed) return; m->open(f, RW);
  }
  watch->doing = 1; m.reset(); sync();
}
template <class V> bool holds(MapObjectDisk<int, V>& m, const State& want, int keys) {
  if (m.size() != want.size()) return false; std::vector<int> ks; m.keys(ks); std::set<int> s(ks.begin(), ks.end()); if (s.size() != want.size()) return false;
  for (int k = 0; k < keys; ++k) { auto it = want.find(k); V v; if (m.exist(k) != (it != want.end())) return false; if (m.get(k, v) != (it == want.end())) return false; if (it != want.end() && (!s.count(k) || encoded(v) != it->second)) return false; }
  return true;
}
template <class V> End inspect(Case& c, const std::string& f, const State& a, const State& b, const std::string& user, int keys) {
  return child(c, [&] { small_memory(); MapObjectDisk<int, V> m; m.open(f, RO); std::string u; bool ok = m.getUserdata(u) == 0 && u == user; watch->result = !ok ? 0 : holds(m, a, keys) ? 1 : holds(m, b, keys) ? 2 : 0; return watch->result != 0; });
}
template <class V> void crashes(Case& c, const char* nm) {
  if (!watch) { watch = (Watch*)mmap(0, sizeof(Watch), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  std::string f = c.scratch + "/map.db", base = c.scratch + "/base.db"; int keys = 1 + (int)c.below(5); c.note(std::string("int -> ") + nm); unlink(f.c_str()); unlink(base.c_str());
  auto idle = [&] { *watch = Watch(); watch->die = -1; };
  State now; bool fresh = true; std::string user = gen_string(c); int lives = 1 + (int)c.below(3); bool hit = false;
  for (int life = 0; life < lives; ++life) {
    auto s = story<V>(c, 1 + (int)c.below(14), keys); s.user = user; auto states = syncs(now, s); std::string before = fresh ? "" : slurp(f);
    // a life without a crash tells the number of write calls
    idle(); End e = child(c, [&] { perform(f, s, fresh); return true; }); VF_CHECK(c, e.code == 61 && !e.sig, "history", "the history does not run: " << tell(e)); long calls = watch->calls; VF_CHECK(c, calls > 0 || !fresh, "history", "no write call was seen");
    e = inspect<V>(c, f, states.back(), states.back(), user, keys); VF_CHECK(c, e.code == 61, "history", "after a life without a crash the file holds other than was stored: " << tell(e)); std::string whole = slurp(f);
    if (!calls || c.chance(1, 8)) { now = states.back(); fresh = false; continue; }
    std::vector<long> at; if (calls <= 12 && c.chance(1, 4)) for (long k = 0; k < calls; ++k) at.push_back(k); else for (int i = 0; i < 3; ++i) at.push_back((long)c.below(calls));
    State kept; bool opened = false;
    for (long k : at) {
      if (fresh) unlink(f.c_str()); else spill(f, before);
      idle(); watch->die = k; watch->part = c.chance(1, 2) ? 0 : (long)c.below(30000); bool full = c.chance(1, 3); watch->full = full; e = child(c, [&] { perform(f, s, fresh); return true; });
      if (full) { VF_CHECK(c, !e.sig || e.sig == SIGABRT, "full", "the device was full: " << tell(e)); VF_CHECK(c, watch->failed, "history", "the device was never full: " << tell(e)); VF_CHECK(c, !watch->wrong, "full", "an insert on the full device reported success, or one before it failure"); }
      else { VF_CHECK(c, !watch->wrong, "insert", "insert reports failure"); VF_CHECK(c, e.code == 77 && !e.sig, "history", "the crash did not happen: " << tell(e)); }
      int done = watch->done, doing = watch->doing; std::string what = std::string(full ? "device full" : "death") + " at write call " + std::to_string(k) + " of " + std::to_string(calls) + " (" + std::to_string(done) + " flushes done" + (doing ? ", in the next one)" : ")"); c.note(what + ";"); hit = true;
      bool synced = !fresh || done > 0; const State &a = states[done], &b = doing ? states[done + 1] : states[done];
      idle(); e = inspect<V>(c, f, a, b, user, keys); int r = watch->result;
      if (!synced && !e.served()) { VF_CHECK(c, (!e.sig || e.sig == SIGABRT) && e.code != 0, "never flushed", what << ", nothing was ever flushed; opening: " << tell(e)); opened = false; continue; }
      VF_CHECK(c, e.served(), "lost", what << ": the file cannot be opened or read: " << tell(e)); 
      VF_CHECK(c, r == 1 || r == 2 || (!synced && doing && r), "lost", what << ": the file holds neither what was last flushed nor what was being flushed");
      kept = r == 1 ? a : b; opened = true;
    }
    // the next life goes on with what the last crash left
    if (opened) { now = kept; fresh = false; } else { unlink(f.c_str()); fresh = true; now.clear(); }
  }
  c.nontrivial(hit);
}
}
VF_TEST("text", 4) { crashes<Text>(c, "text"); }
VF_TEST("doubles", 2) { crashes<multi1d<double>>(c, "doubles"); }
VF_TEST("LatticeReal") { crashes<LatticeReal>(c, "LatticeReal"); }
VF_TEST("ColorMatrix") { crashes<ColorMatrix>(c, "ColorMatrix"); }
}
