// Map objects: histories of every operation against std::map, and the file against an independent parser.
#include "io.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <set>
#include <string_view>
#include <memory>
namespace QDP { class XMLReader { public: XMLReader(XMLReader&, const std::string&) {} int count(const std::string&) { return 0; } void close() {} }; class XMLWriter {}; inline void push(XMLWriter&, const std::string&) {} inline void pop(XMLWriter&) {} template <class T> void write(XMLWriter&, const std::string&, const T&) {} template <class T> void read(XMLReader&, const std::string&, T&) {} }
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_disk_multiple.h"
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_null.h"
#include "qdp_map_obj_disk.cc"
namespace vf {
struct Text { std::string s; };
struct Key3 { int t, v; multi1d<int> d; };
inline void enc(std::string& o, const Text& t) { enc(o, (int)t.s.size()); o += t.s; }
inline void gen(Case& c, Text& t) { t.s = gen_string(c); if (c.chance(1, 8)) t.s += std::string(1, '\0') + "x"; }
inline void write(BinaryWriter& b, const Text& t) { writeDesc(b, t.s); }
inline void read(BinaryReader& b, Text& t) { readDesc(b, t.s); }
inline void enc(std::string& o, const Key3& k) { enc(o, k.t); enc(o, k.v); enc(o, k.d); }
inline void gen(Case& c, Key3& k) { k.t = (int)c.below(3); k.v = (int)c.below(3); k.d.resize((int)c.below(4)); for (int i = 0; i < k.d.size(); ++i) k.d[i] = (int)c.below(2); }
inline void write(BinaryWriter& b, const Key3& k) { QDP::write(b, k.t); QDP::write(b, k.v); QDP::write(b, k.d); }
inline void read(BinaryReader& b, Key3& k) { QDP::read(b, k.t); QDP::read(b, k.v); QDP::read(b, k.d); }
namespace {
struct Mapped { const char* p = 0; size_t n = 0; Mapped(const std::string& f) { int fd = open(f.c_str(), O_RDONLY); struct stat st; if (fd < 0) return; if (!fstat(fd, &st) && st.st_size > 0) { void* m = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); if (m != MAP_FAILED) { p = (const char*)m; n = st.st_size; } } close(fd); } ~Mapped() { if (p) munmap((void*)p, n); } std::string_view view() const { return {p, n}; } };
typedef std::string_view View;
typedef std::map<std::string, std::string> Model;                       // encoded key -> encoded value
uint32_t be32(const View& f, size_t& p, bool& ok) { if (p + 4 > f.size()) { ok = false; return 0; } uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | (unsigned char)f[p++]; return v; }
std::string desc(const View& f, size_t& p, bool& ok) { uint32_t n = be32(f, p, ok); if (!ok || n > f.size() || p + n > f.size()) { ok = false; return ""; } std::string s(f.substr(p, n)); p += n; return s; }
uint64_t pos16(const View& f, size_t& p, bool& ok) { if (p + 16 > f.size()) { ok = false; return 0; } uint64_t hi = be32(f, p, ok), h2 = be32(f, p, ok), v = be32(f, p, ok); v = v << 32 | be32(f, p, ok); if (hi | h2) ok = false; return v; }
// A closed file, by the documented layout: magic, version, user data, link; at the link the key/position table with its checksum.
void parse(Case& c, const std::string& path, const Model& m, const std::string& user) {
  Mapped file(path); View f = file.view(); size_t p = 0; bool ok = true; std::string magic = desc(f, p, ok); uint32_t ver = be32(f, p, ok); std::string u = desc(f, p, ok); uint64_t link = pos16(f, p, ok);
  VF_CHECK(c, ok && magic == "XXXXQDPLazyDiskMapObjFileXXXX" && ver == 1 && u == user && link >= p && link < f.size(), "file header", "header of a closed map object file");
  p = link; uint32_t n = be32(f, p, ok); VF_CHECK(c, ok && n == m.size(), "file table", "number of records in the file: " + std::to_string(n) + " instead of " + std::to_string(m.size()));
  for (uint32_t i = 0; i < n; ++i) {
    std::string k = desc(f, p, ok); uint64_t at = pos16(f, p, ok); VF_CHECK(c, ok, "file table", "table of the file cannot be parsed"); auto it = m.find(k); VF_CHECK(c, it != m.end(), "file table", "key in the file that was never inserted");
    const std::string& v = it->second; VF_CHECK(c, at + v.size() + 4 <= f.size() && f.compare(at, v.size(), v) == 0, "file record", "record in the file differs from the last value written"); size_t q = at + v.size(); uint32_t crc = be32(f, q, ok); VF_CHECK(c, crc == crc_ref(0, v), "file record", "checksum stored with a record");
  }
  std::string table(f.substr(link, p - link)); uint32_t crc = be32(f, p, ok); VF_CHECK(c, ok && crc == crc_ref(0, table), "file table", "checksum stored with the table");
}
template <class K> std::vector<K> pool(Case& c) { std::vector<K> r; std::set<std::string> seen; int n = 1 + (int)(c.chance(1, 25) ? 30 + c.below(250) : c.below(7)); for (int i = 0; i < n; ++i) { K k; gen(c, k); if (seen.insert(encoded(k)).second) r.push_back(k); } return r; }
template <class K, class Map> void check_keys(Case& c, const Map& o, const Model& m) {
  std::vector<K> ks; o.keys(ks); VF_CHECK(c, ks.size() == m.size(), "keys", "keys() returns " + std::to_string(ks.size()) + " keys instead of " + std::to_string(m.size())); std::set<std::string> s; for (auto& k : ks) s.insert(encoded(k));
  for (auto& k : m) VF_CHECK(c, s.count(k.first), "keys", "keys() misses a key");
}
template <class K, class V, class Map> void check_get(Case& c, const Map& o, const Model& m, const K& k, const char* how) {
  V v; gen(c, v); std::string before = encoded(v), ek = encoded(k); int rc = o.get(k, v); auto it = m.find(ek);
  if (it == m.end()) { VF_CHECK(c, rc != 0, "absent", std::string(how) + ": get of an absent key reports success"); VF_CHECK(c, encoded(v) == before, "absent", std::string(how) + ": get of an absent key changed the value"); }
  else { VF_CHECK(c, rc == 0, "get", std::string(how) + ": get of a present key reports failure"); VF_CHECK(c, encoded(v) == it->second, "get", std::string(how) + ": get returns other than the last value written"); }
  VF_CHECK(c, o.exist(k) == (it != m.end()), "exist", std::string(how) + ": exist()"); 
}
template <class K, class V, class Map> void check_all(Case& c, const Map& o, const Model& m, const std::vector<K>& ks, const char* how) { VF_CHECK(c, o.size() == m.size(), "size", std::string(how) + ": size() " + std::to_string(o.size()) + " instead of " + std::to_string(m.size())); for (auto& k : ks) check_get<K, V>(c, o, m, k, how); check_keys<K>(c, o, m); }
const std::ios_base::openmode RW = std::ios_base::in | std::ios_base::out, RWT = RW | std::ios_base::trunc, RO = std::ios_base::in;
template <class K, class V> void disk(Case& c, const char* nm) {
  c.note(std::string("MapObjectDisk ") + nm); auto ks = pool<K>(c); int nf = 1 + (int)c.below(2); std::string path[2] = {c.scratch + "/a.db", c.scratch + "/b.db"}; for (auto& q : path) unlink(q.c_str()); std::map<int, Model> files; std::map<int, std::string> user;
  auto o = std::make_unique<MapObjectDisk<K, V>>(); if (c.chance(1, 6)) o->setDebug(1 + (int)c.below(2)); int cur = -1; bool ro = false; int steps = 1 + (int)c.below(24 + (ks.size() > 12 ? ks.size() : 0)), muts = 0;
  for (int st = 0; st < steps; ++st) {
    if (cur < 0) {
      int f = (int)c.below(nf); std::string w; VF_CHECK(c, o->fileExists(path[f]) == (files.count(f) > 0), "fileExists", "fileExists()"); { K k = ks[0]; V v; gen(c, v); VF_CHECK(c, o->insert(k, v) != 0, "closed", "insert into a closed map reports success"); VF_CHECK(c, o->get(k, v) != 0, "closed", "get from a closed map reports success"); VF_CHECK(c, !o->exist(k) && o->size() == 0, "closed", "a closed map still has keys"); std::vector<K> e; o->keys(e); VF_CHECK(c, e.empty(), "closed", "a closed map still has keys"); }
      if (!files.count(f) || c.chance(1, 8)) { std::string u = gen_string(c); VF_CHECK(c, o->insertUserdata(u) == 0, "user data", "insertUserdata before opening fails"); o->open(path[f], RWT); files[f].clear(); user[f] = u; ro = false; c.note("create"); }
      else {
        if (c.chance(1, 15)) {                                            // records to come lie beyond 2 or 4 GB: lengthen the file by a hole
          static const uint64_t at[] = {1ull << 31, 1ull << 32, 3ull << 31, 5000000000ull, 1ull << 33}; uint64_t x = at[c.below(5)] - c.below(300); struct stat sb; if (!stat(path[f].c_str(), &sb) && (uint64_t)sb.st_size < x && !truncate(path[f].c_str(), (off_t)x)) c.note("hole to " + std::to_string(x)); }
        ro = c.chance(1, 3); o->open(path[f], ro ? RO : RW); c.note(ro ? "open ro" : "open"); }
      cur = f; continue;
    }
    Model& m = files[cur]; const K& k = ks[c.below(ks.size())];
    switch (c.below(ro ? 6 : 12)) {
    case 0: c.note("get"); check_get<K, V>(c, *o, m, k, "disk"); break;
    case 1: check_keys<K>(c, *o, m); VF_CHECK(c, o->size() == m.size(), "size", "size()"); break;
    case 2: { std::string u; VF_CHECK(c, o->getUserdata(u) == 0 && u == user[cur], "user data", "getUserdata of an open map"); VF_CHECK(c, o->insertUserdata("other") != 0, "user data", "insertUserdata of an open map reports success"); break; }
    case 3: { bool threw = false; try { o->open(path[cur], RO); } catch (const std::string&) { threw = true; } VF_CHECK(c, threw, "reopen", "opening an open map does not throw"); break; }
    case 4: { c.note("close"); if (c.chance(1, 2)) o->close(); else o = std::make_unique<MapObjectDisk<K, V>>(); parse(c, path[cur], m, user[cur]); VF_CHECK(c, MapObjDiskEnv::getMetaData(path[cur]) == user[cur], "user data", "getMetaData"); cur = -1; break; }
    case 5: c.note("flush"); o->flush(); parse(c, path[cur], m, user[cur]); break;
    default: { V v; gen(c, v); c.note("insert"); ++muts; VF_CHECK(c, o->insert(k, v) == 0, "insert", "insert reports failure"); m[encoded(k)] = encoded(v); if (c.chance(1, ks.size() > 12 ? 20 : 3)) check_all<K, V>(c, *o, m, ks, "disk after an insert"); break; }
    }
  }
  if (cur >= 0) { check_all<K, V>(c, *o, files[cur], ks, "disk"); o.reset(); }
  for (auto& f : files) { parse(c, path[f.first], f.second, user[f.first]); MapObjectDisk<K, V> p; p.open(path[f.first], RO); check_all<K, V>(c, p, f.second, ks, "reopened disk"); std::string u; p.getUserdata(u); VF_CHECK(c, u == user[f.first], "user data", "user data after reopening"); }
  if (nf == 2 && files.size() == 2) {
    MapObjectDiskMultiple<K, V> p; for (int round = 0; round < 2; ++round) { bool sw = c.chance(1, 2); std::vector<std::string> l{path[sw], path[!sw]}; VF_CHECK(c, p.fileExists(l), "multiple", "fileExists of existing files"); VF_CHECK(c, !p.fileExists({path[0], c.scratch + "/none"}), "multiple", "fileExists with a missing file"); p.open(l); Model u = files[!sw]; for (auto& e : files[sw]) u[e.first] = e.second; for (auto& k : ks) check_get<K, V>(c, p, u, k, "multiple"); check_keys<K>(c, p, u); std::string us; VF_CHECK(c, p.getUserdata(us) == 0 && us == user[sw], "multiple", "user data"); p.flush(); p.close(); }
  }
  if (muts > 1) c.nontrivial();
}
template <class K, class V> void memory(Case& c, const char* nm) {
  c.note(std::string("MapObjectMemory ") + nm); auto ks = pool<K>(c); MapObjectMemory<K, V> o; Model m; std::string user; int steps = 1 + (int)c.below(24), muts = 0; MapObject<K, V>& base = o;
  for (int st = 0; st < steps; ++st) {
    const K& k = ks[c.below(ks.size())]; std::string ek = encoded(k);
    switch (c.below(11)) {
    case 0: o.erase(k); m.erase(ek); break;
    case 1: if (c.chance(1, 3)) { o.clear(); m.clear(); } break;
    case 2: { user = gen_string(c); VF_CHECK(c, base.insertUserdata(user) == 0, "user data", "insertUserdata"); break; }
    case 3: if (m.count(ek)) { V v; gen(c, v); o[k] = v; m[ek] = encoded(v); } break;
    case 4: { std::vector<std::pair<K, V>> l; int n = (int)c.below(5); for (int i = 0; i < n; ++i) { V v; gen(c, v); l.push_back(std::make_pair(ks[c.below(ks.size())], v)); } o.insert(l.begin(), l.end()); for (auto& p : l) m[encoded(p.first)] = encoded(p.second); ++muts; break; }
    case 5: { MapObjectMemory<K, V> t(o); V v; gen(c, v); t.insert(k, v); t.erase(ks[0]); if (c.chance(1, 2)) { MapObjectMemory<K, V> u; u = o; o = u; } break; }
    case 6: { V v; gen(c, v); o.insert(std::make_pair(k, v)); m[ek] = encoded(v); ++muts; break; }
    default: { V v; gen(c, v); VF_CHECK(c, base.insert(k, v) == 0, "insert", "insert"); m[ek] = encoded(v); ++muts; }
    }
    base.flush(); check_all<K, V>(c, o, m, ks, "memory"); check_all<K, V>(c, base, m, ks, "memory through the base"); const MapObjectMemory<K, V>& co = o; for (auto& q : ks) if (m.count(encoded(q))) VF_CHECK(c, encoded(co[q]) == m[encoded(q)], "operator[]", "memory operator[]");
    std::vector<K> kk(3); std::vector<V> vv; o.keysAndValues(kk, vv); VF_CHECK(c, kk.size() == m.size() && vv.size() == m.size(), "keys", "keysAndValues sizes"); for (size_t i = 0; i < kk.size(); ++i) VF_CHECK(c, m.count(encoded(kk[i])) && m[encoded(kk[i])] == encoded(vv[i]), "keys", "keysAndValues");
    size_t n = 0; for (auto i = o.begin(); i != o.end();) { VF_CHECK(c, m.count(encoded(i->first)) && m[encoded((*i).first)] == encoded(i->second), "iterator", "iteration"); ++n; if (n & 1) ++i; else { auto j = i++; VF_CHECK(c, !(j == i), "iterator", "post-increment"); } } VF_CHECK(c, n == m.size(), "iterator", "iteration visits " + std::to_string(n) + " of " + std::to_string(m.size())); std::string u; VF_CHECK(c, base.getUserdata(u) == 0 && u == user, "user data", "getUserdata");
  }
  MapObjectNull<K, V> z; V v; gen(c, v); VF_CHECK(c, z.insert(ks[0], v) != 0 && z.get(ks[0], v) != 0 && !z.exist(ks[0]) && z.size() == 0, "null", "the null map keeps nothing");
  if (muts > 1) c.nontrivial();
}
}
#define BOTH(n, K, V, w) VF_TEST("disk " n, w) { disk<K, V>(c, n); } VF_TEST("memory " n) { memory<K, V>(c, n); }
}
namespace vf {
BOTH("int -> doubles", int, multi1d<double>, 3)
BOTH("text -> text", Text, Text, 3)
BOTH("Key3 -> text", Key3, Text, 2)
BOTH("ints -> ints", multi1d<int>, multi2d<int>, 1)
BOTH("char -> float", char, float, 1)
BOTH("Key3 -> ColorMatrix", Key3, ColorMatrix, 1)
BOTH("int -> LatticeReal", int, LatticeReal, 1)
BOTH("text -> LatticeFermion", Text, LatticeFermion, 1)
BOTH("Key3 -> fields", Key3, multi1d<LatticeColorVector>, 1)
BOTH("double -> Propagator", double, Propagator, 1)
}
