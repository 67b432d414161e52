// Time slices through streams and map objects.
#include "io.h"
#include <unistd.h>
#include <set>
#include "qdp_map_obj_disk.h"
#include "qdp_disk_map_slice.h"
#ifndef VF_MEMONLY                     // P22 links this file with p19.cc, which has it
#include "qdp_map_obj_disk.cc"
#endif
namespace vf {
namespace {
int NT() { return geo().L[Nd - 1]; }
template <class L> std::vector<std::string> site_bytes(const L& a) { std::vector<std::string> r(geo().vol); for (int l = 0; l < geo().vol; ++l) enc_site(r[l], const_cast<L&>(a).elem(lin()[l])); return r; }
std::vector<int> slice_sites(int t) { std::vector<int> r; for (int l = 0; l < geo().vol; ++l) { Coord x = mcoord(l); if (x[Nd - 1] == t) r.push_back(l); } return r; }     // ascending lexicographic order
std::string slice_of(const std::vector<std::string>& b, int t) { std::string s; for (int l : slice_sites(t)) s += b[l]; return s; }
template <class L> void same(Case& c, const L& a, const std::vector<std::string>& want, const char* what, const char* sig) { auto b = site_bytes(a); for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, b[l] == want[l], sig, what << ": site " << l << " (time " << mcoord(l)[Nd - 1] << ")"); }
int draw_t(Case& c) { return (int)c.below(NT()); }
// Any sequence of slices to a stream, by each kind of wrapper use; then the same sequence read back.
template <class L> void stream(Case& c, const char* nm) {
  c.note(nm); int nfields = 1 + (int)c.below(3); std::vector<L> f(nfields); std::vector<std::vector<std::string>> img; for (auto& a : f) { gen(c, a); img.push_back(site_bytes(a)); }
  std::vector<std::pair<int, int>> seq; int n = 1 + (int)c.below(8); bool perm = c.chance(1, 2);                 // (field, time)
  if (perm) { std::vector<int> p; for (int t = 0; t < NT(); ++t) p.push_back(t); for (int t = NT(); t-- > 1;) std::swap(p[t], p[c.below(t + 1)]); for (int t : p) seq.push_back({0, t}); } else for (int i = 0; i < n; ++i) seq.push_back({(int)c.below(nfields), draw_t(c)});
  Out o(c, (int)c.below(4), c.scratch + "/s"); std::string want; int how = (int)c.below(3); std::unique_ptr<TimeSliceIO<L>> keep;
  for (auto& q : seq) {
    c.note(std::to_string(q.first) + "@" + std::to_string(q.second));
    if (how == 0) { TimeSliceIO<L> s(f[q.first], q.second); s.binaryWrite(*o.p); }
    else if (how == 1) write(*o.p, TimeSliceIO<L>(f[q.first], q.second));
    else { if (!keep || &keep->getObject() != &f[q.first]) keep.reset(new TimeSliceIO<L>(f[q.first], draw_t(c))); keep->setTimeSlice(q.second); VF_CHECK(c, keep->getTimeSlice() == q.second, "accessor", "getTimeSlice"); if (c.chance(1, 3)) { TimeSliceIO<L> copy(*keep); write(*o.p, copy); } else write(*o.p, *keep); }
    want += slice_of(img[q.first], q.second);
  }
  for (int i = 0; i < nfields; ++i) same(c, f[i], img[i], "writing changed the source", "source");
  std::string got = o.close(); VF_CHECK(c, got == want, "bytes", "slices written differ from the sites of those times in lexicographic order: " << diff_at(got, want));
  In in(c, (int)c.below(4), c.scratch + "/r", want); std::vector<L> d(nfields); std::vector<std::vector<std::string>> dm; for (auto& a : d) { gen(c, a); dm.push_back(site_bytes(a)); }
  int shift = (int)c.below(2) ? (int)c.below(NT()) : 0; std::string all = want; size_t at = 0;                // read back, possibly into other times
  for (auto& q : seq) {
    int t = (q.second + shift) % NT(), k = (int)c.below(nfields); TimeSliceIO<L> s(d[k], t); if (c.chance(1, 2)) s.binaryRead(*in.p); else read(*in.p, s); VF_CHECK(c, !in.p->fail(), "fail", "reading a slice failed");
    auto src = slice_sites(q.second), dst = slice_sites(t); for (size_t i = 0; i < src.size(); ++i) { dm[k][dst[i]] = img[q.first][src[i]]; at += img[q.first][src[i]].size(); } VF_CHECK(c, (size_t)in.p->currentPosition() == at, "position", "position after reading a slice"); same(c, d[k], dm[k], "after reading a slice", "read");
  }
  if (NT() > 1 && geo().vol > NT()) c.nontrivial();
}
struct Key { int id, t; }; inline void enc(std::string& o, const Key& k) { vf::enc(o, k.id); vf::enc(o, k.t); }
inline void write(BinaryWriter& b, const Key& k) { QDP::write(b, k.id); QDP::write(b, k.t); } inline void read(BinaryReader& b, Key& k) { QDP::read(b, k.id); QDP::read(b, k.t); }
template <class L> void mapped(Case& c, const char* nm) {
  c.note(std::string("map ") + nm); std::string path = c.scratch + "/m.db"; unlink(path.c_str()); auto rw = std::ios_base::in | std::ios_base::out; auto o = std::make_unique<MapObjectDisk<Key, TimeSliceIO<L>>>(); o->insertUserdata("u"); o->open(path, rw | std::ios_base::trunc);
  std::map<std::pair<int, int>, std::string> m; int steps = 2 + (int)c.below(16); L d; gen(c, d); auto dm = site_bytes(d);
  auto put = [&](int id, int t, const std::string& s) { auto z = slice_sites(t); size_t w = s.size() / z.size(); for (size_t i = 0; i < z.size(); ++i) dm[z[i]] = s.substr(i * w, w); };
  auto look = [&](int id, int t) { int t0 = draw_t(c); TimeSliceIO<L> s(d, t); int rc = o->get(Key{id, t0 = t}, s); auto it = m.find({id, t}); VF_CHECK(c, (rc == 0) == (it != m.end()), "get", "presence of a stored slice"); if (it != m.end()) put(id, t, it->second); same(c, d, dm, "after get", "get"); };
  for (int st = 0; st < steps; ++st) {
    int id = (int)c.below(3), t = draw_t(c);
    switch (c.below(6)) {
    case 0: c.note("get"); look(id, t); break;
    case 1: c.note("reopen"); if (c.chance(1, 2)) o->flush(); o->close(); o->open(path, rw); break;
    case 2: { c.note("whole"); L a; gen(c, a); auto b = site_bytes(a); TimeSliceIO<L> s(a, 0); for (int k = NT(); k-- > 0;) { s.setTimeSlice(k); VF_CHECK(c, o->insert(Key{id, k}, s) == 0, "insert", "insert"); m[{id, k}] = slice_of(b, k); } L r; gen(c, r); for (int k = 0; k < NT(); ++k) { TimeSliceIO<L> q(r, k); VF_CHECK(c, o->get(Key{id, k}, q) == 0, "get", "get of an inserted slice"); } same(c, r, b, "a field restored from all its slices", "restore"); break; }
    default: { c.note("insert"); L a; gen(c, a); auto b = site_bytes(a); VF_CHECK(c, o->insert(Key{id, t}, TimeSliceIO<L>(a, t)) == 0, "insert", "insert"); m[{id, t}] = slice_of(b, t); same(c, a, b, "insert changed the source", "source"); }
    }
    VF_CHECK(c, o->size() == m.size(), "size", "number of slices stored");
  }
  o->close(); o->open(path, std::ios_base::in); for (int id = 0; id < 3; ++id) for (int t = 0; t < NT(); ++t) look(id, t);
  if (NT() > 1 && m.size() > 1) c.nontrivial();
}
template <class L> void invalid(Case& c) {
  L a; gen(c, a); int t = c.chance(1, 2) ? -1 - (int)c.below(5) : NT() + (int)c.below(5); c.note("invalid " + std::to_string(t)); int threw = 0; try { TimeSliceIO<L> s(a, t); } catch (const std::string&) { ++threw; } TimeSliceIO<L> s(a, 0); try { s.setTimeSlice(t); } catch (const std::string&) { ++threw; }
  VF_CHECK(c, threw == 2, "invalid", "time " << t << " of " << NT() << " accepted"); c.nontrivial();
}
}
VF_TEST("invalid times") { invalid<LatticeReal>(c); }
#define BOTH(L) VF_TEST("stream " #L, 2) { stream<L>(c, #L); } VF_TEST("map " #L) { mapped<L>(c, #L); }
BOTH(LatticeReal) BOTH(LatticeComplex) BOTH(LatticeInteger) BOTH(LatticeFermion) BOTH(LatticePropagator) BOTH(LatticeColorMatrix) BOTH(LatticeColorVector) BOTH(LatticeHalfFermion) BOTH(LatticeSpinMatrix) BOTH(LatticeRealD) BOTH(LatticeDiracFermionD) BOTH(LatticeColorMatrixF) BOTH(LatticeRealF) BOTH(LatticeSpinVector)
}
