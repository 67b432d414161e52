// P24: requests that cannot be served end in the documented refusal, their valid neighbours do not.
// Each request runs in a forked child: exit 61 = served and right, 62 = served with a wrong value, anything else = refused.
#include "child.h"
#include "qdp_disk_map_slice.h"
#include "qdp_rannyu.h"
#include "qdp_byteorder.h"
#include <set>
namespace QDP { extern uint32_t computeChecksum(const multi1d<LatticeColorMatrix>& u, int mat_size); }
namespace QDP { class XMLReader { public: XMLReader(XMLReader&, const std::string&) {} int count(const std::string&) { return 0; } void close() {} }; class XMLWriter {}; inline void push(XMLWriter&, const std::string&) {} inline void pop(XMLWriter&) {} template <class T> void write(XMLWriter&, const std::string&, const T&) {} template <class T> void read(XMLReader&, const std::string&, T&) {} }
#include "qdp_map_obj_disk.h"
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_disk.cc"
namespace vf {
namespace {
// valid: the request must be served and right; otherwise it must be refused with a message
template <class G> void ask(Case& c, bool valid, const std::string& what, const char* sig, G g) {
  c.note(what + (valid ? " (valid);" : " (invalid);")); End e = child(c, g);
  if (valid) { VF_CHECK(c, e.served(), sig, what << " is valid and was not served: " << tell(e)); VF_CHECK(c, e.code == 61, sig, what << " gave a wrong result"); }
  else { VF_CHECK(c, !e.served(), sig, what << " cannot be served and was not refused"); VF_CHECK(c, !e.sig, sig, what << " crashed instead of being refused: " << tell(e)); VF_CHECK(c, e.code != 0, sig, what << " ended the program with status 0"); VF_CHECK(c, !e.said.empty(), sig, what << " was refused without a message"); }
  c.nontrivial();
}
template <class T> T num(int i) { return T(i + 1); }
template <class T> multi1d<T> arr(int n, int s) { multi1d<T> a(n); for (int i = 0; i < n; ++i) a[i] = num<T>(i * s + 2); return a; }
bool eq(double a, double b) { return a == b; }
bool eq(int a, int b) { return a == b; }
bool eq(const Real& a, const Real& b) { return toDouble(a) == toDouble(b); }
template <class T> void array_ops(Case& c, const char* nm) {
  int n = (int)c.below(6), m = c.chance(1, 3) ? n : (int)c.below(6), op = (int)c.below(8); static const char* ops[] = {"+=", "-=", "*=", "/=", "+", "-", "*", "/"};
  ask(c, n == m, std::string("multi1d<") + nm + ">(" + std::to_string(n) + ") " + ops[op] + " multi1d(" + std::to_string(m) + ")", "array sizes", [&] {
    multi1d<T> a = arr<T>(n, 3), b = arr<T>(m, 1), r = a; switch (op) { case 0: r += b; break; case 1: r -= b; break; case 2: r *= b; break; case 3: r /= b; break; case 4: r = a + b; break; case 5: r = a - b; break; case 6: r = a * b; break; default: r = a / b; }
    bool ok = r.size() == n; for (int i = 0; i < n && ok; ++i) { T w = a[i]; switch (op % 4) { case 0: w += b[i]; break; case 1: w -= b[i]; break; case 2: w *= b[i]; break; default: w /= b[i]; } ok = eq(w, r[i]); } return ok; });
}
template <class A> bool fill_all(A& a, int v) { a = v; return true; }
}
VF_TEST("array sizes", 4) { switch (c.below(3)) { case 0: array_ops<int>(c, "int"); break; case 1: array_ops<double>(c, "double"); break; default: array_ops<Real>(c, "Real"); } }
VF_TEST("arrays without memory", 3) {
  int rank = 1 + (int)c.below(6), op = rank == 1 ? (int)c.below(5) : 0, n = 1 + (int)c.below(3); bool valid = c.chance(1, 3); static const char* ops[] = {"=", "+=", "-=", "*=", "/="};
  ask(c, valid, "rank " + std::to_string(rank) + " array of " + (valid ? std::to_string(n) : std::string("no memory")) + " " + ops[op] + " scalar", "unallocated", [&] {
    switch (rank) {
    case 1: { multi1d<int> a; if (valid) { a.resize(n); for (int i = 0; i < n; ++i) a[i] = 12 + 3 * i; } int s = 3; if (op == 0) a = s; if (op == 1) a += s; if (op == 2) a -= s; if (op == 3) a *= s; if (op == 4) a /= s; for (int i = 0; i < a.size(); ++i) { int b = 12 + 3 * i, w = op == 0 ? 3 : op == 1 ? b + 3 : op == 2 ? b - 3 : op == 3 ? b * 3 : b / 3; if (a[i] != w) return false; } return true; }
    case 2: { multi2d<int> a; if (valid) a.resize(n, 2); a = 3; return a(n - 1, 1) == 3; } case 3: { multi3d<int> a; if (valid) a.resize(2, n, 2); a = 3; return a(1, n - 1, 1) == 3; }
    case 4: { multi4d<int> a; if (valid) a.resize(2, 1, n, 2); a = 3; return a(1, 0, n - 1, 1) == 3; } case 5: { multi5d<int> a; if (valid) a.resize(2, 1, n, 2, 1); a = 3; return a(1, 0, n - 1, 1, 0) == 3; }
    default: { multiNd<int> a; multi1d<int> s(3); s[0] = 2; s[1] = n; s[2] = 1; if (valid) a.resize(s); a = 3; return a(1, n - 1, 0) == 3; } } });
}
VF_TEST("views keep their size", 3) {
  int rank = 1 + (int)c.below(4), n = 1 + (int)c.below(4), m = c.chance(1, 3) ? n : 1 + (int)c.below(5); bool assign = c.chance(1, 2), view = c.chance(2, 3); if (rank > 1 && assign && m == n) assign = true;
  bool valid = !view || (assign && m == n);
  ask(c, valid, std::string(assign ? "assigning " : "resizing to ") + std::to_string(m) + (view ? " to a view of " : " to an array of ") + std::to_string(n) + ", rank " + std::to_string(rank), "view", [&] {
    std::vector<int> mem(1000, 7);
    switch (rank) {
    case 1: { multi1d<int> own(n), v(&mem[10], n); multi1d<int>& a = view ? v : own; if (assign) { a = arr<int>(m, 1); if (view && mem[10] != 3) return false; } else a.resize(m); break; }
    case 2: { multi2d<int> own(2, n), v(&mem[10], 2, n), s(2, m); s = 4; multi2d<int>& a = view ? v : own; if (assign) { a = s; if (view && mem[10 + 2 * n - 1] != 4) return false; } else a.resize(2, m); break; }
    case 3: { multi3d<int> own(2, n, 2), v(&mem[10], 2, n, 2), s(2, m, 2); s = 4; multi3d<int>& a = view ? v : own; if (assign) { a = s; if (view && mem[10 + 4 * n - 1] != 4) return false; } else a.resize(2, m, 2); break; }
    default: { multi4d<int> own(2, n, 2, 1), v(&mem[10], 2, n, 2, 1), s(2, m, 2, 1); s = 4; multi4d<int>& a = view ? v : own; if (assign) { a = s; if (view && mem[10 + 4 * n - 1] != 4) return false; } else a.resize(2, m, 2, 1); } }
    return mem[9] == 7 && (!view || mem[10 + 4 * n] == 7); });
}
VF_TEST("rank and bounds of multiNd", 4) {
  int r = 1 + (int)c.below(5), how = (int)c.below(3), k = how == 2 ? 0 : c.chance(1, 3) ? r : 1 + (int)c.below(how ? 6 : 4); if (how == 0 && k > 4) how = 1; multi1d<int> n(r), ix; int tot = 1; for (int i = 0; i < r; ++i) tot *= n[i] = 1 + (int)c.below(3); if (how < 2) { ix.resize(k); for (int i = 0; i < k; ++i) ix[i] = i < r ? (int)c.below(n[i]) : 0; } int off = (int)c.range(-2, tot + 2); bool cst = c.chance(1, 2);
  std::string what = "multiNd of rank " + std::to_string(r) + ", " + std::to_string(tot) + " elements, " + (how == 2 ? "getElem(" + std::to_string(off) + ")" : (how ? "[] with " : "() with ") + std::to_string(k) + " indices") + (cst ? " const" : "");
  ask(c, how == 2 ? off >= 0 && off < tot : k == r, what, "multiNd", [&] {
    multiNd<int> a(n); const multiNd<int>& b = a; for (int i = 0; i < tot; ++i) a.getElem(i) = 5 * i; int w = 0; if (how == 2) w = 5 * off; else if (k == r) { for (int i = 0; i < k; ++i) w = w * n[i] + ix[i]; w *= 5; }
    if (how == 2) return (cst ? b.getElem(off) : a.getElem(off)) == w; if (how == 1) return (cst ? b[ix] : a[ix]) == w;
    switch (k) { case 1: return (cst ? b(ix[0]) : a(ix[0])) == w; case 2: return (cst ? b(ix[0], ix[1]) : a(ix[0], ix[1])) == w; case 3: return (cst ? b(ix[0], ix[1], ix[2]) : a(ix[0], ix[1], ix[2])) == w; default: return (cst ? b(ix[0], ix[1], ix[2], ix[3]) : a(ix[0], ix[1], ix[2], ix[3])) == w; } });
}
VF_TEST("direction and sign", 4) {
  int mu = (int)c.range(-2, 6), sg = (int)c.range(-2, 2), k = (int)c.below(3); std::string a = "(" + std::to_string(mu) + ", " + std::to_string(sg) + ")"; bool dok = mu >= 0 && mu < 4, sok = sg == 1 || sg == -1;
  if (k == 0) ask(c, dok && sok, "spinProject" + a, "spinProject", [&] { F f; fill(f, 3, 1); H h; h = spinProject(f, mu, sg); return toDouble(norm2(h)) >= 0; });
  else if (k == 1) ask(c, dok && sok, "spinReconstruct" + a, "spinReconstruct", [&] { H h; fill(h, 3, 1); F f; f = spinReconstruct(h, mu, sg); return toDouble(norm2(f)) >= 0; });
  else ask(c, mu >= 0 && mu < Nd, "latticeCoordinate(" + std::to_string(mu) + ")", "latticeCoordinate", [&] { LatticeInteger d = Layout::latticeCoordinate(mu); return d.elem(lin()[geo().vol - 1]).elem().elem().elem() == mcoord(geo().vol - 1)[mu]; });
}
VF_TEST("colours of a set", 3) {
  int n = 1 + (int)c.below(4), at = (int)c.below(geo().vol), col = (int)c.range(-2, n + 1); 
  ask(c, col >= 0 && col < n, "a set of " + std::to_string(n) + " subsets with color " + std::to_string(col) + " at site " + std::to_string(at), "colour", [&] { Set s; s.make(FnSet([&](const Coord& x) { return lex_of(x) == at ? col : 0; }, n)); return s.numSubsets() == n && s[col].color() == col && s[col].numSiteTable() == (col ? 1 : geo().vol); });
}
#ifndef VF_POOL          // the pool is made once
VF_TEST("lattice sizes", 6) {
  multi1d<int> n(Nd); bool tame = c.chance(1, 2); for (int i = 0; i < Nd; ++i) n[i] = tame ? 1 + (int)c.below(5) : (int)c.range(-2, 6); if (c.chance(1, 2)) n[0] = 2 * (1 + (int)c.below(4)); if (c.chance(1, 8)) { multi1d<int> m((int)c.below(7)); for (int i = 0; i < m.size(); ++i) m[i] = 2; n = m; }
  bool ok = n.size() == Nd; long vol = 1; for (int i = 0; i < n.size(); ++i) { vol *= n[i]; if (n[i] < 1) ok = false; } if (ok && vol > 4000) throw Discard();
#if QDP_USE_CB2_LAYOUT == 1 || QDP_USE_CB3D_LAYOUT == 1
  if (ok && n[0] % 2) ok = false;
#elif QDP_USE_CB32_LAYOUT == 1
  if (ok) { if (n[0] % 4) ok = false; for (int i = 1; i < Nd; ++i) if (n[i] % 2) ok = false; }
#endif
  std::string s = "a lattice of"; for (int i = 0; i < n.size(); ++i) s += " " + std::to_string(n[i]);
  ask(c, ok, s, "lattice size", [&] { Layout::setLattSize(n); Layout::create(); if (Layout::vol() != vol) return false; std::vector<char> seen(vol); for (int i = 0; i < vol; ++i) { multi1d<int> x = Layout::siteCoords(0, i); for (int d = 0; d < Nd; ++d) if (x[d] < 0 || x[d] >= n[d]) return false; int l = QDP::local_site(x, n); if (l < 0 || l >= vol || seen[l]++) return false; } return true; });
}
#endif
VF_TEST("files that cannot be opened", 4) {
  int kind = (int)c.below(5), form = (int)c.below(2), where = (int)c.below(3); static const char* names[] = {"BinaryFileReader", "TextFileReader", "BinaryFileWriter", "TextFileWriter", "BinaryFileReaderWriter"}; bool reads = kind < 2 || kind == 4;
  std::string good = c.scratch + "/good", f; spill(good, std::string("\0\0\0\5 5 5", 8)); std::string longname = c.chance(1, 4) ? std::string(200 + c.below(800), 'd') : "none"; if (where == 0) f = good; else if (where == 1) f = c.scratch + "/" + longname + "/x"; else f = reads ? c.scratch + "/" + longname : c.scratch;
  ask(c, where == 0, std::string(names[kind]) + (where == 0 ? " of an existing file" : where == 1 ? " in a directory that does not exist" : reads ? " of a file that does not exist" : " on a directory"), "open", [&] {
    auto go = [&](auto r) { typedef decltype(r) T; if (form) { T x(f); bool o = x.is_open(); x.close(); return o; } T x; x.open(f); bool o = x.is_open(); x.close(); return o; };
    (void)go; switch (kind) {
    case 0: if (form) { BinaryFileReader r(f); return r.is_open(); } else { BinaryFileReader r; r.open(f); return r.is_open(); }
    case 1: if (form) { TextFileReader r(f); return r.is_open(); } else { TextFileReader r; r.open(f); return r.is_open(); }
    case 2: if (form) { BinaryFileWriter r(f); return r.is_open(); } else { BinaryFileWriter r; r.open(f); return r.is_open(); }
    case 3: if (form) { TextFileWriter r(f); return r.is_open(); } else { TextFileWriter r; r.open(f); return r.is_open(); }
    default: if (form) { BinaryFileReaderWriter r(f, std::ios_base::in | std::ios_base::out); return r.is_open(); } else { BinaryFileReaderWriter r; r.open(f, std::ios_base::in | std::ios_base::out); return r.is_open(); } } });
  VF_CHECK(c, kind == 2 || kind == 3 || slurp(good) == std::string("\0\0\0\5 5 5", 8), "open", "the file changed");
}
VF_TEST("messages", 3) {
  // the error text itself may be of any length
  int k = (int)c.below(3); size_t n = c.chance(1, 3) ? c.below(60) : 900 + c.below(4000); std::string t; for (size_t i = 0; i < n; ++i) t += (char)('a' + i % 26); c.note("message of " + std::to_string(n)); 
  End e = child(c, [&] { if (k == 0) QDP_info("%s", t.c_str()); else if (k == 1) QDP_error("%d %s", 42, t.c_str()); else QDP_error_exit("%s", t.c_str()); return true; });
  VF_CHECK(c, !e.sig, "message", "a message of " << n << " characters: " << tell(e)); VF_CHECK(c, k == 2 ? e.code == 1 : e.code == 61, "message", "status after a message of " << n << " characters: " << tell(e)); std::string head = (k == 1 ? "42 " : "") + t; if (head.size() > 900) head.resize(900); VF_CHECK(c, e.said.find(head) != std::string::npos && e.said.find("QDP m0,n1@") != std::string::npos, "message", "the message of " << n << " characters is not in what was printed"); c.nontrivial();
}
VF_TEST("RANNYU seeds", 1) {
  int n = c.chance(1, 3) ? 4 : (int)c.below(8), k = (int)c.below(2); ask(c, n == 4, (k ? "random(state) with " : "setrn of ") + std::to_string(n) + " words", "RANNYU", [&] { multi1d<int> s(n); for (int i = 0; i < n; ++i) s[i] = i + 1; if (k) { RANNYU::RNGState_t st; st.seed = s; RANNYU::random(st); return st.ran >= 0 && st.ran < 1; } RANNYU::setrn(s); multi1d<int> g = RANNYU::savern(); for (int i = 0; i < 4; ++i) if (g[i] != i + 1) return false; return true; });
}
VF_TEST("subset fields", 3) {
  int k = (int)c.below(9); Sub a = draw_subset(c), b = draw_subset(c); if (!a.count || !b.count) throw Discard(); F f, g; fill(f, 5, 1); fill(g, 6, 1); LatticeReal r; fill(r, 7, 1);
  (void)g; std::string nm = " on " + a.name;
  switch (k) {
  case 0: ask(c, a.count == b.count, "assigning owning fields on " + a.name + " and " + b.name, "subset field", [&] { OSubLattice<Obj<F>::elem> x(a.s, f), y(b.s, f); x = y; return true; }); break;
  case 1: ask(c, false, "assigning two views" + nm, "subset field", [&] { f[a.s] = g[a.s]; return true; }); break;
  case 2: ask(c, false, "setting the subset of a view" + nm, "subset field", [&] { OSubLattice<Obj<F>::elem> x(f, a.s); x.setSubset(b.s); return true; }); break;
  case 3: ask(c, true, "setting the subset of an owning field" + nm, "subset field", [&] { OSubLattice<Obj<F>::elem> x; x.setSubset(a.s); x.setSubset(b.s); x = f; f = zero; f = x; return &x.subset() == &b.s; }); break;
  case 4: { bool own = c.chance(1, 2); ask(c, !own, std::string("random fill of ") + (own ? "an owning field" : "a view") + nm, "subset field", [&] { if (own) { OSubLattice<Obj<F>::elem> x(a.s, f); random(x); } else random(f[a.s]); return true; }); break; }
  case 5: { bool own = c.chance(1, 2); ask(c, !own, std::string("gaussian fill of ") + (own ? "an owning field" : "a view") + nm, "subset field", [&] { if (own) { OSubLattice<Obj<F>::elem> x(a.s, f); gaussian(x); } else gaussian(f[a.s]); return true; }); break; }
  case 6: { bool own = c.chance(1, 2); ask(c, own, std::string("localInnerProduct with ") + (own ? "an owning field" : "a view") + nm, "subset field", [&] { if (own) { OSubLattice<Obj<F>::elem> x(a.s, f); auto y = localInnerProduct(x, g); } else { auto y = localInnerProduct(f[a.s], g); } return true; }); break; }
  default: { bool own = c.chance(1, 2); ask(c, own, std::string("assigning ") + (own ? "an owning field" : "a view") + " to a lattice" + nm, "subset field", [&] { if (own) { OSubLattice<Obj<F>::elem> x(a.s, f); g = x; } else g = f[a.s]; return true; }); } }
}
VF_TEST("time slices", 2) {
  int L = geo().L[Nd - 1], t = (int)c.range(-3, L + 2), t0 = (int)c.below(L); bool set = c.chance(1, 2); ask(c, t >= 0 && t < L, "time slice " + std::to_string(t) + " of " + std::to_string(L), "time slice", [&] { LatticeReal f; if (set) { TimeSliceIO<LatticeReal> s(f, t0); s.setTimeSlice(t); return s.getTimeSlice() == t; } TimeSliceIO<LatticeReal> s(f, t); return s.getTimeSlice() == t; });
}
#ifndef VF_POOL
VF_TEST("allocator", 1) {
  int k = (int)c.below(3); auto& al = Allocator::theQDPAllocator::Instance(); size_t n = 1 + c.below(5000); ask(c, k == 0, k == 0 ? "freeing a block" : k == 1 ? "freeing a block twice" : "freeing a pointer inside a block", "free", [&] { char* p = (char*)al.allocate(n, Allocator::DEFAULT); memset(p, 1, n); al.free(k == 2 ? p + 16 : p); if (k == 1) al.free(p); return true; });
}
#endif
VF_TEST("word sizes", 1) {
  int w = (int)c.below(20); static const int ok[] = {1, 2, 4, 8, 16}; bool v = std::find(ok, ok + 5, w) != ok + 5; ask(c, v, "byte_swap of words of " + std::to_string(w), "byte_swap", [&] { unsigned char b[64]; for (int i = 0; i < 64; ++i) b[i] = (unsigned char)i; QDPUtil::byte_swap(b, w, 3); for (int k = 0; k < 3; ++k) for (int i = 0; i < w; ++i) if (b[k * w + i] != k * w + w - 1 - i) return false; return b[3 * w] == 3 * w; });
}
#if QDP_NC == 3 && QDP_ND == 4
VF_TEST("matrix sizes of a configuration", 1) {
  int ms = c.chance(1, 2) ? (int)c.below(25) : c.chance(1, 2) ? 12 : 18; ask(c, ms == 12 || ms == 18, "computeChecksum(u, " + std::to_string(ms) + ")", "mat_size", [&] { multi1d<LatticeColorMatrix> u(Nd); for (int d = 0; d < Nd; ++d) u[d] = 1.0; uint32_t s = computeChecksum(u, ms); (void)s; return true; });
}
#endif
// starting up again with any command line
VF_TEST("command line", 2) {
  std::vector<std::string> a = {"prog"}; bool ok = true; int n = (int)c.below(4); for (int i = 0; i < n; ++i) switch (c.below(5)) { case 0: a.push_back("-poolsize"); a.push_back("0.25"); break; case 1: a.push_back("-h"); ok = false; break; case 2: a.push_back("-other"); a.push_back("x"); break; case 3: a.push_back("input.xml"); break; default: a.push_back(""); } bool miss = c.chance(1, 5); if (miss) { a.push_back("-poolsize"); ok = false; } bool twice = c.chance(1, 5); if (twice) ok = false; std::string s = twice ? "initializing twice, arguments" : "arguments"; for (auto& x : a) s += " '" + x + "'";
  ask(c, ok, s, "command line", [&] { if (!twice) QDP_finalize(); std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(0); int ac = (int)a.size(); char** av = v.data(); if (!twice && QDP_isInitialized()) return false; QDP_initialize(&ac, &av); return QDP_isInitialized(); });
}
// a stream that ends too early: reported by fail(), no crash, and what was complete is right
namespace {
template <class G> void cut_short(Case& c, const std::string& data, const std::string& what, G get) {
  size_t n = c.below(data.size() + 1); if (c.chance(1, 3)) n = data.size(); bool file = c.chance(1, 2); std::string f = c.scratch + "/cut"; spill(f, data.substr(0, n)); c.note(what + ": " + std::to_string(n) + " of " + std::to_string(data.size()) + " bytes;");
  End e = child(c, [&] { bool bad; if (file) { BinaryFileReader r(f); get(r); bad = r.fail(); } else { BinaryBufferReader r(data.substr(0, n)); get(r); bad = r.fail(); } return bad == (n < data.size()); });
  VF_CHECK(c, !e.sig && !e.threw, "truncated", what << " cut to " << n << " of " << data.size() << " bytes: " << tell(e)); VF_CHECK(c, e.code != 62, "truncated", what << " cut to " << n << " of " << data.size() << " bytes: fail() does not tell"); if (n == data.size()) VF_CHECK(c, e.code == 61, "truncated", what << " complete, not served: " << tell(e)); c.nontrivial(n < data.size());
}
}
VF_TEST("truncated binary data", 6) {
  int k = (int)c.below(9);
  switch (k) {
  case 0: { double x = 1.25; cut_short(c, encoded(x), "a double", [](BinaryReader& r) { double y; read(r, y); }); break; }
  case 1: { std::string s = gen_string(c), d; enc(d, (int)s.size()); d += s; cut_short(c, d, "a string", [](BinaryReader& r) { std::string y; readDesc(r, y); }); break; }
  case 2: { multi1d<int> v = arr<int>((int)c.below(9), 2); cut_short(c, encoded(v), "a multi1d", [](BinaryReader& r) { multi1d<int> y; read(r, y); }); break; }
  case 3: { multi2d<double> v(1 + (int)c.below(3), 1 + (int)c.below(3)); v = 2.0; cut_short(c, encoded(v), "a multi2d", [](BinaryReader& r) { multi2d<double> y; read(r, y); }); break; }
  case 4: { multi3d<int> v(1 + (int)c.below(3), 1 + (int)c.below(3), 2); v = 2; cut_short(c, encoded(v), "a multi3d", [](BinaryReader& r) { multi3d<int> y; read(r, y); }); break; }
  case 5: { std::vector<int> v(c.below(7), 3); cut_short(c, encoded(v), "a vector", [](BinaryReader& r) { std::vector<int> y; read(r, y); }); break; }
  case 6: { std::map<int, double> v; for (int i = 0, n = (int)c.below(4); i < n; ++i) v[i] = 1.5; cut_short(c, encoded(v), "a map", [](BinaryReader& r) { std::map<int, double> y; read(r, y); }); break; }
  case 7: { LatticeReal v; fill(v, 3, 1); cut_short(c, encoded(v), "a LatticeReal", [](BinaryReader& r) { LatticeReal y; read(r, y); }); break; }
  default: { F v; fill(v, 3, 1); cut_short(c, encoded(v), "a LatticeFermion", [](BinaryReader& r) { F y; read(r, y); }); } }
}
VF_TEST("text that does not parse", 2) {
  static const char* words[] = {"12", "-7", "x", "", "3.5", "99999999999999999999", "1e5", "true"}; const char* w = words[c.below(8)]; c.note(std::string("text '") + w + "'"); TextBufferReader r; r.open(w); std::istringstream s(w); bool f, g; 
  switch (c.below(4)) { case 0: { int a = 0, b = 0; r >> a; s >> b; f = r.fail(); g = s.fail(); VF_CHECK(c, a == b, "text", "'" << w << "' as an int: " << a << " instead of " << b); break; } case 1: { double a = 0, b = 0; r >> a; s >> b; f = r.fail(); g = s.fail(); VF_CHECK(c, a == b, "text", "'" << w << "' as a double"); break; } case 2: { unsigned short a = 0, b = 0; r >> a; s >> b; f = r.fail(); g = s.fail(); VF_CHECK(c, a == b, "text", "'" << w << "' as an unsigned short"); break; } default: { std::string a, b; r >> a; s >> b; f = r.fail(); g = s.fail(); VF_CHECK(c, a == b, "text", "'" << w << "' as a string"); } }
  VF_CHECK(c, f == g, "text", "fail() after reading '" << w << "' is " << f); c.nontrivial(g);
}
VF_TEST("a device that is full", 2) {
  int k = (int)c.below(3), n = (int)c.below(5000); c.note(std::to_string(n) + " bytes"); std::string s(n, 'q'); bool bad = false;
  if (k == 0) { BinaryFileWriter w("/dev/full"); w.writeArray(s.data(), 1, n); w.flush(); bad = w.fail(); } else if (k == 1) { TextFileWriter w("/dev/full"); w << s; w.flush(); bad = w.fail(); } else { BinaryFileWriter w("/dev/full"); F f; fill(f, 1, 1); write(w, f); w.flush(); bad = w.fail(); n = 1; }
  VF_CHECK(c, bad == (n > 0), "full", "fail() is " << bad << " after writing " << n << " bytes to a device that is full"); c.nontrivial(n > 0);
}
// map objects
namespace {
struct Quiet { std::ostringstream s; Quiet() { QDPIO::cout.init(&s); QDPIO::cerr.init(&s); } ~Quiet() { QDPIO::cout.init(&std::cout); QDPIO::cerr.init(&std::cerr); } };
}
VF_TEST("absent keys", 2) {
  std::set<int> has; int n = (int)c.below(5); MapObjectMemory<int, double> m; for (int i = 0; i < n; ++i) { int k = (int)c.below(6); has.insert(k); m.insert(k, k * 1.5); } int k = (int)c.below(6); bool in = has.count(k), cst = c.chance(1, 2);
  ask(c, in, std::string("operator[] of a key that is ") + (in ? "there" : "not there"), "absent key", [&] { const MapObjectMemory<int, double>& cm = m; return (cst ? cm[k] : m[k]) == k * 1.5; });
}
#ifndef __SANITIZE_ADDRESS__
VF_TEST("damaged map files", 8) {
  std::string f = c.scratch + "/map"; int n = 1 + (int)c.below(4), kind = (int)c.below(2); { Quiet q; MapObjectDisk<int, std::vector<double>> m; m.insertUserdata("about"); m.open(f, std::ios_base::in | std::ios_base::out | std::ios_base::trunc); for (int i = 0; i < n; ++i) m.insert(i, std::vector<double>(1 + i, i + 0.5)); }
  std::string all = slurp(f), bad = all; size_t head = 4 + MapObjDiskEnv::getFileMagic().size() + 4 + 4 + 5 + 16, link = 0, p = 0; for (int i = 0; i < 8; ++i) link = link << 8 | (unsigned char)all[head - 8 + i];
  VF_CHECK(c, link > head && link < all.size(), "damage", "the link to the table is " << link << " in a file of " << all.size());
  // after the header come the records, then the table: each closed by its checksum
  if (kind == 0) { p = c.chance(1, 4) ? c.below(4 + MapObjDiskEnv::getFileMagic().size()) : c.chance(1, 4) ? head - 16 + c.below(16) : head + c.below(all.size() - head); bad[p] ^= (char)(1 + c.below(255)); c.note("byte " + std::to_string(p) + " of " + std::to_string(all.size())); } else { bad.resize(c.chance(1, 3) ? c.below(all.size()) : c.chance(1, 3) ? c.below(head + 1) : all.size() - 1 - c.below(40)); c.note("cut to " + std::to_string(bad.size()) + " of " + std::to_string(all.size())); }
  if (c.chance(1, 12)) { bad = all; c.note("(undamaged)"); } spill(f, bad); int lost = 0;
  End e = child(c, [&] { small_memory(); MapObjectDisk<int, std::vector<double>> m; m.open(f, std::ios_base::in); return true; });
  VF_CHECK(c, !e.sig || e.sig == SIGABRT, "damage", "opening the damaged file: " << tell(e)); VF_CHECK(c, e.code || e.sig, "damage", "opening the damaged file ended the program with status 0");
  for (int i = 0; i < n && e.served(); ++i) { End g = child(c, [&] { small_memory(); MapObjectDisk<int, std::vector<double>> m; m.open(f, std::ios_base::in); std::vector<double> v; int rc = m.get(i, v); if (rc) _exit(59); return v == std::vector<double>(1 + i, i + 0.5); });
    VF_CHECK(c, !g.sig || g.sig == SIGABRT, "damage", "key " << i << " of the damaged file: " << tell(g)); VF_CHECK(c, g.code != 62 || g.sig, "damage", "key " << i << " of the damaged file is read with another value and no complaint"); VF_CHECK(c, g.code != 59 || g.sig, "damage", "key " << i << " of the damaged file is gone without a complaint"); if (!g.served()) ++lost; }
  if (bad == all) VF_CHECK(c, e.served() && !lost, "damage", "the undamaged file was refused");
  else if (kind) VF_CHECK(c, !e.served(), "damage", "the cut file was opened");
  else if (p >= link) VF_CHECK(c, !e.served(), "damage", "the file with a damaged table was opened");
  else if (p >= head) VF_CHECK(c, e.served() && lost == 1, "damage", "one record was damaged, " << (e.served() ? std::to_string(lost) + " were refused" : "the file was refused"));
  else if (p < head - 16) VF_CHECK(c, !e.served(), "damage", "the file with a damaged magic string was opened");
  else VF_CHECK(c, !e.served() || !lost, "damage", "the file with a damaged link was opened and " << lost << " keys were lost");
  c.nontrivial(bad != all);
}
VF_TEST("maps opened for reading", 2) {
  std::string f = c.scratch + "/map"; int n = 1 + (int)c.below(3); { Quiet q; MapObjectDisk<int, int> m; m.insertUserdata("about"); m.open(f, std::ios_base::in | std::ios_base::out | std::ios_base::trunc); for (int i = 0; i < n; ++i) m.insert(i, 10 * i); }
  std::string all = slurp(f); bool rw = c.chance(1, 3), got = c.chance(1, 2); int k = (int)c.below(n + 2); c.note(rw ? "inserting into a map opened for writing;" : "inserting into a map opened for reading;"); 
  End e = child(c, [&] { MapObjectDisk<int, int> m; m.open(f, rw ? std::ios_base::in | std::ios_base::out : std::ios_base::in); int v; if (got && (m.get(0, v) != 0 || v != 0)) return false; int rc = m.insert(k, 77); if (rc != 0) return m.size() == (size_t)n; if (m.get(k, v) != 0 || v != 77) return false; _exit(58); });
  if (rw) VF_CHECK(c, e.code == 58 && !e.sig, "read only", "inserting into a map opened for writing: " << tell(e)); else { VF_CHECK(c, !e.sig || e.sig == SIGABRT, "read only", "inserting into a map opened for reading: " << tell(e)); VF_CHECK(c, e.code != 58 && e.code != 62 && (e.code || e.sig), "read only", "inserting key " << k << " into a map opened for reading reports success"); VF_CHECK(c, slurp(f) == all, "read only", "inserting into a map opened for reading changed the file"); }
  c.nontrivial();
}
VF_TEST("files that are no maps", 1) {
  std::string f = c.scratch + "/map", s = gen_string(c); if (c.chance(1, 2)) { std::string d; enc(d, (int)s.size()); s = d + s; } spill(f, s); ask(c, false, "a map file of " + std::to_string(s.size()) + " other bytes", "no map", [&] { small_memory(); MapObjectDisk<int, int> m; m.open(f, std::ios_base::in); return true; }); VF_CHECK(c, slurp(f) == s, "no map", "the refused file changed");
}
#endif
}
