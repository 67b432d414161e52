// Histories of creation, copy, assignment, views and destruction against a bit-exact mirror of every live object.
#include "stmt.h"
#ifndef VF_OWN_WEIGHT
#define VF_OWN_WEIGHT 40
#endif
#include <list>
#include <new>
#include <cstdlib>
// ---- a checking heap: garbage in fresh memory, guards on both sides, counts of what is still live -------------
namespace {
bool g_track = false; long g_live = 0, g_bytes = 0, g_bad = 0, g_heap = 0;
struct Head { uint64_t magic, size; uint32_t tracked; unsigned char guard[12]; };
static_assert(sizeof(Head) == 32, "");
}
#ifndef __SANITIZE_ADDRESS__
static void* vf_new(size_t n) {
  unsigned char* p = (unsigned char*)std::malloc(n + sizeof(Head) + 32); if (!p) throw std::bad_alloc();
  Head* h = (Head*)p; h->magic = 0x51dec0de51dec0deull; h->size = n; h->tracked = g_track; memset(h->guard, 0x5a, 12); memset(p + 32, 0xa5, n); memset(p + 32 + n, 0x5a, 32);
  if (g_track) { ++g_live; g_bytes += n; }
  __sync_fetch_and_add(&g_heap, (long)n + 1);
  return p + 32;
}
static void vf_delete(void* q) {
  if (!q) return; unsigned char* p = (unsigned char*)q - 32; Head* h = (Head*)p;
  if (h->magic != 0x51dec0de51dec0deull) { fprintf(stderr, "vf: delete of a block that is not live\n"); abort(); }
  bool ok = true; for (int i = 0; i < 12; ++i) ok = ok && h->guard[i] == 0x5a; for (int i = 0; i < 32; ++i) ok = ok && p[32 + h->size + i] == 0x5a; if (!ok) ++g_bad;
  __sync_fetch_and_sub(&g_heap, (long)h->size + 1); if (h->tracked) { --g_live; g_bytes -= h->size; }
  h->magic = 0xdeadull; memset(q, 0xdd, h->size); std::free(p);
}
void* operator new(size_t n) { return vf_new(n); } void* operator new[](size_t n) { return vf_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vf_new(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vf_new(n); }
void operator delete(void* p) noexcept { vf_delete(p); } void operator delete[](void* p) noexcept { vf_delete(p); }
void operator delete(void* p, size_t) noexcept { vf_delete(p); } void operator delete[](void* p, size_t) noexcept { vf_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf_delete(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { vf_delete(p); }
long vf_heap() { return g_heap; }
#else
extern "C" size_t __sanitizer_get_current_allocated_bytes();
long vf_heap() { return (long)__sanitizer_get_current_allocated_bytes(); }
#endif
namespace vf {
namespace {
struct Track { bool old; Track() : old(g_track) { g_track = true; } ~Track() { g_track = old; } };
struct Untrack { bool old; Untrack() : old(g_track) { g_track = false; } ~Untrack() { g_track = old; } };
#define QDPDO(...) do { Track vf_t; __VA_ARGS__; } while (0)
typedef std::vector<std::string> Img;                        // by linear site
template <class Q> Img img(const Q& q) { Img r; for (int i = 0; i < geo().vol; ++i) r.push_back(bits(q.elem(i))); return r; }
template <class T> void setT(T& e, uint64_t sd) { typedef typename Dim<T>::word W; uint64_t k = 0; walk(e, Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { re = (W)value(sd, 0, k++); if (im) *im = (W)value(sd, 0, k++); }); }
template <class T> void setIt(OLattice<T>& q, uint64_t sd) { for (int i = 0; i < geo().vol; ++i) setT(q.elem(i), sd + i); }
template <class Q> Q by_value(Q x, int site, uint64_t sd, Img& seen) { { Untrack u; seen = img(x); } setT(x.elem(site), sd); return x; }
template <class Q> Q returned(const Q& a) { Q t; t = a; return t; }
template <class Q> const Q& pass_ref(const Q& a) { return a; }
template <class T> struct Lat { std::unique_ptr<OLattice<T>> q; std::shared_ptr<std::vector<T>> ext; Img m; };   // ext: a view of memory owned elsewhere
template <class T> struct Packed { std::shared_ptr<Sub> s; std::unique_ptr<OSubLattice<T>> o; Img m; };   // the subset outlives the objects taken with it
template <class T> struct View { std::shared_ptr<Sub> s; std::unique_ptr<OSubLattice<T>> v; int slot; };
template <class T> struct Arr { std::unique_ptr<multi1d<OLattice<T>>> a; std::vector<Img> m; };
struct Range { const char* p; size_t n; std::string who; };
template <class T> void history(Case& c) {
  typedef OLattice<T> Q; const int V = geo().vol; long live0 = g_live, bad0 = g_bad;
  std::vector<Lat<T>> L(4); std::vector<Packed<T>> K(3); std::vector<View<T>> W; std::vector<Arr<T>> A(2);
  auto newimg = [&](Lat<T>& l) { setIt(*l.q, c.seed()); l.m = img(*l.q); };
  auto dropviews = [&](int i) { for (size_t k = 0; k < W.size();) if (W[k].slot == i) W.erase(W.begin() + k); else ++k; };
  auto reset = [&](int i, Q* q) { dropviews(i); L[i].q.reset(q); L[i].ext.reset(); };
  for (auto& l : L) { Q* q; QDPDO(q = new Q); l.q.reset(q); newimg(l); }
  for (auto& a : A) { QDPDO(a.a.reset(new multi1d<Q>)); }
  auto pack = [&](const Img& m, const Sub& s) { Img r; for (int j = 0; j < s.s.numSiteTable(); ++j) r.push_back(m[s.s.siteTable()[j]]); return r; };
  auto verify = [&](const std::string& what) {
    std::vector<Range> R; const size_t B = sizeof(T) * V;
    auto block = [&](const void* p, size_t n, const std::string& who) { VF_CHECK(c, ((uintptr_t)p % QDP_ALIGNMENT_SIZE) == 0, "alignment", who << " is not aligned after " << what); R.push_back({(const char*)p, n, who}); };
    for (size_t i = 0; i < L.size(); ++i) { auto& l = L[i]; Img g = img(*l.q); for (int k = 0; k < V; ++k) VF_CHECK(c, g[k] == l.m[k], "value", "after " << what << " site " << k << " of field " << i << " changed or is wrong");
      if (l.ext) { VF_CHECK(c, l.q->getF() == l.ext->data(), "view", "field over given memory moved"); R.push_back({(const char*)l.ext->data(), B, "memory " + std::to_string(i)}); } else block(l.q->getF(), B, "field " + std::to_string(i)); }
    for (size_t i = 0; i < K.size(); ++i) if (K[i].o) { auto& k = K[i]; VF_CHECK(c, k.o->getOwnsMemory(), "owner", "packed field " << i << " does not own its memory"); VF_CHECK(c, k.o->subset().numSiteTable() == (int)k.m.size(), "subset", "packed field has a different subset"); for (size_t j = 0; j < k.m.size(); ++j) VF_CHECK(c, bits(k.o->getF()[j]) == k.m[j], "packed", "after " << what << " entry " << j << " of packed field " << i << " on " << k.s->name << " changed or is wrong"); if (k.m.size()) block(k.o->getF(), sizeof(T) * k.m.size(), "packed " + std::to_string(i)); }
    for (auto& w : W) VF_CHECK(c, !w.v->getOwnsMemory() && w.v->getF() == L[w.slot].q->getF() && w.v->subset().numSiteTable() == w.s->count, "view", "after " << what << " a subset view no longer refers to its field");
    for (size_t i = 0; i < A.size(); ++i) { VF_CHECK(c, A[i].a->size() == (int)A[i].m.size(), "array", "array " << i << " has size " << A[i].a->size() << " instead of " << A[i].m.size()); for (size_t e = 0; e < A[i].m.size(); ++e) { const Q& q = (*A[i].a)[e]; Img g = img(q); for (int k = 0; k < V; ++k) VF_CHECK(c, g[k] == A[i].m[e][k], "array", "after " << what << " site " << k << " of element " << e << " of array " << i << " changed or is wrong"); block(q.getF(), B, "array " + std::to_string(i) + "[" + std::to_string(e) + "]"); } }
    std::sort(R.begin(), R.end(), [](const Range& a, const Range& b) { return a.p < b.p; });
    for (size_t i = 1; i < R.size(); ++i) VF_CHECK(c, R[i - 1].p + R[i - 1].n <= R[i].p, "sharing", "after " << what << " " << R[i - 1].who << " and " << R[i].who << " share memory");
    VF_CHECK(c, g_bad == bad0, "bounds", "after " << what << " memory next to a released block had been overwritten");
  };
  int ops = 3 + (int)c.below(16); bool nt = false; std::string log;
  for (int s = 0; s < ops; ++s) {
    int i = (int)c.below(L.size()), j = (int)c.below(L.size()); Lat<T>& a = L[i]; Lat<T>& b = L[j]; std::string what = "?"; int op = (int)c.below(30);
    std::string ij = std::to_string(i) + "," + std::to_string(j);
    switch (op) {
      case 0: { Q* q; QDPDO(q = new Q(*b.q)); Img m = b.m; reset(i, q); a.m = m; what = "copy construction " + ij; nt = true; break; }
      case 1: case 2: QDPDO(*a.q = *b.q); { Img m = b.m; a.m = m; } what = "assignment " + ij; nt = true; break;
      case 3: { Q* q; QDPDO(q = new Q); reset(i, q); newimg(a); what = "new field " + ij; break; }
      case 4: { int site = (int)c.below(V); uint64_t sd = c.seed(); Img seen; T t; setT(t, sd); QDPDO(*a.q = by_value(*b.q, site, sd, seen)); VF_CHECK(c, seen == b.m, "value", "a field passed by value arrived changed"); Img m = b.m; m[site] = bits(t); a.m = m; what = "pass by value and return " + ij; nt = true; break; }
      case 5: { int site = (int)c.below(V); uint64_t sd = c.seed(); Img seen; T t; setT(t, sd); Q* q; QDPDO(q = new Q(by_value(*b.q, site, sd, seen))); Img m = b.m; m[site] = bits(t); reset(i, q); a.m = m; what = "construction from a returned field " + ij; nt = true; break; }
      case 6: { Q* q; QDPDO(q = new Q(returned(*b.q))); Img m = b.m; reset(i, q); a.m = m; what = "returned local " + ij; nt = true; break; }
      case 7: { int site = (int)c.below(V); T& r = a.q->elem(site); const T& cr = pass_ref(*a.q).elem(site); setT(r, c.seed()); a.m[site] = bits(r); VF_CHECK(c, &r == &cr && &r == a.q->getF() + site, "reference", "elem(" << site << ") does not refer to the stored site"); what = "element reference " + ij; break; }
      case 8: { if (W.size() > 5) break; View<T> w; w.s = std::make_shared<Sub>(draw_subset(c)); const Sub& sub = *w.s; QDPDO(w.v.reset(new OSubLattice<T>((*a.q)[sub.s]))); w.slot = i; what = "view on " + sub.name + " of " + ij; W.push_back(std::move(w)); break; what = "view on " + sub.name + " of " + ij; break; }
      case 9: { if (W.empty()) break; int w = (int)c.below(W.size()); View<T> n; QDPDO(n.v.reset(new OSubLattice<T>(*W[w].v))); n.s = W[w].s; n.slot = W[w].slot; if (W.size() < 6) W.push_back(std::move(n)); what = "copy of a view"; nt = true; break; }
      case 10: case 11: { if (W.empty()) break; View<T>& w = W[c.below(W.size())]; QDPDO(*w.v = *b.q); Img& m = L[w.slot].m; Img src = b.m; for (int k = 0; k < w.s->s.numSiteTable(); ++k) { int x = w.s->s.siteTable()[k]; m[x] = src[x]; } what = "assignment through a view of " + std::to_string(w.slot) + " from " + std::to_string(j); nt = true; break; }
      case 12: { if (W.empty()) break; W.erase(W.begin() + c.below(W.size())); what = "end of a view"; break; }
      case 13: { int k = (int)c.below(K.size()); auto ps = std::make_shared<Sub>(draw_subset(c)); const Sub& sub = *ps; OSubLattice<T>* o; QDPDO(o = new OSubLattice<T>(sub.s, *b.q)); K[k].o.reset(o); K[k].s = ps; K[k].m = pack(b.m, sub); what = "packed field " + std::to_string(k) + " on " + sub.name + " from " + std::to_string(j); nt = true; break; }
      case 14: { int k = (int)c.below(K.size()); auto ps = std::make_shared<Sub>(draw_subset(c)); const Sub& sub = *ps; if (!K[k].o || c.chance(1, 2)) { QDPDO(K[k].o.reset(new OSubLattice<T>)); } QDPDO(K[k].o->setSubset(sub.s)); K[k].s = ps; if (c.chance(1, 4)) { QDPDO(K[k].o->setSubset(sub.s)); } for (int e = 0; e < sub.s.numSiteTable(); ++e) setT(K[k].o->getF()[e], 77 + e); QDPDO(*K[k].o = *b.q); K[k].m = pack(b.m, sub); what = "setSubset of packed field " + std::to_string(k) + " to " + sub.name; nt = true; break; }
      case 15: { int k = (int)c.below(K.size()), n = (int)c.below(K.size()); if (k == n || !K[n].o) break; OSubLattice<T>* o; QDPDO(o = new OSubLattice<T>(*K[n].o)); K[k].o.reset(o); K[k].m = K[n].m; K[k].s = K[n].s; what = "copy of packed field " + std::to_string(n); nt = true; break; }
      case 16: { int k = (int)c.below(K.size()); if (!K[k].o) break; QDPDO(*a.q = *K[k].o); for (size_t e = 0; e < K[k].m.size(); ++e) a.m[K[k].s->s.siteTable()[e]] = K[k].m[e]; what = "field " + std::to_string(i) + " = packed field " + std::to_string(k); nt = true; break; }
      case 17: { int k = (int)c.below(K.size()); if (!K[k].o || !K[k].m.size()) break; int e = (int)c.below(K[k].m.size()); setT(K[k].o->getF()[e], c.seed()); K[k].m[e] = bits(K[k].o->getF()[e]); what = "element of packed field " + std::to_string(k); break; }
      case 18: { int k = (int)c.below(K.size()); K[k].o.reset(); K[k].m.clear(); what = "end of packed field"; break; }
      case 19: { int n = (int)c.below(A.size()), len = (int)c.below(4); Arr<T>& x = A[n]; QDPDO(if (c.chance(1, 2)) x.a.reset(new multi1d<Q>(len)); else x.a->resize(len)); x.m.assign(len, Img()); for (int e = 0; e < len; ++e) { setIt((*x.a)[e], c.seed()); x.m[e] = img((*x.a)[e]); } what = "array " + std::to_string(n) + " of " + std::to_string(len); break; }
      case 20: { int n = (int)c.below(2); if (c.chance(1, 4)) { QDPDO(*A[n].a = *A[n].a); what = "array assigned to itself"; break; } if (c.chance(1, 2)) { QDPDO(*A[n].a = *A[1 - n].a); } else { multi1d<Q>* x; QDPDO(x = new multi1d<Q>(*A[1 - n].a)); A[n].a.reset(x); } A[n].m = A[1 - n].m; what = "array copy to " + std::to_string(n); nt = true; break; }
      case 21: { int n = (int)c.below(2); if (A[n].m.empty()) break; int e = (int)c.below(A[n].m.size()); if (c.chance(1, 2)) { QDPDO((*A[n].a)[e] = *b.q); A[n].m[e] = b.m; } else { QDPDO(*a.q = (*A[n].a)[e]); a.m = A[n].m[e]; } what = "array element " + std::to_string(e) + " and field " + ij; nt = true; break; }
      case 22: { Q* q; QDPDO(std::vector<Q> v; v.push_back(*a.q); v.push_back(*b.q); v.push_back(v[0]); v.erase(v.begin()); std::swap(v[0], v[1]); q = new Q(v[1])); Img m = b.m; reset(i, q); a.m = m; what = "vector of fields " + ij; nt = true; break; }
      case 23: if (i == j) break; QDPDO(std::swap(*a.q, *b.q)); a.m.swap(b.m); what = "swap " + ij; nt = true; break;
      case 24: { LatticeBoolean k; Img m = a.m; uint64_t sd = c.seed(); for (int x = 0; x < V; ++x) k.elem(x).elem().elem().elem() = site_hash(sd, x) & 1; if constexpr (!std::is_same<Q, LatticeBoolean>::value) { if (c.chance(1, 2)) { Q* q; QDPDO(q = new Q(where(k, *a.q, *b.q))); for (int x = 0; x < V; ++x) if (!(site_hash(sd, x) & 1)) m[x] = b.m[x]; reset(i, q); } else { QDPDO(copymask(*a.q, k, *b.q)); for (int x = 0; x < V; ++x) if (site_hash(sd, x) & 1) m[x] = b.m[x]; } a.m = m; } what = "masked " + ij; break; }
      case 25: { int mu = (int)c.below(Nd), sg = c.chance(1, 2) ? 1 : -1; if (i == j) break; bool nested = c.chance(1, 2); if (nested) { QDPDO(*a.q = shift(shift(*b.q, sg, mu), sg, mu)); } else { QDPDO(*a.q = shift(*b.q, sg, mu)); } Img m(V); for (int l = 0; l < V; ++l) { int x[Nd]; coord_of(l, x); int n = geo().L[mu]; x[mu] = ((x[mu] + sg * (nested ? 2 : 1)) % n + n + n) % n; m[lin()[l]] = b.m[lin()[lex_of(x)]]; } a.m = m; what = "shift " + ij; nt = true; break; }
      case 26: { auto store = std::make_shared<std::vector<T>>(V); Q* q; for (int x = 0; x < V; ++x) setT((*store)[x], 5 + x); QDPDO(q = new Q(store->data(), 1.0f)); reset(i, q); a.ext = store; newimg(a); for (int x = 0; x < V; ++x) VF_CHECK(c, bits((*store)[x]) == a.m[x], "view", "writing a field over given memory did not change it"); what = "field over given memory " + ij; break; }
      case 27: { Sub sub = draw_subset(c); Img src = b.m; QDPDO((*a.q)[sub.s] = *b.q); for (int k = 0; k < sub.s.numSiteTable(); ++k) { int x = sub.s.siteTable()[k]; a.m[x] = src[x]; } what = "subset assignment " + ij + " on " + sub.name; nt = true; break; }
      case 28: { int l = (int)c.below(V); int x = lin()[l]; if (c.chance(1, 2)) { QDPDO(OScalar<T> t = peekSite(*b.q, mcoord(l)); setT(t.elem(), 9); pokeSite(*a.q, t, mcoord(l))); T t; setT(t, 9); a.m[x] = bits(t); } else { QDPDO(pokeSite(*a.q, peekSite(*b.q, mcoord(l)), mcoord(l))); a.m[x] = b.m[x]; } what = "peek and poke " + ij; break; }
      default: { OScalar<T> t, u; setT(t.elem(), c.seed()); QDPDO(OScalar<T> w(t); u = w; setT(w.elem(), 3)); VF_CHECK(c, bits(u.elem()) == bits(t.elem()), "scalar", "a copy of a scalar changed with another"); if (c.chance(1, 2)) { QDPDO(*a.q = u); } else { Q* q; QDPDO(q = new Q(u)); reset(i, q); } a.m.assign(V, bits(t.elem())); what = "field from a scalar " + ij; nt = true; }
    }
    if (what == "?") continue;
    c.note(what); verify(what);
  }
  // destroy in random order: what remains must be unaffected
  while (!L.empty()) { int i = (int)c.below(L.size()); if (c.chance(1, 2)) { W.clear(); for (auto& k : K) { if (c.chance(1, 2)) { k.o.reset(); } } } dropviews(i); L.erase(L.begin() + i); for (auto& w : W) if (w.slot > i) --w.slot; verify("destruction"); }
  W.clear(); K.clear(); A.clear();
  VF_CHECK(c, g_live == live0, "leak", g_live - live0 << " blocks are still allocated after every object is gone");
  VF_CHECK(c, g_bad == bad0, "bounds", "memory next to a released block had been overwritten");
  if (nt && V > 1) c.nontrivial();
}
}
#define OWN(N) VF_TEST("own: history " #N, VF_OWN_WEIGHT) { history<typename Obj<N>::elem>(c); }
OWN(R) OWN(C) OWN(M) OWN(V) OWN(F) OWN(P) OWN(S) OWN(W) OWN(H) OWN(X) OWN(RD) OWN(MD) OWN(FD) OWN(LatticeInteger) OWN(LatticeBoolean)
VF_TEST("own: allocator", VF_OWN_WEIGHT) {
  typedef Allocator::theQDPAllocator TA; long live0 = g_live, bad0 = g_bad;
  struct Blk { unsigned char* p; size_t n; unsigned char v; }; std::vector<Blk> B; int ops = 4 + (int)c.below(60); bool freed = false;
  auto check = [&](const char* what) { for (auto& b : B) for (size_t k = 0; k < b.n; ++k) VF_CHECK(c, b.p[k] == b.v, "sharing", "after " << what << " byte " << k << " of a block of " << b.n << " bytes changed"); };
  for (int s = 0; s < ops; ++s) {
    if (B.empty() || c.chance(3, 5)) {
      static const size_t sz[] = {0, 1, 15, 16, 17, 64, 100, 32768, 65536, 32767, 32769, 4096}; size_t n = c.chance(1, 2) ? sz[c.below(12)] : c.below(3000); unsigned char* p;
      QDPDO(p = (unsigned char*)TA::Instance().allocate(n, c.chance(1, 2) ? Allocator::DEFAULT : Allocator::FAST)); c.note("allocate " + std::to_string(n));
      VF_CHECK(c, p && (uintptr_t)p % QDP_ALIGNMENT_SIZE == 0, "alignment", "block of " << n << " bytes at " << (void*)p);
      for (auto& b : B) VF_CHECK(c, p != b.p && (p + n <= b.p || b.p + b.n <= p), "sharing", "a new block of " << n << " bytes overlaps a live one of " << b.n);
      memset(p, (unsigned char)(s + 1), n); B.push_back({p, n, (unsigned char)(s + 1)}); check("allocate");
    } else { int i = (int)c.below(B.size()); check("before free"); QDPDO(TA::Instance().free(B[i].p)); B.erase(B.begin() + i); c.note("free"); check("free"); freed = true; }
  }
  while (!B.empty()) { int i = (int)c.below(B.size()); QDPDO(TA::Instance().free(B[i].p)); B.erase(B.begin() + i); check("free"); }
  VF_CHECK(c, g_live == live0, "leak", g_live - live0 << " blocks or bookkeeping entries remain after every block was freed"); VF_CHECK(c, g_bad == bad0, "bounds", "memory next to a block had been overwritten");
  if (freed) c.nontrivial();
}
#ifdef VF_POOL
VF_TEST("own: exhausted pool", VF_OWN_WEIGHT / 4) {                  // a pool that runs out says so, and serves again after releases
  typedef Allocator::theQDPAllocator TA; std::vector<unsigned char*> B; size_t n = (size_t)1 << (17 + c.below(6)); bool refused = false; c.note("blocks of " + std::to_string(n));
  for (int round = 0; round < 2; ++round) {
    refused = false;
    for (int k = 0; k < 2000 && !refused; ++k) {
      unsigned char* p = 0;
      try { p = (unsigned char*)TA::Instance().allocate(n, Allocator::DEFAULT); } catch (std::bad_alloc&) { refused = true; break; }
      VF_CHECK(c, p && (uintptr_t)p % QDP_ALIGNMENT_SIZE == 0, "exhausted", "allocation " << k << " of " << n << " bytes gave " << (void*)p << " instead of a block or bad_alloc");
      for (auto q : B) VF_CHECK(c, p + n <= q || q + n <= p, "sharing", "a new block of " << n << " bytes overlaps a live one");
      p[0] = p[n - 1] = 1; B.push_back(p);
    }
    VF_CHECK(c, refused, "exhausted", "the pool never refused blocks of " << n << " bytes");
    while (!B.empty()) { TA::Instance().free(B.back()); B.pop_back(); }
  }
  c.nontrivial();
}
#endif
}
