// Binary streams: recursive encoder (the documented big-endian layout), generators, and stream programs.
#ifndef VF_IO_H
#define VF_IO_H
#include "stmt.h"
#include <complex>
#include <list>
#include <fstream>
namespace vf {
inline uint32_t crc_ref(uint32_t crc, const std::string& s) {           // bit at a time
  crc = ~crc; for (unsigned char b : s) { crc ^= b; for (int k = 0; k < 8; ++k) crc = (crc >> 1) ^ (crc & 1 ? 0xedb88320u : 0); } return ~crc;
}
// ---- encoder -----------------------------------------------------------
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type enc(std::string& o, T v) { unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof v); for (size_t i = sizeof v; i-- > 0;) o += (char)b[i]; }
template <class T> void enc(std::string& o, const std::complex<T>& v) { enc(o, v.real()); enc(o, v.imag()); }
template <class T> void enc_site(std::string& o, const T& e) { typedef typename Dim<T>::word W; walk(const_cast<T&>(e), Ix{0, 0, 0, 0}, [&](Ix, W& re, W* im) { enc(o, re); if (im) enc(o, *im); }); }
template <class T> void enc(std::string& o, const OScalar<T>& v) { enc_site(o, v.elem()); }
template <class T> void enc(std::string& o, const OLattice<T>& v) { for (int l = 0; l < geo().vol; ++l) enc_site(o, v.elem(lin()[l])); }
template <class T> void enc(std::string& o, const multi1d<T>& v); template <class T> void enc(std::string& o, const multi2d<T>& v); template <class T> void enc(std::string& o, const multi3d<T>& v);
template <class T> void enc(std::string& o, const multi4d<T>& v); template <class T> void enc(std::string& o, const multi5d<T>& v); template <class T> void enc(std::string& o, const multiNd<T>& v);
template <class T> void enc(std::string& o, const std::vector<T>& v); template <class T> void enc(std::string& o, const std::list<T>& v); template <class T> void enc(std::string& o, const Array1dO<T>& v);
template <class K, class V> void enc(std::string& o, const std::map<K, V>& v); template <class A, class B> void enc(std::string& o, const std::pair<A, B>& v);
template <class T> void enc(std::string& o, const multi1d<T>& v) { enc(o, (int)v.size()); for (int i = 0; i < v.size(); ++i) enc(o, v[i]); }
template <class T> void enc(std::string& o, const multi2d<T>& v) { enc(o, (int)v.size2()); enc(o, (int)v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) enc(o, v(j, i)); }
template <class T> void enc(std::string& o, const multi3d<T>& v) { enc(o, (int)v.size3()); enc(o, (int)v.size2()); enc(o, (int)v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) enc(o, v(k, j, i)); }
template <class T> void enc(std::string& o, const multi4d<T>& v) { enc(o, (int)v.size4()); enc(o, (int)v.size3()); enc(o, (int)v.size2()); enc(o, (int)v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) for (int l = 0; l < v.size4(); ++l) enc(o, v(l, k, j, i)); }
template <class T> void enc(std::string& o, const multi5d<T>& v) { enc(o, (int)v.size5()); enc(o, (int)v.size4()); enc(o, (int)v.size3()); enc(o, (int)v.size2()); enc(o, (int)v.size1()); for (int i = 0; i < v.size1(); ++i) for (int j = 0; j < v.size2(); ++j) for (int k = 0; k < v.size3(); ++k) for (int l = 0; l < v.size4(); ++l) for (int m = 0; m < v.size5(); ++m) enc(o, v(m, l, k, j, i)); }
template <class T> void enc(std::string& o, const multiNd<T>& v) { enc(o, v.size()); for (int i = 0; i < v.numElem(); ++i) enc(o, v.getElem(i)); }
template <class T> void enc(std::string& o, const std::vector<T>& v) { enc(o, (int)v.size()); for (auto& x : v) enc(o, x); }
template <class T> void enc(std::string& o, const std::list<T>& v) { enc(o, (int)v.size()); for (auto& x : v) enc(o, x); }
template <class T> void enc(std::string& o, const Array1dO<T>& v) { enc(o, (int)v.size()); for (int i = 1; i <= v.size(); ++i) enc(o, v[i]); }
template <class K, class V> void enc(std::string& o, const std::map<K, V>& v) { enc(o, (int)v.size()); for (auto& x : v) { enc(o, x.first); enc(o, x.second); } }
template <class A, class B> void enc(std::string& o, const std::pair<A, B>& v) { enc(o, v.first); enc(o, v.second); }
template <class T> std::string encoded(const T& v) { std::string s; enc(s, v); return s; }
// ---- generators ----------------------------------------------------------
template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type gen(Case& c, T& v) {
  if constexpr (std::is_same<T, bool>::value) v = c.chance(1, 2);
  else if constexpr (std::is_floating_point<T>::value) {
    switch (c.below(4)) { case 0: v = (T)c.range(-8, 8) / 4; break; case 1: { static const double s[] = {0.0, -0.0, 1e-40, -1e308, 1.0 / 3, INFINITY, -INFINITY, 1e-310, 3.4e38}; v = (T)s[c.below(9)]; break; } default: { uint64_t h = mix(c.seed()); memcpy(&v, &h, sizeof v); if (std::isnan(v)) v = (T)0.1; } }
  } else switch (c.below(4)) { case 0: v = (T)c.range(-3, 300); break; case 1: v = std::numeric_limits<T>::max(); break; case 2: v = std::numeric_limits<T>::min(); break; default: v = (T)mix(c.seed()); }
}
template <class T> void gen(Case& c, std::complex<T>& v) { T a, b; gen(c, a); gen(c, b); v = std::complex<T>(a, b); }
template <class Q> void gen_obj(Case& c, Q& q) {
  typedef typename Words<Q>::type W; uint64_t s = c.seed(), k = 0; bool raw = c.chance(1, 2); int kind = (int)c.below(2);
  walkall(q, [&](int, Ix, W& re, W* im) { auto one = [&](W& w) { uint64_t h = mix(s * 1000003 + ++k); if constexpr (std::is_same<W, bool>::value) w = h & 1; else if (raw) memcpy(&w, &h, sizeof w); else w = (W)(std::is_integral<W>::value ? (double)(int)(h % 2001) - 1000 : value(s, kind, k)); }; one(re); if (im) one(*im); });
}
template <class T> void gen(Case& c, OScalar<T>& v) { gen_obj(c, v); }
template <class T> void gen(Case& c, OLattice<T>& v) { gen_obj(c, v); }
// a small size, or rarely a large one
inline int size_of(Case& c, int small, int large) { return c.chance(1, 60) ? (int)c.below(large) : c.chance(1, 12) ? (int)c.below(300) : (int)c.below(small); }
inline int extent(Case& c) { return (int)(c.chance(1, 6) ? 0 : 1 + c.below(4)); }
template <class T> void gen(Case& c, multi1d<T>& v); template <class T> void gen(Case& c, std::vector<T>& v); template <class K, class V> void gen(Case& c, std::map<K, V>& v); template <class A, class B> void gen(Case& c, std::pair<A, B>& v);
template <class T> int length(Case& c) { if constexpr (std::is_arithmetic<T>::value) return size_of(c, 5, 9000); else return extent(c); }
template <class T> void gen(Case& c, multi1d<T>& v) { v.resize(length<T>(c)); for (int i = 0; i < v.size(); ++i) gen(c, v[i]); }
template <class T> void gen(Case& c, multi2d<T>& v) { int a = extent(c), b = extent(c); v.resize(a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) gen(c, v(i, j)); }
template <class T> void gen(Case& c, multi3d<T>& v) { int a = extent(c), b = extent(c), d = extent(c); v.resize(a, b, d); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) gen(c, v(i, j, k)); }
template <class T> void gen(Case& c, multi4d<T>& v) { int a = 1 + (int)c.below(3), b = 1 + (int)c.below(3), d = extent(c), e = 1 + (int)c.below(3); v.resize(a, b, d, e); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) for (int l = 0; l < e; ++l) gen(c, v(i, j, k, l)); }
template <class T> void gen(Case& c, multi5d<T>& v) { int a = 1 + (int)c.below(3), b = 1 + (int)c.below(2), d = 1 + (int)c.below(3), e = 1 + (int)c.below(2), f = 1 + (int)c.below(3); v.resize(a, b, d, e, f); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int k = 0; k < d; ++k) for (int l = 0; l < e; ++l) for (int m = 0; m < f; ++m) gen(c, v(i, j, k, l, m)); }
template <class T> void gen(Case& c, multiNd<T>& v) { multi1d<int> s(1 + (int)c.below(4)); for (int i = 0; i < s.size(); ++i) s[i] = 1 + (int)c.below(3); v.resize(s); for (int i = 0; i < v.numElem(); ++i) gen(c, v.getElem(i)); }
template <class T> void gen(Case& c, std::vector<T>& v) { v.resize(length<T>(c)); for (auto& x : v) gen(c, x); }
template <class T> void gen(Case& c, std::list<T>& v) { v.resize(length<T>(c)); for (auto& x : v) gen(c, x); }
template <class T> void gen(Case& c, Array1dO<T>& v) { v.resize(extent(c)); for (int i = 1; i <= v.size(); ++i) gen(c, v[i]); }
template <class K, class V> void gen(Case& c, std::map<K, V>& v) { int n = extent(c); for (int i = 0; i < n; ++i) { K k; gen(c, k); gen(c, v[k]); } }
template <class A, class B> void gen(Case& c, std::pair<A, B>& v) { gen(c, v.first); gen(c, v.second); }
inline std::string gen_string(Case& c, bool word = false) {       // text without line ends or NULs; word: one token
  int n = (int)(c.chance(1, 40) ? c.below(20000) : c.chance(1, 8) ? c.below(600) : c.below(12)); if (word && !n) n = 1; uint64_t s = c.seed(); std::string r;
  for (int i = 0; i < n; ++i) { int h = (int)(mix(s * 65537 + i) % 224); char ch = (char)(32 + h); if (word && (h == 0 || h == 95 || h > 95)) ch = 'x'; if (ch == '\n' || !ch) ch = '-'; r += ch; }
  return r;
}
// ---- stream items -----------------------------------------------------------
struct Item { std::string desc, bytes; std::function<void(BinaryWriter&)> w; std::function<bool(BinaryReader&)> r; bool little = false; };
template <class T> Item value_item(Case& c, const char* nm) {
  auto v = std::make_shared<T>(); gen(c, *v); Item it; it.desc = nm; it.bytes = encoded(*v); std::string b = it.bytes; int style = (int)c.below(3);
  it.w = [v, style](BinaryWriter& o) { if constexpr (std::is_arithmetic<T>::value) { if (style == 1) { o.write(*v); return; } if (style == 2) { o << *v; return; } } write(o, *v); };
  it.r = [b, style](BinaryReader& i) { T x; if constexpr (std::is_arithmetic<T>::value) { if (style == 2) { i.read(x); return encoded(x) == b; } if (style == 0) { i >> x; return encoded(x) == b; } } read(i, x); return encoded(x) == b; };
  return it;
}
template <class L> Item sub_item(Case& c, const char* nm) {       // a subset, one site or a range of lexicographic sites
  auto v = std::make_shared<L>(); gen(c, *v); auto into = std::make_shared<L>(); gen(c, *into); Item it; int V = geo().vol; std::vector<char> in(V, 0);
  int kind = (int)c.below(3);
  if (kind == 0) { Sub s = draw_subset(c); it.desc = std::string(nm) + "[" + s.name + "]"; in = s.in; auto h = s.holder; Subset ss = s.s; it.w = [v, ss, h](BinaryWriter& o) { write(o, (*v)[ss]); }; it.r = [into, ss, h](BinaryReader& i) { read(i, (*into)[ss]); return true; }; }
  else if (kind == 1) { int l = (int)c.below(V); Coord x = mcoord(l); in[l] = 1; it.desc = std::string(nm) + " site " + std::to_string(l); it.w = [v, x](BinaryWriter& o) { write(o, *v, x); }; it.r = [into, x](BinaryReader& i) { read(i, *into, x); return true; }; }
  else { int a = (int)c.below(V + 1), b = a + (int)c.below(V - a + 1); for (int l = a; l < b; ++l) in[l] = 1; it.desc = std::string(nm) + " sites " + std::to_string(a) + ".." + std::to_string(b);
    it.w = [v, a, b](BinaryWriter& o) { LatticeTimeSliceIO::writeSlice(o, *v, a, b); }; it.r = [into, a, b](BinaryReader& i) { LatticeTimeSliceIO::readSlice(i, *into, a, b); return true; }; }
  for (int l = 0; l < V; ++l) if (in[l]) enc_site(it.bytes, Obj<L>::at(*v, l));
  auto r0 = it.r; auto before = image(*into);
  it.r = [=](BinaryReader& i) { r0(i); for (int l = 0; l < V; ++l) if (in[l] ? !bits_eq(Obj<L>::at(*into, l), Obj<L>::at(*v, l)) : bits(Obj<L>::at(*into, l)) != before[l]) return false; return true; };
  return it;
}
inline Item string_item(Case& c) {
  std::string s = gen_string(c); Item it; int style = (int)c.below(6);
  if (style == 3) {
    if (c.chance(1, 2)) s += std::string("\n\0z", 3);           // a description holds any bytes
    it.desc = "writeDesc(" + std::to_string(s.size()) + ")"; enc(it.bytes, (int)s.size()); it.bytes += s;
    it.w = [s](BinaryWriter& o) { writeDesc(o, s); }; it.r = [s](BinaryReader& i) { std::string x = "old"; readDesc(i, x); return x == s; };
  } else {
    size_t extra = c.below(3) ? c.below(20) : 1000; it.desc = "string(" + std::to_string(s.size()) + ")"; it.bytes = s + "\n";
    it.w = [s, style](BinaryWriter& o) { if (style == 0) write(o, s); else if (style == 1) o << s; else if (style == 4) write(o, s.c_str()); else if (style == 5) o << s.c_str(); else o.write(s.c_str()); };
    it.r = [s, extra](BinaryReader& i) { std::string x = "old"; read(i, x, s.size() + 1 + extra); return x == s; };
  }
  return it;
}
template <class T> Item array_item(Case& c, const char* nm) {      // raw arrays of words
  int n = size_of(c, 9, 40000); auto v = std::make_shared<std::vector<T>>(n + 1); uint64_t s = c.seed(); for (int i = 0; i <= n; ++i) { uint64_t h[2] = {mix(s + i), mix(s - i - 1)}; memcpy(&(*v)[i], h, sizeof(T)); } Item it;
  it.desc = std::string(nm) + "[" + std::to_string(n) + "]"; for (int i = 0; i < n; ++i) enc(it.bytes, (*v)[i]);
  bool prim = c.chance(1, 2), wp = c.chance(1, 3); it.w = [v, n, wp](BinaryWriter& o) { if (wp) o.writeArrayPrimaryNode((const char*)v->data(), sizeof(T), n); else o.writeArray((const char*)v->data(), sizeof(T), n); };
  it.r = [v, n, prim](BinaryReader& i) { std::vector<T> x(n + 1); if (prim) i.readArrayPrimaryNode((char*)x.data(), sizeof(T), n); else i.readArray((char*)x.data(), sizeof(T), n); return !memcmp(x.data(), v->data(), n * sizeof(T)); };
  return it;
}
template <class T> Item little_item(Case& c, const char* nm) {     // little-endian data placed in the stream as bytes
  int n = size_of(c, 9, 40000); auto v = std::make_shared<std::vector<T>>(n + 1); uint64_t s = c.seed(); for (int i = 0; i <= n; ++i) { uint64_t h[2] = {mix(s + i), mix(s - i - 1)}; memcpy(&(*v)[i], h, sizeof(T)); } Item it;
  it.little = true; it.desc = std::string("little-endian ") + nm + "[" + std::to_string(n) + "]"; it.bytes = std::string((const char*)v->data(), n * sizeof(T));
  it.w = [v, n](BinaryWriter& o) { o.writeArray((const char*)v->data(), 1, n * sizeof(T)); }; bool prim = c.chance(1, 2);
  it.r = [v, n, prim](BinaryReader& i) { std::vector<T> x(n + 1); if (prim) i.readArrayPrimaryNodeLittleEndian((char*)x.data(), sizeof(T), n); else i.readArrayLittleEndian((char*)x.data(), sizeof(T), n); return !memcmp(x.data(), v->data(), n * sizeof(T)); };
  return it;
}
template <class T> Item counted_item(Case& c, const char* nm) {    // sizes known to the reader
  auto v = std::make_shared<multi1d<T>>(); gen(c, *v); int n = (int)c.below(v->size() + 1); Item it; it.desc = std::string("multi1d<") + nm + ">,n"; for (int i = 0; i < n; ++i) enc(it.bytes, (*v)[i]);
  it.w = [v, n](BinaryWriter& o) { write(o, *v, n); }; std::string b = it.bytes;
  it.r = [v, n, b](BinaryReader& i) { multi1d<T> x(n + 1); T keep = x[n] = T((*v).size() ? (*v)[0] : T()); read(i, x, n); std::string s; for (int k = 0; k < n; ++k) enc(s, x[k]); return s == b && encoded(x[n]) == encoded(keep); };
  return it;
}
template <class T> Item counted2_item(Case& c, const char* nm) {   // a matrix read into the top left corner of a larger one
  auto v = std::make_shared<multi2d<T>>(); gen(c, *v); int a = v->size2(), b = v->size1(), pa = (int)c.below(3), pb = (int)c.below(3); Item it; it.desc = std::string("multi2d<") + nm + ">,n1,n2"; for (int i = 0; i < b; ++i) for (int j = 0; j < a; ++j) enc(it.bytes, (*v)(j, i));
  it.w = [v, a, b](BinaryWriter& o) { for (int i = 0; i < b; ++i) for (int j = 0; j < a; ++j) write(o, (*v)(j, i)); };
  it.r = [v, a, b, pa, pb](BinaryReader& r) { multi2d<T> x(a + pa, b + pb); T keep = T(); keep = 3; for (int j = 0; j < a + pa; ++j) for (int i = 0; i < b + pb; ++i) x(j, i) = keep; read(r, x, a, b); for (int j = 0; j < a + pa; ++j) for (int i = 0; i < b + pb; ++i) if (encoded(x(j, i)) != encoded(j < a && i < b ? (*v)(j, i) : keep)) return false; return true; };
  return it;
}
std::vector<std::function<Item(Case&)>>& item_kinds();
inline Item draw_item(Case& c) { auto& k = item_kinds(); return k[c.below(k.size())](c); }
// ---- backends -----------------------------------------------------------------
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), {}); }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
// objects are built in memory that held something else before
template <class T, class... A> T* dirty(A&&... a) { void* m = ::operator new(sizeof(T)); memset(m, 0xa5, sizeof(T)); return new (m) T(std::forward<A>(a)...); }
struct Out {                      // file, buffer, read-write file, read-write buffer
  int kind; std::string file; std::unique_ptr<BinaryFileWriter> fw; std::unique_ptr<BinaryBufferWriter> bw; std::unique_ptr<BinaryFileReaderWriter> frw; std::unique_ptr<BinaryBufferReaderWriter> brw; BinaryWriter* p;
  Out(Case& c, int k, const std::string& f) : kind(k), file(f) {
    bool ctor = c.chance(1, 2); c.note(std::string("to ") + (k == 0 ? "file" : k == 1 ? "buffer" : k == 2 ? "rw-file" : "rw-buffer"));
    auto mode = std::ios_base::in | std::ios_base::out | std::ios_base::trunc;
    if (k == 0) { if (ctor) fw.reset(dirty<BinaryFileWriter>(f)); else { fw.reset(dirty<BinaryFileWriter>()); fw->open(f); } p = fw.get(); }
    else if (k == 1) { if (ctor) bw.reset(dirty<BinaryBufferWriter>()); else { bw.reset(dirty<BinaryBufferWriter>(std::string())); } p = bw.get(); }
    else if (k == 2) { if (ctor) frw.reset(dirty<BinaryFileReaderWriter>(f, mode)); else { frw.reset(dirty<BinaryFileReaderWriter>()); frw->open(f, mode); } p = frw.get(); }
    else { if (ctor) brw.reset(dirty<BinaryBufferReaderWriter>()); else { brw.reset(dirty<BinaryBufferReaderWriter>(std::string())); } p = brw.get(); }
  }
  std::string close() { switch (kind) { case 0: fw->close(); return slurp(file); case 1: return bw->str(); case 2: frw->close(); return slurp(file); default: return brw->strPrimaryNode(); } }
  std::string now() { p->flush(); return kind == 1 ? bw->strPrimaryNode() : kind == 3 ? brw->str() : slurp(file); }
};
struct In {
  std::unique_ptr<BinaryFileReader> fr; std::unique_ptr<BinaryBufferReader> br; std::unique_ptr<BinaryFileReaderWriter> frw; std::unique_ptr<BinaryBufferReaderWriter> brw; BinaryReader* p; int kind;
  In(Case& c, int k, const std::string& f, const std::string& data) : kind(k) {
    bool ctor = c.chance(1, 2); c.note(std::string("from ") + (k == 0 ? "file" : k == 1 ? "buffer" : k == 2 ? "rw-file" : "rw-buffer")); if (k == 0 || k == 2) spit(f, data);
    if (k == 0) { if (ctor) fr.reset(dirty<BinaryFileReader>(f)); else { fr.reset(dirty<BinaryFileReader>()); fr->open(f); } p = fr.get(); }
    else if (k == 1) { if (ctor) br.reset(dirty<BinaryBufferReader>(data)); else { br.reset(dirty<BinaryBufferReader>()); br->open(data); } p = br.get(); }
    else if (k == 2) { if (ctor) frw.reset(dirty<BinaryFileReaderWriter>(f)); else { frw.reset(dirty<BinaryFileReaderWriter>()); frw->open(f, std::ios_base::in); } p = frw.get(); }
    else { if (ctor) brw.reset(dirty<BinaryBufferReaderWriter>(data)); else { brw.reset(dirty<BinaryBufferReaderWriter>()); brw->open(data); } p = brw.get(); }
  }
};
inline std::string diff_at(const std::string& a, const std::string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return "lengths " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + ", first difference at byte " + std::to_string(i); }
}
#endif
