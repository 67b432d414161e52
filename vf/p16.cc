// Text streams and the standard streams against C's own conversions and std::ostream.
#include "io.h"
#include <sstream>
#include <iomanip>
#include <deque>
namespace vf {
namespace {
template <class Q> struct WordOf { typedef typename Words<Q>::type type; };
template <> struct WordOf<Seed> { typedef int type; };
template <class Q, class F> void each(Q& q, F f) { if constexpr (std::is_same<Q, Seed>::value) { for (int k = 0; k < 4; ++k) f(q.elem().elem().elem(k).elem()); } else { typedef typename Words<Q>::type W; walkall(q, [&](int, Ix, W& re, W* im) { f(re); if (im) f(*im); }); } }
template <class T> std::string printed(T v) { char b[64]; if constexpr (std::is_same<T, bool>::value) return v ? "1" : "0"; else if constexpr (std::is_same<T, char>::value) return std::string(1, v); else if constexpr (std::is_floating_point<T>::value) { snprintf(b, sizeof b, "%g", (double)v); return b; } else return std::to_string(v); }
template <class T> T parsed(const std::string& s) { if constexpr (std::is_same<T, float>::value) return strtof(s.c_str(), 0); else if constexpr (std::is_same<T, double>::value) return strtod(s.c_str(), 0); else return T(); }
template <class T> void gen_text(Case& c, T& v) {                     // finite, printable, not rounding up to infinity
  if constexpr (std::is_same<T, char>::value) v = (char)(33 + c.below(94));
  else if constexpr (std::is_floating_point<T>::value) { gen(c, v); T big = std::is_same<T, float>::value ? (T)3.4e38 : (T)1.79e308; if (!(std::abs(v) < big)) v = v > 0 ? big : -big; }
  else gen(c, v);
}
struct TItem { std::string desc, text; bool object = false; std::function<void(TextWriter&)> w; std::function<bool(TextReader&)> r; };
template <class T> TItem word_item(Case& c, const char* nm) {
  T v; gen_text(c, v); TItem it; it.desc = std::string(nm) + " " + printed(v); it.text = printed(v); bool op = c.chance(1, 2), op2 = c.chance(1, 2);
  it.w = [v, op](TextWriter& o) { if (op) o << v; else o.write(v); };
  it.r = [v, op2](TextReader& i) { T x = T(); if constexpr (!std::is_same<T, bool>::value) x = (T)~0ull; if (op2) i >> x; else i.read(x); T want = v; if constexpr (std::is_floating_point<T>::value) want = parsed<T>(printed(v)); return !memcmp(&x, &want, sizeof x) && !i.fail(); };
  return it;
}
template <class Q> TItem obj_item(Case& c, const char* nm) {
  typedef typename WordOf<Q>::type W; auto v = std::make_shared<Q>(); uint64_t s = c.seed(), k = 0; int style = (int)c.below(3);
  auto draw = [&](W& w) { uint64_t h = mix(s * 7919 + ++k); if constexpr (std::is_same<W, bool>::value) w = h & 1; else if constexpr (std::is_integral<W>::value) { if (style == 2) memcpy(&w, &h, sizeof w); else w = (W)((int)(h % 2001) - 1000); } else { if (style == 2) { W e = std::pow((W)10, (W)((int)(h % 60) - 30)); w = (W)((double)(int)(h >> 32) * 1e-5) * e; } else if (style == 1) w = (W)((double)(int)(h >> 40) / 64 - 4000); else w = (W)((int)(h % 9) - 4); } };
  TItem it; it.object = true; it.desc = nm; each(*v, draw);
  it.w = [v](TextWriter& o) { o << *v; };
  it.r = [v](TextReader& i) { Q x; each(x, [](W& w) { w = (W)1; }); i >> x; std::deque<W> a, b; each(*v, [&](W& w) { a.push_back(w); }); each(x, [&](W& w) { b.push_back(w); });
    for (size_t k = 0; k < a.size(); ++k) { W want = a[k]; if constexpr (std::is_floating_point<W>::value) want = parsed<W>(printed(a[k])); if (memcmp(&want, &b[k], sizeof want)) return false; } return !i.fail(); };
  return it;
}
TItem token_item(Case& c) { std::string s = gen_string(c, true); TItem it; it.desc = "string(" + std::to_string(s.size()) + ")"; it.text = s; int st = (int)c.below(4); bool op = c.chance(1, 2);
  it.w = [s, st](TextWriter& o) { if (st == 0) o << s; else if (st == 1) o.write(s); else if (st == 2) o << s.c_str(); else o.write(s.c_str()); };
  it.r = [s, op](TextReader& i) { std::string x = "old value"; if (op) i >> x; else i.read(x); return x == s && !i.fail(); }; return it; }
#define WI(T) [](Case& c) { return word_item<T>(c, #T); }
#define OI(T) [](Case& c) { return obj_item<T>(c, #T); }
std::vector<std::function<TItem(Case&)>> kinds = {WI(bool), WI(char), WI(short), WI(unsigned short), WI(int), WI(unsigned int), WI(long), WI(unsigned long), WI(long long), WI(float), WI(double), token_item, token_item,
  OI(Real), OI(RealD), OI(Real32), OI(Integer), OI(Boolean), OI(Complex), OI(DComplex), OI(ColorVector), OI(ColorMatrix), OI(SpinVector), OI(SpinMatrix), OI(Fermion), OI(HalfFermion), OI(Propagator), OI(Seed), OI(ColorMatrixD), OI(FermionD)};
const char* seps[] = {" ", "\n", "\t", "  \n "};
}
VF_TEST("text stream", 3) {
  std::vector<TItem> v; std::vector<std::string> sep; int n = 1 + (int)c.below(8); std::string f = c.scratch + "/t"; bool last = c.chance(1, 2);
  TextBufferWriter bw; TextFileWriter fw; bool twice = c.chance(1, 5);
  if (twice) { fw.open(f); fw << "left over text"; if (c.chance(1, 2)) fw.close(), fw.open(f); else fw.close(), fw.open(f); bw << 7; bw.open(""); }
  else if (c.chance(1, 2)) fw.open(f); else { TextFileWriter g(f); g.write("older"); g.close(); fw.open(f); }
  VF_CHECK(c, fw.is_open(), "open", "an opened text file is not open"); std::string want; bool exact = true;
  for (int i = 0; i < n; ++i) { TItem it = kinds[c.below(kinds.size())](c); sep.push_back(i + 1 < n || last ? seps[c.below(4)] : ""); c.note(it.desc + ";"); it.w(bw); it.w(fw); bw << sep.back(); fw << sep.back(); if (c.chance(1, 6)) { fw.flush(); VF_CHECK(c, slurp(f) == bw.str(), "flush", "a flushed text file differs from the buffer"); }
    if (it.object) exact = false; want += it.text + sep.back(); v.push_back(it); }
  VF_CHECK(c, !fw.fail() && !bw.fail(), "fail", "a writer reports failure"); std::string text = bw.str();
  VF_CHECK(c, text == bw.strPrimaryNode(), "str", "str and strPrimaryNode differ"); if (exact) VF_CHECK(c, text == want, "text", "buffer holds \"" << text << "\" instead of \"" << want << "\"");
  fw.close(); VF_CHECK(c, !fw.is_open(), "close", "a closed text file is open"); VF_CHECK(c, slurp(f) == text, "file", "the file holds other characters than the buffer");
  TextFileReader fr; TextBufferReader br; if (c.chance(1, 3)) { spit(f + "0", "12 34"); fr.open(f + "0"); int x; fr >> x >> x; if (c.chance(1, 2)) fr >> x; fr.close(); br.open("12"); br >> x; if (c.chance(1, 2)) br >> x; c.note("reused readers"); }
  std::unique_ptr<TextFileReader> cf; std::unique_ptr<TextBufferReader> cb; if (c.chance(1, 3)) { c.note("readers built open"); cf.reset(new TextFileReader(f)); cb.reset(new TextBufferReader(text)); VF_CHECK(c, cf->is_open() && cb->str() == text && cb->strPrimaryNode() == text, "open", "a reader built on its data"); for (int i = 0; i < n; ++i) { VF_CHECK(c, v[i].r(*cf) && v[i].r(*cb), "built value", v[i].desc << " (item " << i << ") was not read back by a reader built on the text: " << text.substr(0, 400)); } cf->close(); VF_CHECK(c, !cf->is_open(), "close", "a closed text file is open"); }
  fr.open(f); br.open(text); VF_CHECK(c, fr.is_open(), "open", "an opened text file is not open"); VF_CHECK(c, br.str() == text && br.strPrimaryNode() == text, "str", "reader's str");
  for (int i = 0; i < n; ++i) { VF_CHECK(c, v[i].r(fr), "file value", v[i].desc << " (item " << i << ") was not read back from the file; text: " << text.substr(0, 400)); VF_CHECK(c, v[i].r(br), "buffer value", v[i].desc << " (item " << i << ") was not read back from the buffer; text: " << text.substr(0, 400)); }
  std::string x; fr >> x; br >> x; VF_CHECK(c, fr.fail() && br.fail(), "end", "reading past the end does not fail"); fr.close(); VF_CHECK(c, !fr.is_open(), "close", "a closed text file is open");
  c.nontrivial();
}
// ---- standard streams -----------------------------------------------------------
namespace {
struct SItem { std::string desc; std::function<void(StandardOutputStream&)> w; std::function<void(std::ostream&)> ref; };
template <class O, class T> void ref_print(O& o, const T& v, int p) { auto q = o.precision(p); o << v; o.precision(q); }
template <class T> SItem sword(Case& c, const char* nm) { T v; gen_text(c, v); SItem s; s.desc = nm; s.w = [v](StandardOutputStream& o) { o << v; }; s.ref = [v](std::ostream& o) { if (std::is_same<T, float>::value) ref_print(o, v, 7); else if (std::is_same<T, double>::value) ref_print(o, v, 15); else o << v; }; return s; }
SItem sldouble(Case& c) { double d; gen_text(c, d); long double v = d / 3.0L; SItem s; s.desc = "long double"; s.w = [v](StandardOutputStream& o) { o << v; }; s.ref = [v](std::ostream& o) { o << v; }; return s; }
SItem sstring(Case& c) { std::string v = gen_string(c); bool k = c.chance(1, 2); SItem s; s.desc = "string"; s.w = [v, k](StandardOutputStream& o) { if (k) o << v; else o << v.c_str(); }; s.ref = [v](std::ostream& o) { o << v; }; return s; }
SItem smanip(Case& c) { int k = (int)c.below(3); SItem s; s.desc = k == 0 ? "endl" : k == 1 ? "flush" : "ends"; typedef std::ostream& (*M)(std::ostream&); M m = k == 0 ? (M)std::endl<char, std::char_traits<char>> : k == 1 ? (M)std::flush<char, std::char_traits<char>> : (M)std::ends<char, std::char_traits<char>>; s.w = [m](StandardOutputStream& o) { o << m; }; s.ref = [m](std::ostream& o) { m(o); }; return s; }
template <class Q> SItem sobj(Case& c, const char* nm) { typedef typename WordOf<Q>::type W; auto v = std::make_shared<Q>(); if constexpr (std::is_same<Q, Seed>::value) { uint64_t h = c.seed(), k = 0; each(*v, [&](int& w) { w = (int)mix(h + ++k); }); } else gen_obj(c, *v); bool ex = c.chance(1, 3); SItem s; s.desc = nm; constexpr bool numeric = !std::is_same<W, bool>::value && !std::is_same<Q, Seed>::value;
  int p = std::is_same<W, float>::value ? 7 : 15; (void)ex;
  s.w = [v, ex](StandardOutputStream& o) { if constexpr (numeric) { if (ex) { o << -(*v); return; } } o << *v; }; s.ref = [v, ex, p](std::ostream& o) { auto q = o.precision(p); if constexpr (numeric) { if (ex) o << -(*v); else o << *v; } else o << *v; o.precision(q); }; return s; }
#define SW(T) [](Case& c) { return sword<T>(c, #T); }
#define SO(T) [](Case& c) { return sobj<T>(c, #T); }
std::vector<std::function<SItem(Case&)>> skinds = {SW(bool), SW(char), SW(short), SW(unsigned short), SW(int), SW(unsigned int), SW(long), SW(unsigned long), SW(long long), SW(float), SW(double), SW(float), SW(double), sldouble, sstring, smanip,
  SO(Real), SO(RealD), SO(Integer), SO(Boolean), SO(Complex), SO(DComplex), SO(ColorVector), SO(SpinVector), SO(Fermion), SO(Seed)};
std::string scalar_form(double re, double im, int p, bool d) { std::ostringstream o; o.precision(p); if (d) o << "( " << re << " , " << im << " )"; else o << "( " << (float)re << " , " << (float)im << " )"; return o.str(); }
}
VF_TEST("standard output", 2) {
  std::ostringstream a, b; StandardOutputStream own; bool global = c.chance(1, 2); StandardOutputStream& o = global ? (c.chance(1, 2) ? QDPIO::cout : QDPIO::cerr) : own; std::ostream* home = &o == &QDPIO::cout ? &std::cout : &std::cerr; o.init(&a);
  struct Back { bool g; StandardOutputStream& o; std::ostream* h; ~Back() { if (g) o.init(h); } } back{global, o, home};
  int n = 1 + (int)c.below(9); for (int i = 0; i < n; ++i) {
    if (c.chance(1, 3)) { int k = (int)c.below(7), p = (int)c.below(18); auto set = [&](std::ostream& s) { switch (k) { case 0: s << std::hex; break; case 1: s << std::dec << std::noshowpos; break; case 2: s << std::scientific; break; case 3: s << std::setprecision(p); break; case 4: s << std::boolalpha; break; case 5: s << std::fixed; break; default: s << std::showpos; } }; set(a); set(b); c.note("flags " + std::to_string(k)); }
    SItem s = skinds[c.below(skinds.size())](c); c.note(s.desc + ";"); if (c.chance(1, 5)) { a << std::setw(25); b << std::setw(25); } s.w(o); s.ref(b);
    VF_CHECK(c, a.str() == b.str(), "text", "after " << s.desc << " the output is \"" << a.str() << "\", std::ostream writes \"" << b.str() << "\""); VF_CHECK(c, a.flags() == b.flags() && a.precision() == b.precision() && a.width() == b.width(), "format", "the stream's format changed after " << s.desc);
    VF_CHECK(c, !o.fail(), "fail", "failure reported"); o.flush();
  }
  a.setstate(std::ios::failbit); VF_CHECK(c, o.fail(), "fail", "failure not reported"); c.nontrivial();
}
VF_TEST("scalar forms") {                                             // what objects look like on the streams
  double re = c.range(-999, 999) / 8.0, im = c.range(-999, 999) / 8.0; int k = (int)c.range(-5000, 5000); bool b = c.chance(1, 2); std::ostringstream s; StandardOutputStream o; o.init(&s); TextBufferWriter t;
  DComplex d = cmplx(Double(re), Double(im)); Complex z = cmplx(Real(re), Real(im)); constexpr bool dbl = std::is_same<REAL, double>::value; std::string want = scalar_form(re, im, 15, true) + scalar_form(re, im, dbl ? 15 : 7, dbl);
  o << d << z; VF_CHECK(c, s.str() == want, "complex", "complex numbers print as \"" << s.str() << "\" instead of \"" << want << "\""); s.str(""); o << Integer(k) << Boolean(b) << Real(re); std::ostringstream r; r.precision(dbl ? 15 : 7); r << k << b << (REAL)re; VF_CHECK(c, s.str() == r.str(), "scalars", "scalars print as \"" << s.str() << "\" instead of \"" << r.str() << "\"");
  t << z; std::istringstream p(t.str()); double x = 1e9, y = 1e9; p >> x >> y; VF_CHECK(c, std::abs(x - re) <= 1e-5 * std::abs(re) && std::abs(y - im) <= 1e-5 * std::abs(im), "text complex", "text form \"" << t.str() << "\" of (" << re << "," << im << ")");
  ColorMatrix m; fill(m, c.seed(), 1); TextBufferWriter tm; tm << m; std::istringstream pm(tm.str()); int cnt = 0; while (pm >> x) ++cnt; VF_CHECK(c, cnt == 2 * Nc * Nc && pm.eof(), "text matrix", "a colour matrix is written as " << cnt << " numbers"); c.note("(" + std::to_string(re) + "," + std::to_string(im) + ")"); c.nontrivial();
}
VF_TEST("standard input", 2) {
  int n = 1 + (int)c.below(10); std::vector<int> kind; std::string text; for (int i = 0; i < n; ++i) { kind.push_back((int)c.below(19)); const char* w; std::string s; double d;
    switch (kind.back()) { case 0: s = gen_string(c, true); break; case 1: s = std::string(1, (char)(33 + c.below(94))); break; case 2: case 14: s = c.chance(1, 2) ? "1" : "0"; break; case 3: case 4: case 5: s = std::to_string(c.range(-32768, 32767)); break; case 6: s = std::to_string((unsigned short)c.bits()); break; case 7: s = std::to_string((unsigned)c.bits()); break; case 8: s = std::to_string((long)mix(c.seed())); break; case 9: s = std::to_string(mix(c.seed())); break; case 10: case 11: case 12: case 13: gen_text(c, d); { float g = (float)d; if (std::isinf(g)) d = 2.5; } s = printed(d); break; case 15: case 16: for (int k = 0; k < 3; ++k) s += std::to_string(c.range(-99, 99)) + " "; break; case 17: for (int k = 0; k < 4; ++k) s += std::to_string(c.below(4096)) + "\n"; break; default: s = std::to_string((int)c.bits()); }
    (void)w; text += s + seps[c.below(4)]; c.note(std::to_string(kind.back())); }
  if (c.chance(1, 4)) text.resize(text.size() - std::min<size_t>(text.size(), c.below(12)));    // truncated input
  std::istringstream a(text), b(text); StandardInputStream own; StandardInputStream& in = c.chance(1, 2) ? own : QDPIO::cin; in.init(&a); struct Back { StandardInputStream& i; ~Back() { if (&i == &QDPIO::cin) i.init(&std::cin); } } back{in};
  for (int i = 0; i < n; ++i) {
    bool same = true; auto num = [&](auto tag) { decltype(tag) x = 1, y = 1; in >> x; b >> y; if constexpr (std::is_same<decltype(tag), long double>::value) same = x == y; else same = !memcmp(&x, &y, sizeof x); };
    switch (kind[i]) { case 0: { std::string x = "old", y = "old"; in >> x; b >> y; same = x == y; break; } case 1: num(char()); break; case 2: num(bool()); break; case 3: num(short()); break; case 4: num(int()); break; case 5: num((long long)0); break; case 6: num((unsigned short)0); break; case 7: num(0u); break; case 8: num(0l); break; case 9: num(0ul); break; case 10: num(0.0f); break; case 11: num(0.0); break; case 12: num(0.0L); break;
      case 13: { Real x = 1; REAL y = 1; in >> x; b >> y; same = toDouble(x) == (double)y; break; } case 14: { Boolean x = true; bool y = true; in >> x; b >> y; same = toBool(x) == y; break; }
      case 15: { multi1d<int> x(3); x = 1; int y[3] = {1, 1, 1}; in >> x; for (int& q : y) b >> q; for (int k = 0; k < 3; ++k) same = same && x[k] == y[k]; break; } case 16: { multi1d<Real> x(3); x = Real(1); REAL y[3] = {1, 1, 1}; in >> x; for (REAL& q : y) b >> q; for (int k = 0; k < 3; ++k) same = same && toDouble(x[k]) == (double)y[k]; break; }
      case 17: { Seed x; each(x, [](int& w) { w = 1; }); int y[4] = {1, 1, 1, 1}; in >> x; for (int& q : y) b >> q; for (int k = 0; k < 4; ++k) same = same && x.elem().elem().elem(k).elem() == y[k]; break; }
      default: { Integer x = 1; int y = 1; in >> x; b >> y; same = toInt(x) == y; } }
    VF_CHECK(c, same && in.fail() == b.fail(), "value", "item " << i << " of kind " << kind[i] << " differs from std::istream's; text \"" << text << "\"");
  }
  c.nontrivial();
}
// the global streams are the process's own
VF_TEST("global streams") {
  std::string s = gen_string(c); double d = c.range(-4000, 4000) / 64.0; std::ostringstream o, e, want; want.precision(15); want << s << d << '\n'; auto *po = std::cout.rdbuf(o.rdbuf()), *pe = std::cerr.rdbuf(e.rdbuf()); std::istringstream i("42 " + std::to_string(d)); auto* pi = std::cin.rdbuf(i.rdbuf()); int k = 0; double x = 1e9;
  QDPIO::cout << s << d << std::endl; QDPIO::cerr << s << d << std::endl; QDPIO::cin >> k >> x; std::cout.rdbuf(po); std::cerr.rdbuf(pe); std::cin.rdbuf(pi);
  VF_CHECK(c, o.str() == want.str(), "cout", "QDPIO::cout wrote \"" << o.str() << "\" instead of \"" << want.str() << "\""); VF_CHECK(c, e.str() == want.str(), "cerr", "QDPIO::cerr wrote \"" << e.str() << "\""); VF_CHECK(c, k == 42 && std::abs(x - d) < 1e-6, "cin", "QDPIO::cin read " << k << " " << x); c.note(s); c.nontrivial();
}
}
