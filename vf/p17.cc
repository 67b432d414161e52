// NERSC archives: the binary payload, its checksum, and whole files with their headers (XML replaced by an in-memory stand-in).
#include "io.h"
#include <unistd.h>
#include <sys/wait.h>
#ifndef HAVE_GETHOSTNAME
#define HAVE_GETHOSTNAME 1
#endif
namespace QDP {
typedef QDPUtil::n_uint32_t n_uint32_t;
class XMLWriter { public: std::map<std::string, std::string> kv; std::string cur; };
class XMLBufferWriter : public XMLWriter { public: std::string str() const { return std::string(); } };
class XMLReader { public: std::map<std::string, std::string> kv; std::string cur; XMLReader() {} XMLReader(const XMLBufferWriter& w) : kv(w.kv) {} XMLReader(XMLReader& o, const std::string& p) : kv(o.kv), cur(o.cur + (p[0] == '/' ? "" : "/") + p) {} void open(const XMLBufferWriter& w) { kv = w.kv; cur.clear(); } };
inline void push(XMLWriter& x, const std::string& p) { x.cur += (p[0] == '/' ? "" : "/") + p; }
inline void pop(XMLWriter& x) { x.cur.resize(x.cur.rfind('/')); }
template <class T> void write(XMLWriter& x, const std::string& p, const T& v) { std::ostringstream o; o.precision(17); o << v; x.kv[x.cur + "/" + p] = o.str(); }
inline void write(XMLWriter& x, const std::string& p, const multi1d<int>& v) { std::ostringstream o; for (int i = 0; i < v.size(); ++i) o << v[i] << " "; x.kv[x.cur + "/" + p] = o.str(); }
inline const std::string& xml_text(XMLReader& x, const std::string& p) { auto i = x.kv.find(x.cur + "/" + p); if (i == x.kv.end()) throw std::string("no element " + x.cur + "/" + p); return i->second; }
template <class T> void read(XMLReader& x, const std::string& p, T& v) { std::istringstream i(xml_text(x, p)); i >> v; }
inline void read(XMLReader& x, const std::string& p, std::string& v) { v = xml_text(x, p); }
inline void read(XMLReader& x, const std::string& p, multi1d<int>& v) { std::istringstream i(xml_text(x, p)); std::vector<int> t; int k; while (i >> k) t.push_back(k); v.resize((int)t.size()); for (size_t j = 0; j < t.size(); ++j) v[(int)j] = t[j]; }
extern uint32_t computeChecksum(const multi1d<LatticeColorMatrix>& u, int mat_size);
extern void readArchiv(BinaryReader& cfg_in, multi1d<LatticeColorMatrix>& u, uint32_t& checksum, int mat_size, int float_size);
extern void writeArchiv(BinaryWriter& cfg_out, const multi1d<LatticeColorMatrix>& u, int mat_size);
}
#include "qdp_iogauge.cc"
namespace vf {
namespace {
typedef std::complex<double> Z; typedef std::array<std::array<Z, 3>, 3> M3;
double unit(uint64_t h) { return (double)(int64_t)(mix(h) >> 11) / (double)(1ull << 52) - 1.0; }
M3 su3(uint64_t s, int kind) {                                     // Gram-Schmidt; kind 0: near unity, 1: a permutation-like diagonal, else anywhere in the group
  M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = Z(unit(s + 20 * i + 2 * j), unit(s + 20 * i + 2 * j + 1)) * (kind == 0 ? 1e-2 : 1.0) + (kind == 0 && i == j ? 1.0 : 0.0);
  if (kind == 1) { double a = 3 * unit(s), b = 3 * unit(s + 1); for (auto& r : m) r = {0, 0, 0}; m[0][0] = std::polar(1.0, a); m[1][1] = std::polar(1.0, b); }
  for (int i = 0; i < 2; ++i) { for (int k = 0; k < i; ++k) { Z d = 0; for (int j = 0; j < 3; ++j) d += std::conj(m[k][j]) * m[i][j]; for (int j = 0; j < 3; ++j) m[i][j] -= d * m[k][j]; } double n = 0; for (int j = 0; j < 3; ++j) n += std::norm(m[i][j]); for (int j = 0; j < 3; ++j) m[i][j] /= std::sqrt(n); }
  for (int j = 0; j < 3; ++j) { int a = (j + 1) % 3, b = (j + 2) % 3; m[2][j] = std::conj(m[0][a] * m[1][b] - m[0][b] * m[1][a]); }
  return m;
}
typedef std::vector<std::array<M3, 4>> Field;                        // by lexicographic site
Field gauge(Case& c) { uint64_t s = c.seed(); int kind = (int)c.below(4); Field f(geo().vol); for (int l = 0; l < geo().vol; ++l) for (int d = 0; d < 4; ++d) f[l][d] = su3(mix(s + l * 4 + d), kind == 3 ? (int)(mix(s + l) % 3) : kind); return f; }
void put(multi1d<LatticeColorMatrix>& u, const Field& f) { u.resize(Nd); for (int d = 0; d < 4; ++d) for (int l = 0; l < geo().vol; ++l) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { auto& e = u[d].elem(lin()[l]).elem().elem(i, j); e.real() = (REAL)f[l][d][i][j].real(); e.imag() = (REAL)f[l][d][i][j].imag(); } }
Z link_at(const multi1d<LatticeColorMatrix>& u, int d, int l, int i, int j) { auto& e = u[d].elem(lin()[l]).elem().elem(i, j); return Z(e.real(), e.imag()); }
template <class W> std::string payload(const multi1d<LatticeColorMatrix>& u, int rows) { std::string o; for (int l = 0; l < geo().vol; ++l) for (int d = 0; d < Nd; ++d) for (int i = 0; i < rows; ++i) for (int j = 0; j < 3; ++j) { Z z = link_at(u, d, l, i, j); enc(o, (W)z.real()); enc(o, (W)z.imag()); } return o; }
uint32_t word_sum(const std::string& s) { uint32_t t = 0; for (size_t i = 0; i + 3 < s.size(); i += 4) t += ((uint32_t)(unsigned char)s[i] << 24) + ((unsigned char)s[i + 1] << 16) + ((unsigned char)s[i + 2] << 8) + (unsigned char)s[i + 3]; return t; }
void raw_field(Case& c, multi1d<LatticeColorMatrix>& u) { u.resize(Nd); for (int d = 0; d < Nd; ++d) fill(c, u[d]); }
struct Quiet { std::ostringstream s; Quiet() { QDPIO::cout.init(&s); QDPIO::cerr.init(&s); } ~Quiet() { QDPIO::cout.init(&std::cout); QDPIO::cerr.init(&std::cerr); } };
template <class F> int in_child(F f) { fflush(0); pid_t p = fork(); if (p == 0) { freopen("/dev/null", "w", stdout); freopen("/dev/null", "w", stderr); f(); _exit(0); } int st = 0; waitpid(p, &st, 0); return st; }
}
VF_TEST("payload bytes", 6) {
  multi1d<LatticeColorMatrix> u; bool group = c.chance(1, 2); if (group) put(u, gauge(c)); else raw_field(c, u); int ms = c.chance(1, 2) ? 12 : 18; Out o(c, (int)c.below(4), c.scratch + "/p"); auto& w = *o.p; c.note("mat_size " + std::to_string(ms)); std::string pre = c.chance(1, 2) ? "" : "xyz"; if (!pre.empty()) w.writeArray(pre.data(), 1, pre.size());
  auto before0 = image(u[0]), before1 = image(u[Nd - 1]); writeArchiv(w, u, ms); std::string got = o.close(), want = pre + payload<float>(u, ms / 6); VF_CHECK(c, got.size() == want.size(), "size", "archive of " << got.size() << " bytes instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) VF_CHECK(c, got[i] == want[i], "bytes", "byte " << i << " is " << (int)(unsigned char)got[i] << " instead of " << (int)(unsigned char)want[i] << " (mat_size " << ms << ")");
  VF_CHECK(c, before0 == image(u[0]) && before1 == image(u[Nd - 1]), "input", "writing changed the field"); uint32_t s = computeChecksum(u, ms), t = word_sum(want.substr(pre.size())); VF_CHECK(c, s == t, "checksum", "computeChecksum " << s << ", the stored words sum to " << t); c.nontrivial(geo().vol > 1);
}
VF_TEST("read payload", 8) {
  multi1d<LatticeColorMatrix> v(Nd), into(Nd); Field f = gauge(c); int ms = c.chance(1, 2) ? 12 : 18, fs = c.chance(1, 2) ? 4 : 8, V = geo().vol; std::string data; c.note("mat_size " + std::to_string(ms) + " float_size " + std::to_string(fs));
  for (int l = 0; l < V; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < ms / 6; ++i) for (int j = 0; j < 3; ++j) { if (fs == 4) { enc(data, (float)f[l][d][i][j].real()); enc(data, (float)f[l][d][i][j].imag()); } else { enc(data, f[l][d][i][j].real()); enc(data, f[l][d][i][j].imag()); } }
  for (int d = 0; d < Nd; ++d) fill(c, into[d]); std::string tail = "tail!"; In in(c, (int)c.below(4), c.scratch + "/p", data + tail); uint32_t chk = 12345; readArchiv(*in.p, into, chk, ms, fs);
  VF_CHECK(c, chk == word_sum(data), "checksum", "checksum " << chk << ", the words sum to " << word_sum(data)); std::string rest(5, 0); in.p->readArray(&rest[0], 1, 5); VF_CHECK(c, rest == tail && !in.p->fail(), "position", "the reader stopped elsewhere than at the end of the payload"); VF_CHECK(c, into.size() == Nd, "size", into.size() << " directions");
  for (int l = 0; l < V; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Z w = f[l][d][i][j], g = link_at(into, d, l, i, j);
    if (i < ms / 6) { if (fs == 4) w = Z((float)w.real(), (float)w.imag()); w = Z((REAL)w.real(), (REAL)w.imag()); VF_CHECK(c, g == w, "rows", "link " << d << " of site " << l << " row " << i << " column " << j << " is " << g << " instead of " << w << " (mat_size " << ms << ", float_size " << fs << ")"); }
    else { double tol = fs == 4 || sizeof(REAL) == 4 ? 2e-6 : 1e-14; VF_CHECK(c, std::abs(g - w) < tol, "third row", "link " << d << " of site " << l << " third row column " << j << " is " << g << " instead of " << w); } }
  c.nontrivial(V > 1);
}
namespace {
std::string header_text(Case& c) { std::string s = gen_string(c); if (s.size() > 90) s.resize(90); while (!s.empty() && s[0] == ' ') s.erase(0, 1); for (char& h : s) if ((unsigned char)h > 126 || h < 32) h = 'y'; return s; }
Z trace_plaq(const Field& f) { Z t = 0; auto mul = [](const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; } return r; }; auto dag = [](const M3& a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = std::conj(a[j][i]); return r; };
  for (int l = 0; l < geo().vol; ++l) { Coord x = mcoord(l); for (int mu = 1; mu < 4; ++mu) for (int nu = 0; nu < mu; ++nu) { Coord a = x, b = x; a[mu] = (x[mu] + 1) % geo().L[mu]; b[nu] = (x[nu] + 1) % geo().L[nu]; M3 p = mul(mul(f[l][mu], f[lex_of(a)][nu]), mul(dag(f[lex_of(b)][mu]), dag(f[l][nu]))); for (int i = 0; i < 3; ++i) t += p[i][i]; } } return t; }
}
VF_TEST("archive file", 8) {
  Quiet q; Field f = gauge(c); multi1d<LatticeColorMatrix> u, v(Nd); put(u, f); std::string file = c.scratch + "/cfg"; int ms = c.chance(1, 2) ? 12 : 18, V = geo().vol; ArchivGauge_t h; h.mat_size = ms; h.sequence_number = (int)c.range(-5, 100000); h.ensemble_id = header_text(c); h.ensemble_label = header_text(c); h.creator = header_text(c); h.creator_hardware = header_text(c); h.creation_date = header_text(c); h.archive_date = header_text(c); for (int d = 0; d < Nd; ++d) h.boundary[d] = c.chance(1, 3) ? -1 : 1; c.note("mat_size " + std::to_string(ms));
  writeArchiv(h, u, file); uint32_t want = word_sum(payload<float>(u, ms / 6)); std::string all = slurp(file); size_t e = all.find("END_HEADER\n"); VF_CHECK(c, e != std::string::npos && all.substr(0, 13) == "BEGIN_HEADER\n", "header", "no header"); VF_CHECK(c, all.substr(e + 11) == payload<float>(u, ms / 6), "bytes", "the data after the header differ");
  char hex[40]; snprintf(hex, sizeof hex, "CHECKSUM = %x\n", want); VF_CHECK(c, all.find(hex) < e, "checksum", "the header does not hold \"" << hex << "\": " << all.substr(0, e)); VF_CHECK(c, h.checksum == want, "checksum", "header checksum " << h.checksum);
  for (int d = 0; d < Nd; ++d) fill(c, v[d]); ArchivGauge_t g; g.boundary = 1; g.ensemble_id = g.creator = "old"; int how = (int)c.below(3); XMLReader xml;
  if (how == 0) readArchiv(g, v, file); else if (how == 1) readArchiv(v, file); else { readArchiv(xml, v, file); read(xml, "/NERSC", g); }
  for (int l = 0; l < V; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Z w = f[l][d][i][j], x = link_at(v, d, l, i, j); VF_CHECK(c, std::abs(w - x) < 2e-6, "links", "link " << d << " of site " << l << " component " << i << j << " came back as " << x << " instead of " << w); }
  if (how != 1) { double pl = trace_plaq(f).real() * 2 / (V * 12 * 3.0), ln = 0; for (auto& s : f) for (auto& m : s) for (int i = 0; i < 3; ++i) ln += m[i][i].real(); ln /= V * 12.0;
    VF_CHECK(c, std::abs(toDouble(g.w_plaq) - pl) < 1e-5 && std::abs(toDouble(g.link) - ln) < 1e-5, "observables", "plaquette " << toDouble(g.w_plaq) << " link " << toDouble(g.link) << " in the header, the field has " << pl << " and " << ln);
    VF_CHECK(c, g.checksum == want, "checksum", "checksum read back as " << g.checksum << " instead of " << want); VF_CHECK(c, (int)g.mat_size == ms && g.float_size == 4, "format", "mat_size " << g.mat_size << " float_size " << g.float_size << " read back for mat_size " << ms);
    VF_CHECK(c, g.sequence_number == h.sequence_number, "sequence", "sequence number " << g.sequence_number << " instead of " << h.sequence_number); for (int d = 0; d < Nd; ++d) VF_CHECK(c, g.nrow[d] == geo().L[d] && g.boundary[d] == h.boundary[d], "boundary", "extent " << g.nrow[d] << " boundary " << g.boundary[d] << " in direction " << d << " instead of " << geo().L[d] << ", " << h.boundary[d]);
    VF_CHECK(c, g.ensemble_id == h.ensemble_id && g.ensemble_label == h.ensemble_label && g.creator == h.creator && g.creator_hardware == h.creator_hardware && g.creation_date == h.creation_date && g.archive_date == h.archive_date, "strings", "header strings changed: " << g.ensemble_id << "|" << g.ensemble_label << "|" << g.creator << "|" << g.creator_hardware << "|" << g.creation_date << "|" << g.archive_date); }
  if (how == 2) { XMLBufferWriter w; write(w, "NERSC", g); std::string f2 = c.scratch + "/cfg2"; writeArchiv(w, v, f2); ArchivGauge_t k; multi1d<LatticeColorMatrix> t(Nd); readArchiv(k, t, f2); VF_CHECK(c, k.ensemble_id == h.ensemble_id && k.sequence_number == h.sequence_number && k.mat_size == g.mat_size && k.checksum == word_sum(payload<float>(v, ms / 6)), "xml", "an archive written with its XML header differs"); }
  c.nontrivial();
}
VF_TEST("defaults", 3) {                                               // no header given: two rows, periodic
  Quiet q; Field f = gauge(c); multi1d<LatticeColorMatrix> u, v(Nd); put(u, f); std::string file = c.scratch + "/d"; writeArchiv(u, file); ArchivGauge_t g; readArchiv(g, v, file); std::string all = slurp(file), want = payload<float>(u, 2); VF_CHECK(c, all.size() > want.size() && all.substr(all.size() - want.size()) == want, "bytes", "default archive is not the two rows"); VF_CHECK(c, g.mat_size == 12 && g.float_size == 4 && g.sequence_number == 0 && g.ensemble_label == "NERSC archive" && g.creator == "QDP++" && g.checksum == word_sum(want), "defaults", "default header");
  for (int d = 0; d < Nd; ++d) VF_CHECK(c, g.boundary[d] == 1 && g.nrow[d] == geo().L[d], "boundary", "default boundary"); for (int l = 0; l < geo().vol; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VF_CHECK(c, std::abs(f[l][d][i][j] - link_at(v, d, l, i, j)) < 2e-6, "links", "link " << d << " of site " << l); c.nontrivial();
}
VF_TEST("foreign header", 5) {                                        // 64-bit data, numeric boundaries, unordered keys
  Quiet q; Field f = gauge(c); int ms = c.chance(1, 2) ? 12 : 18, fs = c.chance(1, 2) ? 4 : 8, V = geo().vol; std::string data; for (int l = 0; l < V; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < ms / 6; ++i) for (int j = 0; j < 3; ++j) { if (fs == 4) { enc(data, (float)f[l][d][i][j].real()); enc(data, (float)f[l][d][i][j].imag()); } else { enc(data, f[l][d][i][j].real()); enc(data, f[l][d][i][j].imag()); } }
  double ln = 0; for (auto& s : f) for (auto& m : s) for (int i = 0; i < 3; ++i) ln += m[i][i].real(); ln /= V * 12.0; double pl = trace_plaq(f).real() * 2 / (V * 12 * 3.0); std::vector<std::string> k; auto add = [&](const std::string& a, const std::string& b) { k.push_back(a + (c.chance(1, 2) ? " = " : " =  ") + b); }; char b[64]; std::vector<int> bc(4);
  snprintf(b, sizeof b, "%x", word_sum(data)); k.push_back(std::string("CHECKSUM = ") + b); snprintf(b, sizeof b, "%.12g", ln); k.push_back(std::string("LINK_TRACE = ") + b); snprintf(b, sizeof b, "%.12g", pl); k.push_back(std::string("PLAQUETTE = ") + b); add("DATATYPE", ms == 18 ? "4D_SU3_GAUGE_3x3" : "4D_SU3_GAUGE"); add("FLOATING_POINT", fs == 8 ? "IEEE64BIG" : c.chance(1, 2) ? "IEEE32BIG" : "IEEE32"); k.push_back("HDR_VERSION = 1.0"); add("CREATOR", "someone = else");
  for (int d = 0; d < 4; ++d) { k.push_back("DIMENSION_" + std::to_string(d + 1) + " = " + std::to_string(geo().L[d])); bc[d] = c.chance(1, 3) ? -1 : 1; k.push_back("BOUNDARY_" + std::to_string(d + 1) + " = " + (c.chance(1, 3) ? std::to_string(bc[d]) : bc[d] == 1 ? "PERIODIC" : "ANTIPERIODIC")); }
  for (size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[c.below(i)]); std::string head = "BEGIN_HEADER\n"; for (auto& s : k) head += s + "\n"; head += "END_HEADER\n"; std::string file = c.scratch + "/x"; spit(file, head + data); c.note("mat_size " + std::to_string(ms) + " float_size " + std::to_string(fs));
  ArchivGauge_t g; multi1d<LatticeColorMatrix> v(Nd); readArchiv(g, v, file); for (int l = 0; l < V; ++l) for (int d = 0; d < 4; ++d) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) VF_CHECK(c, std::abs(f[l][d][i][j] - link_at(v, d, l, i, j)) < 2e-6, "links", "link " << d << " of site " << l);
  VF_CHECK(c, (int)g.mat_size == ms && (int)g.float_size == fs && g.checksum == word_sum(data) && g.creator == "someone = else", "header", "header read as mat_size " << g.mat_size << " float_size " << g.float_size); for (int d = 0; d < Nd; ++d) VF_CHECK(c, g.boundary[d] == bc[d], "boundary", "boundary " << d << " read as " << g.boundary[d]); c.nontrivial();
}
VF_TEST("damage is noticed") {
  Field f = gauge(c); multi1d<LatticeColorMatrix> u; put(u, f); std::string file = c.scratch + "/y"; { Quiet q; writeArchiv(u, file); } std::string all = slurp(file); size_t e = all.find("END_HEADER\n") + 11, p = e + c.below(all.size() - e); all[p] ^= (char)(1 << c.below(8)); if (c.chance(1, 4)) all.resize(p); spit(file, all); c.note("byte " + std::to_string(p - e));
  int st = in_child([&] { multi1d<LatticeColorMatrix> v(Nd); ArchivGauge_t g; readArchiv(g, v, file); }); VF_CHECK(c, st != 0, "damage", "an archive with a changed word at byte " << p - e << " was accepted"); c.nontrivial();
}
VF_TEST("a header that contradicts the archive is refused", 2) {
  Field f = gauge(c); multi1d<LatticeColorMatrix> u; put(u, f); std::string file = c.scratch + "/z"; ArchivGauge_t h; h.mat_size = c.chance(1, 2) ? 12 : 18; { Quiet q; writeArchiv(h, u, file); } std::string all = slurp(file); size_t e = all.find("END_HEADER\n"); std::vector<std::string> ln; { std::istringstream is(all.substr(0, e)); std::string t; while (std::getline(is, t)) ln.push_back(t); }
  auto at = [&](const std::string& key) { for (size_t i = 0; i < ln.size(); ++i) if (ln[i].compare(0, key.size() + 3, key + " = ") == 0) return (int)i; c.fail("header", "no line " + key); return 0; };
  auto extra = [&](const std::string& t) { ln.insert(ln.begin() + 1 + c.below(ln.size()), t); };
  int k = (int)c.below(4), kind = (int)c.below(11); char b[100]; std::string out; std::string K = std::to_string(k + 1);
  switch (kind) {
    case 0: case 1: ln[at("DIMENSION_" + K)] = "DIMENSION_" + K + " = " + std::to_string(geo().L[k] + (c.chance(1, 2) ? 1 : -1) * (int)c.range(1, 3)); break;
    case 2: ln.erase(ln.begin() + at("DIMENSION_" + K)); break;
    case 3: extra(std::string("DIMENSION_") + (c.chance(1, 2) ? "0" : std::to_string(5 + c.below(3))) + " = " + std::to_string(geo().L[k])); break;
    case 4: extra(std::string("BOUNDARY_") + (c.chance(1, 2) ? "0" : std::to_string(5 + c.below(3))) + (c.chance(1, 2) ? " = PERIODIC" : " = 1")); break;
    case 5: ln[0] = c.chance(1, 2) ? "BEGIN_HEADERS" : "DATATYPE = 4D_SU3_GAUGE"; break;
    case 6: { double v = 0; int i = at("PLAQUETTE"); sscanf(ln[i].c_str(), "PLAQUETTE = %lf", &v); snprintf(b, sizeof b, "PLAQUETTE = %.9g", v + (c.chance(1, 2) ? 1 : -1) * 1e-3); ln[i] = b; break; }
    case 7: { double v = 0; int i = at("LINK_TRACE"); sscanf(ln[i].c_str(), "LINK_TRACE = %lf", &v); snprintf(b, sizeof b, "LINK_TRACE = %.9g", v + (c.chance(1, 2) ? 1 : -1) * 1e-3); ln[i] = b; break; }
    case 8: { unsigned long v = 0; int i = at("CHECKSUM"); sscanf(ln[i].c_str(), "CHECKSUM = %lx", &v); snprintf(b, sizeof b, "CHECKSUM = %lx", v ^ (1ul << c.below(32))); ln[i] = b; break; }
    case 9: ln[at("DATATYPE")] = c.chance(1, 2) ? "DATATYPE = 4D_SU4_GAUGE" : "DATATYPE = 4D_SU3_GAUGE_3x4"; break;
    default: ln[at("FLOATING_POINT")] = c.chance(1, 2) ? "FLOATING_POINT = IEEE16" : "FLOATING_POINT = IEEE32LITTLE"; }
  for (auto& t : ln) out += t + "\n"; c.note("kind " + std::to_string(kind)); spit(file, out + all.substr(e));
  int st = in_child([&] { multi1d<LatticeColorMatrix> v(Nd); ArchivGauge_t g; readArchiv(g, v, file); }); VF_CHECK(c, st != 0, "refused", "an archive with this header was accepted:\n" << out); c.nontrivial();
}
}
