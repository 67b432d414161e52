// Programs of writes against the encoder; reads in order and at random positions.
#include "io.h"
namespace vf {
static std::vector<Item> program(Case& c, int maxn) { std::vector<Item> v; int n = 1 + (int)c.below(maxn); for (int i = 0; i < n; ++i) { v.push_back(draw_item(c)); c.note(v.back().desc + ";"); } return v; }
static std::string cat(const std::vector<Item>& v) { std::string s; for (auto& i : v) s += i.bytes; return s; }
static void read_all(Case& c, std::vector<Item>& v, BinaryReader& in) {
  size_t pos = 0;
  for (auto& it : v) { VF_CHECK(c, (size_t)in.currentPosition() == pos, "position", "reading position " << in.currentPosition() << " instead of " << pos << " before " << it.desc); bool ok = it.r(in); VF_CHECK(c, !in.fail(), "fail", "reading " << it.desc << " failed"); VF_CHECK(c, ok, "value", it.desc << " did not come back as written"); pos += it.bytes.size(); }
  VF_CHECK(c, (size_t)in.currentPosition() == pos, "position", "reading ended at " << in.currentPosition() << " instead of " << pos);
}
VF_TEST("write then read", 4) {
  auto v = program(c, 10); std::string f = c.scratch + "/w", want;
  Out o(c, (int)c.below(4), f);
  for (auto& it : v) {
    it.w(*o.p); want += it.bytes; VF_CHECK(c, !o.p->fail(), "fail", "writing " << it.desc << " failed");
    if (o.kind != 3) VF_CHECK(c, (size_t)o.p->currentPosition() == want.size(), "position", "position " << o.p->currentPosition() << " after writing " << want.size() << " bytes");
    if (c.chance(1, 6)) { std::string g = o.now(); VF_CHECK(c, g == want, "bytes", "after " << it.desc << " the flushed stream differs from the documented bytes: " << diff_at(g, want)); }
  }
  bool direct = o.kind >= 2 && c.chance(1, 2);
  if (direct) { BinaryReader* r = o.kind == 2 ? (BinaryReader*)o.frw.get() : o.brw.get(); c.note("rewind"); r->rewind(); read_all(c, v, *r); }
  std::string got = o.close(); VF_CHECK(c, got == want, "bytes", "the stream differs from the documented bytes: " << diff_at(got, want));
  if (!direct) { In in(c, (int)c.below(4), c.scratch + "/r", want); read_all(c, v, *in.p); if (c.chance(1, 3)) { c.note("rewind"); in.p->rewind(); read_all(c, v, *in.p); } }
  c.nontrivial();
}
VF_TEST("random access reads", 2) {
  auto v = program(c, 7); std::string data = cat(v); std::vector<size_t> at; size_t p = 0; for (auto& i : v) { at.push_back(p); p += i.bytes.size(); }
  In in(c, (int)c.below(4), c.scratch + "/r", data); auto& r = *in.p; int n = 2 + (int)c.below(8); size_t pos = 0; std::vector<std::istream::pos_type> marks(v.size(), std::istream::pos_type(-1));
  for (int k = 0; k < n; ++k) {
    size_t i = c.below(v.size()); int how = (int)c.below(5);
    switch (how) {
      case 0: r.seekBegin(at[i]); break; case 1: r.seekEnd(data.size() - at[i]); break; case 2: r.seekRelative((long)at[i] - (long)pos); break;
      case 3: r.rewind(); i = 0; break; default: if (marks[i] == std::istream::pos_type(-1)) r.seekBegin(at[i]); else r.seek(marks[i]);
    }
    c.note("seek" + std::to_string(how) + " to " + std::to_string(i));
    VF_CHECK(c, (size_t)r.currentPosition() == at[i], "position", "seek " << how << " reached " << r.currentPosition() << " instead of " << at[i]); marks[i] = r.currentPosition();
    bool ok = v[i].r(r); VF_CHECK(c, ok && !r.fail(), "value", v[i].desc << " at byte " << at[i] << " did not come back as written"); pos = at[i] + v[i].bytes.size();
    VF_CHECK(c, (size_t)r.currentPosition() == pos, "position", "after reading " << v[i].desc << " the position is " << r.currentPosition() << " instead of " << pos);
  }
  c.nontrivial();
}
// overwriting earlier items in place, appending after seekEnd
VF_TEST("seek and overwrite", 2) {
  std::string f = c.scratch + "/w", want; Out o(c, (int)c.below(3), f); auto& w = *o.p; int n = 3 + (int)c.below(8); std::vector<size_t> at; size_t pos = 0;
  for (int k = 0; k < n; ++k) {
    Item it = draw_item(c); int how = (int)c.below(6);
    switch (how) { case 0: pos = c.below(want.size() + 1); w.seekBegin(pos); break; case 1: pos = c.below(want.size() + 1); w.seekEnd(want.size() - pos); break; case 2: { size_t q = c.below(want.size() + 1); w.seekRelative((long)q - (long)pos); pos = q; break; } case 3: w.rewind(); pos = 0; break; case 4: pos = c.below(want.size() + 1); w.seek(std::ostream::pos_type(pos)); break; default: break; }
    c.note("seek" + std::to_string(how) + " " + std::to_string(pos) + " " + it.desc + ";");
    VF_CHECK(c, (size_t)w.currentPosition() == pos, "position", "writing position " << w.currentPosition() << " instead of " << pos);
    it.w(w); if (want.size() < pos + it.bytes.size()) want.resize(pos + it.bytes.size()); want.replace(pos, it.bytes.size(), it.bytes); pos += it.bytes.size();
    VF_CHECK(c, !w.fail() && (size_t)w.currentPosition() == pos, "position", "after writing " << it.desc << " the position is " << w.currentPosition() << " instead of " << pos);
    if (c.chance(1, 3) && o.kind == 2 && pos <= want.size()) { auto& r = *o.frw; r.seek(std::ostream::pos_type(pos - it.bytes.size())); c.note("reread"); VF_CHECK(c, it.r(r) && !r.fail(), "value", it.desc << " just written did not read back"); r.seek(std::ostream::pos_type(pos)); }
  }
  std::string got = o.close(); VF_CHECK(c, got == want, "bytes", "the stream differs from the model: " << diff_at(got, want)); c.nontrivial();
}
// positions beyond 2 and 4 GB, in a file with a hole
VF_TEST("large positions") {
  std::string f = c.scratch + "/l"; { std::ofstream t(f, std::ios::binary | std::ios::trunc); } static const uint64_t base[] = {1ull << 31, 1ull << 32, 5000000000ull, 3ull << 32}; uint64_t at = base[c.below(4)] - c.below(200); c.note("at " + std::to_string(at)); std::vector<Item> v; for (int k = 0, n = 1 + (int)c.below(4); k < n; ++k) { v.push_back(draw_item(c)); c.note(v.back().desc); }
  auto put = [&](BinaryWriter& w) { uint64_t pos = at; w.seek(std::ostream::pos_type((std::streamoff)at)); for (auto& i : v) { VF_CHECK(c, (uint64_t)w.currentPosition() == pos, "position", "writing position " << w.currentPosition() << " instead of " << pos); i.w(w); pos += i.bytes.size(); } VF_CHECK(c, !w.fail() && (uint64_t)w.currentPosition() == pos, "position", "writing position " << w.currentPosition() << " instead of " << pos); };
  if (c.chance(1, 2)) { BinaryFileWriter w(f); put(w); w.close(); } else { BinaryFileReaderWriter w(f, std::ios_base::in | std::ios_base::out); put(w); w.close(); }
  uint64_t end = at; for (auto& i : v) end += i.bytes.size(); std::ifstream raw(f, std::ios::binary); raw.seekg(0, std::ios::end); VF_CHECK(c, (uint64_t)raw.tellg() == (end == at ? 0 : end), "length", "the file has " << (uint64_t)raw.tellg() << " bytes instead of " << end); if (end == at) return; raw.seekg((std::streamoff)at); std::string got(end - at, 0), want; raw.read(&got[0], got.size()); for (auto& i : v) want += i.bytes; VF_CHECK(c, got == want, "bytes", "bytes beyond the hole differ: " << diff_at(got, want));
  auto take = [&](BinaryReader& r) { for (int k = 0; k < 2; ++k) { int how = (int)c.below(4); if (how == 0) r.seek(std::istream::pos_type((std::streamoff)at)); else if (how == 1) r.seekBegin((std::streamoff)at); else if (how == 2) r.seekEnd((std::streamoff)(end - at)); else { r.rewind(); r.seekRelative((std::streamoff)at); }
      uint64_t pos = at; for (auto& i : v) { VF_CHECK(c, (uint64_t)r.currentPosition() == pos, "position", "reading position " << r.currentPosition() << " instead of " << pos << " after seek " << how); VF_CHECK(c, i.r(r) && !r.fail(), "value", i.desc << " at byte " << pos << " did not come back as written"); pos += i.bytes.size(); } } };
  if (c.chance(1, 2)) { BinaryFileReader r(f); take(r); } else { BinaryFileReaderWriter r(f, std::ios_base::in); take(r); }
  c.nontrivial();
}
// the same field written site by site, by subsets, by slices and whole
template <class L> void pieces(Case& c) {
  L a; gen(c, a); std::string want = encoded(a); int V = geo().vol; BinaryBufferWriter w;
  int how = (int)c.below(3); c.note("pieces " + std::to_string(how));
  if (how == 0) for (int l = 0; l < V; ++l) write(w, a, mcoord(l));
  else if (how == 1) for (int l = 0; l < V;) { int e = l + 1 + (int)c.below(V - l); LatticeTimeSliceIO::writeSlice(w, a, l, e); l = e; }
  else { Set s; int mu = Nd - 1; s.make(FnSet([=](const Coord& x) { return x[mu]; }, geo().L[mu])); for (int t = 0; t < geo().L[mu]; ++t) write(w, a[s[t]]); }
  std::string got = w.str(); VF_CHECK(c, got == want, "bytes", "the pieces in order differ from the whole field: " << diff_at(got, want));
  L b; gen(c, b); BinaryBufferReader r(got); how = (int)c.below(4);
  if (how == 0) for (int l = 0; l < V; ++l) read(r, b, mcoord(l));
  else if (how == 1) for (int l = 0; l < V;) { int e = l + 1 + (int)c.below(V - l); LatticeTimeSliceIO::readSlice(r, b, l, e); l = e; }
  else if (how == 2) { Set s; int mu = Nd - 1; s.make(FnSet([=](const Coord& x) { return x[mu]; }, geo().L[mu])); for (int t = 0; t < geo().L[mu]; ++t) read(r, b[s[t]]); }
  else read(r, b);
  VF_CHECK(c, encoded(b) == want, "value", "the field read in pieces differs"); c.nontrivial();
}
VF_TEST("pieces") { switch (c.below(5)) { case 0: pieces<LatticeReal>(c); break; case 1: pieces<LatticeColorMatrix>(c); break; case 2: pieces<LatticeInteger>(c); break; case 3: pieces<LatticeFermionD>(c); break; default: pieces<LatticeComplex>(c); } }
VF_TEST("bfwrite and bfread") {
  static const int sz[] = {1, 2, 4, 8, 16}; int s = sz[c.below(5)], n = (int)c.below(12); std::string raw, want; uint64_t sd = c.seed(); for (int i = 0; i < n * s; ++i) raw += (char)mix(sd + i); for (int i = 0; i < n; ++i) for (int k = s; k-- > 0;) want += raw[i * s + k];
  alignas(16) static char buf[256]; memcpy(buf, raw.data(), raw.size()); std::string f = c.scratch + "/b"; FILE* p = fopen(f.c_str(), "wb"); size_t k = QDPUtil::bfwrite(buf, s, n, p); fclose(p);
  VF_CHECK(c, (int)k == n && slurp(f) == want && !memcmp(buf, raw.data(), raw.size()), "bytes", "bfwrite of " << n << " words of " << s << " bytes"); memset(buf, 7, sizeof buf); p = fopen(f.c_str(), "rb"); k = QDPUtil::bfread(buf, s, n, p); fclose(p);
  VF_CHECK(c, (int)k == n && !memcmp(buf, raw.data(), raw.size()) && buf[raw.size()] == 7, "value", "bfread of " << n << " words of " << s << " bytes"); c.nontrivial(n > 0);
}
VF_TEST("reused buffers") {                                          // a reader opened again, its last data read to the end or past it
  BinaryBufferReader r; BinaryBufferReaderWriter rw; bool two = c.chance(1, 2); BinaryReader& in = two ? (BinaryReader&)rw : (BinaryReader&)r;
  for (int k = 0, n = 2 + (int)c.below(3); k < n; ++k) {
    std::vector<Item> v; std::string data; for (int i = (int)c.below(4); i > 0; --i) { v.push_back(draw_item(c)); data += v.back().bytes; c.note(v.back().desc + ";"); }
    if (two) rw.open(data); else r.open(data); VF_CHECK(c, (two ? rw.str() : r.str()) == data, "str", "the data of a buffer opened for time " << k); size_t upto = c.chance(2, 3) ? v.size() : c.below(v.size() + 1);
    for (size_t i = 0; i < upto; ++i) VF_CHECK(c, v[i].r(in) && !in.fail(), "value", v[i].desc << " was not read from a buffer opened for time " << k);
    if (c.chance(1, 2)) { std::string x; if (c.chance(1, 2)) { read(in, x, 50); c.note("to the end"); } else { double d[600]; in.readArray((char*)d, 8, 600); c.note("past the end"); } }
  }
  c.nontrivial();
}
}
