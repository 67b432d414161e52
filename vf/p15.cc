// Checksums of stream programs against a bitwise CRC-32 of the bytes since the last reset.
#include "io.h"
#include "qdp_byteorder.h"
namespace vf {
VF_TEST("writer checksum", 2) {
  std::string f = c.scratch + "/w"; Out o(c, (int)c.below(4), f); auto& w = *o.p; uint32_t want = 0; int n = 1 + (int)c.below(9);
  VF_CHECK(c, w.getChecksum() == 0, "initial", "a fresh writer has checksum " << w.getChecksum());
  for (int k = 0; k < n; ++k) {
    switch (c.below(9)) {
      case 0: w.resetChecksum(); want = 0; c.note("reset"); break;
      case 1: w.rewind(); want = 0; c.note("rewind"); break;
      case 2: w.seekEnd(0); want = 0; c.note("seekEnd"); break;
      case 3: w.seekBegin(0); want = 0; c.note("seekBegin"); break;
      case 4: w.seek(w.currentPosition()); want = 0; c.note("seek"); break;
      case 5: w.seekRelative(0); want = 0; c.note("seekRelative"); break;
      case 6: if (o.kind == 0) { o.fw->close(); o.fw->open(f); c.note("reopen"); want = 0; } else if (o.kind == 1) { o.bw->clear(); want = 0; c.note("clear"); } else if (o.kind == 3) { o.brw->clear(); want = 0; c.note("clear"); } else { o.frw->close(); o.frw->open(f); c.note("reopen"); want = 0; } break;
      default: break;
    }
    VF_CHECK(c, w.getChecksum() == want, "reset", "the checksum after that is " << w.getChecksum() << " instead of " << want);
    Item it = draw_item(c); c.note(it.desc + ";"); it.w(w); want = crc_ref(want, it.bytes);
    VF_CHECK(c, w.getChecksum() == want, "writer", "checksum " << w.getChecksum() << " after writing " << it.desc << ", the bytes since the reset have " << want);
  }
  c.nontrivial();
}
VF_TEST("reader checksum", 2) {
  std::vector<Item> v; int n = 1 + (int)c.below(8); std::string data; std::vector<size_t> at; for (int i = 0; i < n; ++i) { v.push_back(draw_item(c)); at.push_back(data.size()); data += v[i].bytes; c.note(v[i].desc + ";"); }
  In in(c, (int)c.below(4), c.scratch + "/r", data); auto& r = *in.p; uint32_t want = 0; int i = 0, steps = n + (int)c.below(6);
  VF_CHECK(c, r.getChecksum() == 0, "initial", "a fresh reader has checksum " << r.getChecksum());
  for (int k = 0; k < steps; ++k) {
    int how = (int)c.below(9); if (i == n) how = 1;
    switch (how) {
      case 0: r.resetChecksum(); want = 0; c.note("reset"); break;
      case 1: r.rewind(); want = 0; i = 0; c.note("rewind"); break;
      case 2: i = (int)c.below(n); r.seekBegin(at[i]); want = 0; c.note("seekBegin"); break;
      case 3: i = (int)c.below(n); r.seekEnd(data.size() - at[i]); want = 0; c.note("seekEnd"); break;
      case 4: r.seekRelative(0); want = 0; c.note("seekRelative"); break;
      case 5: r.seek(r.currentPosition()); want = 0; c.note("seek"); break;
      case 6: if (in.kind == 0) { in.fr->close(); in.fr->open(c.scratch + "/r"); i = 0; c.note("reopen"); want = 0; } else if (in.kind == 1) { in.br->clear(); want = 0; c.note("clear"); } break;
      default: break;
    }
    VF_CHECK(c, r.getChecksum() == want, "reset", "the checksum after that is " << r.getChecksum() << " instead of " << want);
    VF_CHECK(c, v[i].r(r), "value", v[i].desc << " did not come back"); if (!v[i].little) want = crc_ref(want, v[i].bytes);
    VF_CHECK(c, r.getChecksum() == want, "reader", "checksum " << r.getChecksum() << " after reading " << v[i].desc << ", the bytes since the reset have " << want); ++i;
  }
  c.nontrivial();
}
VF_TEST("split and damaged") {
  std::string data; int n = 1 + (int)c.below(8); for (int i = 0; i < n; ++i) { Item it = draw_item(c); data += it.bytes; c.note(it.desc + ";"); }
  BinaryBufferWriter w; for (size_t p = 0; p < data.size();) { size_t k = 1 + c.below(data.size() - p); if (c.below(3)) k = std::min<size_t>(k, 1 + c.below(40)); if (data.size() > 2000) k = std::max<size_t>(k, data.size() / 40); k = std::min(k, data.size() - p); w.writeArray(data.data() + p, 1, k); p += k; }
  uint32_t want = crc_ref(0, data); VF_CHECK(c, w.getChecksum() == want, "writer", "the same bytes written in pieces have checksum " << w.getChecksum() << " instead of " << want);
  auto rd = [&](const std::string& d) { BinaryBufferReader r(d); std::vector<char> b(d.size() + 1); for (size_t p = 0; p < d.size();) { size_t k = 1 + c.below(d.size() - p); k = std::max<size_t>(k, d.size() / 20); k = std::min(k, d.size() - p); r.readArray(b.data(), 1, k); p += k; } return r.getChecksum(); };
  VF_CHECK(c, rd(data) == want, "reader", "reading back in other pieces gives another checksum");
  if (!data.empty()) { std::string bad = data; size_t p = c.below(bad.size()); bad[p] ^= (char)(1 + c.below(255)); c.note("byte " + std::to_string(p)); uint32_t g = rd(bad); VF_CHECK(c, g != want && g == crc_ref(0, bad), "damage", "a changed byte at " << p << " gives checksum " << g); }
  c.nontrivial();
}
VF_TEST("crc32 function") {
  int n = (int)c.below(c.chance(1, 5) ? 3000 : 40); uint64_t sd = c.seed(); std::string s; for (int i = 0; i < n; ++i) s += (char)mix(sd + i); uint32_t start = c.chance(1, 2) ? 0 : (uint32_t)c.bits(), crc = start; int off = (int)c.below(8); std::vector<char> buf(n + 9); memcpy(buf.data() + off, s.data(), n); char* p = buf.data() + off;
  for (int i = 0; i < n;) { int k = 1 + (int)c.below(n - i); if (n > 300) k = std::max(k, 50); k = std::min(k, n - i); crc = c.chance(1, 2) ? QDPUtil::crc32(crc, (const char*)p + i, k) : QDPUtil::crc32(crc, (const unsigned char*)p + i, k); i += k; c.note("+" + std::to_string(k)); }
  VF_CHECK(c, crc == crc_ref(start, s), "crc", "crc32 of " << n << " bytes in pieces is " << crc << " instead of " << crc_ref(start, s)); c.nontrivial(n > 0);
}
// strings read to the end of the stream or of the buffer given
VF_TEST("string limits") {
  std::string a = gen_string(c), b = gen_string(c), data = a + "\n" + b; bool nl = c.chance(1, 2); if (nl) data += "\n";
  BinaryBufferReader r(data); size_t lim = c.chance(1, 2) ? a.size() + 1 + c.below(9) : 1 + c.below(a.size() + 1); std::string x; c.note("limit " + std::to_string(lim) + " of " + std::to_string(a.size())); read(r, x, lim);
  size_t n = std::min(a.size(), lim - 1); VF_CHECK(c, x == a.substr(0, n), "value", "string read with limit " << lim); uint32_t want = crc_ref(0, data.substr(0, n + (n == a.size())));
  VF_CHECK(c, r.getChecksum() == want, "string", "checksum " << r.getChecksum() << " after reading " << n << " of " << a.size() << " characters, expected " << want);
  if (n == a.size()) { read(r, x, b.size() + 2); VF_CHECK(c, x == b, "value", "last string"); want = crc_ref(0, data); VF_CHECK(c, r.getChecksum() == want, "string", "checksum " << r.getChecksum() << " after the last string, " << (nl ? "with" : "without") << " its newline, expected " << want); }
  c.nontrivial();
}
}
