// The independent 48-bit generator.
#include "stmt.h"
#include "qdp_rannyu.h"
namespace vf {
static const uint64_t M48 = (1ull << 48) - 1, RA = 31167285;
static multi1d<int> limbs(uint64_t v) { multi1d<int> s(4); for (int i = 0; i < 4; ++i) s[i] = (int)(v >> (12 * (3 - i)) & 4095); return s; }
static uint64_t unlimb(const multi1d<int>& s) { uint64_t v = 0; for (int i = 0; i < 4; ++i) v = v << 12 | (uint64_t)s[i]; return v; }
static bool used = false;
VF_TEST("rannyu default") {                        // what a program that never sets the state draws
  if (used) return; used = true; uint64_t g = (13ull << 36) | (15ull << 24) | (1ull << 12) | 17;
  if (c.chance(1, 2)) { multi1d<int> s = RANNYU::savern(); VF_CHECK(c, s.size() == 4 && unlimb(s) == g, "default savern", "the seed saved before the first draw has " << s.size() << " words"); }
  for (int i = 0; i < 5; ++i) { double r = RANNYU::random(); g = (g * RA + 1) & M48; VF_CHECK(c, r == std::ldexp((double)g, -48), "default", "draw " << i << " from the default state is " << r); }
  c.nontrivial();
}
VF_TEST("rannyu", 2) {
  auto edge = [&] { uint64_t v = c.bits() & M48; if (c.chance(1, 4)) v |= 0xffffffull << (12 * c.below(3)); if (c.chance(1, 6)) v = c.below(3); return v & M48; };
  uint64_t g = edge(); RANNYU::setrn(limbs(g)); used = true; c.note(VF_STR("seed " << g));
  RANNYU::RNGState_t st; uint64_t h = edge(); st.seed = limbs(h); st.ran = -1; int n = 1 + (int)c.below(20); c.note(VF_STR("state " << h));
  for (int i = 0; i < n; ++i) switch (c.below(5)) {
    case 0: g = edge(); RANNYU::setrn(limbs(g)); c.note(VF_STR("setrn " << g)); break;
    case 1: { multi1d<int> s = RANNYU::savern(); VF_CHECK(c, s.size() == 4 && unlimb(s) == g, "savern", "savern returned " << unlimb(s) << " instead of " << g); break; }
    case 2: case 3: { double r = RANNYU::random(); g = (g * RA + 1) & M48; c.note("random"); VF_CHECK(c, r == std::ldexp((double)g, -48), "random", "random() gave " << r << " instead of " << std::ldexp((double)g, -48)); multi1d<int> s = RANNYU::savern(); VF_CHECK(c, unlimb(s) == g, "state", "the state after random() is " << unlimb(s) << " instead of " << g); break; }
    default: RANNYU::random(st); h = (h * RA + 1) & M48; c.note("random(state)"); VF_CHECK(c, st.ran == std::ldexp((double)h, -48) && unlimb(st.seed) == h, "random(state)", "random(state) gave " << st.ran << ", state " << unlimb(st.seed) << " instead of " << h);
  }
  c.nontrivial();
}
}
