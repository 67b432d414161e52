// P01: site numbering
#include "q.h"
namespace QDP { extern multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size); extern int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size); }
namespace vf {
static std::string cs(const Coord& x) { std::ostringstream o; for (int i = 0; i < x.size(); ++i) o << (i ? "," : "(") << x[i]; return o.str() + ")"; }
static bool same(const Coord& a, const Coord& b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
// order of the directions in crtesn, fastest first
static std::vector<int> order(int nd) { std::vector<int> o; 
  for (int i = 0; i < nd; ++i) o.push_back(i); return o; }
static Coord decode(int p, const std::vector<int>& L) { Coord x(L.size()); for (int m : order(L.size())) { x[m] = p % L[m]; p /= L[m]; } return x; }

VF_TEST("P01 bijection", 3) {
  int V = geo().vol; std::vector<int> seen(V, -1);
  VF_CHECK(c, Layout::vol() == V && Layout::sitesOnNode() == V, "volume", "vol()=" << Layout::vol() << " sitesOnNode()=" << Layout::sitesOnNode() << " product of extents " << V);
  VF_CHECK(c, Layout::lattSize().size() == Nd && Layout::subgridLattSize().size() == Nd, "volume", "lattSize dimension");
  for (int m = 0; m < Nd; ++m) VF_CHECK(c, Layout::lattSize()[m] == geo().L[m] && Layout::subgridLattSize()[m] == geo().L[m], "volume", "lattSize[" << m << "]=" << Layout::lattSize()[m]);
  VF_CHECK(c, Layout::numNodes() == 1 && Layout::nodeNumber() == 0 && Layout::primaryNode(), "volume", "node numbering");
  for (int l = 0; l < V; ++l) {
    Coord x = mcoord(l); int i = Layout::linearSiteIndex(x);
    VF_CHECK(c, i >= 0 && i < V, "range", cs(x) << " maps to " << i << " of " << V);
    VF_CHECK(c, seen[i] < 0, "injective", cs(x) << " and " << cs(mcoord(seen[i])) << " both map to " << i);
    seen[i] = l;
    VF_CHECK(c, same(Layout::siteCoords(0, i), x), "inverse", "siteCoords(" << i << ")=" << cs(Layout::siteCoords(0, i)) << " expected " << cs(x));
    VF_CHECK(c, Layout::nodeNumber(x) == 0, "node", "node of " << cs(x));
    int cc[Nd], back[Nd]; for (int m = 0; m < Nd; ++m) cc[m] = x[m];
    Layout::QDPXX_getSiteCoords(back, 0, i);
    VF_CHECK(c, Layout::QDPXX_getLinearSiteIndex(cc) == i && Layout::QDPXX_nodeNumber(cc) == 0 && !memcmp(cc, back, sizeof cc), "cwrap", "C wrappers disagree at " << cs(x));
    VF_CHECK(c, same(Layout::localLexiCoordFromLinear(l), x), "locallexi", "localLexiCoordFromLinear(" << l << ")=" << cs(Layout::localLexiCoordFromLinear(l)));
  }
  for (int p = 0; p < V; ++p) {
    Coord x = decode(p, geo().L);
    VF_CHECK(c, Layout::linearSiteIndex(p) == Layout::linearSiteIndex(x), "lexindex", "linearSiteIndex(" << p << ")=" << Layout::linearSiteIndex(p) << " but " << cs(x) << " has " << Layout::linearSiteIndex(x));
  }
  c.nontrivial(V > 1);
}
VF_TEST("P01 latticeCoordinate") {
  int mu = (int)c.below(Nd); LatticeInteger k = Layout::latticeCoordinate(mu);
  for (int l = 0; l < geo().vol; ++l) { Coord x = mcoord(l);
    VF_CHECK(c, k.elem(Layout::linearSiteIndex(x)).elem().elem().elem() == x[mu], "coordinate", "latticeCoordinate(" << mu << ") at " << cs(x) << " is " << k.elem(Layout::linearSiteIndex(x)).elem().elem().elem());
    VF_CHECK(c, toInt(peekSite(k, x)) == x[mu], "coordinate", "peekSite(latticeCoordinate(" << mu << ")) at " << cs(x)); }
  // the expression form used by programs
  int k2 = (int)c.range(0, geo().L[mu]);
  LatticeBoolean b = Layout::latticeCoordinate(mu) < k2;
  for (int l = 0; l < geo().vol; ++l) { Coord x = mcoord(l); VF_CHECK(c, b.elem(Layout::linearSiteIndex(x)).elem().elem().elem() == (x[mu] < k2), "coordinate", "latticeCoordinate(" << mu << ")<" << k2 << " at " << cs(x)); }
  c.nontrivial(geo().L[mu] > 1);
}
VF_TEST("P01 crtesn/local_site", 2) {
  int nd = 1 + (int)c.below(6); std::vector<int> L(nd); long v = 1; Coord q(nd);
  for (int i = 0; i < nd; ++i) { L[i] = 1 + (int)c.below(c.chance(1, 4) ? 40 : 6); v *= L[i]; q[i] = L[i]; }
  if (v > 2000000000L) throw Discard();
  c.note("dims " + cs(q));
  for (int k = 0; k < 30; ++k) {
    int p = (int)c.below(v); Coord x = decode(p, L);
    VF_CHECK(c, same(crtesn(p, q), x), "crtesn", "crtesn(" << p << "," << cs(q) << ")=" << cs(crtesn(p, q)) << " expected " << cs(x));
    VF_CHECK(c, local_site(x, q) == p, "local_site", "local_site(" << cs(x) << "," << cs(q) << ")=" << local_site(x, q) << " expected " << p);
  }
  c.nontrivial(v > 1);
}
}
