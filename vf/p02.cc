// P02: sets and subsets
#include "q.h"
namespace vf {
struct Model { std::vector<int> col; int n; std::string how; };       // colour by lexicographic site
static Model draw_colouring(Case& c) {
  Model m; int V = geo().vol; m.col.resize(V);
  switch (c.below(8)) {
    case 0: m.n = 1 + (int)c.below(3); { int k = (int)c.below(m.n); m.how = "constant"; std::fill(m.col.begin(), m.col.end(), k); } break;
    case 1: { int mu = (int)c.below(Nd); m.n = geo().L[mu]; m.how = "coordinate " + std::to_string(mu); for (int l = 0; l < V; ++l) { int x[Nd]; coord_of(l, x); m.col[l] = x[mu]; } break; }
    case 2: { m.n = 1 + (int)c.below(5); m.how = "sum mod"; for (int l = 0; l < V; ++l) { int x[Nd]; coord_of(l, x); int s = 0; for (int k = 0; k < Nd; ++k) s += x[k]; m.col[l] = s % m.n; } break; }
    case 3: { m.n = V; m.how = "one per site"; for (int l = 0; l < V; ++l) m.col[l] = V - 1 - l; break; }
    case 4: { m.n = 2 + (int)c.below(4); m.how = "blocks in memory"; int b = 1 + (int)c.below(V); for (int l = 0; l < V; ++l) m.col[l] = (lin()[l] / b) % m.n; break; }
    case 5: { m.n = 3 + (int)c.below(5); m.how = "one odd site"; int s = (int)c.below(V), a = (int)c.below(m.n), b = (int)c.below(m.n); for (int l = 0; l < V; ++l) m.col[l] = l == s ? a : b; break; }
    case 6: { m.n = 3; m.how = "range in memory"; int a = (int)c.below(V), n = 1 + (int)c.below(V - a); for (int l = 0; l < V; ++l) m.col[l] = lin()[l] >= a && lin()[l] < a + n ? 1 : 2; break; }
    default: { uint64_t sd = c.seed(); m.n = 1 + (int)c.below(9); m.how = "hash"; for (int l = 0; l < V; ++l) m.col[l] = (int)(site_hash(sd, l) % m.n); }
  }
  return m;
}
static FnSet fn(const Model& m) { auto col = m.col; return FnSet([col](const Coord& x) { return col[lex_of(x)]; }, m.n); }

static void check_subset(Case& c, const Subset& s, const std::vector<int>& col, int k, int n, const std::string& what) {
  int V = geo().vol; std::vector<char> in(V, 0); int cnt = 0;
  std::vector<int> inv(V); for (int l = 0; l < V; ++l) inv[lin()[l]] = l;
  const multi1d<int>& tab = s.siteTable();
  VF_CHECK(c, tab.size() == s.numSiteTable(), "table", what << ": numSiteTable " << s.numSiteTable() << " siteTable " << tab.size());
  for (int j = 0; j < tab.size(); ++j) {
    VF_CHECK(c, tab[j] >= 0 && tab[j] < V, "table", what << ": site table entry " << tab[j]);
    VF_CHECK(c, !in[tab[j]], "duplicate", what << ": site " << tab[j] << " listed twice"); in[tab[j]] = 1; ++cnt;
    VF_CHECK(c, col[inv[tab[j]]] == k, "member", what << ": " << where_str(inv[tab[j]], Ix{0, 0, 0, 0}) << " has colour " << col[inv[tab[j]]] << " but is in subset " << k);
  }
  int want = 0; for (int l = 0; l < V; ++l) want += col[l] == k;
  VF_CHECK(c, want == cnt, "missing", what << ": lists " << cnt << " of " << want << " sites");
  if (s.hasOrderedRep()) {
    VF_CHECK(c, s.end() - s.start() + 1 == cnt, "ordered", what << ": start " << s.start() << " end " << s.end() << " but " << cnt << " sites");
    for (int i = s.start(); i <= s.end(); ++i) VF_CHECK(c, i >= 0 && i < V && in[i], "ordered", what << ": ordered range " << s.start() << ".." << s.end() << " includes non-member " << i);
  }
  // what a data-parallel assignment sees
  LatticeInteger a = -1; a[s] = 7;
  for (int l = 0; l < V; ++l) VF_CHECK(c, a.elem(lin()[l]).elem().elem().elem() == (col[l] == k ? 7 : -1), "assign", what << ": assignment on the subset at " << where_str(l, Ix{0, 0, 0, 0}));
  VF_CHECK(c, s.color() == k, "color", what << ": color() " << s.color() << " expected " << k);
  (void)n;
}
static void check_set(Case& c, const Set& s, const Model& m, const std::string& what) {
  VF_CHECK(c, s.numSubsets() == m.n, "numSubsets", what << ": numSubsets " << s.numSubsets() << " expected " << m.n);
  VF_CHECK(c, s.latticeColoring().size() == geo().vol, "coloring", what << ": latticeColoring size " << s.latticeColoring().size());
  for (int l = 0; l < geo().vol; ++l) VF_CHECK(c, s.latticeColoring()[lin()[l]] == m.col[l], "coloring", what << ": latticeColoring at " << where_str(l, Ix{0, 0, 0, 0}) << " is " << s.latticeColoring()[lin()[l]] << " expected " << m.col[l]);
  int tot = 0;
  for (int k = 0; k < m.n; ++k) { if (m.n <= 12 || k % 7 == m.n % 7 || s[k].numSiteTable() != 1) check_subset(c, s[k], m.col, k, m.n, what + " subset " + std::to_string(k)); tot += s[k].numSiteTable(); 
    VF_CHECK(c, &s[k].getSet() == &s, "getset", what << ": getSet() of subset " << k << " is not the set"); }
  VF_CHECK(c, tot == geo().vol, "partition", what << ": subsets list " << tot << " sites of " << geo().vol);
}
VF_TEST("P02 make", 3) {
  Model m = draw_colouring(c); c.note(m.how + " n=" + std::to_string(m.n));
  if (c.chance(1, 2)) { Set s(fn(m)); check_set(c, s, m, "Set(func)"); } else { Set s; s.make(fn(m)); check_set(c, s, m, "make"); }
  c.nontrivial(m.n > 1);
}
VF_TEST("P02 default sets") {
  int V = geo().vol; auto mk = [&](int n, std::function<int(int*)> f) { Model m; m.n = n; m.col.resize(V); for (int l = 0; l < V; ++l) { int x[Nd]; coord_of(l, x); m.col[l] = f(x); } return m; };
  Model p = mk(2, [](int* x) { return parity(x); }), p3 = mk(2, [](int* x) { return parity(x, 3); }), one = mk(1, [](int*) { return 0; });
  Model hc = mk(1 << (Nd + 1), [](int* x) { int k = 0, s = 0; for (int m = 0; m < Nd; ++m) { k |= (x[m] & 1) << m; s += x[m] >> 1; } return k | ((s & 1) << Nd); });
  check_set(c, rb, p, "rb"); check_set(c, rb3, p3, "rb3"); check_set(c, mcb, hc, "mcb");
  check_subset(c, all, one.col, 0, 1, "all"); check_subset(c, even, p.col, 0, 2, "even"); check_subset(c, odd, p.col, 1, 2, "odd");
  c.nontrivial(V > 1);
}
// histories of make, copy, assign, subset copies and destruction
VF_TEST("P02 history", 4) {
  std::vector<std::pair<std::unique_ptr<Set>, Model>> pool;
  struct SC { Subset s; Model m; int k; const Set* owner; }; std::vector<SC> subs;
  auto drop = [&](const Set* o) { subs.erase(std::remove_if(subs.begin(), subs.end(), [&](SC& x) { return x.owner == o; }), subs.end()); };
  int n = 2 + (int)c.below(8); bool copied = false;
  for (int i = 0; i < n; ++i) {
    int op = (int)c.below(7); std::string w = "after step " + std::to_string(i);
    if (pool.empty() || op == 0) { Model m = draw_colouring(c); c.note("make(" + m.how + "," + std::to_string(m.n) + ")"); pool.push_back({std::make_unique<Set>(fn(m)), m}); }
    else if (op == 1) { int a = (int)c.below(pool.size()); c.note("copy#" + std::to_string(a)); pool.push_back({std::make_unique<Set>(*pool[a].first), pool[a].second}); copied = true; }
    else if (op == 2) { int a = (int)c.below(pool.size()), b = (int)c.below(pool.size()); c.note("assign#" + std::to_string(a) + "=" + std::to_string(b)); if (a != b) drop(pool[a].first.get()); *pool[a].first = *pool[b].first; pool[a].second = pool[b].second; copied = true; }
    else if (op == 3) { int a = (int)c.below(pool.size()); Model m = draw_colouring(c); c.note("remake#" + std::to_string(a) + "(" + m.how + "," + std::to_string(m.n) + ")"); drop(pool[a].first.get()); pool[a].first->make(fn(m)); pool[a].second = m; }
    else if (op == 4 && pool.size() > 1) { int a = (int)c.below(pool.size()); c.note("destroy#" + std::to_string(a)); drop(pool[a].first.get()); pool.erase(pool.begin() + a); }
    else { int a = (int)c.below(pool.size()), k = (int)c.below(pool[a].second.n); SC x; if (c.chance(1, 2)) x.s = (*pool[a].first)[k]; else x.s.make((*pool[a].first)[k]); x.m = pool[a].second; x.k = k; x.owner = pool[a].first.get(); subs.push_back(x); c.note("subset"); }
    for (size_t a = 0; a < pool.size(); ++a) check_set(c, *pool[a].first, pool[a].second, w + " set " + std::to_string(a));
    for (auto& x : subs) check_subset(c, x.s, x.m.col, x.k, x.m.n, w + " held subset");
  }
  c.nontrivial(copied);
}
}
