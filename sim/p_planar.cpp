// C28 random planar maps (libplanarmap).
#include "sim.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <functional>
extern "C" {
#include <PMdef.h>
#include <PMplanmap.h>
#include <PMdisplay.h>
#include <PMenlight.h>
}
#undef Next
#undef Prev
#undef Oppo
typedef pm_edge E_; typedef pm_vertex V_;
static E_ *fnext(E_ *e) { return e->oppo->next; }
struct Walk { std::vector<E_ *> e; std::map<E_ *, int> id; std::map<V_ *, std::vector<E_ *>> at; std::vector<std::vector<E_ *>> faces; std::map<E_ *, int> face; };
// everything reached from the root, and whether it is a map of the sphere at all
static Walk walk(const char *w, pmMap &m, size_t limit) {
  Walk k; if (!m.root) sim_fail("map", "%s: no root", w); auto get = [&](E_ *e) { if (!e) sim_fail("map", "%s: missing edge", w); auto it = k.id.find(e); if (it != k.id.end()) return; k.id[e] = k.e.size(); k.e.push_back(e); if (k.e.size() > limit) sim_fail("map", "%s: more than %zu half-edges", w, limit); }; get(m.root);
  for (size_t i = 0; i < k.e.size(); i++) { E_ *e = k.e[i]; get(e->next); get(e->oppo); get(e->prev); if (e->next->prev != e || e->prev->next != e) sim_fail("map", "%s: order around a vertex", w); if (e->oppo == e || e->oppo->oppo != e) sim_fail("map", "%s: an edge without two ends", w); if (!e->from || e->next->from != e->from) sim_fail("map", "%s: edges around a vertex start at another one", w); k.at[e->from].push_back(e); }
  for (auto &p : k.at) { size_t d = 1; E_ *r = p.second[0]; for (E_ *x = r->next; x != r; x = x->next) if (++d > p.second.size()) break; if (d != p.second.size()) sim_fail("map", "%s: two vertices under one name", w); }
  for (E_ *e : k.e) if (!k.face.count(e)) { k.faces.push_back({}); E_ *x = e; do { k.face[x] = k.faces.size() - 1; k.faces.back().push_back(x); x = fnext(x); } while (x != e && k.faces.back().size() <= k.e.size()); }
  if ((long)k.at.size() - (long)k.e.size() / 2 + (long)k.faces.size() != 2) sim_fail("map", "%s: %zu vertices, %zu edges and %zu faces are no map of the sphere", w, k.at.size(), k.e.size() / 2, k.faces.size());
  return k;
}
static std::string code_of(E_ *root) { std::map<E_ *, int> id; std::vector<E_ *> q; auto get = [&](E_ *e) { auto it = id.find(e); if (it != id.end()) return it->second; int n = q.size(); id[e] = n; q.push_back(e); return n; }; get(root); std::string s; for (size_t i = 0; i < q.size() && i < 100000; i++) { int a = get(q[i]->next), b = get(q[i]->oppo); s += std::to_string(a) + "," + std::to_string(b) + ";"; } return s; }
// names and lists: labels of edges, vertices and faces, chains of vertices and faces, counts
static void names(const char *w, pmMap &m, Walk &k) {
  long ne = k.e.size() / 2; if (m.v != (long)k.at.size()) sim_fail("count", "%s: says %ld vertices, has %zu", w, m.v, k.at.size()); if (m.f != (long)k.faces.size()) sim_fail("count", "%s: says %ld faces, has %zu", w, m.f, k.faces.size());
  std::set<long> L; for (E_ *e : k.e) { if (e->label != -e->oppo->label || e->label == 0 || labs(e->label) > ne || !L.insert(e->label).second) sim_fail("labels", "%s: edge labels are not +-1 to +-%ld", w, ne); }
  auto chain = [&](V_ *v, const char *what, long n) { std::set<long> lb; std::set<V_ *> seen; for (; v; v = v->next) { if (!seen.insert(v).second || (long)seen.size() > n) sim_fail("chain", "%s: list of %s repeats", w, what); if (v->label < 1 || v->label > n || !lb.insert(v->label).second) sim_fail("labels", "%s: labels of %s are not 1 to %ld", w, what, n); if (!v->root || !k.id.count(v->root)) sim_fail("chain", "%s: %s without an edge", w, what); } if ((long)seen.size() != n) sim_fail("chain", "%s: list of %s has %zu entries, expected %ld", w, what, seen.size(), n); return seen; };
  auto vs = chain(m.root->from, "vertices", m.v); for (auto &p : k.at) if (!vs.count(p.first)) sim_fail("chain", "%s: a vertex is not in the list", w); for (V_ *v : vs) if (v->root->from != v) sim_fail("chain", "%s: a vertex points at an edge of another", w);
  auto fs = chain(m.root->face, "faces", m.f); std::set<V_ *> used; for (auto &f : k.faces) { for (E_ *e : f) if (e->face != f[0]->face) sim_fail("faces", "%s: the edges along a face name different faces", w); if (!fs.count(f[0]->face) || !used.insert(f[0]->face).second) sim_fail("faces", "%s: two faces under one name", w); if (f[0]->face->root->face != f[0]->face) sim_fail("faces", "%s: a face points at an edge of another", w); }
}
// number of pieces after cutting the edges in the mask (edge = index of the first of its half-edges); size of the piece with the first vertex
static int pieces(int nv, const std::vector<std::pair<int, int>> &ed, const std::vector<int> &cut, int *least) { std::vector<int> p(nv); for (int i = 0; i < nv; i++) p[i] = i; std::function<int(int)> f = [&](int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }; for (size_t i = 0; i < ed.size(); i++) if (std::find(cut.begin(), cut.end(), (int)i) == cut.end()) p[f(ed[i].first)] = f(ed[i].second); std::map<int, int> sz; for (int i = 0; i < nv; i++) sz[f(i)]++; *least = nv; for (auto &q : sz) *least = std::min(*least, q.second); return sz.size(); }
// no set of k edges may separate the map, unless it cuts off a single vertex and that is allowed
static void connected(const char *w, Walk &k, int size, bool single) {
  std::map<V_ *, int> num; for (auto &p : k.at) { int n = num.size(); num[p.first] = n; } std::vector<std::pair<int, int>> ed; for (E_ *e : k.e) if (k.id[e] < k.id[e->oppo]) ed.push_back({num[e->from], num[e->oppo->from]}); int n = num.size(), m = ed.size();
  double cost = n; for (int i = 0; i < size; i++) cost *= (double)(m - i) / (i + 1); if (cost > 3e6 || n > 64) return;
  std::vector<std::vector<int>> cnt(n, std::vector<int>(n, 0)); std::vector<uint64_t> nb(n, 0); auto add = [&](int i, int by) { int u = ed[i].first, v = ed[i].second; if (u == v) return; cnt[u][v] += by; cnt[v][u] += by; if (cnt[u][v]) { nb[u] |= 1ull << v; nb[v] |= 1ull << u; } else { nb[u] &= ~(1ull << v); nb[v] &= ~(1ull << u); } }; for (int i = 0; i < m; i++) add(i, 1);
  std::function<void(int, int)> rec = [&](int d, int from) { if (d == size) { uint64_t left = n == 64 ? ~0ull : (1ull << n) - 1; int parts = 0, least = n; while (left) { uint64_t in = left & -left, todo = in; while (todo) { int u = __builtin_ctzll(todo); todo &= todo - 1; uint64_t x = nb[u] & ~in; in |= x; todo |= x; } left &= ~in; parts++; least = std::min(least, __builtin_popcountll(in)); } if (parts > 1 && !(single && least == 1)) sim_fail("connectivity", "%s: %d edges separate the map of %d vertices", w, size, n); return; } for (int i = from; i < m; i++) { add(i, -1); rec(d + 1, i + 1); add(i, 1); } };
  rec(0, 0); sim_probe("connectivity checked");
}
static bool two_colors(Walk &k) { std::map<V_ *, int> col; std::vector<V_ *> q{k.e[0]->from}; col[q[0]] = 0; for (size_t i = 0; i < q.size(); i++) for (E_ *e : k.at[q[i]]) { V_ *o = e->oppo->from; auto it = col.find(o); if (it == col.end()) { col[o] = 1 - col[q[i]]; q.push_back(o); } else if (it->second == col[q[i]]) return false; } return true; }
static int loops(Walk &k) { std::set<E_ *> done; int n = 0; for (E_ *e : k.e) if (!done.count(e)) { n++; E_ *x = e; while (!done.count(x)) { done.insert(x); done.insert(x->oppo); x = x->oppo->next->next; } } return n; }   // straight ahead at every crossing
struct Kind { int m, b; bool extracted; const char *name; };
static const Kind KINDS[] = {{1, 1, false, "2-edge-connected cubic"}, {2, 1, true, "3-edge-connected cubic"}, {3, 1, true, "4-edge-connected cubic"}, {4, 4, false, "quartic"}, {5, 5, false, "4-edge-connected quartic"}, {6, 5, true, "6-edge-connected quartic"}, {9, 9, false, "bipartite quartic"}, {40, 4, false, "quartic with two legs"}, {7, 7, false, "bipartite cubic"}, {8, 7, true, "3-edge-connected bipartite cubic"}};
struct Ask { int kind, v, core, pic, tol, by, r; long kmin, kmax; };
static bool prepare(const Ask &a, pmSize &S, pmMethod &M, pmMemory &R) {
  memset(&S, 0, sizeof S); memset(&R, 0x5b, sizeof R); const Kind &K = KINDS[a.kind]; S.m = K.m; S.b = K.b; S.t = a.tol; S.minLoopComps = a.kmin; S.maxLoopComps = a.kmax; M.core = a.core; M.pic = a.pic; M.verbose = 0;
  bool cubic = K.m == 1 || K.m == 2 || K.m == 3 || K.m == 7 || K.m == 8, legs = K.m == 40; if (a.by == 0) S.v = a.v; else if (a.by == 1 && !(cubic || legs)) S.e = 2 * a.v; else if (a.by == 2) S.f = cubic ? a.v / 2 + 2 : legs ? a.v + 1 : a.v + 2; else S.v = a.v; if (K.m == 9) { S.v = a.v; S.e = S.f = 0; } if (a.r) S.r = a.r;
  if (!pmSetParameters(&S, &M)) return false; return pmMemoryInit(&S, &M, &R) && pmExtendMemory(&S, &M, &R, 0);
}
static void check_map(const Ask &a, pmSize &S, pmMap &m) {
  const Kind &K = KINDS[a.kind]; Walk k = walk(K.name, m, 40 * (a.v + 20)); names(K.name, m, k); long nv = k.at.size(), ne = k.e.size() / 2; bool cubic = K.m == 1 || K.m == 2 || K.m == 3 || K.m == 7 || K.m == 8; int d = cubic ? 3 : 4, legs = 0;
  for (auto &p : k.at) { if (p.second.size() == 1) legs++; else if ((int)p.second.size() != d) sim_fail("degree", "%s: vertex of degree %zu", K.name, p.second.size()); } if (legs != (K.m == 40 ? 2 : 0)) sim_fail("degree", "%s: %d legs", K.name, legs);
  if (!K.extracted) { long want = a.v + (K.m == 40 ? 2 : 0); if (nv != want) sim_fail("size", "%s: %ld vertices, asked for %ld", K.name, nv, want); } else if (labs(nv - a.v) > S.t) sim_fail("size", "%s: %ld vertices, asked for %d give or take %ld", K.name, nv, a.v, S.t);
  if (nv > 2) switch (K.m) { case 1: connected(K.name, k, 1, false); break; case 2: connected(K.name, k, 1, false); connected(K.name, k, 2, false); break; case 3: connected(K.name, k, 2, false); connected(K.name, k, 3, true); break; case 5: connected(K.name, k, 2, false); break; case 6: connected(K.name, k, 2, false); connected(K.name, k, 4, true); break; case 7: connected(K.name, k, 1, false); break; case 8: connected(K.name, k, 2, false); break; }
  if ((K.m == 7 || K.m == 8 || K.m == 9) && !two_colors(k)) sim_fail("bipartite", "%s: not bipartite (%ld vertices)", K.name, nv);
  if (d == 4 && !legs) { int c = loops(k), g = pmStatGauss(&m); if (c != g) sim_fail("loops", "%s: %d loops counted, there are %d", K.name, g, c); if (!K.extracted && ((a.kmin && c < a.kmin) || (a.kmax && c > a.kmax))) sim_fail("loops", "%s: %d loops, asked for %ld to %ld", K.name, c, a.kmin, a.kmax); if (a.kmin || a.kmax) sim_probe("loops restricted"); }
  if (legs) { // fewest edges crossed between the legs
    std::vector<E_ *> leg; for (auto &p : k.at) if (p.second.size() == 1) leg.push_back(p.second[0]); std::vector<int> dist(k.faces.size(), -1), q{k.face[leg[0]]}; dist[q[0]] = 0; for (size_t i = 0; i < q.size(); i++) for (E_ *e : k.faces[q[i]]) { int f = k.face[e->oppo]; if (dist[f] < 0) { dist[f] = dist[q[i]] + 1; q.push_back(f); } } if (m.geodesicDistance != dist[k.face[leg[1]]]) sim_fail("distance", "%s: distance of the legs %ld, is %d (%ld vertices)", K.name, m.geodesicDistance, dist[k.face[leg[1]]], nv); if (m.geodesicDistance > 1) sim_probe("legs far apart"); }
  if (a.r && K.m == 5) { std::vector<int> col(k.faces.size(), -1), q{k.face[m.root]}; col[q[0]] = 0; bool ok = true; for (size_t i = 0; i < q.size(); i++) for (E_ *e : k.faces[q[i]]) { int f = k.face[e->oppo]; if (col[f] < 0) { col[f] = 1 - col[q[i]]; q.push_back(f); } else if (col[f] == col[q[i]]) ok = false; } long n0 = std::count(col.begin(), col.end(), 0), n1 = col.size() - n0; if (!ok || !((n0 == S.r && n1 == S.g) || (n0 == S.g && n1 == S.r))) sim_fail("colors", "%s: %ld and %ld faces of the two colors, asked for %ld and %ld", K.name, n0, n1, S.r, S.g); sim_probe("faces by color"); }
  sim_state(hash_u64(nv, hash_str(code_of(m.root), K.m))); sim_count(1);
}
static std::string printed(pmMap &m, int fmt, bool dual) { pmOutput o; memset(&o, 0, sizeof o); o.format = fmt; (dual ? o.dual : o.map) = 1; char *b = NULL; size_t n = 0; FILE *keep = stdout; stdout = open_memstream(&b, &n); pmPrint(&m, &o); fclose(stdout); stdout = keep; std::string s(b, n); raw_free(b); return s; }
static std::vector<std::vector<long>> numbers(const std::string &s) { std::vector<std::vector<long>> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); std::vector<long> l; const char *p = s.c_str() + i, *e = s.c_str() + j; while (p < e) { if (isdigit(*p) || (*p == '-' && isdigit(p[1]))) { char *q; l.push_back(strtol(p, &q, 10)); p = q; } else p++; } if (l.size()) r.push_back(l); i = j + 1; } return r; }
// the printed map, read back, is the map
static void check_print(pmMap &m, Walk &k) {
  int fmt = (const int[]){1, 2, 6, 3}[ch(4)]; bool dual = chance(1, 2); std::string s = printed(m, fmt, dual); auto L = numbers(s); auto end_of = [&](E_ *e) { return dual ? e->face->label : e->from->label; }; auto nx = [&](E_ *e) { return dual ? fnext(e) : e->next; }; long n = dual ? m.f : m.v; ev("print format %d%s", fmt, dual ? " dual" : ""); sim_probe("printed");
  std::map<long, E_ *> by; for (E_ *e : k.e) by[e->label] = e;
  if (fmt == 1 || fmt == 3) { size_t h = fmt == 3; if (L.size() != n + h) sim_fail("print", "format %d: %zu lines for %ld %s", fmt, L.size() - h, n, dual ? "faces" : "vertices"); std::set<long> seen; for (size_t i = h; i < L.size(); i++) { size_t o = fmt == 1 && dual ? 2 : 1; if (L[i].size() <= o || !seen.insert(L[i][0]).second) sim_fail("print", "format %d: line %zu", fmt, i); size_t c = L[i].size() - o; E_ *x = by.count(L[i][o]) ? by[L[i][o]] : NULL; if (!x || end_of(x) != L[i][0]) sim_fail("print", "format %d: edges at the wrong place", fmt); size_t deg = 1; for (E_ *y = nx(x); y != x; y = nx(y)) deg++; if (deg != c) sim_fail("print", "format %d: %zu edges listed, there are %zu", fmt, c, deg); for (size_t j = 0; j < c; j++, x = nx(x)) if (x->label != L[i][o + j]) sim_fail("print", "format %d: wrong order of edges", fmt); } }
  if (fmt == 2) { std::multiset<std::pair<long, long>> want, got; for (E_ *e : k.e) if (e->label > 0) want.insert({end_of(e), end_of(e->oppo)}); for (auto &l : L) { if (l.size() != 2) sim_fail("print", "edge list: line of %zu numbers", l.size()); got.insert({l[0], l[1]}); } if (want != got) sim_fail("print", "edge list has %zu edges or wrong ones, expected %zu", got.size(), want.size()); }
  if (fmt == 6) { if (L.size() != n + 3) sim_fail("print", "matrix: %zu lines", L.size()); if (L[1] != std::vector<long>{n} || L[2] != std::vector<long>{n}) sim_fail("print", "matrix: size"); std::vector<std::vector<long>> A(n, std::vector<long>(n, 0)); for (E_ *e : k.e) A[end_of(e) - 1][end_of(e->oppo) - 1]++; std::vector<V_ *> order; for (V_ *v = dual ? m.root->face : m.root->from; v; v = v->next) order.push_back(v); for (long i = 0; i < n; i++) if (L[i + 3] != A[order[i]->label - 1]) sim_fail("print", "matrix: row %ld", i); }
}
static void sample_uniform() { // as many different maps as there are, equally often
  struct U { int kind, v; long n; }; static const U T[] = {{0, 4, 4}, {0, 6, 24}, {3, 1, 2}, {3, 2, 9}, {3, 3, 54}, {3, 4, 378}, {4, 3, 2}, {4, 4, 6}, {4, 5, 22}, {4, 6, 91}, {7, 1, 3}, {7, 2, 18}, {7, 3, 135}, {8, 4, 3}, {8, 6, 12}, {6, 4, 6}, {6, 6, 54}};
  const U &u = T[ch(sizeof T / sizeof *T)]; Ask a = {u.kind, u.v, 0, 0, -1, 0, 0, 0, 0}; pmSize S; pmMethod M; memset(&M, 0, sizeof M); M.seed = ch(1 << 30); pmInitRND(&M); pmMemory R; if (!prepare(a, S, M, R)) sim_fail("refused", "%s of %d vertices refused", KINDS[u.kind].name, u.v);
  long N = 60 * u.n; std::map<std::string, long> cnt; for (long i = 0; i < N; i++) { pmMap m; memset(&m, 0x5b, sizeof m); m.i = i; pmPlanMap(&S, &M, &R, &m); cnt[code_of(m.root)]++; pmFreeMap(&m); }
  double x = 0; for (auto &p : cnt) x += (p.second - 60.0) * (p.second - 60.0) / 60; ev("%ld samples of %s with %d vertices: %zu different", N, KINDS[u.kind].name, u.v, cnt.size());
  if ((long)cnt.size() != u.n) sim_fail("distribution", "%s with %d vertices: %zu different rooted maps in %ld samples, there are %ld", KINDS[u.kind].name, u.v, cnt.size(), N, u.n); if (x > u.n + 9 * sqrt(2.0 * u.n) + 60) sim_fail("distribution", "%s with %d vertices: not equally likely (chi-square %g for %ld maps)", KINDS[u.kind].name, u.v, x, u.n); sim_probe("uniform"); sim_count(1);
}
void run_C28() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); size_t mark = alloc_mark();
  Death d = sim_guard([&] {
    if (chance(1, 12)) { sample_uniform(); return; }
    int n = chr(1, 6); std::vector<Ask> asks; for (int i = 0; i < n; i++) { Ask a = {}; a.kind = ch(10); const Kind &K = KINDS[a.kind]; bool cubic = K.m == 1 || K.m == 2 || K.m == 3 || K.m == 7 || K.m == 8; int big = pick({6, 2, 1}); a.v = K.extracted ? chr(8, big == 2 ? 120 : 20) : big == 2 ? chr(30, 400) : big == 1 ? chr(10, 30) : chr(1, 10); if (cubic || K.m == 9) a.v += a.v & 1; if (K.m == 5 && a.v < 2) a.v = 2; a.tol = -1; a.by = ch(3);
      if (K.extracted) { a.core = ch(3); a.pic = ch(3); if (chance(1, 3)) a.tol = chr(2, std::min(8, a.v / 2)); } else if ((K.m == 4 || K.m == 5) && a.v < 12) { int l = pick({3, 1, 1}); if (l == 1) a.kmax = chr(K.m == 5 && a.v < 3 ? 2 : 1, 3);   // two vertices and four edges: always two loops
        if (l == 2) { a.kmin = 1; a.kmax = 2; } } if (K.m == 5 && a.v >= 4 && chance(1, 4)) { a.r = chr(2, a.v - 1); a.by = 0; a.kmin = a.kmax = 0; } asks.push_back(a); }
    long seed = ch(1 << 30); std::vector<std::string> first; int rounds = chance(1, 3) ? 2 : 1; if (rounds == 2) sim_fault(F_RESTART);
    for (int r = 0; r < rounds; r++) { pmMethod M; memset(&M, 0, sizeof M); M.seed = seed; pmInitRND(&M);
      for (int i = 0; i < n; i++) { pmSize S; pmMemory R; if (!prepare(asks[i], S, M, R)) sim_fail("refused", "%s of %d vertices refused", KINDS[asks[i].kind].name, asks[i].v);
        pmMap m; memset(&m, 0x5b, sizeof m); m.i = i; pmPlanMap(&S, &M, &R, &m); check_map(asks[i], S, m); std::string c = code_of(m.root); if (r == 0) { first.push_back(c); ev("%s %d -> %ld vertices", KINDS[asks[i].kind].name, asks[i].v, m.v); } else if (c != first[i]) sim_fail("reproducible", "%s of %d vertices: another map from the same seed", KINDS[asks[i].kind].name, asks[i].v);
        Walk k = walk("map", m, 1 << 20); if (r == 0 && chance(1, 3)) check_print(m, k); if (code_of(m.root) != c) sim_fail("print", "printing changed the map");
        int km = KINDS[asks[i].kind].m; if (r == 0 && (km == 4 || km == 5 || km == 9) && chance(1, 3)) { long nq = m.v; pmBicolorFaces(m.root); pmEdgeMap(&m); Walk g = walk("general map", m, 1 << 20); names("general map", m, g); if ((long)g.e.size() / 2 != nq) sim_fail("size", "general map of %zu edges from a quartic one of %ld vertices", g.e.size() / 2, nq); if (km == 5 && nq > 1 && nq < 60) { for (auto &p : g.at) { // nonseparable: no loop, no vertex that separates
                std::map<V_ *, int> num; for (auto &q : g.at) if (q.first != p.first) { int z = num.size(); num[q.first] = z; } std::vector<std::pair<int, int>> ed; for (E_ *e : g.e) { if (e->from == e->oppo->from) sim_fail("connectivity", "nonseparable map with a loop"); if (e->from != p.first && e->oppo->from != p.first) ed.push_back({num[e->from], num[e->oppo->from]}); } int least; if (num.size() > 1 && pieces(num.size(), ed, {}, &least) > 1) sim_fail("connectivity", "nonseparable map separated by a vertex"); } } if (chance(1, 2)) check_print(m, g); sim_probe("general map"); sim_count(1); }
        pmFreeMap(&m); if (m.root) sim_fail("free", "root kept after freeing"); } }
  });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
