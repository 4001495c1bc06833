// C16 struts, minimum radius and thickness; C15 nearest points; C23 strut files.
#include "sim.h"
#include "plCurve.h"
#include "curve_model.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <set>
#include <tuple>
extern "C" {
#include "octrope.h"
}
typedef long double ld;
static plc_vector sub(plc_vector a, plc_vector b) { for (int k = 0; k < 3; k++) a.c[k] -= b.c[k]; return a; }
static double dot(plc_vector a, plc_vector b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
static plc_vector cross(plc_vector a, plc_vector b) { return plc_vector{{a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0]}}; }
static double nrm(plc_vector a) { return sqrt(dot(a, a)); }
static plc_vector along(plc_vector a, plc_vector b, double t) { for (int k = 0; k < 3; k++) a.c[k] += t * (b.c[k] - a.c[k]); return a; }
static void hostile() { alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); }

// ------------------------------------------------------------ curves
struct GCp { bool open; std::vector<plc_vector> v; };
struct Pair { int a, b; double s, t, d; int kind; bool ill; };   // kind 2 definite strut, 1 possible, 0 no strut
struct Mr { int c, v, sv; double mr; bool sure; };
struct Geo {
  std::vector<GCp> cp; plCurve *L = NULL;
  struct E { int c, i; bool first, last; plc_vector v0, v1, v2; };
  std::vector<E> e; std::vector<Pair> pairs; std::vector<Mr> mrs; double size = 1, len = 0, mrmin = DBL_MAX, mrloose = DBL_MAX; bool fresh = false;
  int ndef = 0, npos = 0; double dmin = DBL_MAX, pmin = DBL_MAX;
  void make() { std::vector<int> nv, cc; bool op[16]; for (size_t i = 0; i < cp.size(); i++) { nv.push_back(cp[i].v.size()); cc.push_back(0); op[i] = cp[i].open; }
    L = plc_new(cp.size(), nv.data(), op, cc.data()); for (size_t i = 0; i < cp.size(); i++) for (size_t j = 0; j < cp[i].v.size(); j++) L->cp[i].vt[j] = cp[i].v[j]; plc_fix_wrap(L); }
  // Where the shortest segment between two edges ends, and whether it is a strut:
  // a local minimum of the distance between the two curves.
  static int side(double s, bool clamp0, bool clamp1, const E &e, plc_vector P, bool zero) {
    const double m = 1e-7;
    if (s > m && s < 1 - m) return 2;
    if (s >= 1 - m) { if (e.last) return 2; return s == 1 && clamp1 && !zero ? 0 : 1; }
    plc_vector w = sub(P, e.v1), f = sub(e.v2, e.v1), r = sub(e.v0, e.v1); double lw = nrm(w); if (zero || lw == 0) return 1;
    double cf = dot(f, w) / (lw * nrm(f)), cr = dot(r, w) / (lw * nrm(r));
    if (s > 0) return 1;
    if (cf < -m && cr > m) return 0;
    return cf < -m && cr < -m ? 2 : 1;
  }
  void solve() {
    fresh = true; e.clear(); pairs.clear(); mrs.clear(); len = 0; mrmin = mrloose = DBL_MAX; size = 0; dmin = pmin = DBL_MAX; ndef = npos = 0;
    for (size_t c = 0; c < cp.size(); c++) { GCp &q = cp[c]; int n = q.v.size(), ne = q.open ? n - 1 : n; std::vector<plc_vector> w = q.v;
      auto at = [&](int i) { if (q.open) return i < 0 ? w[1] : w[i]; return w[(i + n) % n]; };
      for (int i = 0; i < ne; i++) { E x{(int)c, i, q.open && i == 0, q.open && i == ne - 1, at(i - 1), at(i), at(i + 1)}; e.push_back(x); len += nrm(sub(x.v2, x.v1)); size = std::max(size, nrm(sub(x.v2, x.v1))); }
      for (int i = q.open ? 1 : 0; i < (q.open ? n - 1 : n); i++) { plc_vector in = sub(at(i), at(i - 1)), out = sub(at(i + 1), at(i)); double a = nrm(in), b = nrm(out), x = nrm(cross(in, out)); if (x < 1e-13) continue;
        double rad = (a * b + dot(in, out)) / (2 * x); bool sure = x > 1e-11; mrs.push_back({(int)c, i, i - 1, a * rad, sure}); mrs.push_back({(int)c, i, i + 1, b * rad, sure}); double m = std::min(a, b) * rad; if (sure) mrmin = std::min(mrmin, m); mrloose = std::min(mrloose, m); } }
    for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < i; j++) { E &x = e[i], &y = e[j];
      if (x.c == y.c) { int n = cp[x.c].v.size(), k = abs(x.i - y.i); if (k < 2 || (!cp[x.c].open && k > n - 2)) continue; }
      plc_vector d1 = sub(x.v2, x.v1), d2 = sub(y.v2, y.v1), d = sub(y.v1, x.v1); ld D1 = dot(d1, d1), D2 = dot(d2, d2), R = dot(d1, d2), S1 = dot(d1, d), S2 = dot(d2, d), den = D1 * D2 - R * R;
      Pair p{(int)i, (int)j, 0, 0, 0, 0, den < 1e-6L * D1 * D2}; auto cl = [](ld z) { return z < 0 ? 0 : z > 1 ? (ld)1 : z; };
      // the least distance over the square: the inner critical point or one of the four sides
      double best = DBL_MAX; bool in = false; ld bs = 0, bt = 0; auto tryit = [&](ld s, ld t, bool inner) { double z = nrm(sub(along(x.v1, x.v2, s), along(y.v1, y.v2, t))); if (z < best) { best = z; bs = s; bt = t; in = inner; } };
      if (den > 1e-15L * D1 * D2) { ld s = (S1 * D2 - S2 * R) / den, t = (R * s - S2) / D2; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) tryit(s, t, true); }
      if (!in || p.ill) { tryit(0, cl(-S2 / D2), false); tryit(1, cl((R - S2) / D2), false); tryit(cl(S1 / D1), 0, false); tryit(cl((S1 + R) / D1), 1, false); }
      p.s = bs; p.t = bt; p.d = best; bool zero = best < 1e-9 * size;
      plc_vector P = along(x.v1, x.v2, p.s), Q = along(y.v1, y.v2, p.t);
      // is the clamping at 1 clear (the distance would drop beyond the end)?
      double w = nrm(sub(Q, P)); bool c1x = w > 0 && dot(sub(Q, P), d1) > 1e-7 * w * nrm(d1), c1y = w > 0 && dot(sub(P, Q), d2) > 1e-7 * w * nrm(d2);
      int a = side(p.s, false, c1x, x, Q, zero), b = side(p.t, false, c1y, y, P, zero);
      if (p.ill) p.kind = 1; else p.kind = (a == 0 || b == 0) ? 0 : (a == 2 && b == 2) ? 2 : 1;
      if (p.kind == 2) { ndef++; dmin = std::min(dmin, p.d); } if (p.kind) { npos++; pmin = std::min(pmin, p.d); }
      pairs.push_back(p); }
  }
};
static GCp gen_gcp(Rng &r, int style, int n, bool open, plc_vector off, double scale) {
  GCp q; q.open = open; double ph = r.uni() * 6.28, a = 1 + r.uni() * 3; int p = 2 + r.below(3), w = 3 + r.below(3); plc_vector x = {{0, 0, 0}};
  for (int i = 0; i < n; i++) { double th = 6.283185307179586 * i / n + ph; plc_vector v;
    switch (style) {
    case 0: v = {{a * n / 6.0 * cos(th), n / 6.0 * sin(th), 0.5 * sin(p * th)}}; for (auto &z : v.c) z += 0.3 * (r.uni() - 0.5); break;                     // rough loop
    case 1: { double R = 2 + cos(w * th); v = {{R * cos(p * th) * n / 20, R * sin(p * th) * n / 20, sin(w * th) * n / 20}}; break; }                           // torus curve
    case 2: { for (int t = 0;; t++) { plc_vector s = {{r.uni() - 0.5, r.uni() - 0.5, r.uni() - 0.5}}; double l = nrm(s); if (l < 0.1 || l > 0.5) continue; for (int k = 0; k < 3; k++) v.c[k] = x.c[k] + s.c[k] / l; if (q.v.size() < 2 || dot(s, sub(q.v[i - 1], q.v[i - 2])) > -0.45 * l / 0.5) break; } x = v; break; }  // random walk
    case 3: { for (int t = 0;; t++) { int ax = r.below(3); v = x; v.c[ax] += r.below(2) ? 1 : -1; if (q.v.size() < 2 || nrm(sub(v, q.v[i - 2])) > 0.5) break; } x = v; break; }                                                                          // lattice walk
    case 4: { double R = 3 + 0.02 * i; v = {{R * cos(0.3 * i), R * sin(0.3 * i), 0.001 * i}}; break; }                                                         // tight spiral
    case 5: v = {{(double)i * (1 + (i % 3 == 0 ? 0.5 : 0)), i % 7 == 3 ? 0.2 : 0, 0}}; break;                                                                  // nearly straight
    case 6: v = {{n / 6.283 * cos(th), n / 6.283 * sin(th), 0}}; break;                                                                                        // regular polygon
    default: { double z = i % 2; v = {{3 * cos(th) + z * 0.5, 3 * sin(th), 6 * z}}; break; }                                                                  // long thin zigzag: edges far longer than gaps
    }
    q.v.push_back(v); }
  for (auto &v : q.v) for (int k = 0; k < 3; k++) v.c[k] = (v.c[k] + off.c[k]) * scale;
  return q;
}
// Curves on which the measured quantities are well defined: no zero edges, no edge folded back onto its predecessor.
static bool sane(const Geo &g, double lo, double hi) {
  for (auto &q : g.cp) { int n = q.v.size(); for (int i = 0; i < (q.open ? n - 1 : n); i++) { double l = nrm(sub(q.v[(i + 1) % n], q.v[i])); if (!(l >= lo && l <= hi)) return false; }
    for (int i = q.open ? 1 : 0; i < (q.open ? n - 1 : n); i++) { plc_vector in = sub(q.v[i], q.v[(i + n - 1) % n]), out = sub(q.v[(i + 1) % n], q.v[i]); if (1 + dot(in, out) / (nrm(in) * nrm(out)) < 1e-4) return false; } }
  return true;
}
static Geo gen_geo(int maxn) {
  Geo g; for (int tries = 0; tries < 20; tries++) { g.cp.clear(); int nc = 1 + pick({4, 2, 1}); Rng r = subrng(); double scale = (double[]){1, 0.05, 20, 0.3}[pick({5, 1, 1, 1})]; int tot = 0;
    plc_vector base = {{0, 0, 0}}; if (chance(1, 4)) base = plc_vector{{100, -300, 50}};
    for (int c = 0; c < nc; c++) { int style = pick({3, 3, 3, 2, 1, 1, 1, 1}); bool open = style == 4 || style == 5 || chance(2, 5) || (style == 2 && chance(1, 3)) || (style == 3); int n = pick({3, 3, 1}) == 0 ? chr(open ? 2 : 3, 12) : chr(10, std::max(11, maxn / nc)); plc_vector off = base; if (c) for (int k = 0; k < 3; k++) off.c[k] += style == 3 ? (double)((int)r.below(9) - 4) : (r.uni() - 0.5) * n / 5; g.cp.push_back(gen_gcp(r, style, n, open, off, scale)); tot += n; }
    if (sane(g, 1e-2, 3e2)) return g; }
  sim_discard();
}
// ------------------------------------------------------------ C16
static std::string pname(const Geo &g, const Pair &p) { char b[160]; auto &x = g.e[p.a], &y = g.e[p.b]; snprintf(b, sizeof b, "edge %d:%d at %.9g and edge %d:%d at %.9g, distance %.12g", x.c, x.i, p.s, y.c, y.i, p.t, p.d); return b; }
static const Pair *find_pair(const Geo &g, int c0, int v0, int c1, int v1) { for (auto &p : g.pairs) { auto &x = g.e[p.a], &y = g.e[p.b]; if ((x.c == c0 && x.i == v0 && y.c == c1 && y.i == v1) || (x.c == c1 && x.i == v1 && y.c == c0 && y.i == v0)) return &p; } return NULL; }
static void check_struts(Geo &g, const char *w, double cutoff, double eps, std::vector<octrope_strut> &sl, int n, int room, double shortest) {
  double tol = 1e-9 * g.size, loose = 1e-6 * g.size;
  if (cutoff > 0) { if (g.dmin < cutoff - loose) { if (!(shortest <= g.dmin + loose)) sim_fail("shortest", "%s: shortest %.12g, there is a strut of length %.12g below the cutoff", w, shortest, g.dmin); } }
  else if (!(shortest <= g.dmin + tol)) sim_fail("shortest", "%s: shortest %.12g, there is a strut of length %.12g", w, shortest, g.dmin);
  if (shortest < DBL_MAX) { bool ok = false; for (auto &p : g.pairs) if (p.kind && fabs(p.d - shortest) <= (p.ill ? loose : tol)) ok = true; if (!ok) sim_fail("shortest", "%s: shortest %.12g is the length of no strut (shortest strut %.12g)", w, shortest, g.pmin); if (cutoff > 0 && shortest > cutoff) sim_fail("cutoff", "%s: shortest %.12g is beyond the cutoff %.12g", w, shortest, cutoff); }
  double bound = cutoff > 0 ? cutoff : shortest + eps; if (room == 0) return;
  if (n < 0 || n > room) sim_fail("count", "%s: %d struts in a list of %d", w, n, room);
  std::set<const Pair *> seen;
  for (int i = 0; i < n; i++) { octrope_strut &s = sl[i]; for (int k = 0; k < 2; k++) { if (s.component[k] < 0 || s.component[k] >= (int)g.cp.size() || s.lead_vert[k] < 0 || s.lead_vert[k] >= (int)g.cp[s.component[k]].v.size() - (g.cp[s.component[k]].open ? 1 : 0)) sim_fail("strut-edge", "%s: strut %d names edge %d:%d", w, i, s.component[k], s.lead_vert[k]); if (!(s.position[k] >= 0 && s.position[k] <= 1)) sim_fail("strut-position", "%s: strut %d at position %.12g", w, i, s.position[k]); }
    const Pair *p = find_pair(g, s.component[0], s.lead_vert[0], s.component[1], s.lead_vert[1]); if (!p) sim_fail("strut-adjacent", "%s: strut %d joins adjacent edges %d:%d and %d:%d", w, i, s.component[0], s.lead_vert[0], s.component[1], s.lead_vert[1]);
    if (!seen.insert(p).second) sim_fail("strut-twice", "%s: %s listed twice", w, pname(g, *p).c_str());
    if (!p->kind) sim_fail("strut-false", "%s: %s is no local minimum of the distance (reported at %.12g and %.12g)", w, pname(g, *p).c_str(), s.position[0], s.position[1]);
    plc_vector se[2]; octrope_strut_ends(g.L, &s, se); double d = nrm(sub(se[0], se[1])); if (fabs(d - s.length) > tol) sim_fail("strut-length", "%s: strut of length %.12g ends %.12g apart", w, s.length, d);
    if (fabs(s.length - p->d) > (p->ill ? loose : tol)) sim_fail("strut-length", "%s: strut of length %.12g, but %s", w, s.length, pname(g, *p).c_str());
    if (s.length > bound) sim_fail("bound", "%s: strut of length %.12g beyond %.12g", w, s.length, bound); }
  int sure = 0, may = 0; for (auto &p : g.pairs) { double t = p.ill ? loose : tol; if (p.kind == 2 && p.d <= bound - t) sure++; if (p.kind && p.d <= bound + t) may++; }
  if (n < std::min(sure, room) || n > may) sim_fail("count", "%s: %d struts listed (room for %d), there are %d to %d", w, n, room, sure, may);
  if (may <= room) for (auto &p : g.pairs) if (p.kind == 2 && p.d <= bound - tol && !seen.count(&p)) sim_fail("strut-missed", "%s: %s is missing (%d listed, room for %d, bound %.12g)", w, pname(g, p).c_str(), n, room, bound);
}
static void check_mr(Geo &g, const char *w, double cutoff, double eps, std::vector<octrope_mrloc> &ml, int n, int room, double mr) {
  auto eq = [](double a, double b) { return fabs(a - b) <= 1e-8 * (fabs(a) + fabs(b)); };
  if (!(eq(mr, g.mrmin) || eq(mr, g.mrloose) || (mr == DBL_MAX && g.mrmin == DBL_MAX))) sim_fail("minrad", "%s: minimum radius %.12g, expected %.12g", w, mr, g.mrmin);
  double bound = cutoff > 0 ? cutoff : mr + eps; if (n < 0 || n > room) sim_fail("count", "%s: %d places in a list of %d", w, n, room);
  std::set<const Mr *> seen; for (int i = 0; i < n; i++) { octrope_mrloc &m = ml[i]; const Mr *f = NULL; for (auto &x : g.mrs) if (x.c == m.component && x.v == m.vert && x.sv == m.svert) f = &x; if (!f) sim_fail("mr-place", "%s: entry names vertex %d:%d with neighbour %d", w, m.component, m.vert, m.svert); if (!seen.insert(f).second) sim_fail("mr-twice", "%s: vertex %d:%d/%d listed twice", w, m.component, m.vert, m.svert);
    if (!eq(m.mr, f->mr)) sim_fail("mr-value", "%s: radius %.12g at vertex %d:%d/%d, expected %.12g", w, m.mr, m.component, m.vert, m.svert, f->mr); if (m.mr > bound) sim_fail("bound", "%s: radius %.12g beyond %.12g", w, m.mr, bound); }
  int sure = 0, may = 0; for (auto &x : g.mrs) { if (x.sure && x.mr <= bound * (1 - 1e-8)) sure++; if (x.mr <= bound * (1 + 1e-8)) may++; }
  if (n < std::min(sure, room) || n > may) sim_fail("count", "%s: %d places listed (room for %d), there are %d to %d", w, n, room, sure, may);
  if (may <= room) for (auto &x : g.mrs) if (x.sure && x.mr <= bound * (1 - 1e-8) && !seen.count(&x)) sim_fail("mr-missed", "%s: vertex %d:%d/%d with radius %.12g is missing (bound %.12g)", w, x.c, x.v, x.sv, x.mr, bound);
}
static void unchanged(const Geo &g, const char *w) { for (size_t c = 0; c < g.cp.size(); c++) for (size_t i = 0; i < g.cp[c].v.size(); i++) if (memcmp(&g.L->cp[c].vt[i], &g.cp[c].v[i], sizeof(plc_vector))) sim_fail("curve-changed", "%s moved vertex %zu:%zu", w, c, i); }
struct Scratch { void *p = NULL; int n = 0; };
static Scratch gen_scratch(const Geo &g) {
  Scratch s; int est = octrope_est_mem(g.e.size()); int k = pick({3, 2, 2, 2, 1}); if (k == 0) return s;
  s.n = k == 1 ? est : k == 2 ? (int)ch(est + 1) : k == 3 ? est + (int)ch(2 * est + 1) : (int)ch(64); s.n &= ~15; if (s.n == 0) s.n = 16;
  s.p = raw_malloc(s.n); Rng r = subrng(); int m = ch(3); for (int i = 0; i < s.n; i++) ((unsigned char *)s.p)[i] = m == 0 ? r.next() : m == 1 ? 0xff : 0; sim_fault(F_SCRATCH_MEM); return s;
}
void run_C16() {
  hostile(); int ng = 1 + ch(3), maxn = thorough ? 260 : 140; std::vector<Geo> G; bool twins = chance(1, 4);
  if (!twins) for (int i = 0; i < ng; i++) G.push_back(gen_geo(maxn));
  else { ng = 2 + ch(2); Geo g; int nc = 1 + ch(2); for (int i = 0; i < ng; i++) { for (int tries = 0;; tries++) { if (tries > 30) sim_discard(); g.cp.clear(); Rng r = subrng(); static int n[2]; static bool op[2]; if (i == 0) for (int c = 0; c < nc; c++) { op[c] = chance(1, 2); n[c] = op[c] ? chr(2, 6) : chr(3, 6); } for (int c = 0; c < nc; c++) { plc_vector off = {{0, 0, 0}}; if (c) for (int k = 0; k < 3; k++) off.c[k] = (r.uni() - 0.5) * 3; g.cp.push_back(gen_gcp(r, 2, n[c], op[c], off, 1)); } if (sane(g, 1e-2, 3e2)) break; } G.push_back(g); } }  // curves of one shape sharing one scratch block
  size_t mark = alloc_mark(); octrope_set_levels(0); octrope_set_debug(0);
  Death d = sim_guard([&] {
    for (auto &g : G) g.make();
    int nops = (twins ? 4 : 2) + ch(thorough ? 12 : 6); std::vector<Scratch> old;
    for (int k = 0; k < nops; k++) { Geo &g = G[ch(ng)]; if (ng > 1) sim_fault(F_INTERLEAVE); if (!g.fresh) g.solve(); if (chance(1, 3)) { A.poison_mode = ch(5); A.poison_seed = ch(1000); }
      if (chance(1, 3)) { int l = (int)ch(14); octrope_set_levels(l); ev("levels %d", l); }
      if (chance(1, 6)) { // calls that must be refused
        double x = 0; octrope_strut s1[2]; int r = 0; switch (ch(4)) { case 0: r = octrope_struts(NULL, 0, 0, NULL, 0, &x, NULL, 0); break; case 1: r = octrope_struts(g.L, 0, -1, s1, 2, &x, NULL, 0); break; case 2: r = octrope_struts(g.L, -1, 0, s1, 2, &x, NULL, 0); break; case 3: r = octrope_struts(g.L, 1, 0, NULL, 2, &x, NULL, 0); break; }
        if (r != -1 || octrope_error_num == 0) sim_fail("not-refused", "a call with bad arguments returned %d, error %d", r, octrope_error_num); ev("refused call"); }
      if (chance(1, 5)) { // the caller moves vertices by hand; the end vertices are the caller's to repair only on plain length calls
        int c = ch(g.cp.size()), v = chance(1, 2) ? 0 : ch(g.cp[c].v.size()); Rng r = subrng(); Geo t = g; for (int j = 0; j < 3; j++) t.cp[c].v[v].c[j] += (r.uni() - 0.5) * 0.4 * g.size; if (sane(t, 1e-2, 3e2)) { g.cp = t.cp; g.L->cp[c].vt[v] = g.cp[c].v[v]; g.solve(); ev("vertex %d:%d moved", c, v); } }
      Scratch m; if (!old.empty() && (twins || chance(1, 3))) { m = old.back(); sim_fault(F_SCRATCH_MEM); } else { m = gen_scratch(g); if (m.p) old.push_back(m); }
      int total = g.pairs.size(); double cut = 0, eps = 0;
      switch (pick({3, 2, 2})) { case 0: eps = (double[]){0, 1e-6, 0.05, 0.5, 5, 1e6}[ch(6)] * g.size; break; case 1: cut = (double[]){0.5, 1, 2, 5, 1e3}[ch(5)] * g.size; break; default: if (total) { double x = g.pairs[ch(total)].d; if (x > 1e-3 * g.size) { if (chance(1, 2)) cut = x * 1.0001; else eps = x; } } }
      int room = pick({4, 2, 1}) == 0 ? total + 1 : chance(1, 3) ? 0 : 1 + (int)ch(std::max(2, std::min(total, 60))); if (room > total + 1) room = total + 1;
      std::vector<octrope_strut> sl(room); std::vector<octrope_mrloc> ml; double mcut = chance(1, 3) ? 0.2 * g.size * (1 + ch(20)) : 0, meps = (double[]){0, 0.01, 0.3, 1e5}[ch(4)] * g.size; int mroom = chance(2, 3) ? (int)g.mrs.size() : (int)ch(g.mrs.size() + 1); ml.resize(mroom); double lambda = (double[]){1, 0, 0.5, 2, 10}[pick({3, 2, 1, 1, 1})];
      double tol = 1e-9 * g.size + 1e-6 * (g.npos != g.ndef ? g.size : 0);
      auto thick_ok = [&](const char *w, double t, double sh, double lam) { double want = sh / 2; if (lam > 0) want = std::min(want, g.mrmin / lam); double w2 = lam > 0 ? std::min(sh / 2, g.mrloose / lam) : want; if (!feq(t, want, 1e-8, 1e-12) && !feq(t, w2, 1e-8, 1e-12)) sim_fail("thickness", "%s: thickness %.12g, expected %.12g (shortest strut %.12g, minimum radius %.12g, stiffness %g)", w, t, want, sh, g.mrmin, lam); };
      auto shortest_ok = [&](const char *w, double sh) { std::vector<octrope_strut> none; check_struts(g, w, 0, 0, none, 0, 0, sh); };
      switch (pick({6, 2, 1, 1, 2, 1, 4})) {
      case 0: { double sh = -1; int n = octrope_struts(g.L, cut, eps, room ? sl.data() : NULL, room, chance(1, 8) ? NULL : &sh, m.p, m.n); ev("struts cutoff %g eps %g room %d -> %d, shortest %.9g", cut, eps, room, n, sh); if (octrope_error_num) sim_fail("error", "octrope_struts: error %d %s", octrope_error_num, octrope_error_str); if (n < 0) sim_fail("count", "octrope_struts returned %d", n); if (sh == -1) { octrope_struts(g.L, cut, 0, NULL, 0, &sh, NULL, 0); } check_struts(g, "octrope_struts", cut, eps, sl, n, room, sh); break; }
      case 1: { int n = -7; double mr = octrope_minrad(g.L, mcut, meps, ml.data(), mroom, &n); ev("minrad cutoff %g eps %g room %d -> %d, %.9g", mcut, meps, mroom, n, mr); check_mr(g, "octrope_minrad", mcut, meps, ml, n, mroom, mr); break; }
      case 2: { double sh = octrope_poca(g.L, m.p, m.n); ev("poca %.9g", sh); shortest_ok("octrope_poca", sh); break; }
      case 3: { double mr = octrope_minradval(g.L); ev("minradval %.9g", mr); std::vector<octrope_mrloc> none; if (!feq(mr, g.mrmin, 1e-8) && !feq(mr, g.mrloose, 1e-8)) sim_fail("minrad", "octrope_minradval: %.12g, expected %.12g", mr, g.mrmin); break; }
      case 4: { double sh = octrope_poca(g.L, m.p, m.n); shortest_ok("octrope_poca", sh); double t = octrope_thickness(g.L, m.p, m.n, lambda); ev("thickness %.9g stiffness %g", t, lambda); thick_ok("octrope_thickness", t, sh, lambda); double rl = octrope_ropelength(g.L, m.p, m.n, lambda), want = t == 0 ? DBL_MAX : g.len / t; if (!feq(rl, want, 1e-8)) sim_fail("ropelength", "octrope_ropelength: %.12g, length %.12g over thickness %.12g", rl, g.len, t); break; }
      case 5: { plc_fix_wrap(g.L); double l = octrope_curvelength(g.L); ev("length %.9g", l); if (!feq(l, g.len, 1e-9)) sim_fail("length", "octrope_curvelength: %.12g, expected %.12g", l, g.len); break; }
      case 6: { double rl, t, l, mr, ms; int nm = -1, ns = -1; octrope(g.L, &rl, &t, &l, &mr, &ms, mcut, meps, ml.data(), mroom, &nm, cut, eps, room ? sl.data() : NULL, room, &ns, m.p, m.n, lambda); ev("octrope stiffness %g -> ropelength %.9g thickness %.9g struts %d places %d", lambda, rl, t, ns, nm);
        if (!feq(l, g.len, 1e-9)) sim_fail("length", "octrope: length %.12g, expected %.12g", l, g.len);
        if (lambda > 0) check_mr(g, "octrope", mcut, meps, ml, nm, mroom, mr); else if (mr != DBL_MAX || nm != 0) sim_fail("minrad", "octrope: with stiffness 0, minimum radius %.12g and %d places", mr, nm);
        double sh2 = 0; octrope_struts(g.L, 0, 0, NULL, 0, &sh2, NULL, 0); shortest_ok("octrope", sh2); check_struts(g, "octrope", cut, eps, sl, ns, room, cut > 0 && ms > cut ? DBL_MAX : ms); if (!feq(ms, sh2, 1e-9, tol)) sim_fail("shortest", "octrope: shortest strut %.12g, is %.12g", ms, sh2);
        thick_ok("octrope", t, ms, lambda); double want = t == 0 ? DBL_MAX : l / t; if (!feq(rl, want, 1e-9)) sim_fail("ropelength", "octrope: ropelength %.12g, length %.12g over thickness %.12g", rl, l, t); break; }
      }
      unchanged(g, "the call"); check_structure("after the call", g.L); sim_state(hash_u64((u64)(g.len * 1e6), hash_u64(g.pairs.size()))); sim_count(1);
      if (!twins && chance(1, 5) && !old.empty()) { raw_free(old.back().p); old.pop_back(); } }
    for (auto &s : old) raw_free(s.p); for (auto &g : G) plc_free(g.L);
  });
  octrope_set_levels(0);
  if (d.how != O_RETURN) sim_fail("died", "geometry call ended the process: %s", d.msg.c_str());
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
// ------------------------------------------------------------ C15 nearest points
typedef std::vector<plc_vector> Pts;
static Pts gen_pts(Rng &r, int n, int style) {
  Pts p; plc_vector x = {{0, 0, 0}}; double big = style == 5 ? 1e7 : 1; int ax = r.below(3);
  for (int i = 0; i < n; i++) { plc_vector v;
    switch (style) { case 0: for (auto &z : v.c) z = r.uni() * 10 - 5; break;                             // cloud
    case 1: for (auto &z : x.c) z += r.uni() - 0.5; v = x; break;                                         // walk
    case 2: for (auto &z : v.c) z = (double)r.below(9); break;                                            // lattice: ties everywhere
    case 3: for (auto &z : v.c) z = 0.3; v.c[ax] = r.uni() * 100; break;                                  // a line
    case 4: for (auto &z : v.c) z = r.uni() * 0.4; break;                                                 // a box smaller than 1
    case 6: for (auto &z : v.c) z = r.uni() * 900; v.c[ax] = 1000.0 * i / n; break;                       // thin slabs: the end points matter
    default: for (auto &z : v.c) z = (r.uni() - 0.5) * big; }
    p.push_back(v); }
  return p;
}
static plc_vector gen_query(Rng &r, const Pts &p, int *kind) { int k = *kind = r.below(6); if (k == 5) { int a = r.below(3); bool lo = r.below(2); plc_vector b = p[0]; for (auto &v : p) if (lo ? v.c[a] < b.c[a] : v.c[a] > b.c[a]) b = v; b.c[a] += (lo ? 1 : -1) * 2 * r.uni(); return b; } plc_vector b = p[r.below(p.size())], c = p[r.below(p.size())]; switch (k) { case 0: return b; case 1: return along(b, c, 0.5); case 2: for (auto &z : b.c) z += (r.uni() - 0.5) * 0.5; return b; case 3: for (auto &z : b.c) z = (r.uni() - 0.5) * 50; return b; default: b.c[r.below(3)] += r.below(2) ? 1e4 : -1e4; return b; } }
static double best_of(const Pts &p, plc_vector q) { double b = DBL_MAX; for (auto &v : p) b = std::min(b, nrm(sub(v, q))); return b; }
static bool as_near(double d, double b) { return d <= b * (1 + 1e-12) + 1e-300; }
void run_C15() {
  hostile(); bool vertex = chance(1, 2); int nb = 1 + ch(3); size_t mark = alloc_mark(); int stale = 0;
  auto size = [&]() { switch (pick({3, 2, 2})) { case 0: return (int)chr(1, 40); case 1: return (int)chr(4990, 5010); default: return (int)chr(5001, 7000); } };
  Death d = sim_guard([&] {
    if (!vertex) { std::vector<Pts> B; for (int i = 0; i < nb; i++) { Rng r = subrng(); B.push_back(gen_pts(r, size(), ch(7))); } struct plc_nearest_neighbor_pc_data *pc[2] = {NULL, NULL}; int owner[2] = {-1, -1};
      int nops = 2 + ch(8); for (int k = 0; k < nops; k++) { int i = ch(nb), s = ch(3); Rng r = subrng(); int qk; plc_vector q = gen_query(r, B[i], &qk); if (chance(1, 4)) { A.poison_mode = ch(5); }
        if (s < 2 && chance(1, 8)) { plc_nearest_neighbor_pc_data_free(&pc[s]); if (pc[s]) sim_fail("free", "the data pointer is not cleared"); owner[s] = -1; ev("free %d", s); }
        if (s < 2 && owner[s] < 0 && chance(1, 6)) plc_nearest_neighbor_pc_data_free(&pc[s]);
        int err = 0; bool noerr = chance(1, 4); bool st = s < 2 && owner[s] >= 0 && owner[s] != i; if (st) { sim_fault(F_PC_STALE); stale++; }
        int g = plc_nearest_neighbor(q, B[i].size(), B[i].data(), s < 2 ? &pc[s] : NULL, noerr ? NULL : &err); ev("query %d of buffer %d (%zu points), slot %d%s -> %d", k, i, B[i].size(), s, st ? " stale" : "", g);
        if (g < 0 || g >= (int)B[i].size()) sim_fail("index", "index %d of %zu points", g, B[i].size()); double got = nrm(sub(B[i][g], q)), want = best_of(B[i], q); if (!as_near(got, want)) sim_fail("nearest", "point %d of %zu at distance %.15g, the nearest is at %.15g (query kind %d)", g, B[i].size(), got, want, qk);
        if (!noerr) { if (st && err != PLC_E_STALE_PCDATA) sim_fail("stale-silent", "data of another buffer used without the stale-data error"); if (!st && err) sim_fail("stale-alarm", "error %d although the data belongs to the buffer", err); }
        if (s < 2) { if (!pc[s]) sim_fail("no-data", "no precomputed data returned"); owner[s] = i; } sim_count(1); sim_state(hash_u64(B[i].size(), hash_u64(g))); }
      for (int s = 0; s < 2; s++) plc_nearest_neighbor_pc_data_free(&pc[s]); }
    else { std::vector<plCurve *> C; std::vector<std::vector<Pts>> P; for (int i = 0; i < nb; i++) { int nc = 1 + ch(4); std::vector<int> nv, cc(nc, 0); bool op[8]; std::vector<Pts> q; int style = ch(7); for (int c = 0; c < nc; c++) { Rng r = subrng(); q.push_back(gen_pts(r, std::max(3, size()), style)); nv.push_back(q.back().size()); op[c] = chance(1, 2); } plCurve *L = plc_new(nc, nv.data(), op, cc.data()); for (int c = 0; c < nc; c++) for (size_t j = 0; j < q[c].size(); j++) L->cp[c].vt[j] = q[c][j]; plc_fix_wrap(L); C.push_back(L); P.push_back(q); }
      struct plc_nearest_vertex_pc_data *pc[2] = {NULL, NULL}; int owner[2] = {-1, -1}; int nops = 2 + ch(7);
      for (int k = 0; k < nops; k++) { int i = ch(nb), s = ch(3); Rng r = subrng(); int qk; plc_vector q = gen_query(r, P[i][r.below(P[i].size())], &qk); if (s < 2 && chance(1, 8)) { plc_nearest_vertex_pc_data_free(&pc[s]); if (pc[s]) sim_fail("free", "the data pointer is not cleared"); owner[s] = -1; ev("free %d", s); }
        int err = 0, cp = -1, vt = -1; bool noerr = chance(1, 4), st = s < 2 && owner[s] >= 0 && owner[s] != i; if (st) { sim_fault(F_PC_STALE); stale++; }
        plc_vector v = plc_nearest_vertex(q, C[i], &cp, &vt, s < 2 ? &pc[s] : NULL, noerr ? NULL : &err); ev("query %d of curve %d (%zu components), slot %d%s -> %d:%d", k, i, P[i].size(), s, st ? " stale" : "", cp, vt);
        if (cp < 0 || cp >= (int)P[i].size() || vt < 0 || vt >= (int)P[i][cp].size()) sim_fail("index", "vertex %d:%d", cp, vt); if (memcmp(&v, &P[i][cp][vt], sizeof v)) sim_fail("place", "returned position is not that of vertex %d:%d", cp, vt);
        double got = nrm(sub(v, q)), want = DBL_MAX; for (auto &x : P[i]) want = std::min(want, best_of(x, q)); if (!as_near(got, want)) sim_fail("nearest", "vertex %d:%d at distance %.15g, the nearest is at %.15g (query kind %d)", cp, vt, got, want, qk);
        if (!noerr) { if (st && err != PLC_E_STALE_PCDATA) sim_fail("stale-silent", "data of another curve used without the stale-data error"); if (!st && err) sim_fail("stale-alarm", "error %d although the data belongs to the curve", err); }
        if (s < 2) { if (!pc[s]) sim_fail("no-data", "no precomputed data returned"); owner[s] = i; } sim_count(1); sim_state(hash_u64(cp * 10007 + vt, hash_u64(P[i][0].size()))); }
      for (int s = 0; s < 2; s++) plc_nearest_vertex_pc_data_free(&pc[s]); for (auto L : C) plc_free(L); }
  });
  if (d.how != O_RETURN) sim_fail("died", "nearest point query ended the process: %s", d.msg.c_str());
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
// ------------------------------------------------------------ C23 strut files
struct SF { std::vector<octrope_strut> s; std::vector<octrope_mrloc> m; };
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void check_sf(const char *w, const SF &x, int ns, octrope_strut *s, int nm, octrope_mrloc *m) {
  if (ns != (int)x.s.size() || nm != (int)x.m.size()) sim_fail("count", "%s: %d struts and %d places, stored %zu and %zu", w, ns, nm, x.s.size(), x.m.size());
  for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) { if (s[i].component[k] != x.s[i].component[k] || s[i].lead_vert[k] != x.s[i].lead_vert[k]) sim_fail("edge", "%s: strut %d on edge %d:%d, stored %d:%d", w, i, s[i].component[k], s[i].lead_vert[k], x.s[i].component[k], x.s[i].lead_vert[k]); if (!same(s[i].position[k], x.s[i].position[k])) sim_fail("position", "%s: strut %d at %.17g, stored %.17g", w, i, s[i].position[k], x.s[i].position[k]); }
  for (int i = 0; i < ns; i++) if (!same(s[i].length, x.s[i].length) || !same(s[i].compression, x.s[i].compression)) sim_fail("length", "%s: strut %d has length %.17g and compression %.17g, stored %.17g and %.17g", w, i, s[i].length, s[i].compression, x.s[i].length, x.s[i].compression);
  for (int i = 0; i < nm; i++) { if (m[i].component != x.m[i].component || m[i].vert != x.m[i].vert) sim_fail("place", "%s: place %d is %d:%d, stored %d:%d", w, i, m[i].component, m[i].vert, x.m[i].component, x.m[i].vert); if (!same(m[i].mr, x.m[i].mr) || !same(m[i].compression, x.m[i].compression)) sim_fail("radius", "%s: place %d has radius %.17g, stored %.17g", w, i, m[i].mr, x.m[i].mr); }
}
// An independent reading of the bytes: 0 it cannot be a strut file of this curve, 1 it is, 2 unclear.
static int ref_parse(const std::string &d, const Geo &g, SF *out, size_t *need) {
  const char *p = d.c_str(), *b = p; bool vague = false; while (isspace((unsigned char)*p)) p++; if (strncmp(p, "STRUTS", 6)) return 0; p += 6;
  auto skip = [&]() { bool c = false; for (; *p; p++) { if (*p == '#') c = true; else if (*p == '\n' && c) c = false; else if (!c && !isspace((unsigned char)*p)) return; } };
  auto integer = [&](int *v) { skip(); char *e; long x = strtol(p, &e, 10); if (e == p) return false; if (x != (int)x || e - p > 18 || (*e && !isspace((unsigned char)*e))) vague = true; p = e; *v = (int)x; return true; };
  auto real = [&](double *v) { skip(); char *e; double x = strtod(p, &e); if (e == p) return false; if (*e && !isspace((unsigned char)*e)) vague = true; p = e; *v = x; return true; };
  int ns, nm; if (!integer(&ns) || !integer(&nm)) return vague ? 2 : 0; if (vague) return 2; if (ns < 0 || nm < 0 || ns > 1000000 || nm > 1000000) return 0;
  for (int i = 0; i < ns; i++) { octrope_strut s = {}; if (!integer(&s.component[0]) || !integer(&s.component[1]) || !integer(&s.lead_vert[0]) || !integer(&s.lead_vert[1])) return vague ? 2 : 0; if (vague) return 2; for (int k = 0; k < 2; k++) if (s.component[k] < 0 || s.component[k] >= (int)g.cp.size() || s.lead_vert[k] < 0 || s.lead_vert[k] >= (int)g.cp[s.component[k]].v.size()) return 0; if (!real(&s.position[0]) || !real(&s.position[1]) || !real(&s.length) || !real(&s.compression)) return vague ? 2 : 0; out->s.push_back(s); }
  for (int i = 0; i < nm; i++) { octrope_mrloc m = {}; if (!integer(&m.component) || !integer(&m.vert)) return vague ? 2 : 0; if (vague) return 2; if (m.component < 0 || m.component >= (int)g.cp.size() || m.vert < 0 || m.vert >= (int)g.cp[m.component].v.size()) return 0; if (!real(&m.mr) || !real(&m.compression)) return vague ? 2 : 0; out->m.push_back(m); }
  *need = p - b; return vague ? 2 : 1;
}
void run_C23() {
  hostile(); A.limit = 256u << 20; Geo g = gen_geo(30); g.solve(); SF x; FS.on = true; int kind = pick({4, 3, 3, 4, 3}); Rng r = subrng();
  auto num = [&](double lo, double hi) { switch (r.below(6)) { case 0: return lo; case 1: return hi; case 2: return (lo + hi) / 3; default: return lo + r.uni() * (hi - lo); } };
  Death d = sim_guard([&] { g.make(); if (chance(1, 2)) { std::vector<octrope_strut> sl(40); std::vector<octrope_mrloc> ml(40); double sh; int n = octrope_struts(g.L, 0, 0.5 * g.size, sl.data(), 40, &sh, NULL, 0), nm; octrope_minrad(g.L, 0, 0.5 * g.size, ml.data(), 40, &nm); for (int i = 0; i < n; i++) { sl[i].compression = num(0, 5); x.s.push_back(sl[i]); } for (int i = 0; i < nm; i++) { ml[i].compression = num(0, 5); x.m.push_back(ml[i]); } } });
  if (d.how != O_RETURN) sim_fail("died", "measuring: %s", d.msg.c_str());
  if (x.s.empty() && x.m.empty()) { int n = ch(8), m = ch(8); for (int i = 0; i < n; i++) { octrope_strut s = {}; for (int k = 0; k < 2; k++) { s.component[k] = r.below(g.cp.size()); s.lead_vert[k] = r.below(g.cp[s.component[k]].v.size()); s.position[k] = num(0, 1); } s.length = num(1e-9, 1e9); s.compression = num(-1e-30, 1e20); x.s.push_back(s); } for (int i = 0; i < m; i++) { octrope_mrloc q = {}; q.component = r.below(g.cp.size()); q.vert = r.below(g.cp[q.component].v.size()); q.mr = num(1e-12, 1e300); q.compression = num(0, 1); x.m.push_back(q); } }
  // ---- one process writes
  if (chance(1, 2)) disk.put("x.struts", "STRUTS \n0 0 \n"); disk.barrier(); FS.wp = choose_write_plan(kind == 1); if (kind == 1 && FS.wp.nospace_after >= 0 && chance(1, 2)) FS.wp.nospace_after = ch(1500);
  d = sim_proc([&] { FILE *f = sim_fopen("x.struts", "w"); octrope_strutfile_write(x.s.size(), x.s.empty() ? NULL : x.s.data(), x.m.size(), x.m.empty() ? NULL : x.m.data(), f); if (octrope_error_num) sim_fail("refused", "writing refused: %d %s", octrope_error_num, octrope_error_str); bool bad = ferror(f); if (fclose(f)) bad = true; if (!bad) disk.put("ok", "1"); });
  if (d.how != O_RETURN && d.how != O_CRASH) sim_fail("died", "writing: %s (code %d)", d.msg.c_str(), d.code);
  bool ok = disk.exists("ok"); std::string bytes = disk.get("x.struts"), data = bytes, what; ReadPlan rp; bool torn = false; SF px; size_t need = 0; ev("%zu struts, %zu places, %zu bytes, written %s", x.s.size(), x.m.size(), bytes.size(), ok ? "well" : "badly");
  if (ok && kind == 2) { data = disk.power_loss("x.struts"); torn = data != bytes; ev("power loss: %zu bytes left", data.size()); }
  if (kind == 3) { if (chance(1, 3)) { data = bytes.substr(0, ch(bytes.size() + 1)); sim_fault(F_TRUNCATE); ev("truncated at %zu", data.size()); } else { bool c; data = damage(bytes, &c, &what); ev("damaged: %s", what.c_str()); } }
  if (kind == 0 && chance(1, 2)) { // the same numbers, laid out differently, with comments
    std::string t; bool kw = true; for (size_t i = 0; i < data.size(); i++) { if (!isspace((unsigned char)data[i])) { t += data[i]; continue; } if (i && isspace((unsigned char)data[i - 1])) continue; static const char *sp[] = {" ", "\n", "\t", " \n\n", " # 7 8 9\n", "\n#STRUTS 1 # 2\n#\n ", "\r\n"}; t += kw ? " " : sp[ch(7)]; kw = false; } data = t; ev("laid out anew"); }
  int cls = ref_parse(data, g, &px, &need); rp = choose_read_plan(kind == 4, data.size()); bool eio = kind == 4 && rp.eio_at >= 0; sim_state(hash_str(data));
  if (ok && (kind == 0 || kind == 1) && cls != 1) sim_fail("file", "the file written says something else than the lists");
  // ---- another one reads
  size_t mark = alloc_mark(); A.refused = 0;
  d = sim_guard([&] { FILE *f = sim_open_bytes(data, rp); int ns = -5, nm = -6; octrope_strut *s = (octrope_strut *)8; octrope_mrloc *m = (octrope_mrloc *)8; octrope_strutfile_read(g.L, &ns, &s, &nm, &m, f); fclose(f);
    if (octrope_error_num) { ev("refused: %d", octrope_error_num); sim_probe("refused"); if (!octrope_error_str[0] || strlen(octrope_error_str) > 1000) sim_fail("message", "refused with error %d and no message", octrope_error_num); if (ns || nm || s || m) sim_fail("half-read", "refused, but %d struts and %d places are left behind", ns, nm); if (cls == 1 && !eio && !A.refused) sim_fail("refused", "a complete file was refused: %d %s", octrope_error_num, octrope_error_str); return; }
    ev("accepted %d %d", ns, nm); sim_probe("accepted"); if (cls == 0) sim_fail("accepted-bad", "a broken file was accepted: %s", what.c_str());
    if (eio && rp.eio_at < (long)need && cls == 1 && !rp.eio_transient) sim_fail("accepted-incomplete", "accepted although the device failed at byte %ld of %zu", rp.eio_at, need);
    for (int i = 0; i < ns; i++) for (int k = 0; k < 2; k++) if (s[i].component[k] < 0 || s[i].component[k] >= g.L->nc || s[i].lead_vert[k] < 0 || s[i].lead_vert[k] >= g.L->cp[s[i].component[k]].nv) sim_fail("outside", "strut %d is on edge %d:%d, which the curve does not have", i, s[i].component[k], s[i].lead_vert[k]);
    for (int i = 0; i < nm; i++) if (m[i].component < 0 || m[i].component >= g.L->nc || m[i].vert < 0 || m[i].vert >= g.L->cp[m[i].component].nv) sim_fail("outside", "place %d is at %d:%d, which the curve does not have", i, m[i].component, m[i].vert);
    if (cls == 1) check_sf("read", px, ns, s, nm, m); if (ok && (kind == 0 || kind == 1 || kind == 4)) check_sf("read back", x, ns, s, nm, m);
    free(s); free(m); });
  sim_count(1); if (d.how != O_RETURN) sim_fail("died", "reading killed the process: %s (code %d)", d.msg.c_str(), d.code);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); plc_free(g.L);
}
std::vector<std::pair<bool, std::vector<plc_vector>>> gen_measurable(int maxn) { Geo g = gen_geo(maxn); std::vector<std::pair<bool, std::vector<plc_vector>>> r; for (auto &c : g.cp) r.push_back({c.open, c.v}); return r; }
