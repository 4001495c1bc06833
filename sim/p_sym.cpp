// C26 splines and symmetry groups of curves.
#include "sim.h"
#include "plCurve.h"
#include "matrix.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <vector>
typedef long double ld;
struct SV { ld c[3]; };
static SV sv(const plc_vector &v) { return {{v.c[0], v.c[1], v.c[2]}}; }
static ld sdist(const SV &a, const SV &b) { ld s = 0; for (int k = 0; k < 3; k++) s += (a.c[k] - b.c[k]) * (a.c[k] - b.c[k]); return sqrtl(s); }
static plc_vector rvec(Rng &r) { plc_vector v; for (int k = 0; k < 3; k++) v.c[k] = 2 * r.uni() - 1; return v; }
static plc_vector unit(Rng &r) { for (;;) { plc_vector v = rvec(r); double n = sqrt(v.c[0] * v.c[0] + v.c[1] * v.c[1] + v.c[2] * v.c[2]); if (n < 0.1 || n > 1) continue; for (int k = 0; k < 3; k++) v.c[k] /= n; return v; } }
static plCurve *from_pts(const std::vector<std::vector<plc_vector>> &p, const std::vector<int> &op, const std::vector<int> &cc) {
  int nv[64]; bool o[64]; int c[64]; for (size_t i = 0; i < p.size(); i++) { nv[i] = p[i].size(); o[i] = op[i]; c[i] = cc[i]; }
  plCurve *L = plc_new(p.size(), nv, o, c); for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < p[i].size(); j++) L->cp[i].vt[j] = p[i][j]; plc_fix_wrap(L); return L;
}
// ---- splines: the reference solves the clamped interpolation conditions by elimination
struct MS { int n; bool open; std::vector<ld> s; std::vector<SV> v, m; ld size; ld len; };
static SV dirv(const SV &a, const SV &b) { ld d = sdist(a, b); SV r; for (int k = 0; k < 3; k++) r.c[k] = (b.c[k] - a.c[k]) / d; return r; }
static MS solve(plCurve *L, int cp) {
  MS S; plc_strand &c = L->cp[cp]; S.open = c.open; S.n = c.open ? c.nv - 1 : c.nv; for (int i = 0; i <= S.n; i++) S.v.push_back(sv(c.vt[i % c.nv])); S.s.push_back(0); for (int i = 1; i <= S.n; i++) S.s.push_back(S.s[i - 1] + sdist(S.v[i - 1], S.v[i])); S.len = S.s[S.n];
  SV a, b; if (c.open) { a = dirv(S.v[0], S.v[1]); b = dirv(S.v[S.n - 1], S.v[S.n]); } else a = b = dirv(sv(c.vt[c.nv - 1]), sv(c.vt[1]));
  int N = S.n + 1; std::vector<std::vector<ld>> M(N, std::vector<ld>(N + 3, 0)); auto h = [&](int i) { return S.s[i + 1] - S.s[i]; }; auto sl = [&](int i, int k) { return (S.v[i + 1].c[k] - S.v[i].c[k]) / h(i); };
  M[0][0] = h(0) / 3; M[0][1] = h(0) / 6; M[N - 1][N - 1] = h(N - 2) / 3; M[N - 1][N - 2] = h(N - 2) / 6; for (int k = 0; k < 3; k++) { M[0][N + k] = sl(0, k) - a.c[k]; M[N - 1][N + k] = b.c[k] - sl(N - 2, k); }
  for (int i = 1; i < N - 1; i++) { M[i][i - 1] = h(i - 1) / 6; M[i][i] = (h(i - 1) + h(i)) / 3; M[i][i + 1] = h(i) / 6; for (int k = 0; k < 3; k++) M[i][N + k] = sl(i, k) - sl(i - 1, k); }
  for (int i = 0; i < N; i++) { int p = i; for (int j = i + 1; j < N; j++) if (fabsl(M[j][i]) > fabsl(M[p][i])) p = j; std::swap(M[i], M[p]); for (int j = 0; j < N; j++) if (j != i && M[j][i] != 0) { ld f = M[j][i] / M[i][i]; for (int k = i; k < N + 3; k++) M[j][k] -= f * M[i][k]; } }
  S.size = 0; for (int i = 0; i < N; i++) { SV m; for (int k = 0; k < 3; k++) { m.c[k] = M[i][N + k] / M[i][i]; S.size = std::max(S.size, std::max(fabsl(S.v[i].c[k]), fabsl(m.c[k]) * S.len * S.len / S.n)); } S.m.push_back(m); }
  return S;
}
static void eval(const MS &S, ld s, SV *pos, SV *der, int *seg = NULL) {
  int i = 0; while (i < S.n - 1 && S.s[i + 1] < s) i++; ld h = S.s[i + 1] - S.s[i], a = (S.s[i + 1] - s) / h, b = 1 - a; if (seg) *seg = i;
  for (int k = 0; k < 3; k++) { pos->c[k] = a * S.v[i].c[k] + b * S.v[i + 1].c[k] + ((a * a * a - a) * S.m[i].c[k] + (b * b * b - b) * S.m[i + 1].c[k]) * h * h / 6; if (der) der->c[k] = (S.v[i + 1].c[k] - S.v[i].c[k]) / h + ((1 - 3 * a * a) * S.m[i].c[k] + (3 * b * b - 1) * S.m[i + 1].c[k]) * h / 6; }
}
static bool near(const plc_vector &v, const SV &w, ld tol) { for (int k = 0; k < 3; k++) if (!(fabsl((ld)v.c[k] - w.c[k]) <= tol)) return false; return true; }
static void splines() {
  A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); static const double scales[] = {1, 1, 1e-3, 1e3, 37.5}; double sc = scales[ch(5)]; int nc = pick({3, 2, 1}) + 1; Rng r = subrng();
  std::vector<std::vector<plc_vector>> P; std::vector<int> op, cc; double even = chance(1, 3);
  for (int i = 0; i < nc; i++) { bool o = chance(1, 2); int nv = o ? chr(2, 18) : chr(3, 18); std::vector<plc_vector> p; plc_vector x = rvec(r); for (int k = 0; k < 3; k++) x.c[k] *= 5 * sc; for (int j = 0; j < nv; j++) { p.push_back(x); plc_vector u = unit(r); double l = even ? sc : sc * (0.2 + 2 * r.uni()); for (int k = 0; k < 3; k++) x.c[k] += l * u.c[k]; }
    P.push_back(p); op.push_back(o); int c = pick({2, 2, 3}); cc.push_back(c == 0 ? 0 : c == 1 ? 1 : nv); }
  for (int i = 0; i < nc; i++) if (!op[i]) { auto &p = P[i]; int n = p.size(); if (sdist(sv(p[0]), sv(p[n - 1])) < 0.05 * sc || sdist(sv(p[1]), sv(p[n - 1])) < 0.01 * sc) sim_discard(); }
  std::vector<std::vector<plc_color>> col; size_t mark = alloc_mark(); u64 hs = sc * 1000;
  Death d = sim_guard([&] {
    plCurve *L = from_pts(P, op, cc); for (int i = 0; i < nc; i++) { std::vector<plc_color> k; for (int j = 0; j < cc[i]; j++) { L->cp[i].clr[j] = plc_build_color(r.uni(), r.uni(), r.uni(), r.uni()); k.push_back(L->cp[i].clr[j]); } col.push_back(k); }
    struct Cs { int kind, cmp, vert, n; }; std::vector<Cs> cs; for (int i = 0; i < nc; i++) switch (pick({3, 1, 1, 1})) { case 1: plc_constrain_to_plane(L, i, 0, L->cp[i].nv, unit(r), r.uni()); cs.push_back({1, i, 0, L->cp[i].nv}); break; case 2: { int v = ch(L->cp[i].nv); plc_set_fixed(L, i, v, L->cp[i].vt[v]); cs.push_back({0, i, v, 1}); break; } case 3: { int v = ch(L->cp[i].nv); int n = chr(1, L->cp[i].nv - v); plc_constrain_to_line(L, i, v, n, unit(r), rvec(r)); cs.push_back({2, i, v, n}); break; } }
    plCurve *keep = plc_copy(L); bool ok = true; plc_spline *S = plc_convert_to_spline(L, &ok); if (!S) sim_fail("spline", "no spline"); if (!ok) sim_fail("spline", "a curve with distinct consecutive vertices was called degenerate");
    for (int i = 0; i < nc; i++) { if (L->cp[i].nv != keep->cp[i].nv || memcmp(&L->cp[i].vt[-1], &keep->cp[i].vt[-1], (L->cp[i].nv + 2) * sizeof(plc_vector))) sim_fail("argument", "making a spline changed the curve"); for (int j = 0; j < cc[i]; j++) if (memcmp(&L->cp[i].clr[j], &col[i][j], sizeof(plc_color))) sim_fail("argument", "making a spline changed the colors"); }
    plc_free(L); if (S->nc != nc) sim_fail("shape", "%d components became %d", nc, S->nc); std::vector<MS> ms; for (int i = 0; i < nc; i++) ms.push_back(solve(keep, i));
    int q = chr(2, 12); for (int t = 0; t < q; t++) {
      int i = ch(nc); MS &m = ms[i]; hs = hs * 31 + m.n * 2 + m.open; int how = pick({2, 3, 1, 1}); ld s; if (how == 0) s = m.s[ch(m.n)]; else if (how == 1) s = r.uni() * m.len; else if (how == 2) s = m.s[ch(m.n)] + (r.uni() - 0.5) * 1e-9 * m.len; else s = m.s[ch(m.n + 1)]; if (m.open) s = std::min(std::max(s, (ld)0), m.len * (1 - 1e-13L)); double in = s; ld w = in;
      if (!m.open && chance(1, 2)) { int tn = chr(0, 4) - 2; in = (double)(w + tn * m.len); w = in; } while (w < 0) w += m.len; while (w >= m.len && !m.open) w -= m.len;
      SV p, t1; eval(m, w, &p, &t1); plc_vector g = plc_sample_spline(S, i, in), gt = plc_spline_tangent(S, i, in); sim_count(2);
      ld tp = 1e-10L * m.size, tt = 1e-10L * m.size * (m.n + 1) / m.len * 10; if (!near(g, p, tp)) sim_fail("sample", "component %d (%s, %d samples, length %.17Lg) at %.17g is (%g,%g,%g), expected (%Lg,%Lg,%Lg)", i, m.open ? "open" : "closed", (int)P[i].size(), m.len, in, g.c[0], g.c[1], g.c[2], p.c[0], p.c[1], p.c[2]);
      if (!near(gt, t1, tt)) sim_fail("tangent", "component %d (%s, %d samples, length %.17Lg): tangent at %.17g is (%g,%g,%g), expected (%Lg,%Lg,%Lg)", i, m.open ? "open" : "closed", (int)P[i].size(), m.len, in, gt.c[0], gt.c[1], gt.c[2], t1.c[0], t1.c[1], t1.c[2]); }
    int back = chr(1, 3); for (int t = 0; t < back; t++) {
      std::vector<int> nv; for (int i = 0; i < nc; i++) nv.push_back(chance(1, 4) ? (int)P[i].size() : op[i] ? chr(2, chance(1, 8) ? 400 : 40) : chr(3, chance(1, 8) ? 400 : 40)); plCurve *B = plc_convert_from_spline(S, nv.data()); sim_count(1); if (!B || B->nc != nc) sim_fail("shape", "components changed"); if (B->G) sim_fail("shape", "a symmetry group out of nowhere");
      for (int i = 0; i < nc; i++) { plc_strand &c = B->cp[i]; MS &m = ms[i]; int ec = cc[i] <= 1 ? cc[i] : nv[i]; if (c.nv != nv[i] || c.open != (bool)op[i] || c.cc != ec) sim_fail("shape", "component %d has %d vertices, open %d, %d colors; expected %d, %d, %d", i, c.nv, c.open, c.cc, nv[i], op[i], ec);
        for (int j = 0; j < c.nv; j++) { ld s = m.open ? m.len * j / (c.nv - 1) : m.len * j / c.nv; SV p; int seg; eval(m, s, &p, NULL, &seg); if (!near(c.vt[j], p, 1e-10L * m.size)) sim_fail("resample", "vertex %d of %d of component %d (%s) is (%g,%g,%g), expected (%Lg,%Lg,%Lg)", j, c.nv, i, m.open ? "open" : "closed", c.vt[j].c[0], c.vt[j].c[1], c.vt[j].c[2], p.c[0], p.c[1], p.c[2]);
          if (ec > 1) { ld b = (s - m.s[seg]) / (m.s[seg + 1] - m.s[seg]); const plc_color &x = col[i][seg], &y = col[i][(seg + 1) % col[i].size()], &z = c.clr[j]; ld e[4] = {(1 - b) * x.r + b * y.r, (1 - b) * x.g + b * y.g, (1 - b) * x.b + b * y.b, (1 - b) * x.alpha + b * y.alpha}, f[4] = {z.r, z.g, z.b, z.alpha}; for (int k = 0; k < 4; k++) if (!(fabsl(e[k] - f[k]) < 1e-9L)) sim_fail("color", "color %d of component %d (%s, %d to %d) differs: %Lg, expected %Lg", j, i, m.open ? "open" : "closed", (int)P[i].size(), c.nv, f[k], e[k]); } }
        if (ec == 1 && memcmp(&c.clr[0], &col[i][0], sizeof(plc_color))) sim_fail("color", "the color of component %d differs", i);
        if (c.nv >= 3) { const plc_vector &a = c.open ? c.vt[1] : c.vt[c.nv - 1], &b = c.open ? c.vt[c.nv - 2] : c.vt[0]; if (memcmp(&a, &c.vt[-1], sizeof a) || memcmp(&b, &c.vt[c.nv], sizeof b)) sim_fail("wrap", "wrap-around vertices of component %d are wrong", i); } }
      size_t k = 0; for (plc_constraint *x = B->cst; x; x = x->next) k++; if (k != cs.size()) sim_fail("constraint", "%zu constraints became %zu", cs.size(), k);
      for (auto &e : cs) { plc_constraint *x = B->cst; while (x && x->cmp != e.cmp) x = x->next; if (!x) sim_fail("constraint", "the constraint of component %d is lost", e.cmp); int n = nv[e.cmp]; MS &m = ms[e.cmp]; if (x->vert < 0 || x->num_verts < 1 || x->vert + x->num_verts > n) sim_fail("constraint", "a constraint on vertices %d to %d of %d (%s) became one on vertices %d to %d of %d", e.vert, e.vert + e.n - 1, (int)P[e.cmp].size(), m.open ? "open" : "closed", x->vert, x->vert + x->num_verts - 1, n);
        if (e.n == (int)P[e.cmp].size() && e.kind && (x->vert != 0 || x->num_verts != n)) sim_fail("constraint", "a constraint on a whole component became one on %d of %d vertices", x->num_verts, n); ld at = m.open ? m.s[e.vert] / m.len * (n - 1) : m.s[e.vert] / m.len * n; if (e.vert == (int)P[e.cmp].size() - 1 ? x->vert != n - 1 : fabsl(at - x->vert) > 1 + 1e-9L) sim_fail("constraint", "a constraint at vertex %d of %d became one at vertex %d of %d", e.vert, (int)P[e.cmp].size(), x->vert, n); }
      plc_free(B); }
    plc_spline_free(S); plc_free(keep); });
  if (d.how != O_RETURN) sim_fail(d.how == O_ASSERT ? "assert" : "died", "splines: %s", d.msg.c_str()); sim_state(hs); ev("%d components", nc); sim_probe("spline");
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
// ---- symmetries
struct Mx { ld a[3][3]; };
static Mx idm() { Mx m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = i == j; return m; }
static Mx rotm(const plc_vector &u, ld t) { Mx m; ld c = cosl(t), s = sinl(t); ld n = sqrtl((ld)u.c[0] * u.c[0] + (ld)u.c[1] * u.c[1] + (ld)u.c[2] * u.c[2]); ld x[3] = {u.c[0] / n, u.c[1] / n, u.c[2] / n}; ld X[3][3] = {{0, -x[2], x[1]}, {x[2], 0, -x[0]}, {-x[1], x[0], 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = (i == j ? c : 0) + (1 - c) * x[i] * x[j] + s * X[i][j]; return m; }
static Mx refm(const plc_vector &u) { ld n = (ld)u.c[0] * u.c[0] + (ld)u.c[1] * u.c[1] + (ld)u.c[2] * u.c[2]; Mx m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = (i == j) - 2 * (ld)u.c[i] * u.c[j] / n; return m; }
static SV app(const Mx &m, const SV &v) { SV r; for (int i = 0; i < 3; i++) { r.c[i] = 0; for (int j = 0; j < 3; j++) r.c[i] += m.a[i][j] * v.c[j]; } return r; }
static Mx mul(const Mx &a, const Mx &b) { Mx m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { m.a[i][j] = 0; for (int k = 0; k < 3; k++) m.a[i][j] += a.a[i][k] * b.a[k][j]; } return m; }
static Mx tr(const Mx &a) { Mx m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.a[i][j] = a.a[j][i]; return m; }
struct Sy { Mx m; std::vector<int> to; }; // one element: matrix and where each vertex (numbered through) goes
struct Gp { std::vector<Sy> s; std::vector<int> inv; bool ok; };
typedef std::vector<std::vector<SV>> Pts;
static std::vector<SV> flat(const Pts &p) { std::vector<SV> f; for (auto &c : p) for (auto &v : c) f.push_back(v); return f; }
// nearest vertices by looking at all; false in amb if one is not clearly the nearest
static bool targets(const std::vector<SV> &f, const Mx &m, std::vector<int> &to, bool &amb) {
  std::vector<bool> used(f.size(), false); bool dup = false; to.clear(); for (auto &v : f) { SV w = app(m, v); int b = 0; ld d1 = 1e30L, d2 = 1e30L; for (size_t i = 0; i < f.size(); i++) { ld d = sdist(w, f[i]); if (d < d1) { d2 = d1; d1 = d; b = i; } else if (d < d2) d2 = d; } if (d2 - d1 < 1e-7L) amb = true; to.push_back(b); if (used[b]) dup = true; used[b] = true; } return !dup;
}
static void cmp_sym(const char *w, plCurve *L, plc_symmetry *s, const Sy &m, ld tol) {
  if (!s || !s->transform || !s->target) sim_fail("symmetry", "%s: incomplete symmetry", w); if (s->curve != L) sim_fail("symmetry", "%s: the symmetry belongs to another curve", w);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(fabsl((*s->transform)[i][j] - m.m.a[i][j]) <= tol)) sim_fail("matrix", "%s: entry %d,%d of the transformation is %.17g, expected %.17Lg", w, i, j, (*s->transform)[i][j], m.m.a[i][j]);
  int k = 0; for (int i = 0; i < L->nc; i++) for (int j = 0; j < L->cp[i].nv; j++, k++) { int t = plc_vertex_num(L, s->target[i][j].cp, s->target[i][j].vt); if (t != m.to[k]) sim_fail("target", "%s: vertex %d goes to vertex %d, expected %d", w, k, t, m.to[k]); }
}
static void cmp_pts(const char *w, plCurve *L, const Pts &p, ld tol) { if (L->nc != (int)p.size()) sim_fail("shape", "%s: %d components, expected %zu", w, L->nc, p.size()); for (int i = 0; i < L->nc; i++) { plc_strand &c = L->cp[i]; if (c.nv != (int)p[i].size()) sim_fail("shape", "%s: %d vertices, expected %zu", w, c.nv, p[i].size()); for (int j = 0; j < c.nv; j++) if (!near(c.vt[j], p[i][j], tol)) sim_fail("vertex", "%s: vertex %d of component %d is (%.17g,%.17g,%.17g), expected (%.17Lg,%.17Lg,%.17Lg)", w, j, i, c.vt[j].c[0], c.vt[j].c[1], c.vt[j].c[2], p[i][j].c[0], p[i][j].c[1], p[i][j].c[2]); } }
static void cmp_group(const char *w, plCurve *L, const Gp *g, ld tol) { if (!g) { if (L->G) sim_fail("group", "%s: a group is still there", w); return; } if (!L->G || L->G->n != (int)g->s.size()) sim_fail("group", "%s: group of %d elements, expected %zu", w, L->G ? L->G->n : 0, g->s.size()); for (int i = 0; i < L->G->n; i++) { cmp_sym(w, L, L->G->sym[i], g->s[i], tol); if (L->G->inverse[i] != g->inv[i]) sim_fail("inverse", "%s: the inverse of %d is %d, expected %d", w, i, L->G->inverse[i], g->inv[i]); } }
static std::vector<SV> average(const std::vector<SV> &f, const Gp &g) { std::vector<SV> r(f.size()); for (size_t v = 0; v < f.size(); v++) { SV s = {{0, 0, 0}}; for (size_t i = 0; i < g.s.size(); i++) { SV x = app(g.s[g.inv[i]].m, f[g.s[i].to[v]]); for (int k = 0; k < 3; k++) s.c[k] += x.c[k] / g.s.size(); } r[v] = s; } return r; }
static ld worst(const std::vector<SV> &f, const Gp &g) { ld w = 0; for (auto &s : g.s) for (size_t v = 0; v < f.size(); v++) w = std::max(w, sdist(app(s.m, f[v]), f[s.to[v]])); return w; }
static void unflat(const std::vector<SV> &f, Pts &p) { size_t k = 0; for (auto &c : p) for (auto &v : c) v = f[k++]; }
struct Cv { plCurve *L; Pts p; std::vector<int> op; bool has; Gp g; };
static void symmetries() {
  A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); Rng r = subrng(); int kind = pick({5, 3, 2}), n = kind == 0 ? chr(1, 8) : 2; plc_vector ax = unit(r); if (kind == 2 || chance(1, 4)) { int k = ch(3); ax = plc_build_vect(k == 0, k == 1, k == 2); }
  std::vector<Mx> el; if (kind == 0) for (int i = 0; i < n; i++) el.push_back(rotm(ax, 2 * acosl(-1.0L) * i / n)); else if (kind == 1) { el = {idm(), refm(ax)}; } else { el = {idm(), refm(plc_build_vect(1, 0, 0)), refm(plc_build_vect(0, 1, 0)), refm(plc_build_vect(0, 0, 1))}; }
  // the curve: invariant closed components, components that change places, or anything
  Pts p; std::vector<int> op; int parts = chr(1, 3); bool any = chance(1, 8);
  for (int q = 0; q < parts; q++) { int k = chr(1, 6); std::vector<SV> arc; for (int j = 0; j < k; j++) { plc_vector v = rvec(r); SV s; for (int c = 0; c < 3; c++) s.c[c] = 4 * v.c[c]; if (kind == 0 && chance(1, 10)) for (int c = 0; c < 3; c++) s.c[c] = 4 * v.c[0] * ax.c[c]; arc.push_back(s); }
    if (any) { p.push_back(arc); op.push_back(1); continue; }
    if (kind == 2) { std::vector<SV> c; for (int e = 0; e < 8; e++) { std::vector<SV> o; for (auto v : arc) { for (int b = 0; b < 3; b++) if (e >> b & 1) v.c[b] = -v.c[b]; o.push_back(v); } p.push_back(o); op.push_back(1); } continue; }
    if (kind == 0 && n * k >= 3 && chance(1, 2)) { std::vector<SV> c; for (auto &m : el) for (auto &v : arc) c.push_back(app(m, v)); p.push_back(c); op.push_back(0); }
    else if (kind == 1 && k >= 2 && chance(1, 2)) { std::vector<SV> c = arc; for (int j = k - 1; j >= 0; j--) c.push_back(app(el[1], arc[j])); p.push_back(c); op.push_back(0); }
    else { int o = k < 3 || chance(1, 2); for (auto &m : el) { std::vector<SV> c; for (auto &v : arc) c.push_back(app(m, v)); p.push_back(c); op.push_back(o); } } }
  if (p.size() > 60) sim_discard();
  std::vector<SV> f = flat(p); ld dmin = 1; for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < i; j++) dmin = std::min(dmin, sdist(f[i], f[j])); if (dmin < 1e-3L) { // points on the axis have copies of their own: such curves have no group
    any = true; for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < i; j++) if (sdist(f[i], f[j]) == 0) sim_discard(); }
  ld noise = any ? 0 : chance(1, 3) ? 0 : dmin * 0.2L; for (auto &v : f) for (int k = 0; k < 3; k++) v.c[k] = (double)(v.c[k] + noise * (r.uni() - 0.5)); unflat(f, p);
  Gp g; bool amb = false; g.ok = true; for (size_t i = 0; i < el.size(); i++) { Sy s; s.m = el[i]; if (!targets(f, el[i], s.to, amb)) g.ok = false; g.s.push_back(s); g.inv.push_back(kind == 0 ? (n - (int)i) % n : i); } if (amb) sim_discard(); if (!g.ok && kind == 2) { /* the group may fail in any of its elements */ sim_probe("refused octants"); }
  bool act = kind != 2; if (act && g.ok) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (size_t v = 0; v < f.size(); v++) if (g.s[i].to[g.s[j].to[v]] != g.s[(i + j) % n].to[v]) act = false; // nearest vertices of an unsymmetric curve need not form an action
  size_t mark = alloc_mark(); std::vector<Cv> cv; u64 hs = kind * 100 + n;
  Death d = sim_guard([&] {
    std::vector<std::vector<plc_vector>> P; std::vector<int> cc; for (auto &c : p) { std::vector<plc_vector> x; for (auto &v : c) x.push_back(plc_build_vect(v.c[0], v.c[1], v.c[2])); P.push_back(x); cc.push_back(0); }
    plCurve *L = from_pts(P, op, cc); double len = chance(1, 2) ? 1 : 0.25 + 3 * r.uni(); plc_vector axs = ax; for (int k = 0; k < 3; k++) axs.c[k] *= len; plc_symmetry_group *G = kind == 0 ? plc_rotation_group(L, axs, n) : kind == 1 ? plc_reflection_group(L, axs) : plc_coordplanes_reflection_group(L); sim_count(1);
    cmp_pts("making a group", L, p, 0); if (!!G != g.ok) sim_fail("group", "%s for a curve which is %smapped to itself", G ? "a group" : "no group", g.ok ? "" : "not "); L->G = G; Cv c0 = {L, p, op, g.ok, g}; cmp_group("new group", L, g.ok ? &g : NULL, 1e-13L); cv.push_back(c0); sim_probe(G ? "group" : "refused"); ev("kind %d n %d: %zu components %zu vertices %s", kind, n, p.size(), f.size(), G ? "group" : "none");
    int ops = chr(1, 8); for (int t = 0; t < ops && !cv.empty(); t++) {
      int at = ch(cv.size()); Cv &c = cv[at]; std::vector<SV> x = flat(c.p); int o = pick({3, 2, 3, 2, 2, 2, 1, 1, 1, 1, 1}); hs = hs * 31 + o; ev("op %d on %d", o, at);
      switch (o) {
      case 0: { plc_symmetrize(c.L); if (c.has && act) { x = average(x, c.g); unflat(x, c.p); cmp_pts("symmetrized", c.L, c.p, 1e-12L * 8); if (!(plc_symmetry_group_check(c.L) < 1e-11)) sim_fail("symmetrize", "a symmetrized curve is off by %g", plc_symmetry_group_check(c.L)); } else if (c.has) { if (noise == 0 && !any) cmp_pts("symmetrized", c.L, c.p, 1e-11L); else { for (int i = 0; i < c.L->nc; i++) for (int j = 0; j < c.L->cp[i].nv; j++) { SV y = sv(c.L->cp[i].vt[j]); c.p[i][j] = y; } } } else cmp_pts("symmetrized without a group", c.L, c.p, 0); for (size_t i = 0; i < c.p.size(); i++) for (size_t j = 0; j < c.p[i].size(); j++) c.p[i][j] = sv(c.L->cp[i].vt[j]); break; }
      case 1: { double w = plc_symmetry_group_check(c.L); ld e = c.has ? worst(x, c.g) : 0; if (!(fabsl(w - e) < 1e-11L)) sim_fail("check", "the curve is off by %g, expected %Lg", w, e); break; }
      case 2: { std::vector<plc_vector> b; std::vector<SV> y; for (size_t i = 0; i < x.size(); i++) { plc_vector v = rvec(r); b.push_back(v); y.push_back(sv(v)); } double w = plc_symmetry_group_variation_check(c.L, b.data()); ld e = c.has ? worst(y, c.g) : 0; if (!(fabsl(w - e) < 1e-11L)) sim_fail("check", "the variation is off by %g, expected %Lg", w, e); if (c.has && !act) break; plc_symmetrize_variation(c.L, b.data()); if (c.has) y = average(y, c.g); for (size_t i = 0; i < y.size(); i++) if (!near(b[i], y[i], 1e-12L)) sim_fail("variation", "vector %zu of the symmetrized variation is (%g,%g,%g), expected (%Lg,%Lg,%Lg)", i, b[i].c[0], b[i].c[1], b[i].c[2], y[i].c[0], y[i].c[1], y[i].c[2]); cmp_pts("symmetrized variation", c.L, c.p, 0); break; }
      case 3: { if (cv.size() > 3) break; plCurve *M = plc_copy(c.L); Cv k = c; k.L = M; cmp_pts("copy", M, c.p, 0); cmp_group("copy", M, c.has ? &c.g : NULL, 1e-11L); cv.push_back(k); break; }
      case 4: { plc_vector u = unit(r); double a = 7 * (r.uni() - 0.5); plc_rotate(c.L, u, a); Mx m = rotm(u, a); for (auto &v : x) v = app(m, v); unflat(x, c.p); cmp_pts("rotated", c.L, c.p, 1e-12L * 8); for (auto &s : c.g.s) s.m = mul(mul(m, s.m), tr(m)); cmp_group("rotated", c.L, c.has ? &c.g : NULL, 1e-11L); for (size_t i = 0; i < c.p.size(); i++) for (size_t j = 0; j < c.p[i].size(); j++) c.p[i][j] = sv(c.L->cp[i].vt[j]); break; }
      case 5: { plc_free(c.L); cv.erase(cv.begin() + at); for (auto &k : cv) cmp_group("after another curve was freed", k.L, k.has ? &k.g : NULL, 1e-11L); break; }
      case 6: { plc_vector v = rvec(r); plc_translate(c.L, v); for (auto &y : x) for (int k = 0; k < 3; k++) y.c[k] += v.c[k]; unflat(x, c.p); c.has = false; cmp_pts("translated", c.L, c.p, 1e-12L * 8); cmp_group("translated", c.L, NULL, 0); for (size_t i = 0; i < c.p.size(); i++) for (size_t j = 0; j < c.p[i].size(); j++) c.p[i][j] = sv(c.L->cp[i].vt[j]); break; }
      case 7: { int k = ch(c.p.size() + 1); plc_vector nv[3] = {rvec(r), rvec(r), rvec(r)}; plc_add_component(c.L, k, 3, false, 0, nv, NULL); c.p.insert(c.p.begin() + k, {sv(nv[0]), sv(nv[1]), sv(nv[2])}); c.has = false; cmp_pts("component added", c.L, c.p, 0); cmp_group("component added", c.L, NULL, 0); break; }
      case 8: { if (c.p.size() < 2) break; int k = ch(c.p.size()); plc_drop_component(c.L, k); c.p.erase(c.p.begin() + k); c.has = false; cmp_pts("component dropped", c.L, c.p, 0); cmp_group("component dropped", c.L, NULL, 0); break; }
      case 9: { if (chance(1, 2)) { // made-up symmetries, which need not commute
          plc_symmetry *y[2]; Sy e[2]; for (int q = 0; q < 2; q++) { y[q] = plc_symmetry_new(c.L); plc_vector row[3] = {rvec(r), rvec(r), rvec(r)}; y[q]->transform = plc_build_matrix(row[0], row[1], row[2]); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e[q].m.a[i][j] = row[i].c[j]; for (size_t i = 0; i < x.size(); i++) e[q].to.push_back(i); for (size_t i = x.size(); i > 1; i--) std::swap(e[q].to[i - 1], e[q].to[r.below(i)]); int k = 0; for (int i = 0; i < c.L->nc; i++) for (int j = 0; j < c.L->cp[i].nv; j++, k++) { y[q]->target[i][j].cp = plc_cp_num(c.L, e[q].to[k]); y[q]->target[i][j].vt = plc_vt_num(c.L, e[q].to[k]); } cmp_sym("made-up symmetry", c.L, y[q], e[q], 0); }
          plc_symmetry *z = plc_compose_symmetries(y[0], y[1]); Sy w; w.m = mul(e[1].m, e[0].m); for (size_t i = 0; i < x.size(); i++) w.to.push_back(e[1].to[e[0].to[i]]); cmp_sym("composition of made-up symmetries", c.L, z, w, 1e-13L); for (int q = 0; q < 2; q++) { cmp_sym("made-up symmetry after composing", c.L, y[q], e[q], 0); plc_symmetry_free(&y[q]); } plc_symmetry_free(&z); break; }
        if (!c.has) break; int a = ch(c.g.s.size()), b = ch(c.g.s.size()); plc_symmetry *s = plc_compose_symmetries(c.L->G->sym[a], c.L->G->sym[b]); Sy e; e.m = mul(c.g.s[b].m, c.g.s[a].m); for (size_t i = 0; i < x.size(); i++) e.to.push_back(c.g.s[b].to[c.g.s[a].to[i]]); cmp_sym("composition", c.L, s, e, 1e-11L); plc_symmetry *u = plc_symmetry_copy(s); plc_symmetry_free(&s); if (s) sim_fail("free", "pointer kept"); plc_symmetry_free(&s); cmp_sym("copy of a composition", c.L, u, e, 1e-11L); double w = plc_symmetry_check(c.L, u); Gp one; one.s = {e}; if (!(fabsl(w - worst(x, one)) < 1e-11L)) sim_fail("check", "composition: off by %g, expected %Lg", w, worst(x, one)); plc_symmetry_free(&u); break; }
      case 10: { double a = 0.5 + 1.5 * r.uni(); plc_scale(c.L, a); for (auto &y : x) for (int k = 0; k < 3; k++) y.c[k] *= a; unflat(x, c.p); cmp_pts("scaled", c.L, c.p, 1e-12L * 8); cmp_group("scaled", c.L, c.has ? &c.g : NULL, 1e-11L); for (size_t i = 0; i < c.p.size(); i++) for (size_t j = 0; j < c.p[i].size(); j++) c.p[i][j] = sv(c.L->cp[i].vt[j]); break; }
      } sim_count(1); }
    for (auto &k : cv) { cmp_pts("at the end", k.L, k.p, 0); cmp_group("at the end", k.L, k.has ? &k.g : NULL, 1e-10L); plc_free(k.L); } });
  if (d.how != O_RETURN) sim_fail(d.how == O_ASSERT ? "assert" : "died", "symmetries: %s", d.msg.c_str()); sim_state(hs);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
void run_C26() { alloc_reset(); if (chance(2, 5)) splines(); else symmetries(); }
