// C11 random polygon samplers, C12 reproducibility, C14 Markov chains, C21 buffered estimator.
#include "sim.h"
#include "plCurve.h"
#include "rand_model.h"
#include <gsl/gsl_rng.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>
#include <array>
extern "C" {
#include "tsmcmc.h"
#include "geyer_estimators.h"
bool plc_is_sap(plCurve *L);
void plc_perturb_vect(gsl_rng *rng, plc_vector *v, double maxradius);
}
// ------------------------------------------------------------ simulated generator
// A gsl generator whose stream the simulator decides: a good generator with
// extreme or repeated values at chosen places.
struct SimRng { u64 s; u64 n; u32 last; int every; int mode; u32 burst; u32 left; };
static void sr_set(void *v, unsigned long seed) { SimRng *r = (SimRng *)v; r->s = seed * 0x9E3779B97F4A7C15ull + 1; r->n = 0; r->last = 1u << 30; r->every = 0; r->mode = 0; r->burst = 1; r->left = 0; }
static unsigned long sr_get(void *v) { SimRng *r = (SimRng *)v; Rng g(r->s); u32 x = (u32)(g.next() >> 32); r->s = g.s; r->n++;
  if (r->every && r->left == 0 && x % (u32)r->every == 0) { Rng h(r->s ^ 0x51); r->left = 1 + (r->burst > 1 ? h.below(r->burst) : 0); x = (u32)(h.next() >> 32); }
  if (r->left) { r->left--; switch (r->mode) { case 1: x = 0; sim_fault(F_RNG_EXTREME); break; case 2: x = 0xffffffffu; sim_fault(F_RNG_EXTREME); break; case 3: x = (x & 1) ? 0x80000000u : 0x7fffffffu; sim_fault(F_RNG_EXTREME); break; case 4: x = r->last; sim_fault(F_RNG_STUCK); break; case 5: x = (x >> 7 & 1) ? (x & 63) : 0xffffffffu - (x & 63); sim_fault(F_RNG_EXTREME); break; case 6: x = (x >> 9) % 3 * 0x40000000u + 0x40000000u; sim_fault(F_RNG_CYCLE); break; } }
  r->last = x; return x; }
static double sr_getd(void *v) { return sr_get(v) / 4294967296.0; }
static const gsl_rng_type sr_type = {"sim", 0xffffffffu, 0, sizeof(SimRng), sr_set, sr_get, sr_getd};
gsl_rng *new_stream(bool faults, bool isolated) {
  gsl_rng *r = gsl_rng_alloc(faults ? &sr_type : gsl_rng_mt19937); gsl_rng_set(r, 1 + ch(1 << 20));
  if (faults) { SimRng *s = (SimRng *)gsl_rng_state(r); s->mode = isolated ? (int[]){0, 1, 2, 3, 5}[pick({1, 3, 3, 2, 2})] : pick({1, 3, 3, 2, 2, 2, 2}); s->every = !s->mode ? 0 : isolated ? (int[]){200, 1000, 5000}[ch(3)] : (int[]){200, 50, 20, 7, 1000}[ch(5)]; s->burst = s->every > 10 && !isolated ? 1 + ch(4) : 1; if (s->mode == 4 || s->mode == 6) { s->burst = 1; if (s->every < 20) s->every = 20; } /* longer runs of few values can make the Gaussian frames of a polygon exactly parallel */ ev("stream mode %d every %d burst %u", s->mode, s->every, s->burst); }
  return r;
}
static void heap_chaos() { alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); }
static void leaks(size_t mark) { if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); }
// ------------------------------------------------------------ geometry helpers
typedef std::array<double, 3> V3;
static V3 at(plCurve *L, int c, int i) { plc_vector &v = L->cp[c].vt[i]; return {v.c[0], v.c[1], v.c[2]}; }
static double dist(const V3 &a, const V3 &b) { return sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])); }
void wellformed(const char *w, plCurve *L, int nv, bool open) {
  if (!L) sim_fail("no-answer", "%s: no polygon", w); if (L->nc != 1 || L->cp[0].nv != nv || L->cp[0].open != open) sim_fail("shape", "%s: %d components, %d vertices, %s, expected %d vertices", w, L->nc, L->nc ? L->cp[0].nv : 0, L->nc && L->cp[0].open ? "open" : "closed", nv);
  for (int i = 0; i < nv; i++) for (int k = 0; k < 3; k++) if (!std::isfinite(L->cp[0].vt[i].c[k])) sim_fail("not-finite", "%s: vertex %d of %d is not finite", w, i, nv);
  if (!open && (dist(at(L, 0, -1), at(L, 0, nv - 1)) > 0 || dist(at(L, 0, nv), at(L, 0, 0)) > 0)) sim_fail("wrap", "%s: wrap-around vertices do not repeat the ends", w);
}
static double length_of(plCurve *L, int c) { double s = 0; int nv = L->cp[c].nv, ne = L->cp[c].open ? nv - 1 : nv; for (int i = 0; i < ne; i++) s += dist(at(L, c, i), at(L, c, (i + 1) % nv)); return s; }
void edges_are(const char *w, plCurve *L, double want, double tol, double first) { int nv = L->cp[0].nv, ne = L->cp[0].open ? nv - 1 : nv; for (int i = 0; i < ne; i++) { double e = dist(at(L, 0, i), at(L, 0, (i + 1) % nv)), x = i == 0 && first >= 0 ? first : want; if (!(fabs(e - x) <= tol)) sim_fail("edge-length", "%s: edge %d of %d has length %.12g, expected %.12g", w, i, ne, e, x); } }
static void length_is(const char *w, plCurve *L, double want) { double s = length_of(L, 0); if (!(fabs(s - want) <= 1e-8)) sim_fail("length", "%s: total length %.12g, expected %.12g", w, s, want); }
static u64 hash_curve(plCurve *L) { u64 h = 7; for (int c = 0; c < L->nc; c++) { h = hash_u64(L->cp[c].nv * 2 + L->cp[c].open, h); for (int i = 0; i < L->cp[c].nv; i++) h = hash_bytes(L->cp[c].vt[i].c, 24, h); } return h; }
static int edges_n(bool big) { return pick({6, 3, (u32)(big ? 1 : 0)}) == 0 ? chr(3, 12) : chance(1, 3) && big ? chr(200, 600) : chr(13, 90); }
// ------------------------------------------------------------ distributions
// Exact mean squared chord lengths: unit or Gaussian edges are exchangeable and
// the edge sum is fixed, which determines them.
struct Mean { double s = 0, q = 0; long n = 0; void add(double x) { s += x; q += x * x; n++; } double mean() const { return s / n; } double se() const { return sqrt(std::max(0.0, q / n - mean() * mean()) / n); } };
static void near(const char *w, const Mean &m, double want, double sig) { if (!(fabs(m.mean() - want) <= sig * m.se() + 1e-9)) sim_fail("distribution", "%s: mean %.6g +- %.2g of %ld samples, expected %.6g", w, m.mean(), m.se(), m.n, want); }
static void run_moments() {
  int op = pick({2, 2, 1, 1, 3, 2, 2, 1}), n = chr(4, 9), N = op == 6 ? 500 : 2500; gsl_rng *r = new_stream(false); ev("moments of sampler %d, %d edges", op, n); sim_probe("distribution compared");
  if (op == 7) { Mean m[3], q[3], f[3], x[3]; for (int k = 0; k < N; k++) { plc_vector v = plc_random_vect(); for (int j = 0; j < 3; j++) { m[j].add(v.c[j]); q[j].add(v.c[j] * v.c[j]); f[j].add(pow(v.c[j], 4)); x[j].add(v.c[j] * v.c[(j + 1) % 3]); } } for (int j = 0; j < 3; j++) { near("direction", m[j], 0, 6.5); near("squared direction", q[j], 1.0 / 3, 6.5); near("fourth power of direction", f[j], 0.2, 6.5); near("product of directions", x[j], 0, 6.5); } gsl_rng_free(r); return; }
  uint64_t *xs = NULL; if (op == 6) { n = chr(5, 8); xs = plc_xoshiro_init(1 + ch(1 << 20)); } bool closed = op == 0 || op == 2 || op == 4 || op == 6; int V = closed ? n : n + 1;
  std::vector<std::vector<Mean>> M(V, std::vector<Mean>(n + 1)), D = M, Q = M; // chord from i over k edges, its difference to the chord from 0, its square
  for (int s = 0; s < N; s++) { plCurve *L = op == 0 ? plc_random_closed_polygon(r, n) : op == 1 ? plc_random_open_polygon(r, n) : op == 2 ? plc_random_closed_plane_polygon(r, n) : op == 3 ? plc_random_open_plane_polygon(r, n) : op == 4 ? plc_random_equilateral_closed_polygon(r, n) : op == 5 ? plc_random_equilateral_open_polygon(r, n) : plc_random_equilateral_closed_self_avoiding_polygon(xs, n);
    for (int i = 0; i < V; i++) for (int k = 1; k <= (closed ? n / 2 : n - i); k++) { double d = dist(at(L, 0, i), at(L, 0, (i + k) % V)), d0 = dist(at(L, 0, 0), at(L, 0, k)); M[i][k].add(d * d); D[i][k].add(d * d - d0 * d0); Q[i][k].add(d * d * d * d - d0 * d0 * d0 * d0); } plc_free(L); }
  for (int i = 0; i < V; i++) for (int k = 1; k <= (closed ? n / 2 : n - i); k++) { char b[100]; snprintf(b, 100, "sampler %d, %d edges: squared chord from %d over %d edges", op, n, i, k); double c = (double)(n - k) / (n - 1) * k, w = 0; switch (op) { case 0: w = c * 6 / (n * (n + 1.0)); break; case 1: w = 6 * k / (n * (n + 0.5)); break; case 2: w = c * 8 / (n * (n + 2.0)); break; case 3: w = 8 * k / (n * (n + 1.0)); break; case 4: w = c; break; case 5: w = 4.0 * k / n / n; break; }
    if (op != 6) near(b, M[i][k], w, 6.5); if (i) { near(b, D[i][k], 0, 6.5); near(b, Q[i][k], 0, 6.5); } }
  if (xs) plc_xoshiro_free(xs); sim_count(N); gsl_rng_free(r);
}
// ------------------------------------------------------------ C11
void run_C11() {
  heap_chaos(); CK.on = true; CK.step = [](long) { return 50L; }; libc_rand_state = ch(1000000); size_t mark = alloc_mark(); int nops = chr(1, 5); bool mom = chance(1, 60);
  Death d = sim_guard([&] { if (mom) return run_moments();
    gsl_rng *r = new_stream(chance(3, 4));
    for (int k = 0; k < nops; k++) { int op = pick({3, 2, 2, 2, 4, 2, 2, 3, 2, 1, 1}); A.poison_mode = ch(5); plCurve *L = NULL;
      switch (op) {
      case 0: { int n = edges_n(true); ev("closed %d", n); L = plc_random_closed_polygon(r, n); wellformed("closed polygon", L, n, false); length_is("closed polygon", L, 2); break; }
      case 1: { int n = edges_n(true); ev("open %d", n); L = plc_random_open_polygon(r, n); wellformed("open polygon", L, n + 1, true); length_is("open polygon", L, 2); break; }
      case 2: { int n = edges_n(true); ev("closed plane %d", n); L = plc_random_closed_plane_polygon(r, n); wellformed("closed plane polygon", L, n, false); length_is("closed plane polygon", L, 2); for (int i = 0; i < n; i++) if (L->cp[0].vt[i].c[1] != 0) sim_fail("plane", "vertex %d is off the plane", i); break; }
      case 3: { int n = edges_n(true); ev("open plane %d", n); L = plc_random_open_plane_polygon(r, n); wellformed("open plane polygon", L, n + 1, true); length_is("open plane polygon", L, 2); for (int i = 0; i <= n; i++) if (L->cp[0].vt[i].c[1] != 0) sim_fail("plane", "vertex %d is off the plane", i); break; }
      case 4: { int n = chance(1, 40) ? chr(800, 3000) : std::max(4, edges_n(true)); ev("equilateral closed %d", n); gsl_rng *q = n > 60 ? new_stream(false) : r; /* a biased stream can make long polygons impossible */ L = plc_random_equilateral_closed_polygon(q, n); if (q != r) gsl_rng_free(q); wellformed("equilateral closed polygon", L, n, false); edges_are("equilateral closed polygon", L, 1, 1e-7); if (n >= 800) sim_probe("800 or more equilateral edges"); break; }
      case 5: { int n = edges_n(true); ev("equilateral open %d", n); L = plc_random_equilateral_open_polygon(r, n); wellformed("equilateral open polygon", L, n + 1, true); edges_are("equilateral open polygon", L, 2.0 / n, 1e-9); break; }
      case 6: { int n = chr(5, 12); uint64_t seed = chance(1, 3) ? ch(4) : ((u64)ch(1u << 31) << 33 | ch(1u << 31)); uint64_t *x = plc_xoshiro_init(seed); ev("self-avoiding %d", n); int rep = chr(1, 3); for (int q = 0; q < rep; q++) { L = plc_random_equilateral_closed_self_avoiding_polygon(x, n); wellformed("self-avoiding polygon", L, n, false); edges_are("self-avoiding polygon", L, 1, 1e-7); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (dist(at(L, 0, i), at(L, 0, j)) < 1 - 1e-8) sim_fail("self-avoiding", "vertices %d and %d are %.10g apart", i, j, dist(at(L, 0, i), at(L, 0, j))); if (!plc_is_sap(L)) sim_fail("self-avoiding", "the library's check refuses its own polygon"); if (q + 1 < rep) plc_free(L); } plc_xoshiro_free(x); sim_probe("self-avoiding polygon"); break; }
      case 7: { // cut an arc out of a polygon and close it again
        int n = chr(5, 30), ncl = chr(0, 2); plCurve *P = plc_random_closed_polygon(r, n); wellformed("closed polygon", P, n, false); int cut = chr(1, n - 2); plCurve *O; { bool op2 = true; int nv = n - cut + 1, cc = chance(1, 4) ? nv : 0; if (chance(1, 4)) cc = 1; O = plc_new(1, &nv, &op2, &cc); for (int i = 0; i < nv; i++) O->cp[0].vt[i] = P->cp[0].vt[i]; if (chance(1, 4)) { /* gap exactly along a coordinate axis */ int ax = ch(3); double d = (chance(1, 2) ? 1 : -1) * (double[]){0.25, 0.125, 0.5}[ch(3)]; plc_vector o = O->cp[0].vt[0]; for (int i = 0; i < nv; i++) for (int q = 0; q < 3; q++) O->cp[0].vt[i].c[q] = i == 0 ? 0 : i == nv - 1 ? (q == ax ? d : 0) : (O->cp[0].vt[i].c[q] - o.c[q]) * 0.5; sim_probe("gap along an axis"); } for (int i = 0; i < cc; i++) O->cp[0].clr[i] = plc_build_color(i + 1, 2, 3, 4); plc_fix_wrap(O); }
        // other, zero length components before it do not matter
        int where = 0; (void)ncl; if (chance(1, 3)) { int nv = 2; plc_vector v[2] = {plc_build_vect(5, 5, 5), plc_build_vect(5, 5, 5)}; plc_add_component(O, 0, nv, true, 0, v, NULL); where = 1; sim_probe("second component closed"); }
        int total = O->cp[where].nv - 1 + chr(1, 12); double ftc = dist(at(O, where, 0), at(O, where, O->cp[where].nv - 1)), slack = 2 - length_of(O, where); ev("loop closure: %d of %d edges, gap %.3g, slack %.3g", total, n, ftc, slack); plCurve *C = NULL;
        if (total - (O->cp[where].nv - 1) == 1) { plc_free(P); plc_free(O); break; } // one edge cannot close this gap at length 2
        plCurve *K = plc_copy(O); gsl_rng *r1 = new_stream(chance(1, 2), true); /* few closing edges: bursts can make the frames exactly parallel */ C = plc_loop_closure(r1, where, O, total); gsl_rng_free(r1); if (hash_curve(K) != hash_curve(O)) sim_fail("argument-changed", "loop closure changed the open curve"); plc_free(K);
        if (!C) { if (slack >= ftc) sim_fail("no-answer", "no closure although the gap is %.6g and %.6g is left", ftc, slack); }
        else { if (C->nc != O->nc || C->cp[where].nv != total || C->cp[where].open) sim_fail("shape", "closure has %d components, %d vertices", C->nc, C->cp[where].nv); for (int i = 0; i < O->cp[where].nv; i++) if (dist(at(C, where, i), at(O, where, i)) > 0) sim_fail("closure", "vertex %d moved", i); for (int i = 0; i < total; i++) for (int q = 0; q < 3; q++) if (!std::isfinite(C->cp[where].vt[i].c[q])) sim_fail("not-finite", "closure: vertex %d", i); if (!(fabs(length_of(C, where) - 2) < 1e-7)) sim_fail("length", "closed loop has length %.12g instead of 2", length_of(C, where));
          if (C->cp[where].cc != (O->cp[where].cc > 1 ? total : O->cp[where].cc)) sim_fail("closure", "%d colors became %d", O->cp[where].cc, C->cp[where].cc); for (int i = 0; i < O->cp[where].cc; i++) if (memcmp(&C->cp[where].clr[i], &O->cp[where].clr[i], sizeof(plc_color))) sim_fail("closure", "color %d changed", i); sim_probe("loop closed"); sim_count(1); plc_free(C); }
        plc_free(P); plc_free(O); break; }
      case 8: { // random directions and perturbations
        for (int q = 0; q < 20; q++) { plc_vector v = plc_random_vect(); double m = sqrt(v.c[0] * v.c[0] + v.c[1] * v.c[1] + v.c[2] * v.c[2]); if (!(fabs(m - 1) < 1e-9)) sim_fail("direction", "random direction of length %.12g", m);
          plc_vector p = plc_build_vect(1, 2, 3), o = p; double rad = (double[]){1, 1e-6, 100}[q % 3]; plc_perturb_vect(r, &p, rad); if (!(plc_distance(p, o) <= rad * (1 + 1e-9))) sim_fail("perturb", "moved %.12g, radius %.12g", plc_distance(p, o), rad); } ev("directions"); sim_count(20); break; }
      case 9: { // perturbing a curve
        int n = chr(3, 14); L = plc_random_equilateral_open_polygon(r, n); plc_scale(L, 5); std::set<int> held; if (chance(2, 3)) { int c = 1 + ch(3); for (int q = 0; q < c; q++) { int i = ch(n + 1); plc_set_fixed(L, 0, i, L->cp[0].vt[i]); held.insert(i); } } plCurve *K = plc_copy(L); double rad = (double[]){0.1, 1e-5, 3}[ch(3)]; ev("perturb %d by %g", n, rad); plc_perturb(L, rad); wellformed("perturbed curve", L, n + 1, true); for (int i = 0; i <= n; i++) { double m = dist(at(L, 0, i), at(K, 0, i)); if (held.count(i) ? m > 0 : m > rad * (1 + 1e-9)) sim_fail("perturb", "vertex %d moved %.12g, radius %g%s", i, m, rad, held.count(i) ? ", although constrained" : ""); } plc_free(K); break; }
      case 10: { // the self-avoidance check itself
        int nc = 1 + ch(3), nv[4], cc[4] = {0}; bool op2[4]; for (int c = 0; c < nc; c++) { nv[c] = chr(3, 6); op2[c] = false; } L = plc_new(nc, nv, op2, cc); Rng g = subrng(); double step = (double[]){1, 0.999, 1.5, 2}[ch(4)]; double mn = 1e300; for (int c = 0; c < nc; c++) for (int i = 0; i < nv[c]; i++) L->cp[c].vt[i] = plc_build_vect(step * g.below(6), step * g.below(6), step * g.below(6)); plc_fix_wrap(L); for (int c = 0; c < nc; c++) for (int i = 0; i < nv[c]; i++) for (int c2 = 0; c2 <= c; c2++) for (int j = 0; j < (c2 == c ? i : nv[c2]); j++) mn = std::min(mn, dist(at(L, c, i), at(L, c2, j))); bool got = plc_is_sap(L); ev("self-avoidance of %d components, least distance %.6g: %d", nc, mn, got); if (got != (mn > 1 - 1e-6)) sim_fail("self-avoiding", "least distance %.9g in %d components is called %s", mn, nc, got ? "self-avoiding" : "not self-avoiding"); sim_count(1); break; }
      }
      if (L) { sim_state(hash_curve(L)); sim_count(1); plc_free(L); } }
    gsl_rng_free(r); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leaks(mark);
}
// ------------------------------------------------------------ C12
struct Obs { std::vector<u64> h; };
static double f_gyr(plCurve *L, void *a) { *(u64 *)a = hash_curve(L) ^ (*(u64 *)a * 31); return plc_gyradius(L); }
static double f_curv(plCurve *L, void *a) { *(u64 *)a = hash_curve(L) ^ (*(u64 *)a * 31); return plc_totalcurvature(L, NULL); }
static void sample(gsl_rng *r, int op, int n, int steps, Obs &o) {
  plCurve *L = NULL; auto fin = [&](double x) { o.h.push_back(hash_bytes(&x, 8)); };
  switch (op) {
  case 0: L = plc_random_closed_polygon(r, n); break; case 1: L = plc_random_open_polygon(r, n); break; case 2: L = plc_random_closed_plane_polygon(r, n); break; case 3: L = plc_random_open_plane_polygon(r, n); break;
  case 4: L = plc_random_equilateral_closed_polygon(r, n < 4 ? 4 : n); break; case 5: L = plc_random_equilateral_open_polygon(r, n); break;
  case 6: { uint64_t *x = plc_xoshiro_init(gsl_rng_get(r)); L = plc_random_equilateral_closed_self_avoiding_polygon(x, 5 + n % 6); for (int i = 0; i < 4; i++) o.h.push_back(x[i]); plc_xoshiro_free(x); break; }
  case 7: { plCurve *P = plc_random_closed_polygon(r, n + 4); bool t = true; int nv = n, cc = 0; L = plc_new(1, &nv, &t, &cc); for (int i = 0; i < nv; i++) L->cp[0].vt[i] = P->cp[0].vt[i]; plc_fix_wrap(L); plCurve *C = plc_loop_closure(r, 0, L, n + 7); o.h.push_back(C ? hash_curve(C) : 0); if (C) plc_free(C); plc_free(P); break; }
  case 8: { plc_vector v = plc_build_vect(1, 2, 3); for (int q = 0; q < 3; q++) { plc_perturb_vect(r, &v, 2); o.h.push_back(hash_bytes(v.c, 24)); } break; }
  case 9: case 10: case 11: { tsmcmc_run_parameters p; memset(&p, 0, sizeof p); p.burn_in = 5; p.delta = 0.3; p.beta = 0.5; p.moment_polytope_repeat = 2; p.log_interval = 1; u64 a = 1; double err = 0; int m = std::max(5, n % 14 + 5); tsmcmc_run_stats st; memset(&st, 0, sizeof st);
    if (op == 10) fin(tsmcmc_confined_equilateral_expectation(r, f_curv, &a, 2.5, m, steps, 1000000, p, &st, &err)); else { tsmcmc_triangulation_t T = n % 3 == 0 ? tsmcmc_random_triangulation(r, m) : n % 3 == 1 ? tsmcmc_spiral_triangulation(m) : tsmcmc_fan_triangulation(m); fin(op == 9 ? tsmcmc_equilateral_expectation(r, f_gyr, &a, steps, 1000000, T, p, &st, &err) : tsmcmc_fixed_ftc_expectation(r, f_gyr, &a, 1.5, steps, 1000000, T, p, &st, &err)); tsmcmc_triangulation_free(T); }
    fin(err); o.h.push_back(a); o.h.push_back(st.dihedral_steps * 1000003u + st.mp_steps * 1009u + st.permute_steps); break; } }
  if (L) { o.h.push_back(hash_curve(L)); plc_free(L); }
}
void run_C12() {
  struct Op { int op, n, steps; }; std::vector<Op> ops; int k = chr(1, 5); for (int i = 0; i < k; i++) { Op o; o.op = ch(12); o.n = chance(1, 6) ? chr(30, 300) : chr(4, 24); o.steps = chr(8, 120); ops.push_back(o); } int gen = ch(4); u32 seed = ch(1u << 30);
  const gsl_rng_type *ty[] = {gsl_rng_mt19937, gsl_rng_ranlxs0, gsl_rng_taus2, &sr_type}; for (auto &o : ops) ev("sampler %d, %d edges, %d steps", o.op, o.n, o.steps); ev("generator %d seed %u", gen, seed);
  std::vector<Obs> all; std::vector<std::vector<u64>> gs;
  auto world = [&](int w) { // everything but the generator differs from world to world
    alloc_reset(); A.track = true; A.poison = true; A.poison_mode = w == 0 ? 1 : ch(5); A.poison_seed = ch(1000); libc_rand_state = ch(1 << 20); CK.on = true; CK.now = 0; CK.calls = 0; long st = w == 0 ? 10 : (long)ch(400000); CK.step = [st](long) { return st; }; CK.t = 1600000000 + (long)ch(1 << 28); sim_fault(F_LIBC_RAND); sim_fault(F_HEAP_GARBAGE); if (w) sim_fault(F_CLOCK_SLOW);
    int between = w == 0 ? 0 : ch(3); bool twin = w > 0 && chance(1, 2);
    auto body = [&] { gsl_rng *r = gsl_rng_alloc(ty[gen]), *o = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(r, seed); gsl_rng_set(o, 77 + w); Obs ob, junk;
      for (int i = 0; i < between; i++) sample(o, ch(12), chr(4, 20), 10, junk);
      for (auto &p : ops) { if (twin) { sim_fault(F_INTERLEAVE); sample(o, ch(12), chr(4, 20), 10, junk); } sample(r, p.op, p.n, p.steps, ob); if (w && chance(1, 3)) { A.poison_mode = ch(5); libc_rand_state = ch(1 << 20); srand(ch(1000)); } }
      std::vector<u64> g; for (int i = 0; i < 4; i++) g.push_back(gsl_rng_get(r)); all.push_back(ob); gs.push_back(g); gsl_rng_free(r); gsl_rng_free(o); };
    Death d = sim_guard(body); if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code); };
  int worlds = 2 + ch(2); for (int w = 0; w < worlds; w++) world(w);
  for (int w = 1; w < worlds; w++) { if (all[w].h.size() != all[0].h.size()) sim_fail("differs", "another number of results"); for (size_t i = 0; i < all[0].h.size(); i++) if (all[w].h[i] != all[0].h[i]) sim_fail("differs", "result %zu of the same samplers and seed differs (first sampler %d)", i, ops[0].op); if (gs[w] != gs[0]) sim_fail("consumed", "the generator was left in another state"); sim_count(all[0].h.size()); }
  for (u64 h : all[0].h) sim_state(h);
}
// ------------------------------------------------------------ C14
// own estimate of the error: Geyer's initial positive sequence
void ips_ref(const std::vector<double> &d, double &mean, double &err, bool &frail) {
  size_t m = d.size(); long double s = 0; for (double x : d) s += x; mean = m ? (double)(s / m) : 0; std::vector<double> z(m); for (size_t i = 0; i < m; i++) z[i] = d[i] - mean; auto g = [&](size_t k) { long double t = 0; for (size_t i = 0; i + k < m; i++) t += z[i] * z[i + k]; return (double)(t / m); };
  double g0 = g(0), g1 = m > 1 ? g(1) : 0, sum = 0; frail = false; for (size_t k = 1; k < m / 2; k++) { double G = g(2 * k) + g(2 * k + 1); if (fabs(G) < 1e-9 * (g0 + 1e-30)) frail = true; if (G <= 0) break; sum += G; }
  double v = g0 + 2 * g1 + 2 * sum; if (fabs(v) < 1e-9 * (g0 + 1e-30)) frail = true; err = 1.96 * sqrt(v >= 0 ? v : g0) / sqrt((double)m);
}
struct Watch { std::vector<double> val; int kind, n; double ftc, radius; long calls; std::function<void(plCurve *)> check; Rng g; int fmode; };
static double watch(plCurve *L, void *a) { Watch *w = (Watch *)a; w->calls++; w->check(L); double v = 0; switch (w->fmode) { case 0: v = plc_gyradius(L); break; case 1: v = (w->calls % 7) < 3; break; case 2: v = 1e6 + w->g.uni(); break; case 3: v = 2; break; case 4: v = L->cp[0].vt[2].c[0] * L->cp[0].vt[w->n - 1].c[1]; break; } w->val.push_back(v); return v; }
static void check_triangulation(const char *w, const tsmcmc_triangulation_t &T, int n) {
  if (T.nedges != n || T.ntri != n - 2 || T.ndiags != n - 3) sim_fail("triangulation", "%s: %d edges, %d triangles, %d diagonals for %d", w, T.nedges, T.ntri, T.ndiags, n);
  std::map<std::pair<int, int>, int> use; for (int i = 0; i < n; i++) { int a = T.edges[i].vt[0], b = T.edges[i].vt[1]; if (a != i || b != (i + 1) % n) sim_fail("triangulation", "%s: edge %d joins %d and %d", w, i, a, b); }
  std::vector<std::pair<int, int>> D; for (int i = 0; i < T.ndiags; i++) { int a = std::min(T.diags[i].vt[0], T.diags[i].vt[1]), b = std::max(T.diags[i].vt[0], T.diags[i].vt[1]); if (a < 0 || b >= n || b - a < 2 || (a == 0 && b == n - 1)) sim_fail("triangulation", "%s: diagonal %d joins %d and %d", w, i, a, b); D.push_back({a, b}); }
  for (size_t i = 0; i < D.size(); i++) for (size_t j = 0; j < i; j++) { auto x = D[i], y = D[j]; if (x == y || (x.first < y.first && y.first < x.second && x.second < y.second) || (y.first < x.first && x.first < y.second && y.second < x.second)) sim_fail("triangulation", "%s: diagonals %zu and %zu cross or repeat", w, i, j); }
  std::vector<int> reached(T.ntri, 0); for (int t = 0; t < T.ntri; t++) { auto &q = T.triangles[t]; int c[3] = {q.parent_chord, q.daughter_chord[0], q.daughter_chord[1]}; chordtype_t ty[3] = {q.parent_type, q.daughter_type[0], q.daughter_type[1]}; std::map<int, int> v; for (int k = 0; k < 3; k++) { if (c[k] < 0 || c[k] >= (ty[k] == edge ? n : T.ndiags)) sim_fail("triangulation", "%s: triangle %d has chord %d", w, t, c[k]); const tsmcmc_chord_t &h = ty[k] == edge ? T.edges[c[k]] : T.diags[c[k]]; v[h.vt[0]]++; v[h.vt[1]]++; use[{ty[k], c[k]}]++; } if (v.size() != 3) sim_fail("triangulation", "%s: the chords of triangle %d do not close up", w, t); for (auto &x : v) if (x.second != 2) sim_fail("triangulation", "%s: the chords of triangle %d do not close up", w, t);
    for (int k = 0; k < 2; k++) { int dt = q.daughter_tri[k]; if (q.daughter_type[k] == edge) { if (dt != -1) sim_fail("triangulation", "%s: an edge has a triangle behind it", w); } else { if (dt < 0 || dt >= T.ntri || T.triangles[dt].parent_type != diagonal || T.triangles[dt].parent_chord != q.daughter_chord[k]) sim_fail("triangulation", "%s: diagonal %d of triangle %d leads to the wrong triangle", w, q.daughter_chord[k], t); reached[dt]++; } } }
  for (int t = 0; t < T.ntri; t++) if (reached[t] != (t ? 1 : 0)) sim_fail("triangulation", "%s: triangle %d is reached %d times", w, t, reached[t]); for (auto &u : use) if (u.second != (u.first.first == edge ? 1 : 2)) sim_fail("triangulation", "%s: a chord lies in %d triangles", w, u.second);
  if (!tsmcmc_triangulation_ok(T)) sim_fail("triangulation", "%s: refused by the library's own check", w);
}
static tsmcmc_triangulation_t some_triangulation(gsl_rng *r, int n) { int k = ch(4); ev("triangulation %d of %d", k, n); tsmcmc_triangulation_t T = k == 0 ? tsmcmc_fan_triangulation(n) : k == 1 ? tsmcmc_spiral_triangulation(n) : k == 2 ? tsmcmc_teeth_triangulation(n) : tsmcmc_random_triangulation(r, n); check_triangulation((const char *[]){"fan", "spiral", "teeth", "random"}[k], T, n); sim_count(1); return T; }
static void run_expectation() {
  gsl_rng *r = new_stream(chance(1, 2), true); Watch w; w.calls = 0; w.g = subrng(); w.kind = ch(3); w.fmode = pick({3, 2, 2, 1, 2}); w.n = chr(4, 24); if (chance(1, 8)) w.n = chr(60, 120); int steps = chance(1, 8) ? chr(1500, 5000) : chr(3, 300); if (w.n > 50) steps = std::min(steps, 60); w.ftc = w.n > 4 ? 0.3 + 1.2 * w.g.uni() : 0.5 + w.g.uni(); w.radius = (double[]){1.01, 1.5, 2, 3, 10}[ch(5)];
  tsmcmc_run_parameters p; memset(&p, 0, sizeof p); p.burn_in = 1 + ch(std::min(steps - 1, 200)); p.delta = (double[]){0, 0.3, 0.9, 1}[ch(4)]; p.beta = (double[]){0.5, 0, 0.2, 1}[ch(4)]; p.moment_polytope_repeat = chr(1, 10); p.log_interval = chr(1, 5); std::string log; bool logged = chance(1, 3);
  if (p.burn_in >= steps) p.burn_in = steps - 1; if (p.burn_in < 1) p.burn_in = 1; if (steps <= p.burn_in) steps = p.burn_in + 1;
  int secs = chr(1, 50); bool timed = chance(1, 3); long jump_at = timed ? 1 + ch(steps / 1000 + 2) : -1; std::vector<long> rd; CK.on = true; CK.calls = 0; CK.now = chance(1, 3) ? 4000000000L : 500; long tick = chance(1, 4) ? 0 : 1 + ch(3000); CK.step = [&](long n) { long s = n == jump_at ? secs * 1000000L + (long)ch(3) : tick; rd.push_back(CK.now + s); return s; }; if (timed) sim_fault(F_CLOCK_JUMP); else if (tick == 0) sim_fault(F_CLOCK_SLOW);
  double tol = 1e-6; int last_ok = 0; (void)last_ok;
  w.check = [&](plCurve *L) { wellformed("chain", L, w.n, false); edges_are("chain", L, 1, tol, w.kind == 2 ? w.ftc : -1); if (w.kind == 1) for (int i = 0; i < w.n; i++) if (dist(at(L, 0, i), at(L, 0, 0)) > w.radius + tol) sim_fail("confinement", "vertex %d is %.9g from vertex 0, radius %g", i, dist(at(L, 0, i), at(L, 0, 0)), w.radius); };
  ev("%s chain: %d edges, %d steps, burn in %d, delta %g beta %g repeat %d, %d s%s", (const char *[]){"equilateral", "confined", "fixed gap"}[w.kind], w.n, steps, p.burn_in, p.delta, p.beta, p.moment_polytope_repeat, secs, timed ? ", clock jumps" : ""); if (w.kind == 2) ev("gap %.4g", w.ftc); if (w.kind == 1) ev("radius %.4g", w.radius);
  FS.on = false; FILE *lf = NULL; if (logged) { disk.reset(); FS.on = true; FS.wp = choose_write_plan(chance(1, 2)); FS.wp.crash_op = -1; lf = sim_fopen("chain.log", "w"); p.logfile = lf; ev("log every %d", p.log_interval); }
  tsmcmc_run_stats st; memset(&st, 0x5a, sizeof st); double err = -7, got; bool wants = chance(3, 4), wants_st = chance(3, 4); int every = p.log_interval;
  if (w.kind == 1) got = tsmcmc_confined_equilateral_expectation(r, watch, &w, w.radius, w.n, steps, secs, p, wants_st ? &st : NULL, wants ? &err : NULL);
  else { tsmcmc_triangulation_t T = some_triangulation(r, w.n); CK.calls = 0; rd.clear(); got = w.kind == 0 ? tsmcmc_equilateral_expectation(r, watch, &w, steps, secs, T, p, wants_st ? &st : NULL, wants ? &err : NULL) : tsmcmc_fixed_ftc_expectation(r, watch, &w, w.ftc, steps, secs, T, p, wants_st ? &st : NULL, wants ? &err : NULL); tsmcmc_triangulation_free(T); }
  if (lf) { fclose(lf); log = disk.get("chain.log"); FS.on = false; }
  // how many steps should have been made: the clock is consulted at least every 1000 steps
  bool over = false; long first = rd.empty() ? 0 : rd[0]; for (long v : rd) if (v - first >= secs * 1000000L) over = true; long most = std::max(0, steps - p.burn_in - 1);
  if (w.calls > most) sim_fail("steps", "%ld samples from %d steps with %d burn in", w.calls, steps, p.burn_in); if (!over && w.calls != most) sim_fail("steps", "%ld samples from %d steps with %d burn in, although time was left", w.calls, steps, p.burn_in);
  if (timed && jump_at > 1 && jump_at <= (long)rd.size() && over && wants_st && (long)st.dihedral_steps + st.mp_steps + st.permute_steps > 1000 * (jump_at - 1) + 1001) sim_fail("overrun", "%d steps after the clock passed the limit at reading %ld", st.dihedral_steps + st.mp_steps + st.permute_steps, jump_at);
  if (wants_st) { long tot = (long)st.dihedral_steps + st.mp_steps + st.permute_steps; if (tot > steps || (!over && tot != steps) || st.dihedral_steps < 0 || st.mp_steps < 0 || st.permute_steps < 0) sim_fail("stats", "%ld steps counted of %d", tot, steps); if (w.calls && tot - p.burn_in - 1 != w.calls) sim_fail("stats", "%ld steps counted, %ld samples, burn in %d", tot, w.calls, p.burn_in); if (w.kind == 1 && st.permute_steps) sim_fail("stats", "permutation steps in confinement"); if (w.kind != 1 && p.delta == 1 && st.permute_steps != tot) sim_fail("stats", "%d permutation steps of %ld at delta 1", st.permute_steps, tot); if (w.kind != 1 && p.delta == 0 && st.permute_steps) sim_fail("stats", "permutation steps at delta 0"); }
  double mean, re; bool frail; ips_ref(w.val, mean, re, frail); if (over) sim_probe("time limit hit"); if (w.calls == 0) { sim_probe("no samples"); if (got != 0) sim_fail("mean", "no samples, mean %g", got); return gsl_rng_free(r); }
  if (!feq(got, mean, 1e-9, 1e-12)) sim_fail("mean", "mean %.15g of %ld samples, expected %.15g", got, w.calls, mean); if (wants && w.fmode != 3 && !frail && !feq(err, re, 1e-5, 1e-9 * fabs(mean))) sim_fail("error-bar", "error %.15g for %ld samples, expected %.15g", err, w.calls, re); if (wants && w.fmode == 3 && !(err >= 0 && err < 1e-6)) sim_fail("error-bar", "error %g for constant samples", err);
  if (logged && FS.wp.nospace_after < 0 && FS.wp.eio_op < 0) { long lines = std::count(log.begin(), log.end(), '\n'); long want = 0; long done = w.calls + p.burn_in + 1; for (long i = 0; i < done; i++) if (i % every == 0 && (w.kind == 1 || i > p.burn_in)) want++; if (lines != want) sim_fail("log", "%ld log lines, expected %ld", lines, want); for (long i = 0, c = 0; i < done; i++) if (i % every == 0 && (w.kind == 1 || i > p.burn_in)) { char b[60]; snprintf(b, 60, "{ \"step number\"->%ld, ", i); size_t q = log.find(b); if (q == std::string::npos) sim_fail("log", "step %ld is not logged", i); c++; if (c > 3) break; } sim_probe("log complete"); }
  sim_count(w.calls); sim_state(hash_bytes(&got, 8)); gsl_rng_free(r);
}
static void tensor(plCurve *L, double &t2, double &t3) { double M[3][3] = {{0}}; int n = L->cp[0].nv; for (int i = 0; i < n; i++) { V3 a = at(L, 0, i), b = at(L, 0, (i + 1) % n); for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) M[j][k] += (b[j] - a[j]) * (b[k] - a[k]); } double P[3][3] = {{0}}; t2 = t3 = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) P[i][j] += M[i][k] * M[k][j]; for (int i = 0; i < 3; i++) { t2 += P[i][i]; for (int k = 0; k < 3; k++) t3 += P[i][k] * M[k][i]; } }
static void run_steps() {
  gsl_rng *r = new_stream(chance(1, 2), true); int n = chr(4, 20), kind = ch(3); double ftc = 0.4 + 0.1 * ch(11), R = (double[]){1.05, 1.5, 3}[ch(3)]; tsmcmc_triangulation_t T; double *e, *g, *h; if (kind == 1) { T = tsmcmc_fan_triangulation(n); tsmcmc_confined_equilateral_ngon(r, T, R, &e, &g, &h); } else { T = some_triangulation(r, n); if (kind == 0) tsmcmc_equilateral_ngon(r, T, &e, &g, &h); else tsmcmc_failure_to_close_ngon(r, T, ftc, &e, &g, &h); }
  ev("steps: kind %d, %d edges", kind, n); int steps = chr(1, 40); auto tri_ok = [&] { for (int t = 0; t < T.ntri; t++) { auto &q = T.triangles[t]; double s[3] = {q.parent_type == edge ? e[q.parent_chord] : g[q.parent_chord], q.daughter_type[0] == edge ? e[q.daughter_chord[0]] : g[q.daughter_chord[0]], q.daughter_type[1] == edge ? e[q.daughter_chord[1]] : g[q.daughter_chord[1]]}; for (int k = 0; k < 3; k++) if (!(s[k] <= s[(k + 1) % 3] + s[(k + 2) % 3] + 1e-7)) sim_fail("polytope", "a triangle with sides %.9g %.9g %.9g", s[0], s[1], s[2]); } if (kind == 1) for (int i = 0; i < T.ndiags; i++) if (!(g[i] <= R + 1e-9)) sim_fail("confinement", "diagonal %.9g, radius %g", g[i], R); };
  tri_ok();
  for (int k = 0; k < steps; k++) { std::vector<double> e0(e, e + n), g0(g, g + T.ndiags), h0(h, h + T.ndiags); plCurve *B = tsmcmc_embed_polygon(T, e, g, h); if (!B) sim_fail("embed", "no polygon for lengths inside the polytope"); int op = ch(3); ev("step %d", op);
    if (op == 0) { if (kind == 1) tsmcmc_confined_moment_polytope_step(r, T, R, e, g); else tsmcmc_moment_polytope_step(r, T, e, g); if (memcmp(&h0[0], h, 8 * h0.size())) sim_fail("step", "a moment polytope step changed angles"); } else if (op == 1) { tsmcmc_dihedrals_step(r, T, h); if (memcmp(&g0[0], g, 8 * g0.size())) sim_fail("step", "an angle step changed lengths"); for (int i = 0; i < T.ndiags; i++) if (!(h[i] >= 0 && h[i] <= 6.2831853072)) sim_fail("step", "angle %g", h[i]); } else if (kind != 1) tsmcmc_edgepermute_step(r, T, e, g, h);
    for (int i = 0; i < n; i++) if (!(fabs(e[i] - e0[i]) < 1e-6)) sim_fail("step", "edge %d changed from %.9g to %.9g", i, e0[i], e[i]);
    tri_ok(); plCurve *L = tsmcmc_embed_polygon(T, e, g, h); if (!L) sim_fail("embed", "no polygon for lengths inside the polytope"); wellformed("embedding", L, n, false); for (int i = 0; i < n; i++) if (!(fabs(dist(at(L, 0, i), at(L, 0, (i + 1) % n)) - e[i]) < 1e-6)) sim_fail("embed", "edge %d has length %.9g instead of %.9g", i, dist(at(L, 0, i), at(L, 0, (i + 1) % n)), e[i]); for (int i = 0; i < T.ndiags; i++) if (!(fabs(dist(at(L, 0, T.diags[i].vt[0]), at(L, 0, T.diags[i].vt[1])) - g[i]) < 1e-6)) sim_fail("embed", "diagonal %d has length %.9g instead of %.9g", i, dist(at(L, 0, T.diags[i].vt[0]), at(L, 0, T.diags[i].vt[1])), g[i]);
    // action-angle coordinates are singular where a diagonal vanishes or a triangle is flat
    bool singular = false; for (int i = 0; i < T.ndiags; i++) if (g[i] < 1e-3) singular = true; for (int t = 0; t < T.ntri; t++) { auto &q = T.triangles[t]; double s[3] = {q.parent_type == edge ? e[q.parent_chord] : g[q.parent_chord], q.daughter_type[0] == edge ? e[q.daughter_chord[0]] : g[q.daughter_chord[0]], q.daughter_type[1] == edge ? e[q.daughter_chord[1]] : g[q.daughter_chord[1]]}; for (int m = 0; m < 3; m++) if (s[m] > s[(m + 1) % 3] + s[(m + 2) % 3] - 1e-5) singular = true; }
    if (op == 2 && kind != 1 && !singular) { double a, b, c, d; tensor(B, a, b); tensor(L, c, d); if (!feq(a, c, 1e-5) || !feq(b, d, 1e-5)) sim_fail("permute", "the edges after a permutation are not those before"); sim_probe("permuted"); }
    // the coordinates of the polygon are the ones it was built from
    bool df[200] = {false}; std::vector<double> h2(T.ndiags + 1); tsmcmc_compute_dihedral_angles(L, T, &h2[0], df); double gm = 1e9; for (int i = 0; i < T.ndiags; i++) gm = std::min(gm, g[i]); if (gm > 0.05) for (int i = 0; i < T.ndiags; i++) if (df[i]) { bool thin = false; for (int t = 0; t < T.ntri; t++) { auto &q = T.triangles[t]; double s[3] = {q.parent_type == edge ? e[q.parent_chord] : g[q.parent_chord], q.daughter_type[0] == edge ? e[q.daughter_chord[0]] : g[q.daughter_chord[0]], q.daughter_type[1] == edge ? e[q.daughter_chord[1]] : g[q.daughter_chord[1]]}; for (int m = 0; m < 3; m++) if (s[m] > s[(m + 1) % 3] + s[(m + 2) % 3] - 0.01) thin = true; } if (thin) break; double df2 = fabs(remainder(h2[i] - h[i], 2 * M_PI)); if (!(df2 < 1e-4)) sim_fail("angles", "angle %d is %.9g, built from %.9g", i, h2[i], h[i]); sim_probe("angles compared"); }
    sim_state(hash_curve(L)); plc_free(L); plc_free(B); sim_count(1); }
  free(e); free(g); free(h); tsmcmc_triangulation_free(T); gsl_rng_free(r);
}
static void run_chain_moments() {
  // the measure on polygons is invariant under permuting the unit edges, which fixes the mean squared chords
  gsl_rng *r = new_stream(false); int n = chr(4, 8), kind = ch(3), steps = 9000, B = 30, burn = 299; double ftc = n > 4 ? 0.3 + 0.2 * ch(8) : 0.5 + 0.2 * ch(6); tsmcmc_run_parameters p; memset(&p, 0, sizeof p); p.burn_in = burn; p.delta = (double[]){0, 0.3, 0.6}[ch(3)]; p.beta = (double[]){0.5, 0.3, 0.7}[ch(3)]; p.moment_polytope_repeat = chr(2, 10); if (kind == 2 && p.delta == 0) p.moment_polytope_repeat = 10; CK.step = [](long) { return 0L; };
  ev("chain moments: kind %d, %d edges, delta %g beta %g", kind, n, p.delta, p.beta); struct S { int n; long c; std::vector<std::vector<std::vector<Mean>>> m; } S; S.n = n; S.c = 0; S.m.assign(n, std::vector<std::vector<Mean>>(n + 1, std::vector<Mean>(B))); int per = (steps - burn - 1) / B;
  struct F { static double f(plCurve *L, void *a) { struct S2 { int n; long c; std::vector<std::vector<std::vector<Mean>>> m; } *s = (S2 *)a; long b = s->c++ / 290; if (b < 30) for (int i = 0; i < s->n; i++) for (int k = 1; i + k <= s->n; k++) { double d = dist(at(L, 0, i), at(L, 0, (i + k) % s->n)); s->m[i][k][b].add(d * d); } return dist(at(L, 0, 0), at(L, 0, 2)); } }; (void)per;
  if (kind == 1) tsmcmc_confined_equilateral_expectation(r, F::f, &S, n, n, steps, 100, p, NULL, NULL); else { tsmcmc_triangulation_t T = some_triangulation(r, n); if (kind == 0) tsmcmc_equilateral_expectation(r, F::f, &S, steps, 100, T, p, NULL, NULL); else tsmcmc_fixed_ftc_expectation(r, F::f, &S, ftc, steps, 100, T, p, NULL, NULL); tsmcmc_triangulation_free(T); }
  // edge 0 is the gap of kind 2: chords over k unit edges that do not contain it
  for (int i = kind == 2; i < n; i++) for (int k = 2; i + k <= n && k <= (kind == 2 ? n - 2 : n - 2); k++) { Mean t; for (int b = 0; b < B; b++) t.add(S.m[i][k][b].mean()); double m = kind == 2 ? n - 1 : n, f = kind == 2 ? ftc : 0, w = k + k * (k - 1) * (f * f - m) / (m * (m - 1)); if (!(fabs(t.mean() - w) <= 9 * t.se() + 0.01)) sim_fail("distribution", "kind %d, %d edges: mean squared chord from %d over %d edges is %.5g +- %.2g, expected %.5g", kind, n, i, k, t.mean(), t.se(), w); }
  sim_probe("chain distribution compared"); sim_count(steps); gsl_rng_free(r);
}
void run_C14() {
  heap_chaos(); CK.on = true; CK.step = [](long) { return 10L; }; size_t mark = alloc_mark(); bool which = chance(1, 3), mom = chance(1, 40);
  Death d = sim_guard([&] { if (mom) run_chain_moments(); else if (which) run_steps(); else run_expectation(); }); FS.on = false;
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leaks(mark);
}
// ------------------------------------------------------------ C21
void run_C21() {
  heap_chaos(); CK.on = true; long tick = ch(5000); CK.step = [tick](long) { return tick; }; size_t mark = alloc_mark();
  int bs = pick({3, 2, 1}) == 0 ? chr(60, 130) : chr(131, 600), kind = ch(6), n = chr(0, 40); Rng g = subrng(); int rounds = chr(1, 5); double off = (double[]){0, 1, 1000, -3}[ch(4)], rho = (double[]){0.3, 0.8, 0.95, -0.4}[ch(4)];
  Death d = sim_guard([&] {
    geyer_ips_t *G = geyer_ips_new(bs); std::vector<double> all; double x = 0; ev("buffer %d kind %d offset %g rho %g", bs, kind, off, rho);
    for (int k = 0; k < rounds; k++) { n = pick({2, 3, 2, 1}) == 0 ? chr(0, 10) : chance(1, 3) ? bs - (int)(all.size() % bs) + chr(-1, 1) : chr(1, 3 * bs); if (n < 0) n = 0; for (int i = 0; i < n; i++) { double u = 0; for (int q = 0; q < 12; q++) u += g.uni(); u -= 6; switch (kind) { case 0: x = rho * x + u; break; case 1: x = u; break; case 2: x = (all.size() / 5) % 2; break; case 3: x = all.size() % 2; break; case 4: x = rho * x + u * (all.size() % 50 == 0 ? 20 : 1); break; case 5: x = 0; break; } all.push_back(x + off); geyer_ips_add(G, x + off); }
      double err = -1; bool ok = chance(1, 2); double m = geyer_ips_value(G, chance(1, 5) ? NULL : &err, &ok); double mean, re; bool frail; ips_ref(all, mean, re, frail); ev("%zu samples: ok %d", all.size(), ok);
      if (all.size() > (size_t)bs) sim_probe("buffer filled"); if (all.size() > 2 * (size_t)bs) sim_probe("buffer filled twice"); if (all.size() == (size_t)bs) sim_probe("buffer exactly full"); if (all.empty()) { if (m != 0) sim_fail("mean", "mean %g of nothing", m); continue; }
      if (!feq(m, mean, 1e-9, 1e-9)) sim_fail("mean", "mean %.15g of %zu samples, expected %.15g", m, all.size(), mean); if (err < -0.5 && !(err != err)) { sim_count(1); continue; }
      if (all.size() <= (size_t)bs && !ok) sim_fail("not-ok", "no error estimate although all %zu samples are in the buffer", all.size()); if (ok && kind != 5 && !frail && kind != 3) { if (!feq(err, re, 1e-4, 1e-7 * (1 + fabs(off)))) sim_fail("error-bar", "error %.12g for %zu samples (buffer %d), expected %.12g", err, all.size(), bs, re); sim_probe("error compared"); }
      sim_count(1); sim_state(hash_u64(all.size(), hash_u64(bs, kind))); }
    // the plain functions agree
    if (!all.empty()) { double e2, mean, re; bool frail; double m2 = ips_value(&all[0], all.size(), &e2); ips_ref(all, mean, re, frail); if (!feq(m2, mean, 1e-9, 1e-9)) sim_fail("mean", "ips_value: mean %.15g, expected %.15g", m2, mean); if (kind != 5 && kind != 3 && !frail && !feq(e2, re, 1e-4, 1e-7 * (1 + fabs(off)))) sim_fail("error-bar", "ips_value: error %.12g for %zu samples, expected %.12g", e2, all.size(), re); }
    geyer_ips_free(&G); if (G) sim_fail("free", "pointer not cleared"); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leaks(mark);
}
