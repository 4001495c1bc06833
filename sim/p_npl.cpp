// C25 curves in n dimensions (libnplCurve): files, damage, operations.
#include "sim.h"
#include "plCurve.h"
#include <functional>
#include "nplCurve.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <float.h>
double gen_double(Rng &r, int style);
typedef std::vector<double> V;
struct NCp { std::vector<V> vt; bool open; std::vector<nplc_color> clr; };
struct NC { int dim; std::vector<NCp> cp; };
static NC gen(int maxc, int maxv, int style, bool wide) {
  NC m; m.dim = wide ? chr(100, 900) : pick({1, 2}) ? chr(1, 9) : 3; int nc = chr(1, maxc);
  for (int i = 0; i < nc; i++) { NCp c; int nv = chr(1, wide ? 3 : maxv); c.open = nv < 3 ? true : chance(1, 2); Rng r = subrng(); for (int j = 0; j < nv; j++) { V v; for (int k = 0; k < m.dim; k++) v.push_back(gen_double(r, style)); c.vt.push_back(v); }
    int cc = pick({3, 2, 2, 1}), n = cc == 0 ? 0 : cc == 1 ? 1 : cc == 2 ? nv : chr(0, nv); for (int j = 0; j < n; j++) { nplc_color k = {r.uni(), r.uni(), r.uni(), r.below(2) ? 1.0 : r.uni()}; c.clr.push_back(k); } m.cp.push_back(c); }
  return m;
}
static nplCurve *make(const NC &m) {
  std::vector<int> nv, cc; bool op[64]; for (size_t i = 0; i < m.cp.size(); i++) { nv.push_back(m.cp[i].vt.size()); cc.push_back(m.cp[i].clr.size()); op[i] = m.cp[i].open; }
  nplCurve *L = nplc_new(m.dim, m.cp.size(), nv.data(), op, cc.data()); for (int i = 0; i < L->nc; i++) { for (int j = 0; j < L->cp[i].nv; j++) for (int k = 0; k < m.dim; k++) L->cp[i].vt[j].c[k] = m.cp[i].vt[j][k]; for (int j = 0; j < L->cp[i].cc; j++) L->cp[i].clr[j] = m.cp[i].clr[j]; }
  nplc_fix_wrap(L); return L;
}
static void structure(const char *w, nplCurve *L, int dim) {
  if (L->nc < 1 || !L->cp) sim_fail("structure", "%s: %d components", w, L->nc); if (L->cst) sim_fail("structure", "%s: constraints out of nowhere", w);
  for (int i = 0; i < L->nc; i++) { nplc_strand &s = L->cp[i]; if (s.nv < 1 || s.cc < 0) sim_fail("structure", "%s: component %d has %d vertices and %d colors", w, i, s.nv, s.cc);
    for (int j = -1; j <= s.nv; j++) { if (s.vt[j].n != dim || !s.vt[j].c) sim_fail("structure", "%s: vertex %d of component %d has dimension %d, expected %d", w, j, i, s.vt[j].n, dim); volatile double x = s.vt[j].c[dim - 1]; (void)x; }
    for (int j = 0; j < s.cc; j++) { volatile double x = s.clr[j].alpha; (void)x; }
    if (s.nv >= 3) { const nplc_vector &a = s.open ? s.vt[1] : s.vt[s.nv - 1], &b = s.open ? s.vt[s.nv - 2] : s.vt[0]; if (memcmp(a.c, s.vt[-1].c, dim * 8) || memcmp(b.c, s.vt[s.nv].c, dim * 8)) sim_fail("wrap", "%s: wrap-around vertices of component %d are wrong", w, i); } else if (!s.open) sim_fail("structure", "%s: closed component of %d vertices", w, s.nv); }
}
static void check(const char *w, nplCurve *L, const NC &m, double rel) {
  structure(w, L, m.dim); if (nplc_dim(L) != m.dim) sim_fail("dimension", "%s: dimension %d, expected %d", w, nplc_dim(L), m.dim); if (L->nc != (int)m.cp.size()) sim_fail("components", "%s: %d components, expected %zu", w, L->nc, m.cp.size());
  for (int i = 0; i < L->nc; i++) { const NCp &c = m.cp[i]; nplc_strand &s = L->cp[i]; if (s.nv != (int)c.vt.size() || s.open != c.open || s.cc != (int)c.clr.size()) sim_fail("shape", "%s: component %d has %d vertices, open %d, %d colors; expected %zu, %d, %zu", w, i, s.nv, s.open, s.cc, c.vt.size(), c.open, c.clr.size());
    for (int j = 0; j < s.nv; j++) for (int k = 0; k < m.dim; k++) if (!feq(s.vt[j].c[k], c.vt[j][k], rel, 0)) sim_fail("vertex", "%s: coordinate %d of vertex %d of component %d is %.17g, expected %.17g", w, k, j, i, s.vt[j].c[k], c.vt[j][k]);
    for (int j = 0; j < s.cc; j++) if (!feq(s.clr[j].r, c.clr[j].r, rel, 0) || !feq(s.clr[j].g, c.clr[j].g, rel, 0) || !feq(s.clr[j].b, c.clr[j].b, rel, 0) || !feq(s.clr[j].alpha, c.clr[j].alpha, rel, 0)) sim_fail("color", "%s: color %d of component %d differs", w, j, i); }
  sim_count(1);
}
static void save(nplCurve *L, const char *name) { FILE *f = sim_fopen(name, "w"); nplc_write(f, L); if (fclose(f)) sim_fail("write-error", "fclose failed without an injected fault"); }
static const double R16 = 1.2e-15;
static u64 shape(const NC &m) { u64 h = m.dim; for (auto &c : m.cp) h = (h * 131 + c.vt.size() * 2 + c.open) * 131 + c.clr.size(); return h; }
static void round_trip() {
  A.poison = true; A.poison_mode = pick({3, 1, 1, 1, 1}); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); bool wide = chance(1, 12); NC m = gen(5, chance(1, 10) ? 200 : 14, ch(5), wide); FS.wp = choose_write_plan(false);
  Death d = sim_guard([&] { nplCurve *L = make(m); check("before saving", L, m, 0); save(L, "c.nvect"); check("after saving", L, m, 0); nplc_free(L); }); if (d.how != O_RETURN) sim_fail("died", "saving: %s", d.msg.c_str());
  std::string bytes = disk.get("c.nvect"); sim_state(shape(m)); ev("saved %zu components in dimension %d, %zu bytes %016llx", m.cp.size(), m.dim, bytes.size(), (unsigned long long)hash_str(bytes)); if (m.dim == 3) sim_probe("ordinary VECT"); if (wide) sim_probe("many dimensions");
  d = sim_proc([&] { sim_fault(F_RESTART); FS.rp = choose_read_plan(false, bytes.size()); FS.rp_on = true; alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); size_t mark = alloc_mark(); FILE *f = sim_fopen("c.nvect", "r"); int e = -77; char es[512]; memset(es, 'z', sizeof es); nplCurve *L = nplc_read(f, &e, es, sizeof es); fclose(f);
    if (!L) sim_fail("refused", "own file refused: error %d %.200s", e, es); if (e != 0) sim_fail("error-code", "own file read but error code %d", e); check("after loading", L, m, R16); FS.wp = choose_write_plan(false); save(L, "d.nvect"); nplCurve *C = nplc_copy(L); nplc_free(L); check("copy of loaded", C, m, R16); nplc_free(C);
    if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); }); if (d.how != O_RETURN) sim_fail("died", "loading: %s", d.msg.c_str());
  d = sim_proc([&] { FS.rp = choose_read_plan(false, bytes.size()); FS.rp_on = true; FILE *f = sim_fopen("d.nvect", "r"); int e; char es[512]; nplCurve *L = nplc_read(f, &e, es, sizeof es); fclose(f); if (!L) sim_fail("refused", "second generation refused: error %d %.200s", e, es); check("second generation", L, m, 2 * R16); nplc_free(L);
    if (m.dim == 3) { bool ok = true; for (auto &c : m.cp) if (c.clr.size() > c.vt.size()) ok = false; f = sim_fopen("c.nvect", "r"); plCurve *P = plc_read(f, &e, es, sizeof es); fclose(f); if (ok && !P) sim_fail("vect", "the VECT file of a curve in three dimensions is no VECT file for plc_read: %.200s", es); if (P) { for (int i = 0; i < P->nc; i++) for (int j = 0; j < P->cp[i].nv; j++) for (int k = 0; k < 3; k++) if (!feq(P->cp[i].vt[j].c[k], m.cp[i].vt[j][k], R16, 0)) sim_fail("vect", "plc_read finds other vertices"); plc_free(P); } } });
  if (d.how != O_RETURN) sim_fail("died", "loading second generation: %s", d.msg.c_str());
}
static size_t last_required(const std::string &b, const NC &m) {
  std::vector<size_t> at; bool com = false; for (size_t i = 0; i < b.size();) { if (b[i] == '#') { com = true; i++; } else if (b[i] == '\n') { com = false; i++; } else if (com || isspace((unsigned char)b[i])) i++; else { at.push_back(i); while (i < b.size() && !isspace((unsigned char)b[i]) && b[i] != '#') i++; } }
  size_t need = 1 + 3 + 2 * m.cp.size(); for (auto &c : m.cp) need += m.dim * c.vt.size() + 4 * c.clr.size(); if (at.size() != need) sim_fail("format", "file holds %zu fields, curve needs %zu", at.size(), need); return at.back();
}
static void damaged() {
  A.limit = 8u << 20; NC m = gen(3, 8, ch(5), false); std::string bytes;
  Death d = sim_guard([&] { nplCurve *L = make(m); save(L, "c.nvect"); nplc_free(L); }); if (d.how != O_RETURN) sim_fail("died", "saving: %s", d.msg.c_str());
  bytes = disk.get("c.nvect"); size_t need = last_required(bytes, m); std::string data = bytes, what; ReadPlan rp; bool must_refuse = false, intact = false, whole = false;
  switch (pick({4, 4, 3, 2, 2})) {
  case 0: { size_t k = ch((u32)bytes.size() + 1); data = bytes.substr(0, k); sim_fault(F_TRUNCATE); must_refuse = k <= need; intact = k == bytes.size(); rp = choose_read_plan(false, data.size()); ev("truncated at %zu of %zu (last number at %zu)", k, bytes.size(), need); break; }
  case 1: { bool c; data = damage(bytes, &c, &what); intact = !c; rp = choose_read_plan(false, data.size()); ev("damaged: %s", what.c_str()); break; }
  case 2: { rp = choose_read_plan(true, bytes.size()); if (rp.eio_at <= (long)need && !rp.eio_transient) must_refuse = true; whole = true; if (rp.eio_at > (long)bytes.size()) intact = true; ev("read error at %ld transient %d", rp.eio_at, rp.eio_transient); break; }
  case 3: { size_t k = bytes.find("VECT"); static const char *kw[] = {"", "VEC", "vect", "OFF", "XVECT", "LIST", "VECY", "7", "0VECT", "-3VECT", "4VEC", "5", "4 VECT", "3VECTOR", "99999999999999999999999VEC"}; data = std::string(kw[ch(15)]) + " \n" + bytes.substr(k + 4); must_refuse = true; sim_fault(F_TOKEN_DAMAGE); rp = choose_read_plan(false, data.size()); ev("keyword replaced: %.8s", data.c_str()); break; }
  case 4: { bool c; data = damage(bytes, &c, &what); rp = choose_read_plan(true, data.size()); ev("damaged: %s and EIO at %ld", what.c_str(), rp.eio_at); break; }
  }
  if (data.find("Constraint ") != std::string::npos || data.find("Cst: ") != std::string::npos) sim_discard();
  size_t esl = pick({3, 1, 1}) == 0 ? 512 : 1 + ch(40); sim_state(hash_str(data)); size_t mark = alloc_mark(); A.refused = 0;
  d = sim_guard([&] { FILE *f = sim_open_bytes(data, rp); int e = -77; char *es = (char *)malloc(esl); memset(es, 'z', esl); nplCurve *L = nplc_read(f, &e, es, esl); fclose(f);
    if (!memchr(es, 0, esl)) sim_fail("message", "error string of %zu bytes is not terminated", esl);
    if (!L) { if (e == 0 || e == -77) sim_fail("no-error-code", "refused with error code %d", e); if (esl > 1 && !es[0]) sim_fail("message", "refused without a message (error %d)", e); if (intact) sim_fail("refused", "intact file refused: %d %s", e, es); ev("refused %d", e); sim_probe("refused"); }
    else { if (must_refuse) sim_fail("accepted-incomplete", "a curve was returned from an incomplete file"); if (e != 0) sim_fail("error-code", "a curve was returned with error code %d", e); structure("curve from damaged file", L, nplc_dim(L)); if (intact || whole) check("intact", L, m, R16); ev("accepted"); sim_probe("accepted"); nplc_free(L); } free(es); });
  sim_count(1); if (d.how != O_RETURN) { if (A.refused && d.how == O_ASSERT) { ev("stopped: out of memory"); sim_probe("out of memory stop"); return; } sim_fail(d.how == O_ASSERT ? "assert" : "died", "reading killed the process: %s (code %d)", d.msg.c_str(), d.code); }
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
static void same_vec(const char *w, nplc_vector g, const std::vector<long double> &e) { if (g.n != (int)e.size()) sim_fail("vector", "%s: dimension %d, expected %zu", w, g.n, e.size()); for (int i = 0; i < g.n; i++) { long double t = 4 * DBL_EPSILON * fabsl(e[i]) + 1e-300L; if (!(fabsl(g.c[i] - e[i]) <= t)) sim_fail("vector", "%s: coordinate %d is %.17g, expected %.17Lg", w, i, g.c[i], e[i]); } sim_count(1); }
static void vectors() {
  int n = chance(1, 15) ? chr(600, 1500) : chr(1, 9); Rng r = subrng(); int st = ch(3); auto gv = [&] { nplc_vector v = nplc_vect_new(n); if (v.n != n) sim_fail("vector", "new vector has dimension %d", v.n); for (int i = 0; i < n; i++) { if (v.c[i] != 0) sim_fail("vector", "new vector is not zero"); v.c[i] = st == 0 ? (int)r.below(9) - 4 : st == 1 ? r.uni() * 2 - 1 : (r.uni() - .5) * pow(10, (int)r.below(9) - 4); } return v; };
  nplc_vector a = gv(), b = gv(); V a0(a.c, a.c + n), b0(b.c, b.c + n); long double s = r.uni() * 4 - 2, t = r.uni() * 3, dot = 0, aa = 0, sd = 0; for (int i = 0; i < n; i++) { dot += (long double)a0[i] * b0[i]; aa += (long double)a0[i] * a0[i]; sd += ((long double)a0[i] - b0[i]) * ((long double)a0[i] - b0[i]); } s = (double)s; t = (double)t;
  auto each = [&](std::function<long double(int)> f) { std::vector<long double> e; for (int i = 0; i < n; i++) e.push_back(f(i)); return e; };
  auto near = [&](const char *w, double g, long double e, long double scale) { if (!(fabsl(g - e) <= scale * 1e-14L + 1e-300L)) sim_fail("vector", "%s is %.17g, expected %.17Lg", w, g, e); sim_count(1); };
  auto out = [&](const char *w, nplc_vector g, std::function<long double(int)> f) { same_vec(w, g, each(f)); nplc_vect_free(&g); if (g.c || g.n) sim_fail("vector", "%s: freed vector keeps its data", w); };
  auto lin = [&](const char *w, nplc_vector g, long double x, long double y) { if (g.n != n) sim_fail("vector", "%s: dimension %d", w, g.n); for (int i = 0; i < n; i++) near(w, g.c[i], x * a0[i] + y * b0[i], fabsl(x * a0[i]) + fabsl(y * b0[i])); nplc_vect_free(&g); };
  long double ab = 0, A2 = 0, B2 = 0; for (int i = 0; i < n; i++) { ab += fabsl((long double)a0[i] * b0[i]); A2 += (long double)a0[i] * a0[i]; B2 += (long double)b0[i] * b0[i]; }
  for (int k = chr(4, 16); k; k--) switch (ch(16)) {
    case 0: lin("sum", nplc_vect_sum(a, b), 1, 1); break; case 1: lin("difference", nplc_vect_diff(a, b), 1, -1); break; case 2: out("multiple", nplc_scale_vect(s, a), [&](int i) { return s * a0[i]; }); break; case 3: out("componentwise product", nplc_component_mult(a, b), [&](int i) { return (long double)a0[i] * b0[i]; }); break;
    case 4: { bool ok = 9, zero = false; for (int i = 0; i < n; i++) if (fabs(b0[i]) < DBL_EPSILON) zero = true; nplc_vector g = nplc_component_div(a, b, &ok); if (ok == zero) sim_fail("ok", "componentwise quotient says ok = %d", ok); if (ok) same_vec("componentwise quotient", g, each([&](int i) { return (long double)a0[i] / b0[i]; })); nplc_vect_free(&g); break; }
    case 5: lin("combination", nplc_vlincomb(s, a, t, b), s, t); break; case 6: lin("weighted sum", nplc_vweighted(s, a, b), 1 - s, s); break;
    case 7: { nplc_vector c = nplc_vect_new(n); nplc_vect_copy(c, a); nplc_vector g = nplc_vmadd(c, s, b); bool same = g.c == c.c; for (int i = 0; i < n; i++) near("A + sB", g.c[i], a0[i] + s * b0[i], fabsl(a0[i]) + fabsl(s * b0[i])); nplc_vect_free(&g); if (!same) nplc_vect_free(&c); break; }
    case 8: near("dot product", nplc_dot_prod(a, b), dot, ab * n); break; case 9: near("norm", nplc_norm(a), sqrtl(aa), sqrtl(aa) * n); break; case 10: near("distance", nplc_distance(a, b), sqrtl(sd), (sqrtl(A2) + sqrtl(B2)) * n); break; case 11: near("squared distance", nplc_sq_dist(a, b), sd, (A2 + B2) * n); break;
    case 12: { bool ok = 9; nplc_vector z = nplc_vect_new(n); if (chance(1, 4)) { nplc_vector g = nplc_normalize_vect(z, &ok); if (ok) sim_fail("ok", "zero vector normalised"); nplc_vect_free(&g); } else if (sqrtl(aa) > 1e-6) { nplc_vector g = nplc_normalize_vect(a, ch(2) ? &ok : NULL); for (int i = 0; i < n; i++) near("unit vector", g.c[i], a0[i] / sqrtl(aa), n); nplc_vect_free(&g); } nplc_vect_free(&z); break; }
    case 13: { bool ok = false; if (n < 2 || n > 9 || A2 < 1e-4 || B2 < 1e-4) break; double g = nplc_angle(a, b, &ok); if (!ok) sim_fail("ok", "no angle between nonzero vectors"); long double L2 = 0; for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) { long double x = (long double)a0[i] * b0[j] - (long double)a0[j] * b0[i]; L2 += x * x; } long double e = atan2l(sqrtl(L2), dot); if (fabsl(g - e) > 1e-7) sim_fail("vector", "angle %.17g, expected %.17Lg", g, e); break; }
    case 14: { bool eq = true; for (int i = 0; i < n; i++) if (fabs(a0[i] - b0[i]) > 1e-9) eq = false; if (!eq && nplc_vecteq(a, b)) sim_fail("vector", "different vectors are equal"); if (!nplc_vecteq(a, a)) sim_fail("vector", "a vector differs from itself"); nplc_vector c = nplc_vect_new(n); nplc_vect_copy(c, a); int k = ch(n); c.c[k] += chance(1, 2) ? 0.5 : -0.5; if (nplc_vecteq(a, c) || nplc_vecteq(c, a)) sim_fail("vector", "vectors differing in coordinate %d of %d are equal", k, n); nplc_vect_free(&c); break; }
    case 15: { std::string p = nplc_vect_print(a), c = nplc_vect_clist(a); if (n > 500) { if (p.size() >= 16000 || c.size() >= 16000) sim_fail("text", "%zu and %zu characters", p.size(), c.size()); break; } std::string e = "("; char x[40]; for (int i = 0; i < n; i++) { snprintf(x, 40, "%g%s", a0[i], i + 1 < n ? "," : ")"); e += x; } if (p != e) sim_fail("text", "printed %.80s, expected %.80s", p.c_str(), e.c_str()); const char *q = c.c_str(); for (int i = 0; i < n; i++) { char *z; double y = strtod(q, &z); if (z == q || !feq(y, a0[i], R16, 0)) sim_fail("text", "list %.80s", c.c_str()); q = z; } break; }
  }
  if (n >= 3 && n <= 6) { nplc_vector u = nplc_random_vect(n); near("norm of random vector", nplc_norm(u), 1, 1); nplc_vect_free(&u); } if (n == 4) { nplc_vector u = nplc_build_vect(4, 1.5, -2.0, 0.25, 8.0); same_vec("built vector", u, {1.5L, -2, .25L, 8}); nplc_vect_free(&u); } if (n < 20) { nplc_vector *q = nplc_vect_buf_new(n, 3); for (int i = 0; i < 3; i++) if (q[i].n != n) sim_fail("vector", "buffer entry of dimension %d", q[i].n); nplc_vect_buf_free(3, q); }
  for (int i = 0; i < n; i++) if (a.c[i] != a0[i] || b.c[i] != b0[i]) sim_fail("vector", "an operand was changed"); nplc_vect_free(&a); nplc_vect_free(&b);
}
static double seg(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrt(s); }
static void operations() {
  A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); size_t mark = alloc_mark(); int n = chr(2, 14);
  Death d = sim_guard([&] { std::vector<nplCurve *> L; std::vector<NC> m; m.reserve(16); int k0 = chr(1, 2); for (int i = 0; i < k0; i++) { m.push_back(gen(4, 12, 1 + ch(2), false)); L.push_back(make(m[i])); } if (k0 > 1) sim_fault(F_INTERLEAVE);
    for (int i = 0; i < n; i++) { int x = ch(L.size()); nplCurve *C = L[x]; NC &M = m[x]; int c = ch(M.cp.size()), nv = M.cp[c].vt.size(); NCp &q = M.cp[c];
      switch (pick({2, 2, 2, 3, 3, 2, 3, 1})) {
      case 0: { ev("copy"); nplCurve *D = nplc_copy(C); if (chance(1, 2)) { nplc_free(C); L[x] = D; } else if (L.size() < 4) { L.push_back(D); m.push_back(NC(M)); } else { check("copy", D, M, 0); nplc_free(D); } break; }
      case 1: { ev("reverse"); nplc_reverse(C); for (size_t a = 0; a < M.cp.size(); a++) { std::reverse(M.cp[a].vt.begin(), M.cp[a].vt.end()); for (size_t j = 0; j < M.cp[a].clr.size(); j++) M.cp[a].clr[j] = C->cp[a].clr[j]; } break; }
      case 2: { ev("component"); nplCurve *D = nplc_component(c, C); NC one; one.dim = M.dim; one.cp = {q}; check("component", D, one, 0); if (L.size() < 4) { L.push_back(D); m.push_back(one); } else nplc_free(D); break; }
      case 3: { std::vector<double> cl(M.cp.size(), -1); double tot = 0; double g = nplc_arclength(C, ch(4) ? cl.data() : NULL); for (size_t a = 0; a < M.cp.size(); a++) { auto &v = M.cp[a].vt; double s = 0; for (size_t j = 0; j + 1 < v.size(); j++) s += seg(v[j], v[j + 1]); if (!M.cp[a].open) s += seg(v.back(), v[0]); tot += s; if (cl[a] >= 0 && !feq(cl[a], s, 1e-12, 1e-300)) sim_fail("length", "component %zu has length %.17g, expected %.17g", a, cl[a], s); } if (!feq(g, tot, 1e-12, 1e-300)) sim_fail("length", "length %.17g, expected %.17g", g, tot); sim_count(1); break; }
      case 4: { int a = ch(nv), b = ch(nv); double g = nplc_subarc_length(C, c, a, b); if (a > b) std::swap(a, b); double s = 0, t = 0; for (int j = 0; j < (q.open ? nv - 1 : nv); j++) (j >= a && j < b ? s : t) += seg(q.vt[j], q.vt[(j + 1) % nv]); double e = q.open ? s : std::min(s, t); if (!feq(g, e, 1e-11, 1e-13 * (s + t))) sim_fail("length", "arc from %d to %d of %d has length %.17g, expected %.17g", a, b, nv, g, e); sim_count(1); break; }
      case 5: { std::vector<int> ce(M.cp.size(), -1); int e = 0, v = 0, g = nplc_edges(C, ch(3) ? ce.data() : NULL); for (size_t a = 0; a < M.cp.size(); a++) { int w = (int)M.cp[a].vt.size() - M.cp[a].open; e += w; v += M.cp[a].vt.size(); if (ce[a] >= 0 && ce[a] != w) sim_fail("count", "component %zu has %d edges, expected %d", a, ce[a], w); } if (g != e || nplc_num_edges(C) != e || nplc_num_verts(C) != v) sim_fail("count", "%d edges, %d vertices; expected %d and %d", g, nplc_num_verts(C), e, v); sim_count(1); break; }
      case 6: { int v = ch(nv), k = ch(M.dim); Rng r = subrng(); double y = gen_double(r, 1); ev("move %d.%d", c, v); C->cp[c].vt[v].c[k] = q.vt[v][k] = y; if (chance(1, 4) && nv >= 3) C->cp[c].open = q.open = !q.open; nplc_fix_wrap(C); break; }
      case 7: vectors(); break;
      } check("after the operation", L[x], M, 0); sim_state(shape(m[x]) * 7 + i); }
    for (auto C : L) nplc_free(C); nplc_free(NULL); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
void run_C25() {
  alloc_reset(); A.track = true; FS.on = true; int k = pick({3, 4, 3});
  if (k == 0) round_trip(); else if (k == 1) damaged(); else operations();
}
