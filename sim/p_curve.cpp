// C01 VECT save/load, C02 damaged or failing VECT streams, C03 edit histories.
#include "sim.h"
#include "plCurve.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <float.h>
#include <string>
#include <vector>
#include <algorithm>
#include "curve_model.h"

double gen_double(Rng &r, int style) {
  switch (style) {
  case 0: return (double)((int)r.below(41) - 20);
  case 1: return (r.uni() - 0.5) * 20;
  case 2: { double m = (r.uni() - 0.5) * 2; int e = (int)r.below(600) - 300; return m * pow(10.0, e); }
  case 3: { double m = (r.uni() - 0.5) * 2; int e = (int)r.below(24) - 12; return m * pow(10.0, e); }
  default: return r.below(3) == 0 ? 0.0 : (r.below(2) ? -0.0 : 1.0 / 3.0) + (double)r.below(5);
  }
}
plc_vector gen_vec(Rng &r, int style) { plc_vector v; for (int k = 0; k < 3; k++) v.c[k] = gen_double(r, style); return v; }
plc_color gen_color(Rng &r) { plc_color c; c.r = r.uni(); c.g = r.uni(); c.b = r.uni(); c.alpha = r.below(2) ? 1.0 : r.uni(); return c; }

plCurve *MC::make() const {
  std::vector<int> nv, cc; bool op[64];
  for (size_t i = 0; i < cp.size(); i++) { nv.push_back(cp[i].vt.size()); cc.push_back(cp[i].clr.size()); op[i] = cp[i].open; }
  plCurve *L = plc_new((int)cp.size(), nv.data(), op, cc.data());
  for (size_t i = 0; i < cp.size(); i++) { for (size_t j = 0; j < cp[i].vt.size(); j++) L->cp[i].vt[j] = cp[i].vt[j]; for (size_t j = 0; j < cp[i].clr.size(); j++) L->cp[i].clr[j] = cp[i].clr[j]; }
  plc_fix_wrap(L);
  return L;
}
void MC::set(int c, int v, int n, const MCst &k) { for (int i = v; i < v + n; i++) cp[c].cst[i] = k; }
static bool veq(const plc_vector &a, const plc_vector &b, double rel, double abs_) { for (int k = 0; k < 3; k++) if (!feq(a.c[k], b.c[k], rel, abs_)) return false; return true; }
bool cst_eq(const MCst &a, const MCst &b, double rel, double abs_) {
  if (a.kind != b.kind) return false;
  if (a.kind == 0) return true;
  if (!veq(a.v[0], b.v[0], rel, abs_)) return false;
  if (a.kind == fixed) return true;
  if (a.kind == plane) return feq(a.v[1].c[0], b.v[1].c[0], rel, abs_);
  return veq(a.v[1], b.v[1], rel, abs_);
}
u64 MC::hash() const { u64 h = 7; for (auto &c : cp) { h = hash_u64(c.open * 1000003 + c.vt.size(), h); h = hash_u64(c.clr.size(), h); for (auto &k : c.cst) h = hash_u64(k.kind, h); } return h; }

// structural soundness of any curve the library hands out
void check_structure(const char *where, plCurve *L) {
  if (!L) sim_fail("null-curve", "%s: no curve", where);
  if (L->nc < 1) sim_fail("structure", "%s: curve has %d components", where, L->nc);
  for (int i = 0; i < L->nc; i++) {
    plc_strand &s = L->cp[i]; if (s.nv < 1) sim_fail("structure", "%s: component %d has %d vertices", where, i, s.nv);
    if (s.cc < 0 || s.cc > s.nv) sim_fail("structure", "%s: component %d has %d colors for %d vertices", where, i, s.cc, s.nv);
    plc_vector a = s.open ? s.vt[1] : s.vt[s.nv - 1], b = s.open ? s.vt[s.nv - 2] : s.vt[0];
    if (s.nv >= 2) for (int k = 0; k < 3; k++) {
      if (!(s.vt[-1].c[k] == a.c[k] || (a.c[k] != a.c[k]))) sim_fail("wrap", "%s: component %d leading wrap vertex is stale", where, i);
      if (!(s.vt[s.nv].c[k] == b.c[k] || (b.c[k] != b.c[k]))) sim_fail("wrap", "%s: component %d trailing wrap vertex is stale", where, i); }
    if (s.nv < 3 && !s.open) sim_fail("wrap", "%s: component %d of %d vertices is closed", where, i, s.nv);
    double q = 0; for (int j = 0; j < s.cc; j++) q += s.clr[j].r + s.clr[j].g + s.clr[j].b + s.clr[j].alpha; (void)q;
  }
  int n = 0; std::vector<std::vector<char>> seen(L->nc); for (int i = 0; i < L->nc; i++) seen[i].assign(L->cp[i].nv, 0);
  for (plc_constraint *c = L->cst; c; c = c->next) {
    if (++n > 100000) sim_fail("structure", "%s: constraint list does not end", where);
    if (c->kind != fixed && c->kind != line && c->kind != plane) sim_fail("structure", "%s: constraint of kind %d listed", where, (int)c->kind);
    if (c->cmp < 0 || c->cmp >= L->nc || c->vert < 0 || c->num_verts < 1 || c->vert + c->num_verts > L->cp[c->cmp].nv) sim_fail("cst-range", "%s: constraint covers vertices %d..%d of component %d of %d (%d vertices)", where, c->vert, c->vert + c->num_verts - 1, c->cmp, L->nc, c->cmp >= 0 && c->cmp < L->nc ? L->cp[c->cmp].nv : -1);
    if (c->kind == fixed && c->num_verts != 1) sim_fail("structure", "%s: fixed constraint on %d vertices", where, c->num_verts);
    for (int v = c->vert; v < c->vert + c->num_verts; v++) { if (seen[c->cmp][v]) sim_fail("cst-overlap", "%s: vertex %d of component %d carries two constraints", where, v, c->cmp); seen[c->cmp][v] = 1; }
  }
}
void check_curve(const char *where, plCurve *L, const MC &m, double rel, double abs_) {
  check_structure(where, L);
  if (L->nc != (int)m.cp.size()) sim_fail("components", "%s: %d components, expected %zu", where, L->nc, m.cp.size());
  for (int i = 0; i < L->nc; i++) {
    const MCp &c = m.cp[i]; plc_strand &s = L->cp[i];
    if (s.nv != (int)c.vt.size()) sim_fail("nverts", "%s: component %d has %d vertices, expected %zu", where, i, s.nv, c.vt.size());
    if (s.open != c.open) sim_fail("open", "%s: component %d open=%d, expected %d", where, i, s.open, c.open);
    if (s.cc != (int)c.clr.size()) sim_fail("ncolors", "%s: component %d has %d colors, expected %zu", where, i, s.cc, c.clr.size());
    for (int j = 0; j < s.nv; j++) if (!veq(s.vt[j], c.vt[j], rel, abs_)) sim_fail("vertex", "%s: component %d vertex %d is (%.17g,%.17g,%.17g), expected (%.17g,%.17g,%.17g)", where, i, j, s.vt[j].c[0], s.vt[j].c[1], s.vt[j].c[2], c.vt[j].c[0], c.vt[j].c[1], c.vt[j].c[2]);
    for (int j = 0; j < s.cc; j++) if (!feq(s.clr[j].r, c.clr[j].r, rel, abs_) || !feq(s.clr[j].g, c.clr[j].g, rel, abs_) || !feq(s.clr[j].b, c.clr[j].b, rel, abs_) || !feq(s.clr[j].alpha, c.clr[j].alpha, rel, abs_)) sim_fail("color", "%s: component %d color %d differs", where, i, j);
    for (int j = 0; j < s.nv; j++) {
      plc_constraint *k = NULL; bool is = plc_is_constrained(L, i, j, &k); MCst got; if (is) { got.kind = k->kind; got.v[0] = k->vect[0]; got.v[1] = k->vect[1]; }
      if (!cst_eq(got, c.cst[j], rel, abs_)) sim_fail("constraint", "%s: component %d vertex %d constraint kind %d (%.17g %.17g %.17g ; %.17g..), expected kind %d (%.17g %.17g %.17g ; %.17g..)", where, i, j, got.kind, got.v[0].c[0], got.v[0].c[1], got.v[0].c[2], got.v[1].c[0], c.cst[j].kind, c.cst[j].v[0].c[0], c.cst[j].v[0].c[1], c.cst[j].v[0].c[2], c.cst[j].v[1].c[0]); }
  }
  sim_count(1);
}
static int total(const MC &m) { int t = 0; for (auto &c : m.cp) t += c.vt.size(); return t; }
MC gen_curve(int maxc, int maxv, int style, bool small) {
  MC m; int nc = chr(1, maxc);
  for (int i = 0; i < nc; i++) {
    MCp c; int nv = chr(1, maxv); c.open = nv < 3 ? true : chance(1, 2); Rng r = subrng();
    for (int j = 0; j < nv; j++) c.vt.push_back(gen_vec(r, style));
    int cc = pick({3, 2, 2, 1}); int n = cc == 0 ? 0 : cc == 1 ? 1 : cc == 2 ? nv : chr(0, nv);
    for (int j = 0; j < n; j++) c.clr.push_back(gen_color(r));
    c.cst.resize(nv); m.cp.push_back(c);
  }
  return m;
}
// one constraint operation on both
void cst_op(plCurve *L, MC &m, int style) {
  int c = ch(m.cp.size()), nv = m.cp[c].vt.size(), v = ch(nv), n = 1 + ch(nv - v); MCst k;
  // a small pool of constraints makes joins and re-use likely
  int pool = ch(4); Rng r(pool < 3 ? 1000 + pool : subrng().s); k.v[0] = gen_vec(r, style); k.v[1] = gen_vec(r, style);
  if (chance(1, 3)) { Rng r2(2000 + ch(3)); k.v[1] = gen_vec(r2, style); }  // parallel lines and planes
  switch (pick({3, 3, 3, 2})) {
  case 0: plc_set_fixed(L, c, v, k.v[0]); k.kind = fixed; k.v[1] = plc_build_vect(0, 0, 0); m.set(c, v, 1, k); ev("fix %d.%d", c, v); break;
  case 1: plc_constrain_to_line(L, c, v, n, k.v[0], k.v[1]); k.kind = line; m.set(c, v, n, k); ev("line %d.%d+%d pool %d", c, v, n, pool); break;
  case 2: { double d = k.v[1].c[0]; plc_constrain_to_plane(L, c, v, n, k.v[0], d); k.kind = plane; k.v[1] = plc_build_vect(d, 0, 0); m.set(c, v, n, k); ev("plane %d.%d+%d pool %d", c, v, n, pool); break; }
  case 3: plc_unconstrain(L, c, v, n); m.set(c, v, n, MCst()); ev("free %d.%d+%d", c, v, n); break;
  }
}
static void save(plCurve *L, const char *name) { FILE *f = sim_fopen(name, "w"); plc_write(f, L); if (fclose(f)) sim_fail("write-error", "fclose failed without an injected fault"); }
static const double REL16 = 1.2e-15;

void run_C01() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = pick({3, 1, 1, 1, 1}); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE);
  int style = ch(5), cstyle = chance(1, 2) ? style : ch(5); bool big = chance(1, 12);
  MC m = gen_curve(big ? 2 : 5, big ? 260 : 14, style, false);
  FS.on = true; FS.wp = choose_write_plan(false);
  Death d = sim_guard([&] {
    plCurve *L = m.make(); int n = pick({1, 2, 2, 1}) == 0 ? 0 : (int)ch(big ? 120 : 20); if (big && chance(1, 4)) for (size_t c = 0; c < m.cp.size(); c++) { Rng r = subrng(); for (size_t v = 0; v < m.cp[c].vt.size(); v++) { MCst k; k.v[0] = gen_vec(r, cstyle); double dd = gen_double(r, cstyle); plc_constrain_to_plane(L, c, v, 1, k.v[0], dd); k.kind = plane; k.v[1] = plc_build_vect(dd, 0, 0); m.set(c, v, 1, k); } }
    for (int i = 0; i < n; i++) cst_op(L, m, cstyle);
    check_curve("before saving", L, m, 0, 0); save(L, "c.vect"); check_curve("after saving", L, m, 0, 0); plc_free(L); });
  if (d.how != O_RETURN) sim_fail("died", "saving: %s", d.msg.c_str());
  std::string bytes = disk.get("c.vect"); sim_state(m.hash());
  ev("saved %d components %d vertices, %zu bytes %016llx", (int)m.cp.size(), total(m), bytes.size(), (unsigned long long)hash_str(bytes));
  // a new process reads it back, twice over (the second generation must be a fixed point)
  d = sim_proc([&] {
    sim_fault(F_RESTART); FS.rp = choose_read_plan(false, bytes.size()); FS.rp_on = true; alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); size_t mark = alloc_mark();
    FILE *f = sim_fopen("c.vect", "r"); int e = -77; char es[512]; memset(es, 'z', sizeof es); plCurve *L = plc_read(f, &e, es, sizeof es); fclose(f);
    if (!L) sim_fail("refused", "own file refused: error %d %.200s", e, es);
    if (e != 0) sim_fail("error-code", "own file read but error code %d", e);
    check_curve("after loading", L, m, REL16, 0);
    FS.wp = choose_write_plan(false); save(L, "d.vect");
    plCurve *C = plc_copy(L); check_curve("copy of loaded", C, m, REL16, 0); plc_free(C); plc_free(L);
    if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
  });
  if (d.how != O_RETURN) sim_fail("died", "loading: %s", d.msg.c_str());
  d = sim_proc([&] {
    FS.rp = choose_read_plan(false, bytes.size()); FS.rp_on = true; FILE *f = sim_fopen("d.vect", "r"); int e; char es[512]; plCurve *L = plc_read(f, &e, es, sizeof es); fclose(f);
    if (!L) sim_fail("refused", "second generation refused: error %d %.200s", e, es);
    check_curve("second generation", L, m, 2 * REL16, 0); plc_free(L); });
  if (d.how != O_RETURN) sim_fail("died", "loading second generation: %s", d.msg.c_str());
}

// offset just before the last number that a complete file needs
static size_t last_required(const std::string &b, const MC &m) {
  // numbers outside comments, in order
  std::vector<size_t> at; bool com = false; for (size_t i = 0; i < b.size();) { if (b[i] == '#') { com = true; i++; } else if (b[i] == '\n') { com = false; i++; } else if (com || isspace((unsigned char)b[i])) i++; else { at.push_back(i); while (i < b.size() && !isspace((unsigned char)b[i]) && b[i] != '#') i++; } }
  size_t need = 1 + 3 + 2 * m.cp.size(); for (auto &c : m.cp) need += 3 * c.vt.size() + 4 * c.clr.size();
  if (at.size() != need) sim_fail("format", "file holds %zu fields, curve needs %zu", at.size(), need);
  return at.back();
}
void run_C02() {
  alloc_reset(); A.track = true; A.limit = 64u << 20; int style = ch(5); MC m = gen_curve(3, 8, style, true); std::string bytes;
  FS.on = true;
  Death d = sim_guard([&] { plCurve *L = m.make(); int n = ch(8); for (int i = 0; i < n; i++) cst_op(L, m, ch(5)); save(L, "c.vect"); plc_free(L); });
  if (d.how != O_RETURN) sim_fail("died", "saving: %s", d.msg.c_str());
  bytes = disk.get("c.vect"); size_t need = last_required(bytes, m); std::string data = bytes, what; ReadPlan rp; bool must_refuse = false, intact = false, whole = false;
  switch (pick({4, 4, 3, 1, 2})) {
  case 0: { size_t k = ch((u32)bytes.size() + 1); data = bytes.substr(0, k); sim_fault(F_TRUNCATE); must_refuse = k <= need; intact = k == bytes.size(); rp = choose_read_plan(false, data.size()); ev("truncated at %zu of %zu (last number at %zu)", k, bytes.size(), need); break; }
  case 1: { bool c; data = damage(bytes, &c, &what); intact = !c; rp = choose_read_plan(false, data.size()); ev("damaged: %s", what.c_str()); break; }
  case 2: { rp = choose_read_plan(true, bytes.size()); if (rp.eio_at <= (long)need && !rp.eio_transient) must_refuse = true; whole = true; if (rp.eio_at > (long)bytes.size()) intact = true; ev("read error at %ld transient %d", rp.eio_at, rp.eio_transient); break; }
  case 3: { // wrong keyword
    static const char *kw[] = {"", "VEC", "vect", "OFF", "XVECT", "LIST", "VECY", "7"}; data = std::string(kw[ch(8)]) + bytes.substr(4); must_refuse = true; sim_fault(F_TOKEN_DAMAGE); rp = choose_read_plan(false, data.size()); ev("keyword replaced: %.8s", data.c_str()); break; }
  case 4: { // two faults: damage then read error
    bool c; data = damage(bytes, &c, &what); rp = choose_read_plan(true, data.size()); ev("damaged: %s and EIO at %ld", what.c_str(), rp.eio_at); break; }
  }
  size_t esl = pick({3, 1, 1}) == 0 ? 512 : 1 + ch(40); sim_state(hash_str(data));
  size_t mark = alloc_mark(); A.refused = 0;
  d = sim_guard([&] {
    FILE *f = sim_open_bytes(data, rp); int e = -77; char *es = (char *)malloc(esl); memset(es, 'z', esl);
    plCurve *L = plc_read(f, &e, es, esl); fclose(f);
    if (!memchr(es, 0, esl)) sim_fail("message", "error string of %zu bytes is not terminated", esl);
    if (!L) { if (e == 0 || e == -77) sim_fail("no-error-code", "refused with error code %d", e); if (esl > 1 && !es[0]) sim_fail("message", "refused without a message (error %d)", e); if (intact) sim_fail("refused", "intact file refused: %d %s", e, es); ev("refused: error %d", e); sim_probe("refused"); }
    else { if (must_refuse) sim_fail("accepted-incomplete", "a curve was returned from an incomplete file"); if (e != 0) sim_fail("error-code", "a curve was returned with error code %d", e); check_structure("curve from damaged file", L); if (intact || whole) check_curve(intact ? "intact" : "read despite a read error", L, m, REL16, 0); ev("accepted"); sim_probe("accepted"); plc_free(L); }
    free(es);
  });
  sim_count(1);
  if (d.how != O_RETURN) { if (A.refused && d.how == O_ASSERT) { ev("stopped: out of memory"); sim_probe("out of memory stop"); return; } sim_fail(d.how == O_ASSERT ? "assert" : "died", "reading killed the process: %s (code %d)", d.msg.c_str(), d.code); }
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}

static double sq(double x) { return x * x; }
static double vdist(const plc_vector &a, const plc_vector &b) { return sqrt(sq(a.c[0] - b.c[0]) + sq(a.c[1] - b.c[1]) + sq(a.c[2] - b.c[2])); }
static plc_vector vadd(const plc_vector &a, double s, const plc_vector &b) { plc_vector r; for (int k = 0; k < 3; k++) r.c[k] = a.c[k] + s * b.c[k]; return r; }
static double vdot(const plc_vector &a, const plc_vector &b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
static plc_vector closest(const MCst &k, const plc_vector &p) {
  if (k.kind == fixed) return k.v[0];
  if (k.kind == line) { plc_vector d = vadd(p, -1, k.v[1]); double t = vdot(d, k.v[0]) / vdot(k.v[0], k.v[0]); return vadd(k.v[1], t, k.v[0]); }
  double t = (vdot(p, k.v[0]) - k.v[1].c[0]) / vdot(k.v[0], k.v[0]); return vadd(p, -t, k.v[0]);
}
static void counts(plCurve *L, const MC &m) {
  int ev_ = 0, ed = 0; for (auto &c : m.cp) { ev_ += c.vt.size(); ed += c.open ? c.vt.size() - 1 : c.vt.size(); }
  std::vector<int> ce(m.cp.size());
  if (plc_num_verts(L) != ev_) sim_fail("count", "vertex count %d, expected %d", plc_num_verts(L), ev_);
  if (plc_num_edges(L) != ed) sim_fail("count", "edge count %d, expected %d", plc_num_edges(L), ed);
  if (plc_edges(L, ce.data()) != ed) sim_fail("count", "edge count differs");
  int g = 0; double len = 0; std::vector<double> cl(m.cp.size(), -1); double got = plc_arclength(L, cl.data());
  for (size_t i = 0; i < m.cp.size(); i++) { const MCp &c = m.cp[i]; int n = c.vt.size(); if (ce[i] != (c.open ? n - 1 : n)) sim_fail("count", "edges of component %zu", i);
    double l = 0; for (int j = 0; j + 1 < n; j++) l += vdist(c.vt[j], c.vt[j + 1]); if (!c.open) l += vdist(c.vt[n - 1], c.vt[0]); len += l; if (!feq(l, cl[i], 1e-9, 1e-12)) sim_fail("arclength", "component %zu has length %.12g, expected %.12g", i, cl[i], l);
    for (int j = 0; j < n; j++, g++) { if (plc_vertex_num(L, i, j) != g || plc_cp_num(L, g) != (int)i || plc_vt_num(L, g) != j) sim_fail("vertex-number", "vertex (%zu,%d) is numbered %d and number %d is (%d,%d)", i, j, plc_vertex_num(L, i, j), g, plc_cp_num(L, g), plc_vt_num(L, g)); }
    if (!c.open) { if (plc_vertex_num(L, i, -1) != g - 1 || plc_vertex_num(L, i, n) != g - n || plc_vertex_num(L, i, 2 * n + 1) != g - n + 1 % n) sim_fail("vertex-number", "wraparound numbering on component %zu", i); }
    else { if (plc_vertex_num(L, i, -2) != g - n || plc_vertex_num(L, i, n + 1) != g - 1) sim_fail("vertex-number", "end numbering on open component %zu", i); } }
  if (!feq(got, len, 1e-9, 1e-12)) sim_fail("arclength", "total length %.12g, expected %.12g", got, len);
}
// measurements of a curve against the model
static plc_vector vcross(const plc_vector &a, const plc_vector &b) { plc_vector r; for (int k = 0; k < 3; k++) r.c[k] = a.c[(k + 1) % 3] * b.c[(k + 2) % 3] - a.c[(k + 2) % 3] * b.c[(k + 1) % 3]; return r; }
static double vlen(const plc_vector &a) { return sqrt(vdot(a, a)); }
static double vangle(const plc_vector &a, const plc_vector &b) { return atan2(vlen(vcross(a, b)), vdot(a, b)); }
static plc_vector turn(const plc_vector &v, const plc_vector &ax, double t) { plc_vector r, x = vcross(ax, v); double d = vdot(ax, v); for (int k = 0; k < 3; k++) r.c[k] = v.c[k] * cos(t) + x.c[k] * sin(t) + ax.c[k] * d * (1 - cos(t)); return r; }
static plc_vector unit(Rng &r) { for (;;) { plc_vector v; for (auto &x : v.c) x = 2 * r.uni() - 1; double n = vlen(v); if (n > 0.1 && n < 1) { for (auto &x : v.c) x /= n; return v; } } }
static double maxcoord(const MC &m) { double x = 0; for (auto &q : m.cp) for (auto &v : q.vt) for (double y : v.c) x = std::max(x, fabs(y)); return x; }
static void measures(plCurve *L, const MC &m, double err) {
  double big = maxcoord(m); if (!(big < 1e6) || err > 1e-9) return; double tol = 1e-9 * (1 + big) + 100 * err;
  double s = 0, dia = 0, lo = DBL_MAX, hi = 0, sum = 0, sq = 0; int ne = 0, nv = 0; plc_vector com = {{0, 0, 0}};
  for (size_t i = 0; i < m.cp.size(); i++) { const MCp &c = m.cp[i]; int n = c.vt.size(); double s0 = s;
    for (int j = 0; j < n; j++) { double g = plc_s(L, i, j); if (!feq(g, s, 1e-9, tol)) sim_fail("arclength-position", "vertex %zu:%d is at arclength %.12g, expected %.12g", i, j, g, s); nv++; com = vadd(com, 1, c.vt[j]); for (size_t a = i; a < m.cp.size(); a++) for (auto &w : m.cp[a].vt) dia = std::max(dia, vdist(w, c.vt[j]));
      if (j < n - 1 || !c.open) { double e = vdist(c.vt[j], c.vt[(j + 1) % n]); s += e; lo = std::min(lo, e); hi = std::max(hi, e); sum += e; sq += e * e; ne++; } }
    double total = s - s0, at = 0; int a = ch(n), b = ch(n); for (int j = std::min(a, b); j < std::max(a, b); j++) at += vdist(c.vt[j], c.vt[j + 1]); if (!c.open) at = std::min(at, total - at); double g = plc_subarc_length(L, i, a, b); if (!feq(g, at, 1e-9, tol)) sim_fail("subarc", "arc %zu:%d..%d has length %.12g, expected %.12g", i, a, b, g, at); }
  double g = plc_pointset_diameter(L); if (!feq(g, dia, 1e-9, tol)) sim_fail("diameter", "diameter %.12g, expected %.12g", g, dia);
  for (auto &x : com.c) x /= nv; plc_vector gc = plc_center_of_mass(L); if (!veq(gc, com, 1e-9, tol)) sim_fail("center", "center of mass (%.12g,%.12g,%.12g), expected (%.12g,%.12g,%.12g)", gc.c[0], gc.c[1], gc.c[2], com.c[0], com.c[1], com.c[2]);
  double gy = 0; for (auto &c : m.cp) for (auto &v : c.vt) { plc_vector d = vadd(v, -1, com); gy += vdot(d, d); } gy /= nv; g = plc_gyradius(L); if (!feq(g, gy, 1e-8, tol * (1 + dia))) sim_fail("gyradius", "gyradius %.12g, expected %.12g", g, gy);
  if (ne) { double a = -1, b = -1, c = -1, d = -1; int keep = ch(8) ? 15 : ch(16); plc_edgelength_stats(L, keep & 1 ? &a : NULL, keep & 2 ? &b : NULL, keep & 4 ? &c : NULL, keep & 8 ? &d : NULL);
    if ((keep & 1 && !feq(a, hi, 1e-9, tol)) || (keep & 2 && !feq(b, lo, 1e-9, tol)) || (keep & 4 && !feq(c, sum / ne, 1e-9, tol)) || (keep & 8 && !feq(d, sq / ne, 1e-8, tol * (1 + dia)))) sim_fail("edge-stats", "edge lengths: %.12g %.12g %.12g %.12g, expected %.12g %.12g %.12g %.12g", a, b, c, d, hi, lo, sum / ne, sq / ne); }
  { int c = ch(m.cp.size()), n = m.cp[c].vt.size(); if (n >= 2) { std::vector<int> sk; int k = 1 + ch(4); for (int i = 0; i < k; i++) sk.push_back(1 + ch(n - 1)); double *r = plc_mean_squared_chordlengths(L, c, sk.data(), k);
      for (int i = 0; i < k; i++) { double w = 0; int nd = 0; for (int j = 0; j < n; j++) { if (m.cp[c].open && j + sk[i] >= n) break; plc_vector d = vadd(m.cp[c].vt[j], -1, m.cp[c].vt[(j + sk[i]) % n]); w += vdot(d, d); nd++; } w /= nd; if (!feq(r[i], w, 1e-8, tol * (1 + dia))) sim_fail("chords", "mean squared chord of skip %d on component %d is %.12g, expected %.12g", sk[i], c, r[i], w); } free(r); } }
  if (lo < 0.05 || lo < 1e-4 * dia) return;  // angles at short edges are not determined well
  double atol = 1e-7; std::vector<double> tc(m.cp.size(), -1), tt(m.cp.size(), -1); double TC = 0, TT = 0; bool ill = false; sim_probe("angles measured");
  double gtc = plc_totalcurvature(L, tc.data()), gtt = plc_totaltorsion(L, tt.data());
  if (gtc != plc_totalcurvature(L, NULL) || gtt != plc_totaltorsion(L, NULL)) sim_fail("total", "total curvature or torsion depends on the component array");
  for (size_t i = 0; i < m.cp.size(); i++) { const MCp &c = m.cp[i]; int n = c.vt.size(); double k = 0, t = 0; bool cill = false; auto V = [&](int j) { return c.vt[((j % n) + n) % n]; };
    if (n == 1) continue;
    for (int j = 0; j < n; j++) { bool end = c.open && (j == 0 || j == n - 1); double a = end ? 0 : vangle(vadd(V(j), -1, V(j - 1)), vadd(V(j + 1), -1, V(j))); k += a; bool ok = true; double ga = plc_turning_angle(L, i, c.open ? j : j + n * ((int)ch(5) - 2), chance(1, 8) ? NULL : &ok); if (!feq(ga, a, atol, atol) || !ok) sim_fail("turning", "turning angle at %zu:%d is %.12g%s, expected %.12g", i, j, ga, ok ? "" : " (not ok)", a);
      if (a < 3.1) { double w = end ? 0 : 2 * tan(a / 2) / std::min(vdist(V(j), V(j - 1)), vdist(V(j), V(j + 1))), mr = plc_MR_curvature(L, i, j); if (!feq(mr, w, 1e-5, 1e-6)) sim_fail("curvature", "curvature at %zu:%d is %.12g, expected %.12g", i, j, mr, w); }
      plc_vector d = c.open && j == 0 ? vadd(V(1), -1, V(0)) : c.open && j == n - 1 ? vadd(V(n - 1), -1, V(n - 2)) : vadd(V(j + 1), -1, V(j - 1)); double dl = vlen(d); if (dl > 1e-3) { for (auto &x : d.c) x /= dl; bool ok = false; plc_vector gt = plc_mean_tangent(L, i, j, &ok); if (!ok || !veq(gt, d, 1e-6, 1e-6)) sim_fail("tangent", "tangent at %zu:%d is (%g,%g,%g), expected (%g,%g,%g)", i, j, gt.c[0], gt.c[1], gt.c[2], d.c[0], d.c[1], d.c[2]); } }
    for (int j = 0; j < n; j++) { if (c.open && j + 3 >= n) break; plc_vector e = vadd(V(j + 1), -1, V(j)), f = vadd(V(j + 2), -1, V(j + 1)), h = vadd(V(j + 3), -1, V(j + 2)), p = vcross(e, f), q = vcross(f, h); if (vlen(p) < 1e-2 * vlen(e) * vlen(f) || vlen(q) < 1e-2 * vlen(f) * vlen(h) || vlen(p) < 1e-4 || vlen(q) < 1e-4) { cill = true; continue; } t += vangle(p, q); }
    if (!feq(tc[i], k, atol, atol * n)) sim_fail("total-curvature", "component %zu has total curvature %.12g, expected %.12g", i, tc[i], k); TC += k;
    if (cill) ill = true; else { if (!feq(tt[i], t, 1e-5, 1e-5)) sim_fail("total-torsion", "component %zu (%d vertices, %s) has total torsion %.12g, expected %.12g", i, n, c.open ? "open" : "closed", tt[i], t); TT += t; } }
  if (!feq(gtc, TC, 1e-6, 1e-6)) sim_fail("total-curvature", "total curvature %.12g, expected %.12g", gtc, TC);
  if (!ill && !feq(gtt, TT, 1e-5, 1e-5)) sim_fail("total-torsion", "total torsion %.12g, expected %.12g", gtt, TT);
  if (chance(1, 4)) { const MCp &c = m.cp[0]; unsigned n = c.vt.size(), all = n < 4 ? 0 : n * (n - 1) * (n - 2) * (n - 3) / 12, nd = ch(2) ? 0 : 1 + ch(60), want = nd == 0 || nd > all ? all : nd; float *r = plc_dihedral_angles(L, &nd); if (nd != want) sim_fail("dihedrals", "%u dihedral angles of %u vertices, expected %u", nd, n, want);
    unsigned at = 0; auto nrml = [&](int x, int y, int z) { return vcross(vadd(c.vt[y], -1, c.vt[x]), vadd(c.vt[z], -1, c.vt[x])); };
    for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) for (unsigned k = j + 1; k < n; k++) for (unsigned l = k + 1; l < n; l++) for (int w = 0; w < 2 && at < nd; w++, at++) { plc_vector p = w ? nrml(i, j, k) : nrml(i, j, l), q = w ? nrml(k, l, i) : nrml(j, k, l); if (vlen(p) < 1e-2 || vlen(q) < 1e-2) continue; double a = vangle(p, q); if (!(fabs(r[at] - a) < 1e-4)) sim_fail("dihedrals", "dihedral angle %u is %g, expected %g", at, r[at], a); }
    free(r); sim_probe("dihedrals"); }
}
// each vertex is replaced by two on the edges beside it, which cut the corner without lowering the minimum radius
static void check_doubled(plCurve *L, plCurve *D) {
  for (int i = 0; i < L->nc; i++) { plc_strand &c = L->cp[i], &d = D->cp[i]; if (c.nv < 3) continue;
    for (int j = 0; j < c.nv; j++) { double e[2][3]; bool end = c.open && (j == 0 || j == c.nv - 1); const plc_vector &v = c.vt[j], &a = c.vt[(j + c.nv - 1) % c.nv], &b = c.vt[(j + 1) % c.nv]; long double ni = 0, no = 0, dt = 0; double big = 0; for (int k = 0; k < 3; k++) { long double x = (long double)v.c[k] - a.c[k], y = (long double)b.c[k] - v.c[k]; ni += x * x; no += y * y; dt += x * y; big = std::max(big, std::max(fabs(v.c[k]), std::max(fabs(a.c[k]), fabs(b.c[k])))); } ni = sqrtl(ni); no = sqrtl(no); double tol;
      if (end) { for (int k = 0; k < 3; k++) { const plc_vector &o = j ? a : b; double q = 0.75 * v.c[k] + 0.25 * o.c[k]; e[0][k] = j ? q : v.c[k]; e[1][k] = j ? v.c[k] : q; } tol = 1e-12 * big; }
      else { long double mm = std::min(ni, no); if (!(mm > 1e-6) || !(mm < 1e6) || big > 1e6 * mm) continue; long double th = acosl(std::max(-1.0L, std::min(1.0L, dt / (ni * no)))); if (th < 1e-2L || th > 3.1L) continue; long double mr = std::min(mm / (2 * tanl(th / 2)), 1e3L), an = atanl(mm / 2 / mr) / 2, ds = mm / 2 - mr * tanl(an); for (int k = 0; k < 3; k++) { e[0][k] = v.c[k] + ds / ni * (a.c[k] - v.c[k]); e[1][k] = v.c[k] + ds / no * (b.c[k] - v.c[k]); } tol = 1e-7 * (double)mm; }
      for (int q = 0; q < 2; q++) for (int k = 0; k < 3; k++) if (!(fabs(d.vt[2 * j + q].c[k] - e[q][k]) <= tol)) sim_fail("doubled", "doubling: vertex %d of component %d (from vertex %d of %d, %s) has coordinate %.12g, expected %.12g", 2 * j + q, i, j, c.nv, c.open ? "open" : "closed", d.vt[2 * j + q].c[k], e[q][k]); } }
}
void run_C03() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(999); sim_fault(F_HEAP_GARBAGE);
  FS.on = true; MC m = gen_curve(3, 9, 1, true); int steps = 4 + ch(thorough ? 120 : 45); size_t mark = alloc_mark();
  double err = 0;  // accumulated relative error allowance
  Death d = sim_guard([&] {
    plCurve *L = m.make();
    std::vector<std::pair<plCurve *, MC>> kept;  // copies that later edits must not touch
    for (int s = 0; s < steps; s++) {
      switch (pick({14, 2, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2, 1, 1, 2, 2, 1, 1, 1, 1})) {
      case 0: cst_op(L, m, 1); break;
      case 1: { // insert a component
        if (m.cp.size() >= 6) break; MC g = gen_curve(1, 8, 1, true); int at = ch(m.cp.size() + 1); MCp &c = g.cp[0];
        plc_add_component(L, at, c.vt.size(), c.open, c.clr.size(), c.vt.data(), c.clr.empty() ? NULL : c.clr.data()); m.cp.insert(m.cp.begin() + at, c); ev("add component at %d (%zu vertices)", at, c.vt.size()); break; }
      case 2: { if (m.cp.size() < 2) break; int at = ch(m.cp.size()); plc_drop_component(L, at); m.cp.erase(m.cp.begin() + at); ev("drop component %d", at); break; }
      case 3: { int c = ch(m.cp.size()), n = m.cp[c].vt.size(); auto &q = m.cp[c].clr; int cc = pick({1, 1, 2}) == 0 ? 0 : ch(2) ? 1 : n; if ((int)q.size() > 1 && cc > (int)q.size()) break;
        plc_resize_colorbuf(L, c, cc); if (cc == 0) q.clear(); else if (q.empty()) q.assign(cc, plc_color{0, 0, 0, 0}); else if (q.size() == 1) q.assign(cc, plc_color(q[0])); else q.resize(cc); ev("colors %d -> %d", c, cc); break; }
      case 4: { Rng r = subrng(); plc_color c = gen_color(r); plc_set_color(L, c); for (auto &q : m.cp) for (auto &x : q.clr) x = c; ev("set color"); break; }
      case 5: { static const double al[] = {2, 0.5, -1, 3, 0.1}; double a = al[ch(5)]; plc_scale(L, a); for (auto &q : m.cp) { for (auto &v : q.vt) for (auto &x : v.c) x *= a; for (auto &k : q.cst) { if (k.kind == fixed) for (auto &x : k.v[0].c) x *= a; if (k.kind == line) for (auto &x : k.v[1].c) x *= a; if (k.kind == plane) k.v[1].c[0] *= a; } } ev("scale %g", a); err += 1e-14; break; }
      case 6: { Rng r = subrng(); plc_vector t = gen_vec(r, 1); double small = (double[]){1, 1, 1e-3, 1e-6}[ch(4)]; for (auto &x : t.c) x *= small; if (vlen(t) < 1e-9) break; if (chance(1, 8)) { auto &q = m.cp[ch(m.cp.size())]; plc_vector v = q.vt[ch(q.vt.size())]; double big = maxcoord(m); if (vlen(v) > 1e-9 && big < 1e6) for (int k = 0; k < 3; k++) t.c[k] = -v.c[k]; } plc_translate(L, t); for (auto &q : m.cp) { for (auto &v : q.vt) v = vadd(v, 1, t); for (auto &k : q.cst) { if (k.kind == fixed) k.v[0] = vadd(k.v[0], 1, t); if (k.kind == line) k.v[1] = vadd(k.v[1], 1, t); if (k.kind == plane) k.v[1].c[0] += vdot(k.v[0], t); } } ev("translate"); err += 1e-13; break; }
      case 7: { plCurve *C = plc_copy(L); check_curve("copy", C, m, err, err); if (chance(1, 2)) { std::swap(C, L); ev("copy, continue on the copy"); } else ev("copy, keep the copy"); if (kept.size() < 3) kept.push_back({C, m}); else plc_free(C); break; }
      case 8: { // remove one particular constraint everywhere
        int c = ch(m.cp.size()), v = ch(m.cp[c].vt.size()); MCst k = m.cp[c].cst[v]; if (!k.kind) break; plc_constraint *pc; if (!plc_is_constrained(L, c, v, &pc)) sim_fail("constraint", "vertex lost its constraint"); plc_vector w[2] = {pc->vect[0], pc->vect[1]}; int want = 0;
        for (size_t i = 0; i < m.cp.size(); i++) for (size_t j = 0; j < m.cp[i].cst.size(); j++) { plc_constraint *o; if (!plc_is_constrained(L, i, j, &o) || o->kind != k.kind) continue; bool same = true; for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) if (!(fabs(o->vect[a].c[b] - w[a].c[b]) <= 2 * DBL_EPSILON)) same = false; if (same) { want++; m.cp[i].cst[j] = MCst(); } }
        int got = plc_remove_constraint(L, (plc_cst_kind)k.kind, w); if (got != want) sim_fail("remove-count", "removing a constraint freed %d vertices, expected %d", got, want); ev("remove constraint (%d vertices)", got); break; }
      case 9: { double want = 0; bool sc = true; for (auto &q : m.cp) for (size_t j = 0; j < q.vt.size(); j++) if (q.cst[j].kind) { double x = vdist(q.vt[j], closest(q.cst[j], q.vt[j])); if (x > want) want = x; }
        double got = plc_check_cst(L); if (!feq(got, want, 1e-7, 1e-8 + err)) sim_fail("check-cst", "constraint violation reported as %.12g, is %.12g", got, want);
        if (chance(1, 2)) { plc_fix_cst(L); for (auto &q : m.cp) for (size_t j = 0; j < q.vt.size(); j++) if (q.cst[j].kind) q.vt[j] = closest(q.cst[j], q.vt[j]); err += 1e-11; if (plc_check_cst(L) > 1e-6) sim_fail("fix-cst", "after fixing constraints the violation is %g", plc_check_cst(L)); ev("fix constraints"); } else ev("check constraints"); break; }
      case 10: { // delete an arc
        int c = ch(m.cp.size()), n = m.cp[c].vt.size(); if (m.cp[c].clr.size() > 1) { plc_resize_colorbuf(L, c, 0); m.cp[c].clr.clear(); }
        int a = ch(n), b = ch(n); bool all = m.cp[c].open ? (a == 0 && b == n - 1) : (a == b + 1 || (a == 0 && b == n - 1)); if (all && m.cp.size() < 2) break; if (m.cp[c].open && a > b) { std::swap(a, b); if (a == 0 && b == n - 1 && m.cp.size() < 2) break; all = a == 0 && b == n - 1; }
        plCurve *N = plc_delete_arc(L, c, a, b); check_curve("original of deleted arc", L, m, err, err); MC w = m; for (auto &q : w.cp) for (auto &k : q.cst) k = MCst(); MCp &o = m.cp[c], &q = w.cp[c];
        if (all) w.cp.erase(w.cp.begin() + c); else if (o.open) { MCp x = q, y = q; x.vt.assign(o.vt.begin(), o.vt.begin() + a); y.vt.assign(o.vt.begin() + b + 1, o.vt.end()); x.cst.assign(x.vt.size(), MCst()); y.cst.assign(y.vt.size(), MCst()); if (a == 0) q = y; else if (b == n - 1) q = x; else { y.clr.clear(); q = x; w.cp.insert(w.cp.begin() + c + 1, y); } }
        else { q.open = true; q.vt.clear(); for (int j = (b + 1) % n; j != a; j = (j + 1) % n) q.vt.push_back(o.vt[j]); q.cst.assign(q.vt.size(), MCst()); }
        plc_free(L); L = N; m = w; ev("delete arc %d.%d..%d", c, a, b); break; }
      case 11: { // restart through a file
        if (chance(1, 2)) { FS.wp = choose_write_plan(false); save(L, "h.vect"); plc_free(L); FS.rp = choose_read_plan(false, 100); FS.rp_on = true; FILE *f = sim_fopen("h.vect", "r"); int e; char es[300]; L = plc_read(f, &e, es, 300); fclose(f); if (!L) sim_fail("refused", "own file refused in mid-history: %d %.200s", e, es); err += 2 * REL16; sim_fault(F_RESTART); ev("save and reload"); } break; }
      case 12: { plc_remove_all_constraints(L); for (auto &q : m.cp) for (auto &k : q.cst) k = MCst(); ev("remove all constraints"); break; }
      case 13: { // double the vertices of an unconstrained copy
        if (total(m) > 60) break; bool bad = false; for (auto &q : m.cp) if (q.clr.size() > 1 && q.clr.size() != q.vt.size()) bad = true; if (bad) break;
        plCurve *D = plc_double_verts(L); check_structure("doubled curve", D); if (D->nc != L->nc) sim_fail("components", "doubling changed the component count"); for (int i = 0; i < L->nc; i++) { if (D->cp[i].nv != 2 * L->cp[i].nv || D->cp[i].open != L->cp[i].open) sim_fail("nverts", "doubling gave %d vertices from %d", D->cp[i].nv, L->cp[i].nv); int cc = L->cp[i].cc; if (D->cp[i].cc != (cc <= 1 ? cc : 2 * cc)) sim_fail("ncolors", "doubling gave %d colors from %d", D->cp[i].cc, cc); for (int j = 0; j < D->cp[i].cc; j++) { plc_color &x = D->cp[i].clr[j], &y = L->cp[i].clr[cc == 1 ? 0 : j / 2]; if (x.r != y.r || x.alpha != y.alpha) sim_fail("color", "doubling lost the color of vertex %d", j); } }
        check_doubled(L, D);
        check_curve("original of doubled curve", L, m, err, err); plc_free(D); ev("double"); break; }
      case 14: { // move single vertices by hand, then repair the wrap
        int c = ch(m.cp.size()), v = ch(m.cp[c].vt.size()); Rng r = subrng(); plc_vector x = gen_vec(r, 1); L->cp[c].vt[v] = x; m.cp[c].vt[v] = x; plc_fix_wrap(L); ev("move %d.%d", c, v); break; }
      case 15: { // mirror, reverse and permute components
        int n = m.cp.size(); std::vector<int> p(n), eps(n), per(2 * n, -1); for (int i = 0; i < n; i++) { p[i] = i; eps[i] = ch(2) ? 1 : -1; } for (int i = n - 1; i > 0; i--) std::swap(p[i], p[ch(i + 1)]); if (chance(1, 4)) for (int i = 0; i < n; i++) p[i] = i; int mir = ch(2) ? 1 : -1;
        std::vector<char> done(n); int at = 0; bool fixed_too = ch(2); for (int i = 0; i < n; i++) if (!done[i] && (p[i] != i || fixed_too)) { int j = i; do { per[at++] = j; done[j] = 1; j = p[j]; } while (j != i); per[at++] = i; }
        plc_whitten(L, mir, eps.data(), per.data()); MC o = m; for (int i = 0; i < n; i++) { m.cp[i] = o.cp[p[i]]; if (eps[i] < 0) { MCp &q = m.cp[i]; std::reverse(q.vt.begin(), q.vt.end()); std::reverse(q.cst.begin(), q.cst.end()); if (q.clr.size() == q.vt.size()) std::reverse(q.clr.begin(), q.clr.end()); } }
        if (mir < 0) for (auto &q : m.cp) { for (auto &v : q.vt) v.c[2] *= -1; for (auto &k : q.cst) { k.v[0].c[2] *= -1; if (k.kind == line) k.v[1].c[2] *= -1; } }
        ev("whitten: mirror %d, %d components", mir, n); break; }
      case 16: { if (maxcoord(m) > 1e3) break; plc_remove_all_constraints(L); for (auto &q : m.cp) for (auto &k : q.cst) k = MCst(); Rng r = subrng(); plc_vector ax = unit(r); if (chance(1, 2)) { auto &q = m.cp[ch(m.cp.size())]; plc_vector v = q.vt[ch(q.vt.size())]; double l = vlen(v); if (l > 1e-2) for (int k = 0; k < 3; k++) ax.c[k] = v.c[k] / l; else ax = plc_build_vect(0, 0, 1); sim_probe("axis through a vertex"); } double t = (r.uni() - 0.5) * 12; plc_rotate(L, ax, t); for (auto &q : m.cp) for (auto &v : q.vt) v = turn(v, ax, t); err += 1e-11; ev("rotate %g", t); break; }
      case 17: { if (maxcoord(m) > 1e3) break; Rng r = subrng(); plc_vector ax = unit(r); bool pole = chance(1, 6); if (pole) ax = plc_build_vect(0, 0, ch(2) ? 1 : -1); plc_remove_all_constraints(L); for (auto &q : m.cp) for (auto &k : q.cst) k = MCst(); plc_random_rotate(L, ax); ev("turn axis (%g,%g,%g) up", ax.c[0], ax.c[1], ax.c[2]);
        std::vector<plc_vector> a, b; for (size_t i = 0; i < m.cp.size(); i++) for (size_t j = 0; j < m.cp[i].vt.size(); j++) { a.push_back(m.cp[i].vt[j]); b.push_back(L->cp[i].vt[j]); m.cp[i].vt[j] = L->cp[i].vt[j]; if (!feq(b.back().c[2], vdot(a.back(), ax), 1e-9, 1e-9 + err)) sim_fail("axis-up", "height %.12g after turning, expected %.12g", b.back().c[2], vdot(a.back(), ax)); }
        for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < i; j++) { if (!feq(vdot(a[i], a[j]), vdot(b[i], b[j]), 1e-8, 1e-6)) sim_fail("rigid", "turning changed an inner product"); plc_vector x = vcross(a[i], a[j]), y = vcross(b[i], b[j]); if (j && !feq(vdot(x, a[j - 1]), vdot(y, b[j - 1]), 1e-6, 1e-4)) sim_fail("rigid", "turning changed an orientation"); } break; }
      case 18: { if (maxcoord(m) > 1e3) break; Rng r = subrng(); plc_vector N = unit(r), S = N; for (auto &x : S.c) x *= 3; plc_remove_all_constraints(L); for (auto &q : m.cp) for (auto &k : q.cst) k = MCst(); plc_project(L, S); for (auto &q : m.cp) for (auto &v : q.vt) v = vadd(v, -vdot(v, N), N); err += 1e-11; ev("project"); break; }
      case 19: { // fold an arc
        if (maxcoord(m) > 1e3) break; int c = ch(m.cp.size()), n = m.cp[c].vt.size(), a = ch(n), b = ch(n); if (a > b) std::swap(a, b); plc_vector ax = vadd(m.cp[c].vt[b], -1, m.cp[c].vt[a]); double al = vlen(ax); if (al < 0.01) break; for (auto &x : ax.c) x /= al; Rng r = subrng(); double t = (r.uni() - 0.5) * 12; if (ch(2)) plc_pfm(L, c, a, b, t); else plc_pfm(L, c, b, a, t);
        for (int j = a + 1; j < b; j++) m.cp[c].vt[j] = vadd(turn(vadd(m.cp[c].vt[j], -1, m.cp[c].vt[a]), ax, t), 1, m.cp[c].vt[a]); err += 1e-10; ev("fold %d.%d..%d by %g", c, a, b, t); break; }
      }
      check_curve("step", L, m, err, err); counts(L, m); if (chance(1, 2)) measures(L, m, err); sim_state(m.hash());
    }
    for (auto &k : kept) { check_curve("kept copy", k.first, k.second, err, err); plc_free(k.first); }
    plc_free(L);
  });
  if (d.how != O_RETURN) sim_fail("died", "edit history ended the process: %s", d.msg.c_str());
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
