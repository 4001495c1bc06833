// C09 HOMFLY time limit, C10 invariants of diagrams, C13 topology of space polygons, C20 diagram moves.
#include "sim.h"
#include "pd_model.h"
#include "plCurve.h"
#include <array>
#include "topo_model.h"
#include <gsl/gsl_rng.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
// ------------------------------------------------------------ reference polynomial
Gauss gauss_of(pd_code_t *pd) {
  Gauss g; g.n = pd->ncross; if (!g.n) { g.loops = pd->ncomps; return g; }
  g.nxt.assign(2 * g.n, -1); g.prv.assign(2 * g.n, -1); g.over.resize(g.n); g.sign.resize(g.n);
  for (int c = 0; c < g.n; c++) { g.over[c] = over_in(pd, c) % 2; g.sign[c] = pd->cross[c].sign == PD_POS_ORIENTATION ? 1 : -1; }
  for (unsigned e = 0; e < pd->nedges; e++) { pd_edge_t &E = pd->edge[e]; int t = 2 * E.tail + E.tailpos % 2, h = 2 * E.head + E.headpos % 2; g.nxt[t] = h; g.prv[h] = t; }
  return g;
}
static void unlink_node(Gauss &g, int p) { int a = g.prv[p], b = g.nxt[p]; if (a == p) g.loops++; else { g.nxt[a] = b; g.prv[b] = a; } g.nxt[p] = g.prv[p] = -1; }
static void smooth(Gauss &g, int c) { int p = 2 * c, q = 2 * c + 1, np = g.nxt[p], nq = g.nxt[q]; g.nxt[p] = nq; g.prv[nq] = p; g.nxt[q] = np; g.prv[np] = q; unlink_node(g, p); unlink_node(g, q); g.sign[c] = 0; }
static void kinks(Gauss &g) { bool again = true; while (again) { again = false; for (int c = 0; c < g.n; c++) if (g.sign[c]) { int p = 2 * c, q = p + 1; if (g.nxt[p] == q || g.nxt[q] == p) { unlink_node(g, p); unlink_node(g, q); g.sign[c] = 0; again = true; } } } }
struct Leaf { std::map<std::array<int, 3>, long> m; };
static void descend(Gauss g, int s, int ea, int ez, Leaf &out) {
  kinks(g);
  for (;;) {
    std::vector<char> seen(2 * g.n, 0), met(g.n, 0); int comps = g.loops, bad = -1;
    for (int st = 0; st < 2 * g.n && bad < 0; st++) if (g.nxt[st] >= 0 && !seen[st]) { comps++; for (int p = st; !seen[p]; p = g.nxt[p]) { seen[p] = 1; int c = p / 2; if (!met[c]) { met[c] = 1; if (g.over[c] != p % 2) { bad = c; break; } } } }
    if (bad < 0) { out.m[{ea, ez, comps}] += s; return; }
    // a P+ + a^-1 P- + z P0 = 0
    Gauss h = g; int sg = g.sign[bad]; smooth(h, bad); descend(h, -s, ea - sg, ez + 1, out);
    g.over[bad] ^= 1; g.sign[bad] = -sg; s = -s; ea -= 2 * sg;
  }
}
Poly poly_mul(const Poly &x, const Poly &y) { Poly r; for (auto &p : x) for (auto &q : y) r[{p.first.first + q.first.first, p.first.second + q.first.second}] += p.second * q.second; for (auto i = r.begin(); i != r.end();) if (i->second == 0) i = r.erase(i); else ++i; return r; }
Poly poly_split() { Poly p; p[{1, -1}] = -1; p[{-1, -1}] = -1; return p; }
Poly ref_homfly(Gauss g) {
  Leaf l; descend(g, 1, 0, 0, l); Poly r; std::vector<Poly> pw; Poly one; one[{0, 0}] = 1; pw.push_back(one);
  for (auto &t : l.m) { int k = t.first[2] - 1; while ((int)pw.size() <= k) pw.push_back(poly_mul(pw.back(), poly_split())); for (auto &q : pw[k]) r[{q.first.first + t.first[0], q.first.second + t.first[1]}] += q.second * t.second; }
  for (auto i = r.begin(); i != r.end();) if (i->second == 0) i = r.erase(i); else ++i; return r;
}
int gauss_comps(const Gauss &g) { std::vector<char> seen(2 * g.n, 0); int k = g.loops; for (int s = 0; s < 2 * g.n; s++) if (g.nxt[s] >= 0 && !seen[s]) { k++; for (int p = s; !seen[p]; p = g.nxt[p]) seen[p] = 1; } return k; }
std::string poly_str(const Poly &p) { std::string s; char b[80]; for (auto &t : p) { snprintf(b, 80, "%s%+ld*a^%d*z^%d", s.empty() ? "" : " ", t.second, t.first.first, t.first.second); s += b; } return s; }
bool parse_latex(const char *s, Poly &p) {
  p.clear(); bool first = true;
  while (*s) { long sg = 1, co = 1; int a = 0, z = 0; if (first) { if (*s == '-') { sg = -1; s++; } } else { if (s[0] != ' ' || (s[1] != '+' && s[1] != '-') || s[2] != ' ') return false; if (s[1] == '-') sg = -1; s += 3; }
    bool num = false; if (*s >= '0' && *s <= '9') { co = strtol(s, (char **)&s, 10); num = true; }
    if (*s == 'a') { if (strncmp(s, "a^{", 3)) return false; a = strtol(s + 3, (char **)&s, 10); if (*s++ != '}') return false; num = true; }
    if (*s == 'z') { if (strncmp(s, "z^{", 3)) return false; z = strtol(s + 3, (char **)&s, 10); if (*s++ != '}') return false; num = true; }
    if (!num || co == 0 || p.count({a, z})) return false; p[{a, z}] = sg * co; first = false; }
  return !first;
}
bool parse_lmpoly(const char *s, Poly &p) {
  p.clear(); std::vector<std::string> rows; std::string cur; for (; *s; s++) if (*s == 'N') { rows.push_back(cur); cur.clear(); } else cur += *s; int zero = -1;
  for (size_t i = 0; i < rows.size(); i++) if (std::count(rows[i].begin(), rows[i].end(), '[') == 2) { if (zero >= 0) return false; zero = i; }
  if (zero < 0) return false;
  for (size_t i = 0; i < rows.size(); i++) { std::vector<long> v; int at = -1; std::string r = rows[i]; if ((int)i == zero) { size_t a = r.find('['), b = r.rfind(']'); r[a] = r[b] = ' '; }
    const char *q = r.c_str(); while (*q) { if (isspace((unsigned char)*q) || *q == ']') q++; else if (*q == '[') { at = v.size(); q++; } else { char *e; long x = strtol(q, &e, 10); if (e == q) return false; v.push_back(x); q = e; } }
    if (at < 0 || at >= (int)v.size()) return false; for (size_t j = 0; j < v.size(); j++) if (v[j]) p[{(int)j - at, (int)i - zero}] = v[j]; }
  return true;
}
// ------------------------------------------------------------ own projection
bool project_curve(const Poly3 &L, u64 seed, int maxcross, Gauss &best, std::vector<std::vector<long>> *lk2) {
  Rng r(seed); bool have = false; int bestn = maxcross + 1; size_t nc = L.size();
  for (int tries = 0; tries < 30; tries++) {
    double q[4], n = 0; do { n = 0; for (auto &x : q) { x = 2 * r.uni() - 1; n += x * x; } } while (n > 1 || n < 0.01); n = sqrt(n); for (auto &x : q) x /= n; double w = q[0], x = q[1], y = q[2], z = q[3];
    double R[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)}, {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)}, {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}};
    Poly3 M = L; for (size_t c = 0; c < nc; c++) for (size_t i = 0; i < L[c].size(); i++) for (int k = 0; k < 3; k++) M[c][i][k] = R[k][0] * L[c][i][0] + R[k][1] * L[c][i][1] + R[k][2] * L[c][i][2];
    struct X { int c[2]; double t[2]; int top, sign; }; std::vector<X> xs; bool ok = true;
    for (size_t a = 0; a < nc && ok; a++) for (size_t i = 0; i < M[a].size() && ok; i++) for (size_t b = a; b < nc && ok; b++) for (size_t j = a == b ? i + 1 : 0; j < M[b].size() && ok; j++) {
      size_t na = M[a].size(), nb = M[b].size(); if (a == b && (j == i + 1 || (i == 0 && j == na - 1))) continue;
      auto &p = M[a][i], &p2 = M[a][(i + 1) % na], &u = M[b][j], &v = M[b][(j + 1) % nb];
      double dx = p2[0] - p[0], dy = p2[1] - p[1], ex = v[0] - u[0], ey = v[1] - u[1], d = dx * ey - dy * ex, s0 = hypot(dx, dy) * hypot(ex, ey); if (s0 == 0) { ok = false; break; }
      if (fabs(d) < 1e-9 * s0) { // nearly parallel: fine only when clearly apart
        double dist = fabs((u[0] - p[0]) * dy - (u[1] - p[1]) * dx) / hypot(dx, dy); if (dist < 1e-6) ok = false; continue; }
      double s = ((u[0] - p[0]) * ey - (u[1] - p[1]) * ex) / d, t = ((u[0] - p[0]) * dy - (u[1] - p[1]) * dx) / d; const double m = 1e-7;
      if (s < -m || s > 1 + m || t < -m || t > 1 + m) continue; if (s < m || s > 1 - m || t < m || t > 1 - m) { ok = false; break; }
      double za = p[2] + s * (p2[2] - p[2]), zb = u[2] + t * (v[2] - u[2]); if (fabs(za - zb) < 1e-9) { ok = false; break; }
      X c; c.c[0] = a; c.c[1] = b; c.t[0] = i + s; c.t[1] = j + t; c.top = za > zb ? 0 : 1; c.sign = (d > 0) == (c.top == 0) ? 1 : -1; xs.push_back(c); }
    if (!ok) continue; int n2 = xs.size();
    if (lk2 && !have) { lk2->assign(nc, std::vector<long>(nc, 0)); for (auto &c : xs) if (c.c[0] != c.c[1]) { (*lk2)[c.c[0]][c.c[1]] += c.sign; (*lk2)[c.c[1]][c.c[0]] += c.sign; } }
    Gauss g; g.n = n2; g.nxt.assign(2 * n2, -1); g.prv.assign(2 * n2, -1); g.over.resize(n2); g.sign.resize(n2); for (int k = 0; k < n2; k++) { g.over[k] = xs[k].top; g.sign[k] = xs[k].sign; }
    for (size_t a = 0; a < nc; a++) { std::vector<std::pair<double, int>> vis; for (int k = 0; k < n2; k++) for (int s = 0; s < 2; s++) if (xs[k].c[s] == (int)a) vis.push_back({xs[k].t[s], 2 * k + s}); std::sort(vis.begin(), vis.end()); if (vis.empty()) g.loops++;
      for (size_t i = 1; i < vis.size(); i++) if (vis[i].first - vis[i - 1].first < 1e-9) ok = false;
      for (size_t i = 0; i < vis.size(); i++) { int p = vis[i].second, q2 = vis[(i + 1) % vis.size()].second; g.nxt[p] = q2; g.prv[q2] = p; } }
    if (!ok) continue; kinks(g); int live = 0; for (int sgn : g.sign) if (sgn) live++;
    if (live < bestn) { bestn = live; best = g; have = true; } if (have && bestn <= 6) break;
  }
  return have;
}
// ------------------------------------------------------------ shared
static void hostile_heap() { alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); }
static void steady_clock() { CK.on = true; CK.step = [](long) { return 50L; }; }
static pd_code_t *topo_pd(int maxcross) { pd_code_t *p = gen_pd(maxcross, 0); if (chance(1, 3) && p->ncross) { Rng r = subrng(); pd_code_t *q = scramble(p, true, r); pd_code_free(&p); p = q; } if (chance(1, 3)) randomize_tags(p); return p; }
static void same_poly(const char *w, const char *got, const Poly &want, pd_code_t *pd) { Poly p; if (!parse_latex(got, p)) sim_fail("format", "%s: cannot read polynomial \"%.200s\"", w, got); if (p != want) sim_fail("polynomial", "%s (%u crossings, %u components): %.300s, expected %.300s", w, pd ? pd->ncross : 0, pd ? pd->ncomps : 0, got, poly_str(want).c_str()); sim_count(1); }
static void leakcheck(size_t mark) { if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); }
static const struct { u64 poly; int n; u64 types; } KTREF[] = {
#include "ktdb_ref.inc"
};
void check_types(const char *w, plc_knottype *kt, int n, const Poly &want, int ncross) {
  if (n < 0 || (n > 0) != (kt != NULL)) sim_fail("classify", "%s: %d types, list %s", w, n, kt ? "present" : "missing");
  int fits = 0; for (int i = 0; i < n; i++) { Poly p; if (!memchr(kt[i].homfly, 0, MAXHOMFLY) || !parse_lmpoly(kt[i].homfly, p)) sim_fail("classify", "%s: unreadable polynomial in the type", w); if (p != want) sim_fail("classify", "%s: type %d_%d has polynomial %s, the knot has %s", w, kt[i].cr[0], kt[i].ind[0], poly_str(p).c_str(), poly_str(want).c_str());
    if (kt[i].nf < 1 || kt[i].nf > MAXPRIMEFACTORS) sim_fail("classify", "%s: %d factors", w, kt[i].nf); int tot = 0; for (int f = 0; f < kt[i].nf; f++) tot += kt[i].cr[f]; if (tot <= ncross) fits++;
    for (int j = 0; j < i; j++) if (!memcmp(&kt[i], &kt[j], sizeof kt[i])) sim_fail("classify", "%s: the same type twice", w); }
  u64 ph = hash_str(poly_str(want)), th = 0; int en = 0; u64 et = 0; for (auto &k : KTREF) if (k.poly == ph) { en = k.n; et = k.types; }
  for (int i = 0; i < n; i++) { char b[200]; std::string s = std::to_string(kt[i].nf); for (int f = 0; f < kt[i].nf; f++) { snprintf(b, sizeof b, "|%d,%d,%.128s", kt[i].cr[f], kt[i].ind[f], kt[i].sym[f]); s += b; } th += hash_str(s); }
  if (n != en) sim_fail("classify", "%s: %d types, the knot tables have %d with polynomial %s", w, n, en, poly_str(want).c_str()); if (n && th != et) sim_fail("classify", "%s: names of the %d types are wrong (first %d_%d)", w, n, kt[0].cr[0], kt[0].ind[0]); if (n) sim_probe("types named");
  if (ncross <= 10 && !fits) sim_fail("classify", "%s: a %d crossing diagram has no type of at most that many crossings among %d", w, ncross, n);
  sim_count(1);
}
// ------------------------------------------------------------ C09
void run_C09() {
  hostile_heap(); size_t mark = alloc_mark(); pd_code_t *pd = NULL; Poly want; bool known = false; std::string base; long total = 0;
  int kind = pick({3, 2, 2, 1}); ev("diagram kind %d", kind);
  Death d = sim_guard([&] {
    if (kind == 0) pd = topo_pd(11); else if (kind == 1) { int t = 0; while (!pd && t++ < 60) pd = pd_random_planar(1 + ch(2), chr(9, 13), 40, ch(1 << 20), 0); if (!pd) pd = pd_build_twist_knot(20); } else pd = pd_build_torus_knot(2, kind == 3 ? chr(44, 80) : chr(10, 24));
    if (pd->ncross <= 11) { want = ref_homfly(gauss_of(pd)); known = true; }
    steady_clock(); CK.calls = 0; if (kind == 3) { total = 100000000; return; } char *h = pd_homfly_timeout(pd, 0); if (!h) sim_fail("no-limit", "no result although no limit was set"); base = h; free(h); total = CK.calls; });
  if (d.how != O_RETURN) sim_fail("died", "undisturbed: %s", d.msg.c_str());
  if (known) same_poly("undisturbed", base.c_str(), want, pd); ev("%u crossings, %ld clock readings undisturbed", pd->ncross, total); if (kind == 3) sim_probe("hopeless diagram"); if (total > 100) sim_probe("over 100 clock readings"); if (total > 1000) sim_probe("over 1000 clock readings");
  int rounds = chr(1, 4);
  d = sim_guard([&] { for (int k = 0; k < rounds; k++) {
    int mode = kind == 3 ? 0 : pick({3, 2, 2, 2, 1}); long limit = mode == 4 ? -(long)ch(3) : chr(1, 400); long jump_at = 1 + ch((u32)std::min(total + 2, 100000L)); long jump = mode == 3 ? -(long)ch(1000000000) : (long)(limit * 1000000.0 * (chr(0, 8) / 4.0)) + (long)ch(3) - 1; if (mode == 4) jump = 4000000000L; if (kind == 3) { jump_at = 1 + ch(3000); jump = limit * 1000000 + 1 + ch(5000000); } long slow = mode == 1 ? 1 + ch(100000) : mode == 2 ? 0 : 7;
    if (mode == 1) { jump = 0; if (slow * total > limit * 1000000) slow = limit * 1000000 / std::max(1L, total) + 1; } std::vector<long> rd; long first_late = -1, lo = 0; Rng r = subrng();
    sim_fault(mode == 3 ? F_CLOCK_BACK : mode == 1 || mode == 2 ? F_CLOCK_SLOW : F_CLOCK_JUMP);
    CK.calls = 0; CK.now = chance(1, 4) ? 9000000000000000L : 1000; CK.step = [&](long n) { long s = n == jump_at ? jump : mode == 1 ? slow : mode == 2 ? (long)r.below(3) * 0 : slow; long v = CK.now + s; if (rd.empty() || v < lo) lo = v; if (first_late < 0 && v - lo > limit * 1000000) first_late = (long)rd.size(); rd.push_back(v); return s; };
    char *h = pd_homfly_timeout(pd, (int)limit); bool late = false; long mn = rd.empty() ? 0 : rd[0]; for (long v : rd) { if (v < mn) mn = v; if (v - mn > limit * 1000000) late = true; }
    ev("limit %ld mode %d jump %ld at %ld: %s after %zu readings", limit, mode, jump, jump_at, h ? "result" : "none", rd.size());
    if (limit <= 0 && !h) sim_fail("no-limit", "no result with limit %ld", limit);
    if (!h && !late) sim_fail("early", "gave up although the clock never passed the limit of %ld s", limit);
    if (h) { if (base != h) sim_fail("polynomial", "%s, without clock faults %s", h, base.c_str());
      // rd[0..] late and still many readings to go in the undisturbed run
      if (limit > 0 && mode != 3 && first_late > 0 && total - first_late > 64) sim_fail("overrun", "limit %ld s passed at reading %ld of %ld, yet the computation ran to its end", limit, first_late, total); sim_probe("finished in time"); free(h); }
    else { sim_probe("timed out"); if (mode != 3 && (long)rd.size() - first_late > 64) sim_fail("overrun", "limit passed at reading %ld, returned after reading %zu", first_late, rd.size()); }
    sim_count(1); sim_state(hash_u64(rd.size(), hash_pd(pd))); }
    if (chance(1, 2)) { steady_clock(); pd_code_t *o = topo_pd(9); Poly w = ref_homfly(gauss_of(o)); char *h = pd_homfly(o); if (!h) sim_fail("after", "no result after a timeout"); same_poly("after the timeouts", h, w, o); free(h); pd_code_free(&o); } });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  if (signal_calls && last_signal_handler) sim_fail("signal", "signal %d is left with another handler", last_signal_sig);
  pd_code_free(&pd); leakcheck(mark);
}
// ------------------------------------------------------------ C10
// a diagram and its polynomial; large ones are built so that the polynomial is known without expanding them
static pd_code_t *big_pd(Poly &P) {
  if (chance(1, 3)) { int q = chr(8, 24); pd_code_t *p = pd_build_torus_knot(2, q); int sg = p->cross[0].sign == PD_POS_ORIENTATION ? 1 : -1; Poly a = poly_split(), b; b[{0, 0}] = 1; for (int k = 2; k <= q; k++) { Poly n; for (auto &t : a) n[{t.first.first - 2 * sg, t.first.second}] -= t.second; for (auto &t : b) n[{t.first.first - sg, t.first.second + 1}] -= t.second; a = b; b = n; } for (auto i = b.begin(); i != b.end();) if (!i->second) i = b.erase(i); else ++i; P = b; sim_probe("large torus knot or link"); return p; }
  pd_code_t *p = topo_pd(9); P = ref_homfly(gauss_of(p)); int n = chr(1, 3); for (int i = 0; i < n; i++) { pd_code_t *b = topo_pd(9); if (p->ncross + b->ncross > 30) { pd_code_free(&b); break; } P = poly_mul(P, ref_homfly(gauss_of(b))); pd_code_t *q = pd_connect_sum(p, ch(p->nedges), b, ch(b->nedges)); pd_code_free(&p); pd_code_free(&b); p = q; } if (p->ncross > 13) sim_probe("large composite diagram"); return p;
}
std::vector<int> interlace_ref(pd_code_t *pd, bool sgn);
extern "C" { int *pd_interlaced_crossings(pd_code_t *pd); unsigned int *pd_interlaced_crossings_unsigned(pd_code_t *pd); }
static void knot_names() {
  static const int most[20] = {1, 0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458}; // prime knots by crossing number
  int nf = chance(1, 4) ? chr(9, 12) : chr(1, 4), bad = pick({3, 1, 1, 1, 1, 1}), at = ch(nf); std::vector<int> cr, in; std::string nm;
  for (int i = 0; i < nf; i++) { int c = pick({1, 8}) ? chr(3, chance(1, 2) ? 10 : 19) : 0, k = chance(1, 3) ? most[c] : 1 + (int)ch(most[c]); std::string t = std::to_string(c) + "_" + std::to_string(k);
    if (i == at && bad) { if (bad == 1) t = std::to_string(c) + "_" + std::to_string(most[c] + 1 + ch(3)); else if (bad == 2) t = std::to_string(20 + ch(90)) + "_1"; else if (bad == 3) t = c && chance(1, 2) ? "-" + t : std::to_string(c) + "_-" + std::to_string(1 + ch(5)); else if (bad == 4) { static const char *w[] = {"unknot", "3", "_1", "3_", "3-1", "K3_1", "3 _1", "x"}; t = w[ch(8)]; } else t = std::to_string(1 + ch(2)) + "_1"; }
    cr.push_back(c); in.push_back(k); nm += (i ? "#" : "") + t; }
  std::string arg = nm; size_t mk = alloc_mark(); plc_knottype *kt = plc_read_knottype(arg.c_str()); sim_count(1); if (arg != nm) sim_fail("name", "reading a name changed it"); bool want = !bad && nf <= MAXPRIMEFACTORS; if (!!kt != want) sim_fail("name", "the name %s was %s", nm.c_str(), kt ? "accepted" : "refused");
  if (!kt) { if (alloc_live_since(mk)) sim_fail("leak", "refusing the name %s leaked", nm.c_str()); sim_probe("name refused"); return; }
  if (kt->nf != nf) sim_fail("name", "%s has %d factors", nm.c_str(), kt->nf); for (int i = 0; i < nf; i++) if (kt->cr[i] != cr[i] || kt->ind[i] != in[i]) sim_fail("name", "factor %d of %s was read as %d_%d", i, nm.c_str(), kt->cr[i], kt->ind[i]);
  strcpy(kt->homfly, "[[1]]N "); bool fs = FS.on; FS.on = true; FILE *f = sim_fopen("name", "w"); plc_write_knottype(f, *kt); fclose(f); std::string out = disk.get("name"); FS.on = fs; free(kt); if (out.substr(0, nm.size() + 1) != nm + " " || out.find("[[1]]N") == std::string::npos) sim_fail("name", "%s was written as %s", nm.c_str(), out.c_str()); sim_probe("name");
}
void run_C10() {
  hostile_heap(); steady_clock(); size_t mark = alloc_mark(); int nd = chr(1, 3), nops = chr(1, 10), maxc = pick({2, 1}) ? 13 : 9; ev("%d diagrams", nd);
  Death d = sim_guard([&] {
    std::vector<pd_code_t *> D, keep; std::vector<Poly> P; for (int i = 0; i < nd; i++) { Poly q; pd_code_t *p; if (chance(1, 5)) p = big_pd(q); else { p = topo_pd(maxc); q = ref_homfly(gauss_of(p)); } sound_pd("generated", p); D.push_back(p); keep.push_back(pd_copy(p)); P.push_back(q); sim_state(hash_pd(p)); ev("%u crossings %u components: %s", p->ncross, p->ncomps, poly_str(P[i]).c_str()); }
    for (int k = 0; k < nops; k++) { int i = ch(nd); if (nd > 1) sim_fault(F_INTERLEAVE); pd_code_t *p = D[i]; if (chance(1, 4)) { A.poison_mode = ch(5); libc_rand_state = ch(1000000); }
      switch (pick({4, 2, 2, 2, 1, 1, 1})) {
      case 6: knot_names(); break;
      case 0: { char *h = chance(1, 2) ? pd_homfly(p) : pd_homfly_timeout(p, 0); if (!h) sim_fail("polynomial", "no polynomial"); same_poly("polynomial", h, P[i], p); free(h); break; }
      case 1: { if (p->ncross == 0) break; Gauss g = gauss_of(p); std::vector<int> comp(2 * g.n, -1); for (unsigned c = 0; c < p->ncomps; c++) for (unsigned j = 0; j < p->comp[c].nedges; j++) { pd_edge_t &e = p->edge[p->comp[c].edge[j]]; comp[2 * e.head + e.headpos % 2] = c; }
        for (unsigned a = 0; a < p->ncomps; a++) for (unsigned b = 0; b < p->ncomps; b++) if (a != b) { int s = 0, u = 0; for (int c = 0; c < g.n; c++) if ((comp[2 * c] == (int)a && comp[2 * c + 1] == (int)b) || (comp[2 * c] == (int)b && comp[2 * c + 1] == (int)a)) { s += g.sign[c]; u++; } int got = pd_linking_number(p, a, b); if (2 * got != s) sim_fail("linking", "linking number of %u and %u is %d, expected %d/2", a, b, got, s); unsigned gu = pd_unsigned_linking_number(p, a, b); if (2 * gu != (unsigned)u) sim_fail("linking", "unsigned linking number of %u and %u is %u, expected %d/2", a, b, gu, u); sim_probe("linking numbers"); sim_count(1); } break; }
      case 2: { if (p->ncomps != 1) break; int n = 99; plc_knottype *kt = pd_classify(p, &n); ev("%d types", n); check_types("pd_classify", kt, n, P[i], p->ncross); if (n > 1) sim_probe("several types"); if (n == 0) sim_probe("unclassified"); if (kt) free(kt); break; }
      case 3: { pd_code_t *q = pd_simplify(p); sound_pd("simplified", q); if (!pd_ok(q)) sim_fail("pd-ok", "simplified diagram fails the library's check"); if (q->ncross > p->ncross || q->ncomps != p->ncomps) sim_fail("simplify", "%u crossings %u components became %u and %u", p->ncross, p->ncomps, q->ncross, q->ncomps); Poly w = q->ncross <= 14 ? ref_homfly(gauss_of(q)) : P[i]; if (w != P[i]) sim_fail("simplify", "the simplified diagram is another link: %s, was %s", poly_str(w).c_str(), poly_str(P[i]).c_str()); for (unsigned f = 0; f < q->nfaces; f++) if (q->ncross && q->face[f].nedges == 1) sim_fail("simplify", "a loop is left"); if (q->ncross < p->ncross) sim_probe("loops removed"); pd_code_free(&q); sim_count(1); break; }
      case 5: { if (p->ncross == 0) break; bool sg = chance(1, 2); std::vector<int> want = interlace_ref(p, sg); int *got = sg ? pd_interlaced_crossings(p) : (int *)pd_interlaced_crossings_unsigned(p); for (unsigned c = 0; c < p->ncomps; c++) if (got[c] != want[c]) sim_fail("interlaced", "component %u has %d %s interlaced crossings, reported %d", c, want[c], sg ? "signed" : "unsigned", got[c]); free(got); ev("interlaced"); sim_count(1); break; }
      case 4: { bool alt = true; if (p->ncross == 0) break; Gauss g = gauss_of(p); for (int x = 0; x < 2 * g.n; x++) { bool o = g.over[x / 2] == x % 2, o2 = g.over[g.nxt[x] / 2] == g.nxt[x] % 2; if (o == o2) alt = false; } if (pd_is_alternating(p) != alt) sim_fail("alternating", "reported %s", alt ? "not alternating" : "alternating"); if (alt) sim_probe("alternating"); sim_count(1); break; }
      }
      std::string df = diff_pd(keep[i], p, true); if (df != "") sim_fail("argument-changed", "the caller's diagram changed: %s", df.c_str()); }
    for (auto p : D) pd_code_free(&p); for (auto p : keep) pd_code_free(&p); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leakcheck(mark);
}
// ------------------------------------------------------------ C13
typedef std::array<int, 3> I3;
// a self-avoiding lattice polygon: BFACF moves from a given start
static std::vector<I3> lattice(Rng &r, int start, int moves, int maxlen) {
  static const std::vector<I3> trefoil = {{0,0,0},{1,0,0},{2,0,0},{3,0,0},{3,1,0},{3,2,0},{2,2,0},{1,2,0},{1,2,1},{1,1,1},{1,0,1},{1,-1,1},{1,-1,0},{1,-1,-1},{2,-1,-1},{2,0,-1},{2,1,-1},{2,1,0},{2,1,1},{2,1,2},{1,1,2},{0,1,2},{0,1,1},{0,1,0}};
  std::vector<I3> p = start == 0 ? std::vector<I3>{{0,0,0},{1,0,0},{1,1,0},{0,1,0}} : trefoil; std::set<I3> occ(p.begin(), p.end());
  for (int k = 0; k < moves; k++) { int n = p.size(), i = r.below(n), j = (i + 1) % n; I3 a = p[i], b = p[j], d; int ax = a[0] != b[0] ? 0 : a[1] != b[1] ? 1 : 2, o = (ax + 1 + r.below(2)) % 3; d = {0, 0, 0}; d[o] = r.below(2) ? 1 : -1;
    I3 a2 = {a[0] + d[0], a[1] + d[1], a[2] + d[2]}, b2 = {b[0] + d[0], b[1] + d[1], b[2] + d[2]}; int h = (i + n - 1) % n, l = (j + 1) % n; bool pa = p[h] == a2, pb = p[l] == b2;
    if (pa && pb) { if (n > 4) { occ.erase(a); occ.erase(b); std::vector<I3> q; for (int m = 0; m < n; m++) if (m != i && m != j) q.push_back(p[m]); p = q; } }
    else if (pa) { if (!occ.count(b2)) { occ.erase(a); p[i] = b2; occ.insert(b2); } }
    else if (pb) { if (!occ.count(a2)) { occ.erase(b); p[j] = a2; occ.insert(a2); } }
    else if (!occ.count(a2) && !occ.count(b2) && n + 2 <= maxlen) { occ.insert(a2); occ.insert(b2); p.insert(p.begin() + i + 1, {a2, b2}); } }
  return p;
}
Poly3 gen_knot(int &kind) {
  Poly3 L; kind = pick({3, 2, 2, 2, 2, 1, 2}); Rng r = subrng(); double sc = kind == 1 ? 1 : (double[]){1, 1, 3, 0.3}[r.below(4)];
  if (kind == 0) { int n = chr(3, 12); std::vector<std::array<double, 3>> v; for (int i = 0; i < n; i++) v.push_back({sc * (2 * r.uni() - 1), sc * (2 * r.uni() - 1), sc * (2 * r.uni() - 1)}); L.push_back(v); }
  else if (kind == 1) { auto p = lattice(r, r.below(2), chr(0, 60), 36); bool corners = r.below(2); std::vector<std::array<double, 3>> v; int n = p.size(); for (int i = 0; i < n; i++) { I3 a = p[(i + n - 1) % n], b = p[i], c = p[(i + 1) % n]; if (corners && c[0] - b[0] == b[0] - a[0] && c[1] - b[1] == b[1] - a[1] && c[2] - b[2] == b[2] - a[2]) continue; v.push_back({(double)b[0], (double)b[1], (double)b[2]}); } int rot = r.below(v.size()); std::rotate(v.begin(), v.begin() + rot, v.end()); L.push_back(v); }
  else if (kind == 2 || kind == 3) { // torus knots and links, one component or more
    static const int pq[][2] = {{2, 3}, {2, 5}, {3, 4}, {2, 7}, {2, 2}, {2, 4}, {3, 3}, {1, 3}, {3, 5}}; int k = r.below(9), P = pq[k][0], Q = pq[k][1], nc = P == Q ? P : (P == 2 && Q == 4) ? 2 : 1, per = chr(6, 14) * std::max(P, Q) / nc; double tw = r.uni(), mir = r.below(2) ? 1 : -1;
    for (int c = 0; c < nc; c++) { std::vector<std::array<double, 3>> v; for (int i = 0; i < per; i++) { double t = 2 * M_PI * (i + 0.0) / per, u = P / nc * t, w = Q / nc * t + 2 * M_PI * c / nc + tw; v.push_back({sc * (2 + cos(w)) * cos(u), sc * (2 + cos(w)) * sin(u), sc * mir * sin(w)}); } if (r.below(2)) std::reverse(v.begin(), v.end()); L.push_back(v); }
    if (kind == 3) for (auto &c : L) for (auto &v : c) for (int k2 = 0; k2 < 3; k2++) v[k2] = round(v[k2] / sc * 50) / 50 * sc; }
  else if (kind == 6) { // links on the lattice: grown polygons at small offsets that keep apart
    int nc = 2 + r.below(2); std::set<I3> used; for (int c = 0; c < nc; c++) { std::vector<I3> p; bool ok = false; for (int t = 0; t < 60 && !ok; t++) { p = lattice(r, r.below(2), r.below(24), 20); int o[3] = {(int)r.below(3) - 1, (int)r.below(3) - 1, (int)r.below(5) - 2}; ok = true; for (auto &x : p) { for (int k = 0; k < 3; k++) x[k] += o[k]; if (used.count(x)) ok = false; } } if (!ok) continue; std::vector<std::array<double, 3>> v; for (auto &x : p) { used.insert(x); v.push_back({(double)x[0], (double)x[1], (double)x[2]}); } L.push_back(v); } }
  else if (kind == 5) { int nc = chr(3, 5); for (int c = 0; c < nc; c++) { std::vector<std::array<double, 3>> v; int n = 3 + r.below(3); for (int i = 0; i < n; i++) v.push_back({2 * r.uni() - 1, 2 * r.uni() - 1, 2 * r.uni() - 1}); L.push_back(v); } }
  else { int n = chr(4, 7), nc = 1 + r.below(2); for (int c = 0; c < nc; c++) { std::vector<std::array<double, 3>> v; for (int i = 0; i < n; i++) v.push_back({2 * r.uni() - 1, 2 * r.uni() - 1, 2 * r.uni() - 1}); L.push_back(v); } }
  return L;
}
double seg_dist(const std::array<double, 3> &p, const std::array<double, 3> &q, const std::array<double, 3> &u, const std::array<double, 3> &v) {
  auto dot = [](const std::array<double, 3> &a, const std::array<double, 3> &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }; std::array<double, 3> d, e, w; for (int k = 0; k < 3; k++) { d[k] = q[k] - p[k]; e[k] = v[k] - u[k]; w[k] = p[k] - u[k]; }
  double a = dot(d, d), b = dot(d, e), c = dot(e, e), f = dot(d, w), g = dot(e, w), best = 1e300; auto cl = [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; };
  auto at = [&](double s, double t) { double m = 0; for (int k = 0; k < 3; k++) { double x = w[k] + s * d[k] - t * e[k]; m += x * x; } best = std::min(best, sqrt(m)); };
  double D = a * c - b * b; if (D > 1e-14 * a * c) { double s = (b * g - c * f) / D, t = (a * g - b * f) / D; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) at(s, t); }
  at(0, cl(g / c)); at(1, cl((b + g) / c)); at(cl(-f / a), 0); at(cl((b - f) / a), 1); return best;
}
// connected z projection?  (a split projection is refused by the library)
bool z_connected(const Poly3 &L) { size_t nc = L.size(); if (nc == 1) return true; std::vector<int> f(nc); for (size_t i = 0; i < nc; i++) f[i] = i; std::function<int(int)> find = [&](int x) { return f[x] == x ? x : f[x] = find(f[x]); };
  for (size_t a = 0; a < nc; a++) for (size_t b = a + 1; b < nc; b++) for (size_t i = 0; i < L[a].size(); i++) for (size_t j = 0; j < L[b].size(); j++) { auto &p = L[a][i], &q = L[a][(i + 1) % L[a].size()], &u = L[b][j], &v = L[b][(j + 1) % L[b].size()]; double dx = q[0] - p[0], dy = q[1] - p[1], ex = v[0] - u[0], ey = v[1] - u[1], d = dx * ey - dy * ex; if (fabs(d) < 1e-6) continue; double s = ((u[0] - p[0]) * ey - (u[1] - p[1]) * ex) / d, t = ((u[0] - p[0]) * dy - (u[1] - p[1]) * dx) / d; if (s > 0.02 && s < 0.98 && t > 0.02 && t < 0.98) f[find(a)] = find(b); }
  for (size_t i = 1; i < nc; i++) if (find(i) != find(0)) return false; return true; }
plCurve *curve_of(const Poly3 &L) { std::vector<int> nv; std::vector<char> op(L.size(), 0); bool o[8] = {false}; int cc[8] = {0}, n[8]; for (size_t i = 0; i < L.size(); i++) n[i] = L[i].size(); plCurve *C = plc_new(L.size(), n, o, cc); for (size_t c = 0; c < L.size(); c++) for (size_t i = 0; i < L[c].size(); i++) for (int k = 0; k < 3; k++) C->cp[c].vt[i].c[k] = L[c][i][k]; plc_fix_wrap(C); return C; }
void run_C13() {
  hostile_heap(); steady_clock(); libc_rand_state = ch(1000000); int kind; Poly3 L = gen_knot(kind); Gauss g; std::vector<std::vector<long>> lk2; size_t mark;
  // only polygons that keep clear of themselves have a well defined type
  double clear = 1e300, size = 0; for (size_t a = 0; a < L.size(); a++) for (size_t i = 0; i < L[a].size(); i++) { for (int k = 0; k < 3; k++) size = std::max(size, fabs(L[a][i][k])); for (size_t b = a; b < L.size(); b++) for (size_t j = a == b ? i + 1 : 0; j < L[b].size(); j++) { size_t na = L[a].size(); if (a == b && (j == i + 1 || (i == 0 && j == na - 1))) continue; clear = std::min(clear, seg_dist(L[a][i], L[a][(i + 1) % na], L[b][j], L[b][(j + 1) % L[b].size()])); } }
  if (clear < 1e-3 * size || !z_connected(L)) sim_discard();
  if (!project_curve(L, 12345, 15, g, &lk2)) sim_discard();
  { double sc = (double[]){1, 1, 1, 1e-3, 0.02, 50, 1e3}[ch(7)], off = chance(1, 5) ? sc * ch(20) : 0; for (auto &c : L) for (auto &v : c) for (auto &x : v) x = x * sc + off; clear *= sc; ev("scale %g offset %g", sc, off); }
  Poly want = ref_homfly(g); int live = 0; for (int s : g.sign) if (s) live++; ev("kind %d, %zu components, %zu vertices, reference from %d crossings: %s", kind, L.size(), L[0].size(), live, poly_str(want).c_str());
  if (want.size() > 1 && L.size() == 1) sim_probe("knotted"); mark = alloc_mark(); int nops = chr(1, 3);
  Death d = sim_guard([&] {
    plCurve *C = curve_of(L); gsl_rng *rng = gsl_rng_alloc(gsl_rng_mt19937);
    for (int k = 0; k < nops; k++) { gsl_rng_set(rng, ch(1 << 20)); libc_rand_state = ch(1000000); sim_fault(F_LIBC_RAND); A.poison_mode = ch(5);
      switch (pick({2, 2, 2})) {
      case 0: { char *h = plc_homfly(rng, C); if (!h) sim_fail("no-answer", "no polynomial for a polygon whose parts keep %.3g apart", clear); same_poly("plc_homfly", h, want, NULL); free(h); ev("homfly"); break; }
      case 1: { pd_code_t *p = pd_code_from_plCurve(rng, C); if (!p) sim_fail("no-answer", "no diagram for a polygon whose parts keep %.3g apart", clear); sound_pd("diagram of a polygon", p); if (!pd_ok(p)) sim_fail("pd-ok", "diagram fails the library's check"); if (p->ncomps != L.size()) sim_fail("components", "%u components for %zu", p->ncomps, L.size()); for (unsigned c = 0; c < p->ncross; c++) if (p->cross[c].sign == PD_UNSET_ORIENTATION) sim_fail("unsigned", "crossing %u of a projection has no sign", c);
        if (p->ncross <= 16) { Poly w = ref_homfly(gauss_of(p)); if (w != want) sim_fail("diagram", "the diagram (%u crossings) is another link: %s, expected %s", p->ncross, poly_str(w).c_str(), poly_str(want).c_str()); sim_probe("diagram compared"); }
        if (L.size() > 1) { std::multiset<long> a, b; for (unsigned x = 0; x < p->ncomps; x++) for (unsigned y = x + 1; y < p->ncomps; y++) a.insert(2 * pd_linking_number(p, x, y)); for (size_t x = 0; x < L.size(); x++) for (size_t y = x + 1; y < L.size(); y++) b.insert(lk2[x][y]); if (a != b) sim_fail("linking", "linking numbers of the diagram are not those of the polygons"); sim_probe("links"); }
        ev("diagram %u", p->ncross); sim_state(hash_pd(p)); pd_code_free(&p); sim_count(1); break; }
      case 2: { if (L.size() > 1) break; int n = 99; plc_knottype *kt = plc_classify(rng, C, &n); ev("%d types", n); check_types("plc_classify", kt, n, want, live); if (kt) free(kt); break; } }
      for (size_t c = 0; c < L.size(); c++) { if (C->cp[c].nv != (int)L[c].size() || C->nc != (int)L.size()) sim_fail("argument-changed", "the curve changed shape"); for (size_t i = 0; i < L[c].size(); i++) for (int k2 = 0; k2 < 3; k2++) if (C->cp[c].vt[i].c[k2] != L[c][i][k2]) sim_fail("argument-changed", "vertex %zu moved", i); } }
    gsl_rng_free(rng); plc_free(C); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leakcheck(mark);
}
// ------------------------------------------------------------ C20
extern "C" { pd_code_t *pd_R1_loopdeletion(pd_code_t *, pd_idx_t); }
struct Piece { pd_code_t *pd; Poly p; };
static bool is_over(pd_code_t *p, unsigned e, bool head) { pd_edge_t &E = p->edge[e]; unsigned c = head ? E.head : E.tail, k = head ? E.headpos : E.tailpos; return over_in(p, c) % 2 == (int)k % 2; }
static void moved(const char *w, pd_code_t *before, pd_code_t *keep, pd_code_t *after, const Poly *want, int dcross) {
  std::string df = diff_pd(keep, before, true); if (df != "") sim_fail("argument-changed", "%s changed its argument: %s", w, df.c_str());
  if (!after) sim_fail("move", "%s gave no diagram", w); sound_pd(w, after); if (!pd_ok(after)) sim_fail("pd-ok", "%s: the result fails the library's check", w);
  if (dcross != 99 && (int)after->ncross != (int)before->ncross + dcross) sim_fail("move", "%s: %u crossings became %u", w, before->ncross, after->ncross);
  if (want) { Poly g = ref_homfly(gauss_of(after)); if (g != *want) sim_fail("move", "%s: the result is another link (%u crossings): %s, expected %s", w, after->ncross, poly_str(g).c_str(), poly_str(*want).c_str()); }
  sim_count(1); sim_state(hash_pd(after));
}
// components by tag: tag -> (tag -> twice the linking number)
typedef std::map<int, std::map<int, long>> Tags;
static void tags_into(Tags &t, pd_code_t *p) { std::vector<int> ce(p->nedges + 1, 0); for (unsigned c = 0; c < p->ncomps; c++) { t[p->comp[c].tag]; for (unsigned j = 0; j < p->comp[c].nedges; j++) if (p->comp[c].edge[j] < p->nedges) ce[p->comp[c].edge[j]] = p->comp[c].tag; }
  for (unsigned x = 0; x < p->ncross; x++) { int a = ce[p->cross[x].edge[0]], b = ce[p->cross[x].edge[1]]; if (a == b) continue; long s = p->cross[x].sign == PD_POS_ORIENTATION ? 1 : -1; t[a][b] += s; t[b][a] += s; } }
static void tags_clean(Tags &t) { for (auto &r : t) for (auto i = r.second.begin(); i != r.second.end();) if (!i->second) i = r.second.erase(i); else ++i; }
static void same_tags(const char *w, Tags a, Tags b) { tags_clean(a); tags_clean(b); if (a == b) return; std::string s, u; for (auto &x : a) s += (char)x.first; for (auto &x : b) u += (char)x.first; if (s != u) sim_fail("tags", "%s: components tagged %s became %s", w, s.c_str(), u.c_str()); sim_fail("tags", "%s: the tags went to other components (linking numbers between tags %s differ)", w, s.c_str()); }
static Tags tags_of(pd_code_t *p) { Tags t; tags_into(t, p); return t; }
static pd_code_t *shadow_of(pd_code_t *p) { pd_code_t *s = pd_copy(p); for (unsigned c = 0; c < s->ncross; c++) s->cross[c].sign = PD_UNSET_ORIENTATION; return s; }
// a move made on the unsigned diagram is the unsigned form of the move made on the diagram
static void same_shadow(const char *w, pd_code_t *q, pd_code_t *s, bool take) {
  if (!s) sim_fail("shadow", "%s of an unsigned diagram gave no diagram", w); sound_pd(w, s); if (!pd_ok(s)) sim_fail("shadow", "%s of an unsigned diagram fails the library's check", w); for (unsigned c = 0; c < s->ncross; c++) if (s->cross[c].sign != PD_UNSET_ORIENTATION) sim_fail("shadow", "%s: crossing %u of an unsigned diagram got a sign", w, c);
  pd_code_t *a = pd_copy(q), *b = pd_copy(s); for (pd_code_t *x : {a, b}) for (unsigned c = 0; c < x->ncross; c++) x->cross[c].sign = PD_POS_ORIENTATION; if (!same_diagram(a, b, false)) sim_fail("shadow", "%s of an unsigned diagram (%u crossings) is not the move made on the signed one", w, q->ncross); pd_code_free(&a); pd_code_free(&b); if (take) pd_code_free(&s); sim_probe("unsigned move"); sim_count(1); }
// ends of edge e outside and inside the crossing set T
struct TEdge { unsigned e; bool in_at_head; };
// boundary cycle of the tangle with crossings T, counterclockwise: face f[i] comes before edge e[i]
static bool tangle_cycle(pd_code_t *p, const std::vector<char> &T, std::vector<TEdge> &be, std::vector<unsigned> &bf) {
  unsigned total = 0, start = ~0u; for (unsigned e = 0; e < p->nedges; e++) if (T[p->edge[e].head] != T[p->edge[e].tail]) { total++; start = e; } if (!total || total % 2) return false;
  TEdge cur = {start, T[p->edge[start].head] != 0}; be.clear(); bf.clear();
  do { be.push_back(cur); pd_idx_t pf, a, nf, b; pd_face_and_pos(p, cur.e, &pf, &a, &nf, &b); bf.push_back(cur.in_at_head ? pf : nf); if (be.size() > total) return false;
    unsigned c = cur.in_at_head ? p->edge[cur.e].head : p->edge[cur.e].tail, k = cur.in_at_head ? p->edge[cur.e].headpos : p->edge[cur.e].tailpos;
    for (int guard = 0;; guard++) { if (guard > 200) return false; unsigned k2 = (k + 1) % 4, e = p->cross[c].edge[k2]; pd_edge_t &E = p->edge[e]; bool leave_tail = E.tail == c && E.tailpos == k2; unsigned oc = leave_tail ? E.head : E.tail, ok = leave_tail ? E.headpos : E.tailpos; if (!T[oc]) { cur = {e, !leave_tail}; break; } c = oc; k = ok; }
  } while (cur.e != start); return be.size() == total;
}
// a slide of one strand over (or under) a tangle; pieces are returned in out
static bool tangle_slide(pd_code_t *p, std::vector<pd_code_t *> &out, std::string &what) {
  if (p->ncross < 3) return false; std::vector<char> T(p->ncross, 0); unsigned want = chr(1, std::max(1, (int)p->ncross / 2)); std::vector<unsigned> in; { unsigned c = ch(p->ncross); T[c] = 1; in.push_back(c); }
  while (in.size() < want) { unsigned c = in[ch(in.size())], e = p->cross[c].edge[ch(4)]; unsigned o = p->edge[e].head == c ? p->edge[e].tail : p->edge[e].head; if (T[o]) { if (chance(1, 4)) break; continue; } T[o] = 1; in.push_back(o); }
  std::vector<TEdge> be; std::vector<unsigned> bf; if (!tangle_cycle(p, T, be, bf)) return false; unsigned n = be.size();
  // strands running along the boundary
  struct St { std::vector<pd_idx_t> e, f; }; std::vector<St> all;
  for (unsigned i = 0; i < n; i++) { St s; std::set<unsigned> used; int side = -1; unsigned prevB = ~0u; int fwd = -1;
    for (unsigned k = 0; k < n; k++) { unsigned j = (i + k) % n; pd_edge_t &E = p->edge[be[j].e]; unsigned c = be[j].in_at_head ? E.tail : E.head, q = be[j].in_at_head ? E.tailpos : E.headpos; if (used.count(c)) break; unsigned ka = (q + 1) % 4, kb = (q + 3) % 4, a = p->cross[c].edge[ka], b = p->cross[c].edge[kb];
      bool a_in = p->edge[a].head == c && p->edge[a].headpos == ka; int over = (int)(over_in(p, c) % 2) == (int)(ka % 2); if (k && (a != prevB || over != side || fwd != (int)a_in)) break; side = over; fwd = a_in; used.insert(c);
      if (!k) { s.e.push_back(a); s.f.push_back(bf[j]); } s.e.push_back(b); s.f.push_back(bf[(j + 1) % n]); prevB = b;
      St t = s; if (!a_in) { std::reverse(t.e.begin(), t.e.end()); std::reverse(t.f.begin(), t.f.end()); }
      unsigned A1 = p->edge[t.e[0]].tail, A2 = p->edge[t.e.back()].head; if (T[A1] || T[A2] || used.count(A1) || used.count(A2)) continue; std::set<unsigned> es(t.e.begin(), t.e.end()); if (es.size() != t.e.size()) continue; all.push_back(t); } }
  if (all.empty()) return false; St s = all[ch(all.size())];
  // the faces and edges must single out one place on the boundary
  int places = 0; unsigned m = s.e.size(); for (int dir = 0; dir < 2; dir++) for (unsigned i = 0; i < n; i++) { bool ok = true; for (unsigned j = 0; j < m && ok; j++) { unsigned at = dir ? (i + n * m - j) % n : (i + j) % n; pd_idx_t pf, a, nf, b; pd_face_and_pos(p, s.e[j], &pf, &a, &nf, &b); if (bf[at] != s.f[j] || (dir ? nf : pf) != s.f[j]) ok = false; } if (ok) places++; } if (places != 1) return false;
  pd_tangle_t *t = pd_tangle_new(n); for (unsigned i = 0; i < n; i++) { t->edge[i] = be[i].e; t->face[i] = bf[i]; } pd_regenerate_tangle(p, t); if (!pd_tangle_ok(p, t)) sim_fail("tangle", "the tangle of %zu crossings with %u edges is not accepted", in.size(), n);
  if (t->ninterior_cross != in.size()) sim_fail("tangle", "tangle has %u crossings, not %zu", t->ninterior_cross, in.size());
  what = "slide of " + std::to_string(m) + " edges along a tangle of " + std::to_string(in.size()) + " crossings, " + std::to_string(n) + " ends"; ev("%s", what.c_str());
  pd_idx_t np = 0; pd_code_t **pc = NULL; int err = 0; if (chance(1, 2)) pd_tangle_slide_err(p, t, m, s.e.data(), s.f.data(), &np, &pc, &err); else pd_tangle_slide(p, t, m, s.e.data(), s.f.data(), &np, &pc); if (err) sim_fail("tangle", "%s: refused", what.c_str());
  for (unsigned i = 0; i < np; i++) out.push_back(pc[i]); free(pc); pd_tangle_free(&t); return true;
}
void run_C20() {
  hostile_heap(); steady_clock(); size_t mark = alloc_mark(); int nops = chr(1, 14); const unsigned cap = 14;
  Death d = sim_guard([&] {
    std::vector<Piece> S; auto add = [&](pd_code_t *p, const Poly &q) { S.push_back({p, q}); };
    { pd_code_t *p = topo_pd(10); add(p, ref_homfly(gauss_of(p))); }
    for (int k = 0; k < nops; k++) { int i = ch(S.size()); pd_code_t *p = S[i].pd, *keep = pd_copy(p); Poly P = S[i].p; A.poison_mode = ch(5); pd_code_t *q = NULL; Tags T0 = tags_of(p); pd_code_t *sh = p->ncross && chance(1, 3) ? shadow_of(p) : NULL;
      switch (pick({3, 3, 3, 4, 3, 2, 2, 1, 1, 4})) {
      case 0: { // loop deletion
        std::vector<unsigned> c; for (unsigned f = 0; f < p->nfaces; f++) if (p->ncross && p->face[f].nedges == 1) c.push_back(p->edge[p->face[f].edge[0]].head); if (c.empty()) break; unsigned x = c[ch(c.size())]; ev("loop deletion at %u of %u", x, p->ncross); q = pd_R1_loopdeletion(p, x); moved("loop deletion", p, keep, q, &P, -1); same_tags("loop deletion", T0, tags_of(q)); if (sh) same_shadow("loop deletion", q, pd_R1_loopdeletion(sh, x), true); break; }
      case 1: { // loop addition
        if (p->ncross >= cap || p->ncross == 0) break; unsigned f = ch(p->nfaces), e = ch(p->face[f].nedges); ev("loop addition"); q = pd_R1_loop_addition(p, f, e); sound_pd("loop addition", q); { std::string df = diff_pd(keep, p, true); if (df != "") sim_fail("argument-changed", "loop addition changed its argument: %s", df.c_str()); }
        int un = 0; for (unsigned c = 0; c < q->ncross; c++) if (q->cross[c].sign == PD_UNSET_ORIENTATION) { q->cross[c].sign = ch(2); un++; } if (un != 1) sim_fail("move", "loop addition left %d crossings without sign", un); moved("loop addition", p, keep, q, &P, 1); if (sh) same_shadow("loop addition", q, pd_R1_loop_addition(sh, f, e), true); break; }
      case 2: { // bigon elimination
        std::vector<unsigned> c; for (unsigned f = 0; f < p->nfaces; f++) if (p->ncross && p->face[f].nedges == 2) { unsigned a = p->face[f].edge[0], b = p->face[f].edge[1]; if (a == b || p->edge[a].head == p->edge[a].tail || p->edge[b].head == p->edge[b].tail) continue; if (is_over(p, a, true) == is_over(p, a, false) && is_over(p, b, true) == is_over(p, b, false)) c.push_back(f); }
        if (c.empty()) break; pd_face_t &F = p->face[c[ch(c.size())]]; pd_edge_t &E = p->edge[F.edge[0]]; pd_idx_t cr[2] = {E.head, E.tail}; if (chance(1, 2)) std::swap(cr[0], cr[1]); pd_idx_t n = 77; pd_code_t **out = NULL; ev("bigon elimination at %u %u of %u", cr[0], cr[1], p->ncross); pd_R2_bigon_elimination(p, cr, &n, &out);
        if (n < 1 || n > 2 || !out) sim_fail("move", "bigon elimination returned %u diagrams", n); unsigned nx = 0; Poly w; w[{0, 0}] = 1; for (unsigned j = 0; j < n; j++) { moved("bigon elimination", p, keep, out[j], NULL, 99); nx += out[j]->ncross; w = poly_mul(w, ref_homfly(gauss_of(out[j]))); if (j) w = poly_mul(w, poly_split()); }
        if (nx + 2 != p->ncross) sim_fail("move", "bigon elimination: %u crossings became %u", p->ncross, nx); unsigned ncm = 0; for (unsigned j = 0; j < n; j++) ncm += out[j]->ncomps; if (ncm != p->ncomps) sim_fail("move", "bigon elimination: %u components became %u", p->ncomps, ncm);
        if (w != P) sim_fail("move", "bigon elimination gave another link (%u crossings in %u parts): %s, expected %s", nx, n, poly_str(w).c_str(), poly_str(P).c_str()); sim_probe(n == 2 ? "bigon elimination split the diagram" : "bigon eliminated");
        { Tags t; for (unsigned j = 0; j < n; j++) tags_into(t, out[j]); same_tags("bigon elimination", T0, t); if (n == 2) { unsigned b = F.edge[0]; if (!is_over(p, b, true)) b = F.edge[1]; pd_idx_t oc, op; pd_component_and_pos(p, b, &oc, &op); if (!tags_of(out[0]).count(p->comp[oc].tag)) sim_fail("move", "bigon elimination: the first part does not have the upper strand"); } }
        if (sh) { pd_idx_t sn = 77, c2[2] = {E.head, E.tail}; pd_code_t **so = NULL; pd_R2_bigon_elimination(sh, c2, &sn, &so); if (sn != n) sim_fail("shadow", "bigon elimination of an unsigned diagram: %u parts, signed %u", sn, n); if (n == 1) same_shadow("bigon elimination", out[0], so[0], false); else { unsigned x = so[0]->ncross, y = so[1]->ncross; if (std::min(x, y) != std::min(out[0]->ncross, out[1]->ncross)) sim_fail("shadow", "bigon elimination of an unsigned diagram: parts of %u and %u crossings", x, y); if (x != y) for (int j = 0; j < 2; j++) same_shadow("bigon elimination", out[0]->ncross == so[j]->ncross ? out[0] : out[1], so[j], false); } for (unsigned j = 0; j < sn; j++) pd_code_free(&so[j]); free(so); }
        for (unsigned j = 1; j < n; j++) add(out[j], ref_homfly(gauss_of(out[j]))); q = out[0]; S[i].p = ref_homfly(gauss_of(q)); free(out); break; }
      case 3: { // bigon addition
        if (p->ncross + 2 > cap || p->ncross == 0) break; unsigned f = ch(p->nfaces); if (p->face[f].nedges < 2) break; unsigned a = ch(p->face[f].nedges), b = ch(p->face[f].nedges); if (a == b || p->face[f].edge[a] == p->face[f].edge[b]) break; ev("bigon addition"); q = pd_R2_bigon_addition(p, f, a, b, PD_POS_ORIENTATION); sound_pd("bigon addition", q);
        std::vector<unsigned> un; for (unsigned c = 0; c < q->ncross; c++) if (q->cross[c].sign == PD_UNSET_ORIENTATION) un.push_back(c); if (un.size() != 2) sim_fail("move", "bigon addition left %zu crossings without sign", un.size()); int s = ch(2); q->cross[un[0]].sign = s; q->cross[un[1]].sign = !s; moved("bigon addition", p, keep, q, &P, 2); sim_probe("bigon added"); if (sh) same_shadow("bigon addition", q, pd_R2_bigon_addition(sh, f, a, b, PD_POS_ORIENTATION), true); break; }
      case 4: { // triangle flip
        std::vector<unsigned> c; for (unsigned f = 0; f < p->nfaces; f++) if (p->ncross && p->face[f].nedges == 3) { std::set<unsigned> v, es; int tops = 0, bots = 0; for (int j = 0; j < 3; j++) { unsigned e = p->face[f].edge[j]; es.insert(e); v.insert(p->edge[e].head); v.insert(p->edge[e].tail); bool h = is_over(p, e, true), t = is_over(p, e, false); if (h && t) tops++; if (!h && !t) bots++; } if (v.size() == 3 && es.size() == 3 && tops == 1 && bots == 1) { bool outer = true; for (unsigned e : es) for (unsigned n2 : {(unsigned)pd_next_edge(p, e), (unsigned)pd_previous_edge(p, e)}) if (es.count(n2)) outer = false; if (outer) c.push_back(f); } }
        if (c.empty()) { // not a triangle: refused
          break; }
        unsigned f = c[ch(c.size())]; ev("triangle flip at face %u", f); q = pd_R3_triangle_flip(p, f); moved("triangle flip", p, keep, q, &P, 0); sim_probe("triangle flipped"); if (sh) same_shadow("triangle flip", q, pd_R3_triangle_flip(sh, f), true); break; }
      case 5: { // connected sum
        pd_code_t *b = topo_pd(5); if (p->ncross + b->ncross > cap) { pd_code_free(&b); break; } Poly B = ref_homfly(gauss_of(b)); pd_code_t *kb = pd_copy(b); unsigned ea = ch(p->nedges), eb = ch(b->nedges); ev("connected sum of %u and %u crossings", p->ncross, b->ncross); q = pd_connect_sum(p, ea, b, eb); Poly w = poly_mul(P, B); moved("connected sum", p, keep, q, &w, b->ncross); std::string df = diff_pd(kb, b, true); if (df != "") sim_fail("argument-changed", "connected sum changed its second argument: %s", df.c_str()); if (q->ncomps != p->ncomps + b->ncomps - 1) sim_fail("move", "connected sum has %u components", q->ncomps);
        if (chance(1, 3)) { // the same sum with some or all signs unset
          int mode = ch(3); auto strip = [&](pd_code_t *x, bool all) { for (unsigned c = 0; c < x->ncross; c++) if (all || (mode == 2 && chance(1, 2))) x->cross[c].sign = PD_UNSET_ORIENTATION; }; pd_code_t *a2 = pd_copy(p), *b2 = pd_copy(b); strip(a2, mode == 0); strip(b2, mode == 1); int want[3] = {0}, got[3] = {0}; for (pd_code_t *x : {a2, b2}) for (unsigned c = 0; c < x->ncross; c++) want[x->cross[c].sign]++; pd_code_t *q2 = pd_connect_sum(a2, ea, b2, eb); sound_pd("connected sum", q2); for (unsigned c = 0; c < q2->ncross; c++) got[q2->cross[c].sign]++; if (memcmp(want, got, sizeof want)) sim_fail("shadow", "connected sum of partly signed diagrams: %d+ %d- %d unset crossings, should be %d %d %d", got[1], got[0], got[2], want[1], want[0], want[2]); sim_probe("partly signed sum"); sim_count(1); pd_code_free(&a2); pd_code_free(&b2); pd_code_free(&q2); }
        pd_code_free(&b); pd_code_free(&kb); S[i].p = w; break; }
      case 6: { // orientation and numbering
        if (p->ncross == 0) { q = pd_copy(p); pd_reorient_component(q, 0, PD_NEG_ORIENTATION); std::string df = diff_pd(p, q, false); if (df != "") sim_fail("reverse", "reversing a crossingless loop: %s", df.c_str()); pd_code_free(&q); break; } unsigned c = ch(p->ncomps); q = pd_copy(p); if (chance(1, 2)) { ev("reorient %u", c); Gauss g = gauss_of(p); std::vector<int> cp(2 * g.n, -1); for (unsigned x = 0; x < p->ncomps; x++) for (unsigned j = 0; j < p->comp[x].nedges; j++) { pd_edge_t &e = p->edge[p->comp[x].edge[j]]; cp[2 * e.head + e.headpos % 2] = x; }
          for (int x = 0; x < 2 * g.n; x++) if (cp[x] == (int)c) std::swap(g.nxt[x], g.prv[x]); for (int x = 0; x < g.n; x++) if ((cp[2 * x] == (int)c) != (cp[2 * x + 1] == (int)c)) g.sign[x] = -g.sign[x]; Poly w = ref_homfly(g); pd_reorient_component(q, c, PD_NEG_ORIENTATION); moved("reversing a component", p, keep, q, &w, 0); S[i].p = w; Tags t = T0; int tg = p->comp[c].tag; for (auto &x : t) for (auto &y : x.second) if ((x.first == tg) != (y.first == tg)) y.second = -y.second; same_tags("reversing a component", t, tags_of(q)); }
        else { unsigned o = ch(2 * p->comp[c].nedges); ev("renumber %u by %u", c, o); pd_renumber_component(q, c, o); moved("renumbering a component", p, keep, q, &P, 0); same_tags("renumbering a component", T0, tags_of(q)); if (!same_diagram(p, q, false)) sim_fail("move", "renumbering gave another diagram"); } break; }
      case 7: { ev("simplify"); q = pd_simplify(p); moved("simplify", p, keep, q, &P, 99); same_tags("simplify", T0, tags_of(q)); if (q->ncross > p->ncross) sim_fail("move", "simplify added crossings"); for (unsigned f = 0; f < q->nfaces; f++) if (q->ncross && q->face[f].nedges == 1) sim_fail("move", "simplify left a loop"); break; }
      case 9: { std::vector<pd_code_t *> out; std::string what; if (!tangle_slide(p, out, what)) break; if (out.empty()) sim_fail("move", "%s: no diagram", what.c_str()); Poly w; w[{0, 0}] = 1; unsigned ncm = 0; for (size_t j = 0; j < out.size(); j++) { moved(what.c_str(), p, keep, out[j], NULL, 99); if (!j) { Tags t; for (auto *x : out) tags_into(t, x); same_tags(what.c_str(), T0, t); } if (out[j]->ncross > 18) { ncm = ~0u; break; } w = poly_mul(w, ref_homfly(gauss_of(out[j]))); if (j) w = poly_mul(w, poly_split()); ncm += out[j]->ncomps; }
        if (ncm != ~0u) { if (ncm != p->ncomps) sim_fail("move", "%s: %u components became %u", what.c_str(), p->ncomps, ncm); if (w != P) sim_fail("move", "%s gave another link: %s, expected %s", what.c_str(), poly_str(w).c_str(), poly_str(P).c_str()); sim_probe(out.size() > 1 ? "slide split the diagram" : "strand slid over a tangle"); }
        for (size_t j = 1; j < out.size(); j++) pd_code_free(&out[j]); if (out[0]->ncross > cap) { pd_code_free(&out[0]); break; } q = out[0]; S[i].p = ref_homfly(gauss_of(q)); break; }
      case 8: { ev("copy"); q = chance(1, 2) ? pd_copy(p) : pd_copy_newsize(p, p->ncross + ch(4)); moved("copy", p, keep, q, &P, 0); std::string df = diff_pd(p, q, true); if (df != "") sim_fail("copy", "copy differs: %s", df.c_str()); break; }
      }
      if (q) { pd_code_free(&S[i].pd); S[i].pd = q; } if (sh) pd_code_free(&sh); pd_code_free(&keep); }
    for (auto &s : S) pd_code_free(&s.pd); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  leakcheck(mark);
}
