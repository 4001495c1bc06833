// C24 expansion and classification tools: processpdstor, orientedshadows, shadow2diagram, knottype.
#include "sim.h"
#include "pd_model.h"
#include "plCurve.h"
#include <array>
#include "topo_model.h"
#include "store_model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
unsigned int pd_stor_nelts(pd_stor_t *);
#define T(n) int tool_main_##n(int, char **);
T(processpdstor) T(orientedshadows) T(shadow2diagram) T(knottype)
#undef T
}
typedef int (*Main)(int, char **);
typedef std::vector<std::string> Lines;
enum { PROCESS, ORIENT, SHADOW, KNOT };
static const char *tname[] = {"processpdstor", "orientedshadows", "shadow2diagram", "knottype"};
static Main tmain[] = {tool_main_processpdstor, tool_main_orientedshadows, tool_main_shadow2diagram, tool_main_knottype};
static Lines split(const std::string &t) { Lines l; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size(); l.push_back(t.substr(a, e - a)); a = e + 1; } return l; }
static std::string stem(const std::string &name, bool ext) { size_t s = name.rfind('/'); std::string b = s == std::string::npos ? name : name.substr(s + 1); return ext ? b.substr(0, b.size() - 7) : b; }
// the codes of a store file in the order of the file
static std::vector<pd_code_t *> codes_of(const std::string &bytes) {
  std::vector<pd_code_t *> v; FILE *f = sim_open_bytes(bytes, ReadPlan()); int n = 0, b, h; if (fscanf(f, "pdstor nelts %d/%d (claimed/actual) nhashes %d", &n, &b, &h) == 3) for (int j = 0; j < n; j++) { pd_code_t *p = pd_read(f); if (!p) break; v.push_back(p); } fclose(f); return v; }
static void drop(std::vector<pd_code_t *> &v) { for (auto p : v) pd_code_free(&p); v.clear(); }
static std::string small_store(int maxn, int maxcross, double maxexp, int signmode, bool orient_only, bool asym = false) {
  FS.wp = WritePlan(); std::string body; std::set<std::string> hashes; int n = chance(1, 14) ? 0 : chr(1, maxn);
  for (int i = 0; i < n; i++) { pd_code_t *p = NULL;
    if (asym) { u64 s0 = ch(1 << 20); for (int t = 0; t < 400 && !p; t++) { p = pd_random_planar(2, 3 + t % 3, 6, s0 + t, signmode); if (p && (p->ncomps != 2 || p->ncross < 5)) pd_code_free(&p); else if (p) { MD m = model_of(p); if (count_iso(m, m, false, NULL, NULL) != 1) pd_code_free(&p); else sim_probe("links without symmetries"); } } }
    for (int t = 0; t < 8 && !p; t++) { p = gen_pd(maxcross, signmode); double e = pow(2.0, (double)p->ncomps + (orient_only ? 0 : p->ncross)), cost = 1; std::map<int, int> grp; for (unsigned i = 0; i < p->ncomps; i++) cost *= 2.0 * p->comp[i].nedges * ++grp[p->comp[i].nedges]; if (e > maxexp || cost > 20000 || e * e * cost > 1e7) pd_code_free(&p); } /* the library compares every pair in every way */ if (!p) p = pd_build_torus_knot(2, 3); if (signmode == 2) for (unsigned c = 0; c < p->ncross; c++) p->cross[c].sign = PD_UNSET_ORIENTATION; any_tags(p); pd_regenerate_hash(p); hashes.insert(p->hash); p->uid = chance(1, 3) ? ch(100000) : i; FILE *f = sim_fopen("making", "w"); pd_write(f, p); fputc('\n', f); fclose(f); body += disk.get("making"); disk.del("making"); pd_code_free(&p); }
  return "pdstor \nnelts " + std::to_string(n) + "/" + std::to_string(n) + " (claimed/actual) nhashes " + std::to_string(hashes.size()) + "\n\n" + body;
}
// ------------------------------------------------------------ Millett/Ewing codes
static bool parse_ccode(const Lines &l, MD &m) { // lines "n+ to pos to pos to pos to pos" for a (over, out), b, c (over, in), d clockwise
  m = MD(); m.n = l.size(); m.nb.assign(4 * m.n, -1); m.head.assign(4 * m.n, 0); m.sign.assign(m.n, 0); m.comp.assign(4 * m.n, 0); auto at = [](char c) { return c == 'a' ? 0 : c == 'd' ? 1 : c == 'c' ? 2 : c == 'b' ? 3 : -1; };
  for (int i = 0; i < m.n; i++) { int id, to[4], used = 0; char sg, pos[4], junk; if (sscanf(l[i].c_str(), "%d%c%d%c%d%c%d%c%d%c%n%c", &id, &sg, &to[0], &pos[0], &to[1], &pos[1], &to[2], &pos[2], &to[3], &pos[3], &used, &junk) != 10 || id != i + 1 || (sg != '+' && sg != '-')) return false; m.sign[i] = sg == '+' ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
    for (int k = 0; k < 4; k++) { if (to[k] < 1 || to[k] > m.n || at(pos[k]) < 0) return false; m.nb[4 * i + at("abcd"[k])] = 4 * (to[k] - 1) + at(pos[k]); } m.head[4 * i + at('c')] = 1; m.head[4 * i + at(sg == '+' ? 'b' : 'd')] = 1; }
  for (int x = 0; x < 4 * m.n; x++) if (m.nb[m.nb[x]] != x || m.head[x] == m.head[m.nb[x]]) return false; return true;
}
static bool small_comp(pd_code_t *p) { for (unsigned i = 0; i < p->ncomps; i++) if (p->comp[i].nedges < 3) return true; return false; }
static std::string written_kt(pd_code_t *p) { FILE *f = sim_fopen("kt", "w"); pd_write_KnotTheory(f, p); fclose(f); std::string b = disk.get("kt"); disk.del("kt"); return b; }
struct Opt { int form = 0; bool allc = false, allo = false, reps = false, simp = false, nosimp = false; int comps = 0; }; // form 0 ccode, 1 KnotTheory, 2 knot types, 3 pdstor
struct Exp { pd_code_t *pd; std::string orient, signs; };
static std::vector<Exp> expand(pd_code_t *in, bool allo, bool allc) {
  std::vector<Exp> out; unsigned no = allo ? 1u << in->ncomps : 1, nx = allc ? 1u << in->ncross : 1;
  for (unsigned o = 0; o < no; o++) for (unsigned x = 0; x < nx; x++) { Exp e; e.pd = pd_copy(in); for (unsigned i = 0; i < in->ncomps; i++) { if (o >> i & 1) pd_reorient_component(e.pd, i, PD_NEG_ORIENTATION); e.orient += o >> i & 1 ? '-' : '+'; } for (unsigned i = 0; i < in->ncross; i++) { if (allc) e.pd->cross[i].sign = x >> i & 1 ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION; else if (e.pd->cross[i].sign == PD_UNSET_ORIENTATION) e.pd->cross[i].sign = PD_POS_ORIENTATION; e.signs += e.pd->cross[i].sign == PD_POS_ORIENTATION ? '+' : '-'; } out.push_back(e); }
  return out;
}
typedef std::multiset<std::string> Bag;
static Bag classes_of(const std::vector<Exp> &v, bool strict, bool tags) { std::map<std::string, std::string> c; for (auto &e : v) { MD m = model_of(e.pd); std::vector<int> t = tags_of(e.pd); c[canon(m, strict, strict ? &t : NULL)] = canon(m, strict, tags ? &t : NULL); } Bag b; for (auto &x : c) b.insert(x.second); return b; }
static void take(const char *w, const std::string &what, Bag &left, const MD &m, bool strict, const std::vector<int> *tag) { auto i = left.find(canon(m, strict, tag)); if (i == left.end()) sim_fail("element", "%s: %s: a diagram of %d crossings is not wanted, or comes twice", w, what.c_str(), m.n); left.erase(i); sim_count(1); }
struct Rec { std::string head; Lines body; };
static void check_body(const char *w, const Opt &o, const Rec &r, pd_code_t *want) {
  std::string text; for (auto &x : r.body) text += x + "\n"; while (text.size() > 1 && text[text.size() - 2] == '\n') text.pop_back();
  if (o.form == 0) { Lines l; for (auto &x : r.body) if (x != "") l.push_back(x); MD m; if (!parse_ccode(l, m)) sim_fail("ccode", "%s: no crossing code after \"%s\"", w, r.head.c_str()); MD g = model_of(want); if (m.n != g.n || (m.n && !count_iso(m, g, true, NULL, NULL, false))) sim_fail("ccode", "%s: \"%s\" is followed by the code of another diagram", w, r.head.c_str()); }
  else if (o.form == 1) { std::string k = written_kt(want); while (k.size() > 1 && k[k.size() - 2] == '\n') k.pop_back(); if (k != text) sim_fail("knottheory", "%s: \"%s\" is followed by %.80s, expected %.80s", w, r.head.c_str(), text.c_str(), k.c_str()); }
  else if (want->ncomps == 1) { int n = 0; plc_knottype *kt = pd_classify(want, &n); std::string k; for (int i = 0; i < n; i++) { k += std::to_string(kt[i].cr[0]) + "_" + std::to_string(kt[i].ind[0]); for (int j = 1; j < kt[i].nf; j++) k += "#" + std::to_string(kt[i].cr[j]) + "_" + std::to_string(kt[i].ind[j]); k += std::string(" (") + kt[i].homfly + ") \n"; } free(kt); if (n == 0 ? text != "" && text != "\n" : k != text) sim_fail("knottype", "%s: \"%s\" is followed by %.80s, expected %.80s", w, r.head.c_str(), text.c_str(), k.c_str()); sim_probe("knot types"); }
  else { Poly p; if (!text.empty()) text.pop_back(); if (!parse_latex(text.c_str(), p)) sim_fail("homfly", "%s: \"%s\" is followed by %.80s", w, r.head.c_str(), text.c_str()); if (want->ncross > 0) { Poly g = ref_homfly(gauss_of(want)); if (p != g) sim_fail("homfly", "%s: polynomial %.100s, expected %s", w, text.c_str(), poly_str(g).c_str()); } sim_probe("link polynomials"); }
  sim_count(1);
}
static void check_process(const char *w, const std::string &text, const std::vector<pd_code_t *> &codes, const Opt &o) {
  if (!text.empty() && text.back() != '\n') sim_fail("incomplete", "%s: the last line is cut off", w);
  std::vector<Rec> recs; for (auto &l : split(text)) { if (l.compare(0, 2, "# ") == 0) recs.push_back({l, {}}); else if (recs.empty()) { if (l != "") sim_fail("stray-output", "%s: %.60s", w, l.c_str()); } else recs.back().body.push_back(l); }
  size_t at = 0; // records come pd code by pd code
  for (auto in : codes) { pd_code_t *p = in; if (o.simp || o.nosimp) p = pd_simplify(in);
    bool on = o.form == 2 || (o.nosimp ? p->ncross == in->ncross : p->ncross > 0); if (o.comps && (int)p->ncomps != o.comps) on = false;
    if (on) { std::vector<Exp> ex = expand(p, o.allo, o.allc);
      if (!o.reps) { std::vector<char> seen(ex.size(), 0); for (size_t k = 0; k < ex.size(); k++, at++) { if (at >= recs.size()) sim_fail("incomplete", "%s: %zu records, more expected", w, recs.size()); char os[300] = "", xs[300] = ""; int nc = -1; unsigned long uid = 0; const std::string &h = recs[at].head; sscanf(h.c_str(), "# %d crossing pd from original UID %lu, orientations %299[+-] crossings %299[+-]", &nc, &uid, os, xs); if (nc != (int)p->ncross || uid != in->uid) sim_fail("record", "%s: \"%s\" for pd code %lu of %u crossings", w, h.c_str(), (unsigned long)in->uid, p->ncross);
          int hit = -1; for (size_t q = 0; q < ex.size(); q++) if (ex[q].orient == os && ex[q].signs == xs && !seen[q]) hit = q; if (hit < 0) sim_fail("record", "%s: \"%s\" is not wanted, or comes twice", w, h.c_str()); seen[hit] = 1; check_body(w, o, recs[at], ex[hit].pd); } if (ex.size() > 4) sim_probe("expanded"); }
      else { Bag cls = classes_of(ex, true, false), left = cls; for (size_t k = 0; k < cls.size(); k++, at++) { if (at >= recs.size()) sim_fail("incomplete", "%s: %zu records, more expected", w, recs.size()); char xs[300] = ""; int nc = -1; unsigned long uid = 0; const std::string &h = recs[at].head; sscanf(h.c_str(), "# %d crossing pd from original UID %lu, crossings %299[+-]", &nc, &uid, xs); if (nc != (int)p->ncross || uid != in->uid || strlen(xs) != p->ncross) sim_fail("record", "%s: \"%s\" for pd code %lu of %u crossings", w, h.c_str(), (unsigned long)in->uid, p->ncross);
          if (o.form == 0) { Lines l; for (auto &x : recs[at].body) if (x != "") l.push_back(x); MD m; if (!parse_ccode(l, m)) sim_fail("ccode", "%s: no crossing code after \"%s\"", w, h.c_str()); take(w, h, left, m, true, NULL); }
          else if (o.form == 1 && !small_comp(p) && p->ncross) { std::string t; for (auto &x : recs[at].body) t += x + "\n"; FILE *f = sim_open_bytes(t, ReadPlan()); pd_code_t *q = pd_read_KnotTheory(f); fclose(f); if (!q) sim_fail("knottheory", "%s: unreadable code after \"%s\"", w, h.c_str()); MD m = model_of(q); pd_code_free(&q); take(w, h, left, m, true, NULL); }
          else if (o.form == 2) { std::string t; for (auto &x : recs[at].body) t += x; if (t == "" && p->ncomps > 1) sim_fail("homfly", "%s: nothing after \"%s\"", w, h.c_str()); } sim_count(1); }
        if (cls.size() < ex.size()) sim_probe("orbits merged"); }
      for (auto &e : ex) pd_code_free(&e.pd); }
    if (p != in) pd_code_free(&p); }
  if (at != recs.size()) sim_fail("record", "%s: %zu records, expected %zu", w, recs.size(), at);
}
// every element of the store is one of the wanted classes, each as often as wanted
static void check_classes(const char *w, const std::string &bytes, Bag left, bool strict) {
  Content c = content_of(bytes); if (!c.ok) sim_fail("unreadable", "%s is no readable store", w);
  for (size_t i = 0; i < c.e.size(); i++) { sound_pd(w, c.pd[i]); if (!pd_ok(c.pd[i])) sim_fail("pd-ok", "%s: fails the library's check", w); if (!strict) for (int s : c.e[i].d.sign) if (s != PD_UNSET_ORIENTATION) sim_fail("sign", "%s: element %zu has crossing information", w, i); take(w, "element " + std::to_string(i), left, c.e[i].d, strict, strict ? &c.e[i].tag : NULL); }
  if (!left.empty()) sim_fail("incomplete", "%s: %zu of the wanted diagrams are missing", w, left.size()); free_content(c);
}
static void check_codes(const char *w, const std::string &text, int form, Bag left, const std::vector<pd_code_t *> &codes) {
  std::vector<MD> got; size_t want = left.size();
  if (form == 0) { Lines cur; Lines all = split(text); all.push_back(""); for (auto &l : all) if (l == "") { if (!cur.empty()) { MD m; if (!parse_ccode(cur, m)) sim_fail("ccode", "%s: no crossing code: %.60s", w, cur[0].c_str()); got.push_back(m); cur.clear(); } } else cur.push_back(l); }
  else { FILE *f = sim_open_bytes(text, ReadPlan()); for (auto &l : split(text)) { if (l == "") continue; pd_code_t *q = pd_read_KnotTheory(f); if (!q) sim_fail("knottheory", "%s: unreadable: %.60s", w, l.c_str()); got.push_back(model_of(q)); pd_code_free(&q); } fclose(f); }
  if (got.size() != want) sim_fail("incomplete", "%s: %zu diagrams, expected %zu", w, got.size(), want); if (form == 1) for (auto p : codes) if (small_comp(p)) return;
  for (auto &m : got) take(w, "a code", left, m, true, NULL);
}
// two torus knots, each cut at its end towards the other
static std::vector<std::array<double, 3>> composite() {
  auto torus = [](int q, int n, double mir, double x0) { std::vector<std::array<double, 3>> v; for (int i = 0; i < n; i++) { double t = 2 * M_PI * i / n; v.push_back({x0 + (2 + cos(q * t)) * cos(2 * t), (2 + cos(q * t)) * sin(2 * t), mir * sin(q * t)}); } return v; };
  auto a = torus(3 + 2 * ch(2), chr(20, 30), ch(2) ? 1 : -1, 0), b = torus(3, chr(16, 24), ch(2) ? 1 : -1, 9); int ia = 0, ib = 0; for (size_t i = 0; i < a.size(); i++) if (a[i][0] > a[ia][0]) ia = i; for (size_t i = 0; i < b.size(); i++) if (b[i][0] < b[ib][0]) ib = i;
  std::vector<std::array<double, 3>> v; for (size_t i = 1; i <= a.size(); i++) v.push_back(a[(ia + i) % a.size()]); for (size_t i = 0; i < b.size(); i++) v.push_back(b[(ib + i) % b.size()]); return v;
}
struct Knot { Poly3 L; Poly want; int live; };
static bool gen_clear(Knot &k, bool knots) {
  for (int t = 0; t < 12; t++) { int kind; k.L = gen_knot(kind); if (knots && k.L.size() > 1) k.L.resize(1); if (knots && chance(1, 5)) k.L = {composite()}; Poly3 &L = k.L; double clear = 1e300, size = 0; for (size_t a = 0; a < L.size(); a++) for (size_t i = 0; i < L[a].size(); i++) { for (int q = 0; q < 3; q++) size = std::max(size, fabs(L[a][i][q])); for (size_t b = a; b < L.size(); b++) for (size_t j = a == b ? i + 1 : 0; j < L[b].size(); j++) { size_t na = L[a].size(); if (a == b && (j == i + 1 || (i == 0 && j == na - 1))) continue; clear = std::min(clear, seg_dist(L[a][i], L[a][(i + 1) % na], L[b][j], L[b][(j + 1) % L[b].size()])); } }
    Gauss g; if (clear < 1e-3 * size || !z_connected(L) || !project_curve(L, 12345, 13, g, NULL)) continue; k.want = ref_homfly(g); k.live = 0; for (int s : g.sign) if (s) k.live++; return true; }
  return false;
}
static void check_knots(const std::string &out, const std::vector<Knot> &ks, const Lines &names, bool h, bool k, bool v, bool p, bool quiet) {
  Lines ls = split(out); size_t at = 0; auto next = [&](const char *what) -> std::string { if (at >= ls.size()) sim_fail("incomplete", "output ends before %s", what); return ls[at++]; }; if (!quiet) { next("banner"); next("banner"); }
  auto types = [&](const Knot &K, std::vector<plc_knottype> &v2) { v2.clear(); std::string l = next("the type"); if (l.compare(0, 6, "Unable") == 0) { check_types("knottype", NULL, 0, K.want, K.live); return false; } if (l != "Possible knot type(s):") sim_fail("output", "%.80s", l.c_str());
    while (at < ls.size() && ls[at][0] == '|') { plc_knottype t; memset(&t, 0, sizeof t); const char *s = ls[at].c_str() + 1; while (*s == '<') { int n = 0, f = t.nf; if (f == MAXPRIMEFACTORS || sscanf(s, "<%d_%d %127[^>]>%n", &t.cr[f], &t.ind[f], t.sym[f], &n) != 3 || !n) sim_fail("output", "%.80s", ls[at].c_str()); s += n; t.nf++; } if (strcmp(s, "|")) sim_fail("output", "%.80s", ls[at].c_str()); std::string lm; strcpy(t.homfly, "?"); v2.push_back(t); at++; }
    u64 ph = 0; (void)ph; return true; };
  for (size_t i = 0; i < ks.size(); i++) { const Knot &K = ks[i]; std::string base = names[i].substr(names[i].rfind('/') == std::string::npos ? 0 : names[i].rfind('/') + 1); if (!quiet) { std::string l = next("the file name"); if (l != base) sim_fail("output", "%.80s, expected the file name %s", l.c_str(), base.c_str()); }
    if (p) { std::string l = next("the pd code"); if (l == "" && at < ls.size()) l = next("the pd code"); FILE *f = sim_open_bytes(l + "\n", ReadPlan()); pd_code_t *q = pd_read_KnotTheory(f); fclose(f); if (q) { if (q->ncross <= 16 && !small_comp(q) && K.L.size() == 1) { Poly w = ref_homfly(gauss_of(q)); if (w != K.want) sim_fail("pdcode", "the pd code of %s has polynomial %s, expected %s", base.c_str(), poly_str(w).c_str(), poly_str(K.want).c_str()); sim_probe("pd codes"); } pd_code_free(&q); } else if (K.want.size() > 1) sim_fail("pdcode", "no pd code for a knotted curve: %.80s", l.c_str()); }
    if (h) { std::string l = next("the polynomial"); Poly g; if (l.compare(0, 19, "Homfly polynomial:(") || l.back() != ')' || !parse_latex(l.substr(19, l.size() - 20).c_str(), g)) sim_fail("output", "%.100s", l.c_str()); if (g != K.want) sim_fail("homfly", "%s: %s, expected %s", base.c_str(), l.c_str(), poly_str(K.want).c_str()); sim_count(1); }
    gsl_rng *rng = gsl_rng_alloc(gsl_rng_mt19937); plCurve *C = curve_of(K.L); int n = 0; plc_knottype *kt = k || v ? plc_classify(rng, C, &n) : NULL; if (k || v) check_types("plc_classify", kt, n, K.want, K.live);
    auto same = [&] { std::vector<plc_knottype> got; bool ok = types(K, got); if (ok != (n > 0) || (int)got.size() != n) sim_fail("types", "%s: %zu types, expected %d", base.c_str(), got.size(), n); for (int a = 0; a < n; a++) { bool hit = false; for (auto &g : got) { bool eq = g.nf == kt[a].nf; for (int f = 0; eq && f < g.nf; f++) if (g.cr[f] != kt[a].cr[f] || g.ind[f] != kt[a].ind[f] || strcmp(g.sym[f], kt[a].sym[f])) eq = false; hit |= eq; } if (!hit) sim_fail("types", "%s: type %d_%d is not named", base.c_str(), kt[a].cr[0], kt[a].ind[0]); } sim_count(1); return ok; };
    if (k) same();
    if (v) { bool ok = same(); std::string r; int cr, comps, ind; bool link = sscanf(base.c_str(), "kl_%d_%d_%d", &cr, &comps, &ind) == 3, knot = !link && sscanf(base.c_str(), "kl_%d_%d_", &cr, &ind) == 2;
      if (!ok) r = "RESULT: Maybe ok"; else { if (next("the name") != "Knot type from name:") sim_fail("output", "%.80s", ls[at - 1].c_str()); if (link) { next("the type"); next("the warning"); r = "RESULT: Maybe ok"; } else if (knot) { next("the type"); int good = 0; for (int a = 0; a < n; a++) if (kt[a].nf == 1 && kt[a].cr[0] == cr && kt[a].ind[0] == ind) good++; r = good == n ? "RESULT: Ok" : good ? "RESULT: Maybe ok" : "RESULT: Not ok"; sim_probe(r.c_str()); if (!good && n && kt[0].nf > 1) sim_probe("composite"); } }
      if (r != "") { std::string l = next("the verdict"); if (l != r) sim_fail("verdict", "%s: \"%s\", expected \"%s\"", base.c_str(), l.c_str(), r.c_str()); } }
    free(kt); plc_free(C); gsl_rng_free(rng); }
  if (!quiet) next("the end"); if (at != ls.size()) sim_fail("output", "more output: %.80s", ls[at].c_str());
}
void run_C24() {
  alloc_reset(); A.track = false; A.limit = 256u << 20; FS.on = true; CK.on = true; CK.step = [](long) { return 700L; };
  int tool = pick({5, 3, 4, 4}), kind = pick({5, tool == KNOT ? 0u : 4u, 1, 2, 2, 1}); // 0 quiet, 1 failing writes, 2 an open fails, 3 damaged input, 4 failing reads, 5 missing input
  Lines names, argv{tname[tool]}, bytes; std::vector<Knot> ks; Opt o; std::string out = chance(1, 2) ? "out/result" : "result"; bool named = chance(2, 3), kh = false, kk = false, kv = false, kp = false, quiet = false, countonly = false; mkdir("out", 0700); mkdir("in", 0700);
  int nin = tool == SHADOW ? 1 : chance(1, 2) ? 1 : chr(1, 3); bool longname = chance(1, 12), ext = chance(5, 6), indir = chance(1, 4);
  if (tool == PROCESS) { o.form = pick({3, 2, 2}); o.allc = chance(1, 2); o.allo = chance(1, 2); o.reps = chance(1, 3); if (chance(1, 4)) o.comps = chr(1, 3); if (chance(1, 4)) o.simp = true; if (chance(1, 5)) o.nosimp = true; }
  if (tool == SHADOW) { o.form = (int[]){3, 3, 0, 1}[ch(4)]; countonly = o.form == 3 && chance(1, 4); }
  Death d = sim_guard([&] { for (int i = 0; i < nin; i++) {
    if (tool == KNOT) { Knot k; if (!gen_clear(k, chance(2, 3))) sim_discard(); plCurve *C = curve_of(k.L); FS.wp = WritePlan(); FILE *f = sim_fopen("making", "w"); plc_write(f, C); fclose(f); plc_free(C); bytes.push_back(disk.get("making")); disk.del("making"); ks.push_back(k); static const char *nm[] = {"kl_3_1_x", "kl_0_1_i.vect", "kl_4_1_", "kl_5_1_I", "knot.vect", "kl_3_1_2", "kl_5_2_"}; names.push_back((indir ? "in/" : "") + std::string(nm[ch(7)]) + std::string(i, 'i')); if (std::find(names.begin(), names.end() - 1, names.back()) != names.end() - 1) sim_discard(); }
    else { names.push_back((indir ? "in/" : "") + (longname ? std::string(180 + ch(30), 'k') : std::string("codes")) + std::to_string(i) + (ext ? ".pdstor" : ".txt")); bool small = o.allc || tool == SHADOW; bool big = tool == SHADOW && chance(1, 3); bytes.push_back(small_store(big ? 1 : small ? 3 : 5, big ? 9 : small ? 7 : 9, small ? (big ? 1024 : o.reps || tool == SHADOW ? 128 : 64) : 64, (o.simp || o.nosimp) ? 0 : pick({1, 0, 2}), !small, big && chance(1, 2))); } } });
  if (d.how != O_RETURN) sim_fail("died", "making the inputs: %s", d.msg.c_str());
  if (tool == KNOT) { kh = chance(1, 2); kp = chance(1, 3); kk = chance(1, 2); kv = chance(1, 3); for (auto &k : ks) if (k.L.size() > 1) kk = kv = false; quiet = chance(1, 3); if (kh) argv.push_back(ch(2) ? "-h" : "--homfly"); if (kp) argv.push_back("-p"); if (kk) argv.push_back(ch(2) ? "-k" : "--classify"); if (kv) argv.push_back("-v"); if (quiet) argv.push_back("-q"); argv.insert(argv.end(), {"--seed", std::to_string(ch(1000000))}); if (chance(1, 4)) argv.insert(argv.end(), {"-t", "25"}); }
  else { if (named) argv.insert(argv.end(), {"-o", out}); if (o.allc && tool == PROCESS) argv.push_back(ch(2) ? "-e" : "--generate-all-crossing-signs"); if (o.allo) argv.push_back("--generate-all-orientations"); if (o.reps) argv.push_back("--orbit-reps"); if (o.comps == 1 && ch(2)) argv.push_back("-k"); else if (o.comps) argv.insert(argv.end(), {"-c", std::to_string(o.comps)}); if (o.simp) argv.push_back("-s"); if (o.nosimp) argv.push_back("--no-simplifications-possible"); if (o.form == 1) argv.push_back("-K"); if (o.form == 2) argv.push_back("--knottypes"); if (tool == SHADOW && o.form == 0) argv.push_back("-C"); if (countonly) argv.push_back("--count-only"); }
  argv.insert(argv.end(), names.begin(), names.end());
  int victim = ch(nin); bool missing = kind == 5, changed = false, readable = !missing;
  if (kind == 3) { std::string what; if (chance(1, 3)) { size_t at = ch(bytes[victim].size() + 1); if (chance(1, 2)) { size_t q = bytes[victim].find("\npd ", at); if (q != std::string::npos) at = q; } changed = at < bytes[victim].size(); bytes[victim].resize(at); sim_fault(F_TRUNCATE); what = "truncated"; } else bytes[victim] = damage(bytes[victim], &changed, &what); ev("input %d: %s", victim, what.c_str()); }
  for (int i = 0; i < nin; i++) if (!(missing && i == victim)) disk.put(names[i], bytes[i]); if (missing) { ev("input %d is missing", victim); sim_fault(F_OPEN_FAIL); }
  if (named && tool != KNOT && chance(1, 3)) { disk.put(out, "old result\n# 3 crossing pd\n"); sim_fault(F_STALE_TAIL); }
  std::vector<std::vector<pd_code_t *>> in(nin); bool judge = !missing; double cost = 0;
  d = sim_guard([&] { for (int i = 0; i < nin; i++) { if (missing && i == victim) continue; if (tool == KNOT) { FILE *f = sim_open_bytes(bytes[i], ReadPlan()); int e = 0; char s[200]; plCurve *L = plc_read(f, &e, s, 200); fclose(f); if (!L) readable = false; else { if (kind == 3 && i == victim && changed) judge = false; plc_free(L); } continue; } Content c = content_of(bytes[i]); if (!c.ok) readable = false; else { if (kind == 3 && i == victim && changed) judge = false; free_content(c); in[i] = codes_of(bytes[i]); for (auto p : in[i]) { cost += pow(2.0, (tool == SHADOW || o.allc ? p->ncross : 0) + (double)(tool == PROCESS && !o.allo ? 0 : p->ncomps)); } } } });
  if (d.how != O_RETURN) sim_fail("died", "reading the inputs: %s", d.msg.c_str()); if (!judge && readable && (kind == 3 && (cost > 2000 || tool == KNOT))) sim_discard(); // a damaged but readable curve may touch itself
  Lines before = disk.list(); u64 hin = 7; for (auto &b : bytes) hin = hash_str(b, hin); sim_state(hin + tool * 64 + o.form * 16 + o.allc * 8 + o.allo * 4 + o.reps * 2);
  { std::string s; for (auto &a : argv) s += " " + (a.size() > 60 ? a.substr(0, 20) + ".." : a); ev("run%s (%zu inputs, faults %d)", s.c_str(), names.size(), kind); }
  std::string stdo; auto launch = [&](bool faults) { int fd = memfd_create("out", 0); Death r = sim_proc([&] { alloc_reset(); A.limit = 256u << 20; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); FS.wops = 0; FS.opens = 0; FS.open_fail_at = -1; FS.rp_on = true; FS.rp = choose_read_plan(faults && kind == 4, bytes[0].size()); FS.wp = choose_write_plan(faults && kind == 1); if (faults && kind == 1 && chance(1, 2) && FS.wp.nospace_after >= 0) FS.wp.nospace_after = ch(20000); if (faults && kind == 2) FS.open_fail_at = ch(nin + 2); CK.step = [](long) { return 700L; };
      stdout = fdopen(dup(fd), "w"); setvbuf(stdout, NULL, _IONBF, 0); std::vector<char *> av; for (auto &a : argv) av.push_back(strdup(a.c_str())); av.push_back(NULL); int rc = tmain[tool](av.size() - 1, av.data()); exit(rc); });
    off_t n = lseek(fd, 0, SEEK_END); stdo.resize(n > 0 ? n : 0); if (n > 0) pread(fd, &stdo[0], n, 0); close(fd); return r; };
  auto faults_hit = [&] { u64 n = 0; for (Fault f : {F_READ_EIO, F_READ_TRANSIENT, F_ENOSPC, F_WRITE_EIO, F_CRASH_WRITE}) n += sim_faults_seen(f); return n + (kind == 2 ? sim_faults_seen(F_OPEN_FAIL) : 0); };
  auto complete = [&](const char *when) {
    d = sim_guard([&] { Lines expect = before; auto add = [&](const std::string &n) { if (std::find(expect.begin(), expect.end(), n) == expect.end()) expect.push_back(n); if (!disk.exists(n.c_str())) sim_fail("incomplete", "%s was not written", n.c_str()); };
      if (tool == KNOT) check_knots(stdo, ks, names, kh, kk, kv, kp, quiet);
      else if (tool == PROCESS) { static const char *e[] = {".ccode", ".KnotTheory", ".knottypes"}; if (named) { add(out); std::vector<pd_code_t *> all; for (auto &v : in) all.insert(all.end(), v.begin(), v.end()); check_process(out.c_str(), disk.get(out), all, o); } else for (int i = 0; i < nin; i++) { std::string n = stem(names[i], ext) + e[o.form]; add(n); check_process(n.c_str(), disk.get(n), in[i], o); } }
      else if (tool == ORIENT) { std::vector<Exp> ex; for (int i = 0; i < nin; i++) { for (auto p : in[i]) { pd_code_t *q = pd_copy(p); for (unsigned c = 0; c < q->ncross; c++) q->cross[c].sign = PD_UNSET_ORIENTATION; ex.push_back({q, "", ""}); } if (named && i < nin - 1) continue; std::string n = named ? out : stem(names[i], ext) + "-oriented.pdstor"; add(n); check_classes(n.c_str(), disk.get(n), classes_of(ex, false, false), false); for (auto &x : ex) pd_code_free(&x.pd); ex.clear(); } }
      else { std::string n = named ? out : stem(names[0], ext) + (o.form == 3 ? "-diagrams.pdstor" : o.form == 0 ? "-diagrams.ccodes" : "-diagrams.KnotTheory"); add(n); Bag cls, plain; size_t raw = 0;
        for (auto p : in[0]) { std::vector<Exp> ex = expand(p, true, true); raw += ex.size(); auto c = classes_of(ex, true, true), c2 = classes_of(ex, true, false); if (c.size() == ex.size() && p->ncross) sim_probe("all expansions differ"); cls.insert(c.begin(), c.end()); plain.insert(c2.begin(), c2.end()); for (auto &e : ex) pd_code_free(&e.pd); }
        std::string w = "wrote " + std::to_string(raw) + " diagram pdcodes/" + std::to_string(cls.size()) + " diagram-isotopy types."; if (stdo.find(w) == std::string::npos) sim_fail("count", "the tool does not say: %s", w.c_str());
        if (countonly) sim_probe("counted"); else if (o.form == 3) check_classes(n.c_str(), disk.get(n), cls, true); else { bool zero = false; for (auto p : in[0]) if (!p->ncross) zero = true; if (!zero) check_codes(n.c_str(), disk.get(n), o.form, plain, in[0]); } }
      std::sort(expect.begin(), expect.end()); Lines now = disk.list(); if (now != expect) { std::string x; for (auto &n : now) if (std::find(expect.begin(), expect.end(), n) == expect.end()) x = n; sim_fail("stray", "%s: %zu files, expected %zu (%s)", when, now.size(), expect.size(), x.c_str()); }
      for (int i = 0; i < nin; i++) if (disk.get(names[i]) != bytes[i]) sim_fail("input-changed", "%s was modified", names[i].c_str()); sim_count(1); });
    if (d.how != O_RETURN) sim_fail("died", "checking the output: %s", d.msg.c_str()); };
  u64 f0 = faults_hit(); Death r = launch(true); bool hit = faults_hit() != f0; ev("%s: %s %d %s", tname[tool], r.how == O_EXIT ? "exit" : r.how == O_CRASH ? "killed" : "died", r.code, r.msg.c_str());
  if (r.how == O_EXIT && r.code == 0) { sim_probe("exit 0"); if (!readable) sim_fail("accepted", "%s reports success, but its input %s", tname[tool], missing ? "is missing" : "cannot be read"); if (hit) sim_probe("success despite faults"); if (!judge) sim_probe("damaged input accepted"); else complete("after success"); }
  else if (r.how == O_EXIT || ((r.how == O_ASSERT || r.how == O_ABORT) && (hit || !readable))) { sim_probe("failure reported"); if (!hit && readable && kind != 3) sim_fail("refused", "%s fails (code %d) although nothing went wrong", tname[tool], r.code); }
  else if (r.how != O_CRASH) sim_fail("died", "%s: %s (code %d)", tname[tool], r.msg.c_str(), r.code);
  if ((r.how != O_EXIT || r.code) && readable && kind != 3) { sim_fault(F_RESTART); Death q = launch(false); if (q.how != O_EXIT || q.code) sim_fail("stuck", "%s still fails after the faults stopped: %s (code %d)", tname[tool], q.msg.c_str(), q.code); complete("after running again"); sim_probe("recovered"); }
  for (auto &v : in) drop(v);
}
