// C06 diagram store histories, C08 store files and crashes.
#include "sim.h"
#include "pd_model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#undef new
unsigned int pd_stor_nelts(pd_stor_t *);
void pd_stor_stats(pd_stor_t *, unsigned int *, unsigned int *);
void pd_display_pdstor(FILE *, pd_stor_t *);
pd_code_t *pd_search_pdstor_by_isomorphism(pd_stor_t *, pd_code_t *, pd_iso_t ***, unsigned int *);
void pd_start_incremental_pdstor(FILE *); void pd_addto_incremental_pdstor(FILE *, pd_stor_t *, unsigned *, unsigned *); void pd_finish_incremental_pdstor(FILE *, unsigned, unsigned);
}
// ------------------------------------------------------------ reference diagrams
#include "store_model.h"
MD model_of(pd_code_t *pd) {
  MD m; m.n = pd->ncross; m.hash = pd->hash; m.nb.resize(4 * m.n); m.head.resize(4 * m.n); m.sign.resize(m.n); m.comp.resize(4 * m.n);
  if (m.n) { std::vector<int> ec(pd->nedges, -1); for (unsigned i = 0; i < pd->ncomps; i++) for (unsigned j = 0; j < pd->comp[i].nedges; j++) ec[pd->comp[i].edge[j]] = i;
    for (unsigned e = 0; e < pd->nedges; e++) { int h = 4 * pd->edge[e].head + pd->edge[e].headpos, t = 4 * pd->edge[e].tail + pd->edge[e].tailpos; m.nb[h] = t; m.nb[t] = h; m.head[h] = 1; m.head[t] = 0; m.comp[h] = m.comp[t] = ec[e]; }
    for (int c = 0; c < m.n; c++) m.sign[c] = pd->cross[c].sign; }
  return m;
}
// number of isomorphisms a->b; strict: crossing signs and orientations must agree; tags: components must go to components of the same number; refl: allow the view from inside
int count_iso(const MD &a, const MD &b, bool strict, const std::vector<int> *taga, const std::vector<int> *tagb, bool refl) {
  if (a.n != b.n) return 0; if (a.n == 0) return !taga || *taga == *tagb; int found = 0;
  for (int s = 0; s < (refl ? 2 : 1); s++) for (int d0 = 0; d0 < 4 * b.n; d0++) {
    std::vector<int> to(4 * a.n, -1), back(4 * b.n, -1); std::vector<int> st; bool ok = true;
    auto put = [&](int x, int y) { if (to[x] >= 0 || back[y] >= 0) { if (to[x] != y || back[y] != x) ok = false; return; } // map the whole crossing
      for (int k = 0; k < 4 && ok; k++) { int xx = x / 4 * 4 + (x + k) % 4, yy = y / 4 * 4 + (s ? (y + 4 - k) % 4 : (y + k) % 4); if (to[xx] >= 0 || back[yy] >= 0) { ok = false; return; } to[xx] = yy; back[yy] = xx; st.push_back(xx); }
      if (strict && a.sign[x / 4] != b.sign[y / 4]) ok = false; };
    put(0, d0);
    while (ok && !st.empty()) { int x = st.back(); st.pop_back(); int y = to[x]; if (strict && a.head[x] != b.head[y]) { ok = false; break; } if (taga && (*taga)[a.comp[x]] != (*tagb)[b.comp[y]]) { ok = false; break; } put(a.nb[x], b.nb[y]); }
    if (ok) { bool all = true; for (int x : to) if (x < 0) all = false; if (all) found++; } }
  return found;
}
// a text that is the same for equivalent diagrams and no others (connected diagrams)
std::string canon(const MD &a, bool strict, const std::vector<int> *tag) {
  std::string best; if (a.n == 0) { best = "0"; if (tag) for (int t : *tag) best += "," + std::to_string(t); return best; }
  for (int s = 0; s < 2; s++) for (int d0 = 0; d0 < 4 * a.n; d0++) { std::vector<int> base(a.n, -1), order; std::vector<int> num(a.n, -1); auto meet = [&](int d) { int c = d / 4; if (num[c] < 0) { num[c] = order.size(); base[c] = d % 4; order.push_back(c); } int k = s ? (base[c] - d % 4 + 4) % 4 : (d % 4 - base[c] + 4) % 4; return 4 * num[c] + k; };
    std::string t; meet(d0); for (size_t i = 0; i < order.size(); i++) { int c = order[i]; if (strict) t += a.sign[c] == PD_POS_ORIENTATION ? '+' : a.sign[c] == PD_NEG_ORIENTATION ? '-' : 'u'; for (int k = 0; k < 4; k++) { int d = 4 * c + (s ? (base[c] - k + 4) % 4 : (base[c] + k) % 4); t += (char)(1 + meet(a.nb[d])); if (strict) t += a.head[d] ? '>' : '<'; if (tag) t += (char)(1 + (*tag)[a.comp[d]]); } }
    if (best.empty() || t < best) best = t; }
  return best;
}
// the same diagram in other words: renumbered, components reversed, seen from the other side (signs kept when isotopic is asked for)
pd_code_t *scramble(pd_code_t *pd, bool isotopic, Rng &r) {
  if (pd->ncross == 0) return pd_build_unknot(0);
  int n = pd->ncross, m = pd->nedges; std::vector<int> pc(n), pe(m), rot(n); for (int i = 0; i < n; i++) pc[i] = i; for (int i = 0; i < m; i++) pe[i] = i;
  for (int i = n - 1; i > 0; i--) std::swap(pc[i], pc[r.below(i + 1)]); for (int i = m - 1; i > 0; i--) std::swap(pe[i], pe[r.below(i + 1)]); for (int i = 0; i < n; i++) rot[i] = r.below(4);
  bool refl = r.below(2); std::vector<char> rev(pd->ncomps, 0); if (!isotopic) for (auto &x : rev) x = r.below(2);
  std::vector<int> ec(m); for (unsigned i = 0; i < pd->ncomps; i++) for (unsigned j = 0; j < pd->comp[i].nedges; j++) ec[pd->comp[i].edge[j]] = i;
  pd_code_t *q = pd_code_new(n + 1); q->ncross = n; q->nedges = m; q->nfaces = n + 2;
  auto pos = [&](int c, int p) { int x = (p + rot[c]) % 4; return refl ? (4 - x) % 4 : x; };
  for (int c = 0; c < n; c++) { for (int p = 0; p < 4; p++) q->cross[pc[c]].edge[pos(c, p)] = pe[pd->cross[c].edge[p]]; q->cross[pc[c]].sign = pd->cross[c].sign == PD_UNSET_ORIENTATION ? PD_UNSET_ORIENTATION : isotopic ? pd->cross[c].sign : r.below(2); }
  for (int e = 0; e < m; e++) { pd_edge_t E = pd->edge[e]; pd_edge_t &F = q->edge[pe[e]]; int h = E.head, hp = pos(h, E.headpos), t = E.tail, tp = pos(t, E.tailpos); if (rev[ec[e]]) { std::swap(h, t); std::swap(hp, tp); } F.head = pc[h]; F.headpos = hp; F.tail = pc[t]; F.tailpos = tp; }
  pd_regenerate(q); return q;
}
// ------------------------------------------------------------ C06
std::vector<int> tags_of(pd_code_t *p) { std::vector<int> t; for (unsigned i = 0; i < p->ncomps; i++) t.push_back(p->comp[i].tag); return t; }
bool equivalent(const MEnt &e, const MD &d, const std::vector<int> &tag, int eq) { if (eq == NONE) return false; if (eq == ISOMORPHISM) return count_iso(d, e.d, false, NULL, NULL) > 0; return count_iso(d, e.d, true, &tag, &e.tag) > 0; }
bool has_unset(const MD &d) { for (int s : d.sign) if (s == PD_UNSET_ORIENTATION) return true; return false; }
// the diagram handed out must be the stored one
void same_stored(const char *w, pd_code_t *p, const MEnt &e) {
  sound_pd(w, p); if (!pd_ok(p)) sim_fail("pd-ok", "%s: fails the library's check", w); MD d = model_of(p);
  if (d.hash != e.d.hash) sim_fail("hash", "%s: hash %s, stored under %s", w, d.hash.c_str(), e.d.hash.c_str());
  if (d.n != e.d.n) sim_fail("element", "%s: %d crossings, stored %d", w, d.n, e.d.n);
  for (int c = 0; c < d.n; c++) if ((d.sign[c] == PD_UNSET_ORIENTATION) != has_unset(e.d)) sim_fail("element", "%s: crossing signs %s", w, has_unset(e.d) ? "invented" : "lost");
  std::vector<int> tag = tags_of(p); if (d.n == 0 ? tag != e.tag : !count_iso(d, e.d, true, &tag, &e.tag, false)) sim_fail("element", "%s: not the diagram that was stored (%d crossings)", w, d.n);
}
void store_add(pd_stor_t *s, MStor &m, pd_code_t *p, pd_equivalence_t eq) {
  MD d = model_of(p); std::vector<int> tag = tags_of(p); std::string hash = p->hash; pd_code_t *before = pd_copy(p);
  pd_uid_t want = 0; for (auto &hk : m.h) for (auto &e : hk.second) if (!want && equivalent(e, d, tag, eq)) { if (hk.first != hash) sim_fail("hash", "an equivalent diagram of %d crossings has hash %s, this one %s", d.n, hk.first.c_str(), hash.c_str()); want = e.uid; }
  bool dup = want != 0; if (!dup) { auto &v = m.h[hash]; want = v.empty() ? 1 : v.back().uid + 1; v.push_back({want, d, tag}); m.n++; }
  pd_addto_pdstor(s, p, eq);
  if (p->uid != want) sim_fail(dup ? "dedup" : "uid", "%s diagram (%d crossings, mode %d) got number %lu, expected %lu", dup ? "equivalent" : "new", d.n, (int)eq, (unsigned long)p->uid, (unsigned long)want);
  std::string df = diff_pd(before, p, false); if (df != "") sim_fail("argument-changed", "adding changed the caller's diagram: %s", df.c_str()); pd_code_free(&before);
  if (pd_stor_nelts(s) != m.n) sim_fail("count", "store reports %u elements, expected %u", pd_stor_nelts(s), m.n);
  ev("add %d crossings mode %d -> %s %lu", d.n, (int)eq, dup ? "present" : "new", (unsigned long)want); sim_state(hash_u64(m.n, hash_str(hash, (u64)want))); if (dup) sim_probe("duplicate recognised"); sim_count(1);
  if (m.h[hash].size() > 1) sim_probe("several diagrams under one hash");
}
// walks the store; stop < 0: to the end
static void store_walk(pd_stor_t *s, MStor &m, int stop) {
  std::vector<std::pair<std::string, MEnt *>> seq; for (auto &h : m.h) for (auto &e : h.second) seq.push_back({h.first, &e});
  size_t k = 0; for (pd_code_t *p = pd_stor_firstelt(s); p; p = pd_stor_nextelt(s)) {
    if (k >= seq.size()) sim_fail("iteration", "more than %zu elements", seq.size());
    if (seq[k].first != p->hash || seq[k].second->uid != p->uid) sim_fail("iteration", "element %zu is %s/%lu, expected %s/%lu", k, p->hash, (unsigned long)p->uid, seq[k].first.c_str(), (unsigned long)seq[k].second->uid);
    same_stored("iterated element", p, *seq[k].second);
    if (p->ncross) { p->cross[0].sign ^= 1; p->edge[0].head = 0; } pd_code_free(&p); k++;   // the copy belongs to the caller
    if ((int)k == stop) { sim_fault(F_ABANDON); ev("walk abandoned after %zu", k); return; } }
  if (k != seq.size()) sim_fail("iteration", "walk ended after %zu of %zu elements", k, seq.size()); ev("walk %zu", k); sim_count(1);
}
static void store_stats(pd_stor_t *s, MStor &m) {
  unsigned nh = 77, ne = 77; pd_stor_stats(s, &nh, &ne); if (nh != m.h.size() || ne != m.n) sim_fail("stats", "stats say %u hashes %u elements, expected %zu and %u", nh, ne, m.h.size(), m.n); }
static void store_search(pd_stor_t *s, MStor &m, pd_code_t *p) {
  MD d = model_of(p); MEnt *e = NULL; for (auto &h : m.h) for (auto &x : h.second) if (!e && count_iso(d, x.d, false, NULL, NULL)) e = &x;
  pd_iso_t **isos = (pd_iso_t **)1; unsigned ni = 99; pd_code_t *q = pd_search_pdstor_by_isomorphism(s, p, &isos, &ni);
  if (!e) { if (q || ni || isos) sim_fail("search", "found a diagram that was never stored"); ev("search: absent"); if (m.h.count(p->hash)) sim_probe("search misses within a hash"); return; }
  if (!q) sim_fail("search", "stored diagram (%d crossings) not found", d.n); if (q->uid != e->uid) sim_fail("search", "found number %lu, expected %lu", (unsigned long)q->uid, (unsigned long)e->uid);
  same_stored("search result", q, *e); int want = count_iso(d, e->d, false, NULL, NULL); bool small = d.n <= 2; for (unsigned i = 0; i < p->ncomps; i++) if (p->comp[i].nedges < 3) small = true; if (small ? (int)ni < want && d.n > 2 : (int)ni != want) sim_fail("search", "%u isomorphisms to the stored diagram of %d crossings, expected %d", ni, d.n, want); if (ni == 0 || !isos) sim_fail("search", "no isomorphism returned");
  ev("search: number %lu, %u isomorphisms", (unsigned long)e->uid, ni); pd_free_isos(&ni, &isos); pd_code_free(&q); sim_probe("search hit"); sim_count(1);
}
// diagrams of this harness's own generator (components, vertices, seed) which differ although their hashes are equal
struct Gen { int nc, nv, sd; }; static const std::vector<std::vector<Gen>> twins = {{{1, 9, 17959}, {1, 9, 20820}}, {{2, 7, 16216}, {2, 7, 26014}}, {{1, 9, 8418}, {1, 9, 18842}}, {{1, 9, 8285}, {1, 9, 16891}}, {{2, 7, 512}, {2, 9, 9151}}, {{2, 6, 20774}, {2, 7, 10386}}, {{2, 6, 5866}, {2, 6, 23999}}, {{2, 6, 2889}, {2, 6, 6922}}, {{1, 9, 4786}, {1, 9, 19631}}, {{2, 8, 16589}, {2, 8, 28393}}, {{2, 6, 196}, {2, 6, 14310}}, {{1, 9, 263}, {1, 9, 12725}}, {{2, 6, 764}, {2, 6, 4882}}, {{2, 5, 10383}, {2, 6, 6659}}, {{1, 7, 8270}, {1, 9, 22134}}, {{1, 9, 818}, {1, 9, 21860}}, {{2, 6, 3366}, {2, 7, 26795}}, {{2, 6, 4363}, {2, 6, 5486}}, {{2, 6, 15335}, {2, 8, 9677}}, {{2, 6, 15655}, {2, 8, 11329}}, {{1, 9, 2432}, {1, 9, 21183}}, {{1, 8, 6023}, {1, 8, 8248}}, {{1, 9, 4245}, {1, 9, 19032}}, {{2, 6, 12895}, {2, 8, 22071}}, {{2, 6, 5780}, {2, 6, 18098}}, {{2, 8, 2888}, {2, 8, 23061}}, {{1, 8, 85}, {1, 8, 4220}}, {{2, 7, 17187}, {2, 8, 3088}}, {{2, 6, 2416}, {2, 7, 5279}}, {{2, 7, 11143}, {2, 8, 9765}}, {{2, 7, 15993}, {2, 8, 968}, {2, 8, 29409}}, {{1, 7, 1655}, {1, 8, 19760}, {1, 9, 27488}}, {{2, 6, 7730}, {2, 6, 16075}, {2, 7, 26245}}, {{2, 6, 4839}, {2, 6, 25084}, {2, 7, 3464}}, {{2, 5, 14673}, {2, 6, 2389}, {2, 6, 2462}}, {{2, 5, 776}, {2, 5, 2278}, {2, 5, 21284}}, {{2, 6, 5660}, {2, 6, 7290}, {2, 6, 26649}}, {{2, 7, 4707}, {2, 7, 10190}, {2, 8, 22539}}, {{2, 6, 542}, {2, 7, 10404}, {2, 7, 24305}}, {{2, 6, 22088}, {2, 6, 29599}, {2, 8, 14295}}, {{1, 8, 14439}, {1, 9, 1195}, {1, 9, 19488}}, {{1, 7, 5276}, {1, 8, 2430}, {1, 9, 4261}, {1, 9, 10557}}, {{1, 9, 7100}, {1, 9, 8303}, {1, 9, 13392}}, {{1, 9, 19112}, {1, 9, 19946}, {1, 9, 26981}}, {{1, 8, 22262}, {1, 9, 910}, {1, 9, 14759}}, {{1, 8, 8015}, {1, 9, 3573}, {1, 9, 6322}, {1, 9, 6869}, {1, 9, 10901}}, {{1, 8, 1546}, {1, 8, 2832}, {1, 9, 27141}}, {{1, 9, 1016}, {1, 9, 18414}, {1, 9, 25825}}, {{1, 8, 3060}, {1, 8, 3305}, {1, 8, 4031}}, {{1, 8, 28716}, {1, 9, 3764}, {1, 9, 4452}}, {{1, 8, 4700}, {1, 8, 8072}, {1, 8, 15948}}, {{1, 7, 17627}, {1, 8, 8270}, {1, 9, 6754}}, {{1, 8, 504}, {1, 9, 4636}, {1, 9, 18671}}, {{1, 7, 6030}, {1, 8, 4717}, {1, 9, 16381}, {1, 9, 27501}}, {{1, 8, 891}, {1, 9, 5579}, {1, 9, 15539}, {1, 9, 18955}}, {{1, 8, 19206}, {1, 8, 29691}, {1, 9, 2531}}, {{1, 9, 1736}, {1, 9, 4506}, {1, 9, 6284}}, {{1, 8, 15778}, {1, 9, 24500}, {1, 9, 27487}}, {{1, 7, 4364}, {1, 8, 29724}, {1, 9, 3076}, {1, 9, 3578}, {1, 9, 12973}, {1, 9, 14412}, {1, 9, 23971}}, {{1, 8, 1160}, {1, 9, 1604}, {1, 9, 8547}, {1, 9, 20423}}, {{1, 8, 5359}, {1, 9, 6133}, {1, 9, 17933}}, {{1, 8, 1970}, {1, 9, 2161}, {1, 9, 13239}, {1, 9, 20357}}, {{1, 9, 1168}, {1, 9, 9741}, {1, 9, 10384}}, {{1, 8, 2926}, {1, 8, 7607}, {1, 9, 536}}, {{1, 8, 8654}, {1, 9, 4272}, {1, 9, 14822}}, {{1, 8, 1776}, {1, 8, 5705}, {1, 9, 2602}, {1, 9, 7057}, {1, 9, 13884}, {1, 9, 24566}}, {{1, 8, 1604}, {1, 8, 7696}, {1, 9, 1551}, {1, 9, 9223}}, {{1, 9, 2259}, {1, 9, 7421}, {1, 9, 8433}}, {{1, 9, 6152}, {1, 9, 6652}, {1, 9, 29007}}, {{1, 8, 4713}, {1, 9, 991}, {1, 9, 5777}}, {{1, 9, 16083}, {1, 9, 17558}, {1, 9, 27151}}, {{1, 9, 492}, {1, 9, 8172}, {1, 9, 20330}}, {{1, 9, 386}, {1, 9, 3992}, {1, 9, 8506}, {1, 9, 9375}, {1, 9, 11330}, {1, 9, 23856}}, {{1, 9, 2054}, {1, 9, 6220}, {1, 9, 16981}}, {{1, 8, 4597}, {1, 9, 11449}, {1, 9, 18180}}, {{1, 8, 785}, {1, 8, 3080}, {1, 8, 3934}, {1, 8, 7401}, {1, 8, 14008}}, {{1, 9, 2980}, {1, 9, 8478}, {1, 9, 8634}, {1, 9, 11694}}, {{1, 9, 2918}, {1, 9, 6055}, {1, 9, 11636}, {1, 9, 24179}}};
int twin_group = -1;
void choose_twins() { twin_group = chance(1, 4) ? ch(twins.size()) : -1; }
// the isomorphism search is exponential in the number of components: keep to diagrams it can finish
pd_code_t *storable(int maxcross) { if (twin_group >= 0 && chance(2, 3)) { auto &v = twins[twin_group]; Gen g = v[ch(v.size())]; pd_code_t *p = pd_random_planar(g.nc, g.nv, 12, g.sd, chance(1, 3) ? 2 : 0); if (p) { sim_probe("diagram whose hash others share"); return p; } } for (int t = 0; t < 6; t++) { pd_code_t *p = gen_pd(maxcross, chance(1, 3) ? 2 : 0); double cost = 1; std::map<int, int> grp; for (unsigned i = 0; i < p->ncomps; i++) cost *= 2.0 * p->comp[i].nedges * ++grp[p->comp[i].nedges]; if (cost < 20000) return p; pd_code_free(&p); } return pd_build_unknot(3); }
// a larger diagram (up to 200 crossings) of one or two components
static pd_code_t *big_storable() { int k = pick({3, 1, 1}); if (k == 1) return pd_build_torus_knot(2, chr(12, 90)); if (k == 2) return pd_build_twist_knot(chr(12, 80)); int sm = chance(1, 3) ? 2 : 0; for (int t = 0; t < 20; t++) { int nv = chr(12, 40); pd_code_t *p = pd_random_planar(1 + pick({3, 1}), nv, 200, ch(1 << 20), sm); if (p) { if (p->ncomps == 1 || 4.0 * p->comp[0].nedges * p->comp[1].nedges < 20000) return p; pd_code_free(&p); } } return pd_build_torus_knot(2, 33); }
void any_tags(pd_code_t *p) { int k = pick({3, 3, 1}); for (unsigned i = 0; i < p->ncomps; i++) p->comp[i].tag = 'A' + i; if (k) for (unsigned i = p->ncomps; i-- > 1;) std::swap(p->comp[i].tag, p->comp[ch(i + 1)].tag); if (k == 2) p->comp[ch(p->ncomps)].tag = chance(1, 2) ? 'Z' : '@'; }
void run_C06() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); FS.on = true;
  size_t mark = alloc_mark(); choose_twins(); int maxc = pick({3, 1}) ? 12 : 6; bool big = chance(1, 25); int nops = big ? chr(2, 6) : chr(3, 40), nst = chr(1, 2);
  Death d = sim_guard([&] {
    std::vector<pd_code_t *> pool; pd_stor_t *s[2]; MStor m[2]; for (int i = 0; i < nst; i++) s[i] = pd_new_pdstor();
    for (int i = 0; i < nops; i++) { int k = ch(nst); if (nst > 1) sim_fault(F_INTERLEAVE);
      switch (pick({8, 2, 2, 3, 1, 1})) {
      case 0: { pd_code_t *p; if (pool.empty() || chance(1, 2)) { p = big ? big_storable() : storable(maxc); pool.push_back(pd_copy(p)); } else { Rng r = subrng(); p = scramble(pool[ch(pool.size())], chance(1, 2), r); } sound_pd("generated", p); any_tags(p); store_add(s[k], m[k], p, (pd_equivalence_t)ch(3)); pd_code_free(&p); break; }
      case 1: store_walk(s[k], m[k], -1); break;
      case 2: store_walk(s[k], m[k], chr(1, 5)); break;
      case 3: { if (pool.empty()) break; Rng r = subrng(); pd_code_t *p = scramble(pool[ch(pool.size())], false, r); any_tags(p); store_search(s[k], m[k], p); pd_code_free(&p); break; }
      case 4: store_stats(s[k], m[k]); break;
      case 5: { FILE *f = sim_fopen("show", "w"); pd_display_pdstor(f, s[k]); fclose(f); std::string got = disk.get("show"), want, x; char b[200]; snprintf(b, 200, "pdstor nelts %u/%u (claimed/actual) nhashes %zu", m[k].n, m[k].n, m[k].h.size()); want = b; for (auto &h : m[k].h) { snprintf(b, 200, " hash %s uids %lu-%lu", h.first.c_str(), (unsigned long)h.second.front().uid, (unsigned long)h.second.back().uid); want += b; } for (char c : got) if (!isspace((unsigned char)c)) x += c; else if (!x.empty() && x.back() != ' ') x += ' '; while (!x.empty() && x.back() == ' ') x.pop_back(); if (x != want) sim_fail("display", "store shown as %.200s, expected %.200s", x.c_str(), want.c_str()); break; }
      }
    }
    for (int i = 0; i < nst; i++) { store_walk(s[i], m[i], -1); store_stats(s[i], m[i]); pd_free_pdstor(&s[i]); if (s[i]) sim_fail("free", "pointer kept after freeing"); }
    for (auto p : pool) pd_code_free(&p); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
// ------------------------------------------------------------ C08
// multiset comparison of a store with the model (per hash, in order)
void same_contents(const char *w, pd_stor_t *s, const std::vector<MEnt> &want) {
  std::map<std::string, std::vector<const MEnt *>> h; for (auto &e : want) h[e.d.hash].push_back(&e); unsigned n = 0; std::map<std::string, int> at;
  if (pd_stor_nelts(s) != want.size()) sim_fail("incomplete", "%s: %u diagrams, the file was written with %zu", w, pd_stor_nelts(s), want.size());
  for (pd_code_t *p = pd_stor_firstelt(s); p; p = pd_stor_nextelt(s)) { auto it = h.find(p->hash); if (it == h.end()) sim_fail("foreign", "%s: diagram with hash %s was never stored", w, p->hash); int k = at[p->hash]++; if (k >= (int)it->second.size()) sim_fail("foreign", "%s: too many diagrams with hash %s", w, p->hash); same_stored(w, p, *it->second[k]); pd_code_free(&p); n++; if (want.empty()) break; if (n == want.size()) { p = pd_stor_nextelt(s); if (p) sim_fail("foreign", "%s: more elements than counted", w); break; } }
  if (n != want.size()) sim_fail("incomplete", "%s: walk met %u of %zu", w, n, want.size()); sim_count(1);
}
void run_C08() {
  alloc_reset(); choose_twins(); A.track = true; A.limit = 256u << 20; FS.on = true; bool inc = chance(1, 3), big = chance(1, 40); int nst = inc ? chr(1, 4) : 1; int kind = pick({2, 3, 2, 2}); // 0 clean, 1 writer faults, 2 power loss, 3 stored damage
  std::vector<MEnt> want; std::vector<std::vector<MEnt>> per(nst); std::vector<pd_stor_t *> st; unsigned nh = 0;
  Death d = sim_guard([&] { for (int i = 0; i < nst; i++) { pd_stor_t *s = pd_new_pdstor(); MStor m; int n = chance(1, 10) ? 0 : chr(1, inc ? 4 : 8); std::vector<pd_code_t *> pool; for (int j = 0; j < n; j++) { pd_code_t *p; if (!pool.empty() && chance(1, 3)) { Rng r = subrng(); p = scramble(pool[ch(pool.size())], false, r); } else p = big ? big_storable() : storable(8); any_tags(p); pool.push_back(pd_copy(p)); store_add(s, m, p, (pd_equivalence_t)ch(3)); pd_code_free(&p); } for (auto p : pool) pd_code_free(&p);
      for (auto &h : m.h) { nh++; for (auto &e : h.second) want.push_back(e); } st.push_back(s); } });
  if (d.how != O_RETURN) sim_fail("died", "building the store: %s", d.msg.c_str());
  disk.put("x.pdstor", chance(1, 2) ? std::string("pdstor \nnelts 1/1 (claimed/actual) nhashes 1 \n\nold old old\n") : std::string()); disk.barrier();
  FS.wp = choose_write_plan(kind == 1); if (kind == 2) { FS.wp.buf_mode = pick({1, 3, 3, 1, 2}); } if (kind == 1 && chance(1, 2)) FS.wp.nospace_after >= 0 ? (void)(FS.wp.nospace_after = ch(8000)) : (void)0;
  bool closed_ok = false, finished = false; ev("writing %zu diagrams in %d stores, %s, faults %d", want.size(), nst, inc ? "incrementally" : "at once", kind);
  d = sim_proc([&] { FILE *f = sim_fopen("x.pdstor", inc ? "w+" : "w"); bool bad = false;
    if (inc) { unsigned a = 0, b = 0; pd_start_incremental_pdstor(f); for (auto s : st) { pd_addto_incremental_pdstor(f, s, &a, &b); } if (a != nh || b != want.size()) sim_fail("count", "incremental totals %u/%u, expected %u/%zu", a, b, nh, want.size());
      if (chance(1, 5)) { sim_fault(F_ABANDON); ev("writer ends before finishing"); disk.put("abandoned", "1"); fclose(f); return; } if (fflush(f) || ferror(f)) bad = true; pd_finish_incremental_pdstor(f, a, b); }
    else pd_write_pdstor(f, st[0]);
    if (ferror(f)) bad = true; if (fclose(f)) bad = true; if (!bad) disk.put("ok", "1"); });
  if (d.how != O_RETURN && d.how != O_CRASH) sim_fail("died", "writing: %s (code %d)", d.msg.c_str(), d.code);
  closed_ok = disk.exists("ok"); bool abandoned = disk.exists("abandoned");
  if (kind == 0 && !closed_ok && !abandoned) sim_fail("write-error", "clean write failed");
  std::string full = disk.get("x.pdstor"), data = full, what; bool structural = closed_ok || !FS.wp.eio_once; // structural: bytes are missing from the end, none altered; a reported write error may leave a gap
  if (kind == 2) { data = disk.power_loss("x.pdstor"); closed_ok = closed_ok && data == full; }
  bool changed = false; if (kind == 3) { if (chance(1, 3)) { data = full.substr(0, ch(full.size() + 1)); sim_fault(F_TRUNCATE); what = "truncated"; changed = data != full; } else { data = damage(full, &changed, &what); structural = false; } disk.put("x.pdstor", data); ev("damage: %s", what.c_str()); closed_ok = closed_ok && !changed; }
  bool unknown = kind == 0 && closed_ok && !inc && chance(1, 3); if (unknown) { size_t at = data.find("\n\n"); data = "pdstor \nnelts ?/? (claimed/actual) nhashes ?" + data.substr(at); disk.put("x.pdstor", data); ev("number of diagrams left open in the header"); sim_probe("open-ended header"); }
  sim_state(hash_str(data)); bool rfault = chance(1, 6);
  d = sim_proc([&] { sim_fault(F_RESTART); FS.wp = WritePlan(); FS.rp = choose_read_plan(rfault, data.size()); FS.rp_on = true; alloc_reset(); A.track = true; A.limit = 256u << 20; A.poison = true; A.poison_mode = ch(5); size_t mark = alloc_mark();
    FILE *f = sim_fopen("x.pdstor", "r"); pd_equivalence_t eq = (pd_equivalence_t)pick({4, 1, 1}); pd_stor_t *s = pd_read_pdstor(f, eq); fclose(f); ev("read mode %d: %s", (int)eq, s ? "accepted" : "refused"); sim_probe(s ? "accepted" : "refused");
    if (!s) { if (closed_ok && !abandoned && !rfault) sim_fail("refused", "a completely written store was refused"); }
    else { unsigned n = 0; if (abandoned && kind != 3) sim_fail("accepted-incomplete", "an unfinished incremental store was accepted");
      if (structural) { if (eq == NONE) same_contents("after reading", s, want);
        else { MStor m; std::vector<MEnt> w2; for (auto &e : want) { bool dup = false; for (auto &x : m.h[e.d.hash]) if (equivalent(x, e.d, e.tag, eq)) dup = true; if (!dup) { m.h[e.d.hash].push_back(e); w2.push_back(e); } } same_contents("after reading with deduplication", s, w2); } }
      else if (pd_stor_nelts(s)) for (pd_code_t *p = pd_stor_firstelt(s); p; p = pd_stor_nextelt(s)) { sound_pd("diagram from a damaged store", p); n++; pd_code_free(&p); }
      if (!structural && eq == NONE) { unsigned a = 0, b = 0; if (sscanf(data.c_str(), "pdstor nelts %u/%u", &a, &b) == 2 && (n != a || a != b)) sim_fail("header", "header says %u/%u diagrams, %u were returned", a, b, n); }
      pd_free_pdstor(&s); }
    if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); });
  if (d.how != O_RETURN) sim_fail(d.how == O_ASSERT ? "assert" : "died", "reading: %s (code %d)", d.msg.c_str(), d.code);
  for (auto s : st) pd_free_pdstor(&s);
}
