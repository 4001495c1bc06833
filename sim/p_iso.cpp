// C27 whether two diagrams are the same, and all the ways in which they are.
#include "sim.h"
#include "pd_model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>
#define new new_
extern "C" {
#include "pd_multidx.h"
#include "pd_perm.h"
#include "pd_isomorphisms.h"
#undef new
}
#include "store_model.h"
pd_code_t *scramble(pd_code_t *pd, bool isotopic, Rng &r);
void choose_twins();
typedef std::vector<int> VI;
struct Iso { VI comp, edge, eor, cross, face; int cor = 0, forr = 0; bool operator==(const Iso &o) const { return comp == o.comp && edge == o.edge && eor == o.eor && cross == o.cross && face == o.face && cor == o.cor && forr == o.forr; }
  std::string key() const { std::string s; for (auto *v : {&comp, &edge, &eor, &cross, &face}) { for (int x : *v) s += std::to_string(x) + ","; s += ";"; } return s + std::to_string(cor) + "/" + std::to_string(forr); } };
static int orv(pd_or_t o) { return o == PD_POS_ORIENTATION ? 1 : o == PD_NEG_ORIENTATION ? -1 : 0; }
static VI permv(const char *w, pd_perm_t *p, unsigned n) { VI v; if (!p) sim_fail("maps", "%s: missing map", w); if (p->n != n) sim_fail("maps", "%s: map of %u things, expected %u", w, (unsigned)p->n, n); std::vector<char> hit(n, 0); for (unsigned i = 0; i < n; i++) { unsigned x = p->map[i]; if (x >= n || hit[x]++) sim_fail("maps", "%s: not one-to-one", w); v.push_back(x); } return v; }
static Iso iso_of(pd_iso_t *m, unsigned nc, unsigned ne, unsigned nx, unsigned nf) {
  Iso r; r.comp = permv("components", m->compperm, nc); r.edge = permv("edges", m->edgemap->perm, ne); for (unsigned i = 0; i < ne; i++) { r.eor.push_back(orv(m->edgemap->orient[i])); if (!r.eor.back()) sim_fail("maps", "edge without a direction"); }
  if (nx) { r.cross = permv("crossings", m->crossmap->perm, nx); r.cor = orv(m->crossmap->orient); r.face = permv("faces", m->facemap->perm, nf); r.forr = orv(m->facemap->orient); if (!r.cor || r.cor != r.forr) sim_fail("maps", "crossings and faces disagree about the side seen"); }
  return r;
}
// the map, judged against the two diagrams themselves
static bool small_pd(pd_code_t *p);  // components of one or two edges: the library lets the two ends of an edge change places
static void judge(const char *w, pd_code_t *a, pd_code_t *b, const Iso &m) {
  if (a->ncross == 0) return; bool sm = small_pd(a);
  for (unsigned i = 0; i < a->ncomps; i++) { auto &A_ = a->comp[i], &B_ = b->comp[m.comp[i]]; std::set<int> s(B_.edge, B_.edge + B_.nedges); if (A_.nedges != B_.nedges) sim_fail("maps", "%s: component %u goes to one of another length", w, i); int o = m.eor[A_.edge[0]]; for (unsigned j = 0; j < A_.nedges; j++) { if (!s.count(m.edge[A_.edge[j]])) sim_fail("maps", "%s: an edge of component %u leaves its image", w, i); if (m.eor[A_.edge[j]] != o) sim_fail("maps", "%s: component %u partly reversed", w, i); } }
  if (!sm) for (unsigned e = 0; e < a->nedges; e++) { auto &E = a->edge[e], &F = b->edge[m.edge[e]]; unsigned h = m.eor[e] > 0 ? F.head : F.tail, t = m.eor[e] > 0 ? F.tail : F.head; if ((unsigned)m.cross[E.head] != h || (unsigned)m.cross[E.tail] != t) sim_fail("maps", "%s: edge %u does not join the images of its crossings", w, e); }
  for (unsigned c = 0; c < a->ncross; c++) { auto &C = a->cross[c], &D = b->cross[m.cross[c]]; bool ok = false; for (int r = 0; r < 4; r++) { bool eq = true; for (int k = 0; k < 4; k++) eq = eq && (unsigned)m.edge[C.edge[k]] == D.edge[(r + m.cor * k + 8) % 4]; ok = ok || eq; } if (!ok) sim_fail("maps", "%s: order of the edges around crossing %u", w, c); }
  for (unsigned f = 0; f < a->nfaces; f++) { auto &P = a->face[f], &Q = b->face[m.face[f]]; std::multiset<int> x, y(Q.edge, Q.edge + Q.nedges); for (unsigned k = 0; k < P.nedges; k++) x.insert(m.edge[P.edge[k]]); if (x != y) sim_fail("maps", "%s: face %u goes to a face with other edges", w, f); }
}
static Iso times(const Iso &a, const Iso &b) { Iso r = b; auto f = [](const VI &p, VI &q) { for (int &x : q) x = p[x]; }; f(a.comp, r.comp); for (size_t i = 0; i < b.edge.size(); i++) r.eor[i] = b.eor[i] * a.eor[b.edge[i]]; f(a.edge, r.edge); f(a.cross, r.cross); f(a.face, r.face); r.cor = a.cor * b.cor; r.forr = a.forr * b.forr; return r; }
static bool is_id(const Iso &a) { for (auto *v : {&a.comp, &a.edge, &a.cross, &a.face}) for (size_t i = 0; i < v->size(); i++) if ((*v)[i] != (int)i) return false; for (int o : a.eor) if (o != 1) return false; return a.cor != -1; }
static bool small_pd(pd_code_t *p) { if (p->ncross <= 2) return true; for (unsigned i = 0; i < p->ncomps; i++) if (p->comp[i].nedges < 3) return true; return false; }
static std::string letters(pd_code_t *p) { std::string s; for (unsigned c = 0; c < p->ncross; c++) for (int k = 0; k < 4; k++) s += (char)(65 + p->cross[c].edge[k]); return s; }
// kind 0: any, 1: same side of the sphere, 2: with signs, directions and tags
static void all_isos(pd_code_t *a, pd_code_t *b, int kind, bool same) {
  MD da = model_of(a), db = model_of(b); VI ta = tags_of(a), tb = tags_of(b); int want = kind == 2 ? count_iso(da, db, true, &ta, &tb) : count_iso(da, db, false, NULL, NULL, kind == 0);
  unsigned n = 12345; pd_iso_t **v = kind == 0 ? pd_build_isos(a, b, &n) : kind == 1 ? pd_build_map_isomorphisms(a, b, &n) : pd_build_diagram_isotopies(a, b, &n);
  static const char *nm[3] = {"isomorphisms", "map isomorphisms", "diagram isotopies"};
  ev("%s %u/%u crossings: %u (%d)", nm[kind], (unsigned)a->ncross, (unsigned)b->ncross, n, want); sim_state(hash_u64(n, hash_u64(kind, hash_u64(a->ncross, hash_str(a->hash, hash_str(b->hash, 27))))));
  if ((n == 0) != (v == NULL)) sim_fail("maps", "%u %s but %s list", n, nm[kind], v ? "a" : "no"); if ((want > 0) != (n > 0)) sim_fail("same", "%u %s found, there are %d (%u crossings)", n, nm[kind], want, (unsigned)a->ncross);
  bool sm = small_pd(a); if (!sm && (int)n != want) sim_fail("maps", "%u %s found, there are %d (%u crossings)", n, nm[kind], want, (unsigned)a->ncross);
  if (!v) return; sim_count(1);
  std::vector<Iso> L; std::set<std::string> seen; for (unsigned i = 0; i < n; i++) { L.push_back(iso_of(v[i], a->ncomps, a->nedges, a->ncross, a->nfaces)); judge(nm[kind], a, b, L[i]); if (!seen.insert(L[i].key()).second && a->ncross) sim_fail("maps", "the same map listed twice"); if (!pd_iso_ok(v[i])) sim_fail("maps", "map fails the library's own check"); if (i < 2 && a->ncross) { char *t = pd_print_iso(v[i]); if (!t || !*t) sim_fail("print", "a map has no text"); free(t); }
    if (kind == 1 && a->ncross && L[i].cor != 1) sim_fail("maps", "map isomorphism turns the sphere inside out"); if (kind == 2) { for (int o : L[i].eor) if (o != 1) sim_fail("maps", "isotopy reverses an edge"); for (unsigned c = 0; c < a->ncomps; c++) if (ta[c] != tb[L[i].comp[c]]) sim_fail("maps", "isotopy joins components of different tags"); for (unsigned c = 0; c < a->ncross; c++) if (da.sign[c] != db.sign[L[i].cross[c]]) sim_fail("maps", "isotopy joins crossings of different sign"); }
    if (a->ncross) { bool iso2 = true; for (int o : L[i].eor) iso2 = iso2 && o == 1; for (unsigned c = 0; c < a->ncomps; c++) iso2 = iso2 && ta[c] == tb[L[i].comp[c]]; for (unsigned c = 0; c < a->ncross; c++) iso2 = iso2 && da.sign[c] == db.sign[L[i].cross[c]]; if (pd_is_diagram_isotopy(v[i], a, b) != iso2) sim_fail("maps", "a map is %sreported as a diagram isotopy", iso2 ? "not " : ""); } }
  if (a->ncross) { unsigned i = ch(n), j = ch(n); pd_iso_t *c = pd_copy_iso(v[i]); if (!(iso_of(c, a->ncomps, a->nedges, a->ncross, a->nfaces) == L[i])) sim_fail("copy", "copy of a map differs"); if (pd_iso_cmp(&c, &v[i]) != 0 || (n > 1 && i != j && pd_iso_cmp(&v[i], &v[j]) == 0) || (i != j && (pd_iso_cmp(&v[i], &v[j]) > 0) == (pd_iso_cmp(&v[j], &v[i]) > 0))) sim_fail("maps", "maps compared wrongly"); if (i != j) pd_free_iso(&c);
    if (same) { if (i == j) pd_free_iso(&c); bool id = false; for (unsigned k = 0; k < n; k++) { bool e = is_id(L[k]); if (pd_iso_is_e(v[k]) != e) sim_fail("identity", "map %u %s the identity", k, e ? "is" : "is not"); id = id || e; } if (!id) sim_fail("identity", "the identity is missing among %u symmetries", n);
      pd_iso_t *p = pd_compose_isos(v[i], v[j]); Iso P = iso_of(p, a->ncomps, a->nedges, a->ncross, a->nfaces), Q = times(L[i], L[j]); if (!(P == Q)) sim_fail("compose", "product of two symmetries is not one after the other"); if (!sm && !seen.count(P.key())) sim_fail("compose", "product of two symmetries is not listed");
      unsigned per = 1; for (Iso x = L[i]; !is_id(x) && per < 5000; x = times(x, L[i])) per++; unsigned got = pd_iso_period(v[i]); if (got != per) sim_fail("period", "period %u, expected %u", got, per); if (!(iso_of(v[i], a->ncomps, a->nedges, a->ncross, a->nfaces) == L[i])) sim_fail("period", "asking for the period changed the map");
      pd_stareq_iso(p, v[j]); if (!(iso_of(p, a->ncomps, a->nedges, a->ncross, a->nfaces) == times(Q, L[j]))) sim_fail("compose", "product in place is wrong"); pd_free_iso(&p); if (n > 1) sim_probe("symmetric diagram"); if (per > 2) sim_probe("symmetry of period over two"); sim_count(1); }
    else if (i == j) pd_free_iso(&c); }
  pd_free_isos(&n, &v); if (n || v) sim_fail("free", "list kept after freeing");
}
// links whose components can change places: Borromean rings, torus link of 4 crossings, Whitehead link, chains
static pd_code_t *link(int k) {
  if (k > 2) return pd_build_simple_chain(k);
  static const std::vector<std::vector<int>> X[3] = {{{6,1,7,2},{12,8,9,7},{4,12,1,11},{10,5,11,6},{8,4,5,3},{2,9,3,10}}, {{6,1,7,2},{8,3,5,4},{2,5,3,6},{4,7,1,8}}, {{6,1,7,2},{10,7,5,8},{4,5,1,6},{2,10,3,9},{8,4,9,3}}};
  pd_code_t *p = pd_code_new(X[k].size() + 2); p->ncross = X[k].size(); for (size_t i = 0; i < X[k].size(); i++) { for (int j = 0; j < 4; j++) p->cross[i].edge[j] = X[k][i][j] - 1; p->cross[i].sign = PD_UNSET_ORIENTATION; }
  pd_regenerate(p); int s = ch(3); Rng r = subrng(); for (size_t i = 0; i < X[k].size(); i++) p->cross[i].sign = s == 0 ? PD_UNSET_ORIENTATION : s == 1 ? PD_POS_ORIENTATION : r.below(2) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION; sim_probe("link with interchangeable components"); return p;
}
void run_C27() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE);
  size_t mark = alloc_mark(); choose_twins(); int maxc = pick({3, 1}) ? 12 : 6, nops = chr(3, 25);
  Death d = sim_guard([&] {
    std::vector<pd_code_t *> pool, orig;
    auto grow = [&] { pd_code_t *p; if (pool.empty() || chance(1, 3)) { int k = pick({6, 1, 1, 1, 2}); p = k == 4 ? link(ch(5)) : k == 1 ? pd_build_torus_knot(2, chr(3, 14)) : k == 2 ? pd_build_twist_knot(chr(1, 10)) : k == 3 ? pd_build_unknot(ch(5)) : storable(maxc); any_tags(p); }
      else { pd_code_t *o = pool[ch(pool.size())]; Rng r = subrng(); bool iso = chance(2, 3); p = scramble(o, iso, r); if (iso && p->ncross) { MD x = model_of(o), y = model_of(p); VI to = tags_of(o); // carry the tags over so that the copy is isotopic
            VI perm(p->ncomps); for (unsigned i = 0; i < p->ncomps; i++) perm[i] = i; bool done = false; do { VI t2; for (unsigned i = 0; i < p->ncomps; i++) t2.push_back(to[perm[i]]); if (count_iso(x, y, true, &to, &t2)) { for (unsigned i = 0; i < p->ncomps; i++) p->comp[i].tag = t2[i]; done = true; break; } } while (p->ncomps < 6 && std::next_permutation(perm.begin(), perm.end())); if (!done) any_tags(p); }
        else any_tags(p); }
      if (p->ncross && chance(1, 3)) { auto &s = p->cross[ch(p->ncross)].sign; int k = pick({4, 1}); sim_probe("one crossing differs"); s = k ? PD_UNSET_ORIENTATION : s == PD_POS_ORIENTATION ? PD_NEG_ORIENTATION : PD_POS_ORIENTATION; }
      if (p->ncomps > 1 && chance(1, 6)) { std::swap(p->comp[0].tag, p->comp[p->ncomps - 1].tag); sim_probe("tags swapped"); }
      if (pool.size() > 5) { int k = ch(pool.size()); pd_code_free(&pool[k]); pd_code_free(&orig[k]); pool[k] = p; orig[k] = pd_copy(p); } else { pool.push_back(p); orig.push_back(pd_copy(p)); } };
    grow(); grow();
    for (int i = 0; i < nops; i++) { if (chance(1, 3)) grow(); int ia = ch(pool.size()), ib = chance(1, 4) ? ia : (int)ch(pool.size()); pd_code_t *a = pool[ia], *b = pool[ib]; MD x = model_of(a), y = model_of(b); VI ta = tags_of(a), tb = tags_of(b); sim_fault(F_INTERLEAVE); std::string what = ""; bool want = false, got = false;
      switch (pick({3, 3, 2, 2, 2, 2, 2})) {
      case 0: what = "isomorphic"; want = count_iso(x, y, false, NULL, NULL); got = pd_isomorphic(a, b); break;
      case 1: what = "diagram isotopic"; want = count_iso(x, y, true, &ta, &tb); got = pd_diagram_isotopic(a, b); break;
      case 2: what = "map isomorphic"; want = count_iso(x, y, false, NULL, NULL, false); got = pd_map_isomorphic(a, b); if (!want && count_iso(x, y, false, NULL, NULL)) sim_probe("mirror image only"); break;
      case 3: if (!a->ncross || !b->ncross || a->nedges > 62 || b->nedges > 62) break; { what = "isomorphic (strings)"; std::string s = letters(a), t = letters(b); char *u = (char *)malloc(s.size()), *v = (char *)malloc(t.size()); memcpy(u, s.data(), s.size()); memcpy(v, t.data(), t.size()); want = count_iso(x, y, false, NULL, NULL); got = pd_isomorphic_strings(u, a->ncross, v, b->ncross); if (memcmp(u, s.data(), s.size()) || memcmp(v, t.data(), t.size())) sim_fail("argument-changed", "the caller's letters were changed"); free(u); free(v); } break;
      case 4: all_isos(a, b, 0, ia == ib); break;
      case 5: all_isos(a, b, 1, ia == ib); break;
      case 6: all_isos(a, b, 2, ia == ib); break;
      }
      if (what != "") { ev("%s %d %d (%u, %u crossings): %d", what.c_str(), ia, ib, (unsigned)a->ncross, (unsigned)b->ncross, got); sim_state(hash_u64(got, hash_str(what, hash_str(a->hash, hash_str(b->hash, 3))))); if (got != want) sim_fail("same", "%s: says %s, is %s (%u and %u crossings, %u components)", what.c_str(), got ? "yes" : "no", want ? "yes" : "no", (unsigned)a->ncross, (unsigned)b->ncross, (unsigned)a->ncomps); sim_count(1); if (ia != ib && got) sim_probe("same diagram in other words"); if (!got && !strcmp(a->hash, b->hash)) sim_probe("told apart under one hash"); }
      for (int k : {ia, ib}) { std::string df = diff_pd(orig[k], pool[k], false); if (df != "") sim_fail("argument-changed", "comparing changed a diagram: %s", df.c_str()); } }
    for (auto &p : pool) pd_code_free(&p); for (auto &p : orig) pd_code_free(&p); });
  if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
