// C04 diagram text round trip, C05 damaged or failing diagram streams.
#include "sim.h"
#include "pd_model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>

// ------------------------------------------------------------ independent diagram generator
pd_code_t *pd_random_planar(int ncomp, int nv, int maxcross, u64 seed, int signmode) {
  Rng r(seed * 7919 + 13); typedef std::pair<double, double> P2;
  std::vector<std::vector<P2>> poly(ncomp);
  for (auto &p : poly) { double cx = r.uni() * 0.6, cy = r.uni() * 0.6; for (int i = 0; i < nv; i++) p.push_back({cx + r.uni(), cy + r.uni()}); }
  struct X { int c[2]; double t[2]; bool left; }; std::vector<X> xs;
  for (int a = 0; a < ncomp; a++) for (int i = 0; i < nv; i++) for (int b = a; b < ncomp; b++) for (int j = a == b ? i + 1 : 0; j < nv; j++) {
    if (a == b && (j == i + 1 || (i == 0 && j == nv - 1))) continue;
    P2 p = poly[a][i], q = poly[a][(i + 1) % nv], u = poly[b][j], v = poly[b][(j + 1) % nv];
    double dx = q.first - p.first, dy = q.second - p.second, ex = v.first - u.first, ey = v.second - u.second, d = dx * ey - dy * ex; if (fabs(d) < 1e-9) return NULL;
    double s = ((u.first - p.first) * ey - (u.second - p.second) * ex) / d, t = ((u.first - p.first) * dy - (u.second - p.second) * dx) / d;
    if (s > 0 && s < 1 && t > 0 && t < 1) { X x; x.c[0] = a; x.c[1] = b; x.t[0] = i + s; x.t[1] = j + t; x.left = d > 0; xs.push_back(x); } }
  int n = xs.size(); if (n < 1 || n > maxcross) return NULL;
  // connectivity of the shadow
  std::vector<int> f(ncomp); for (int i = 0; i < ncomp; i++) f[i] = i; std::function<int(int)> find = [&](int x) { return f[x] == x ? x : f[x] = find(f[x]); };
  for (auto &x : xs) f[find(x.c[0])] = find(x.c[1]); for (int i = 1; i < ncomp; i++) if (find(i) != find(0)) return NULL;
  if (ncomp == 1 && n < 1) return NULL;
  pd_code_t *pd = pd_code_new(n + 2); pd->ncross = n; pd->nedges = 2 * n; pd->nfaces = n + 2; int e0 = 0;
  for (int c = 0; c < ncomp; c++) {
    std::vector<std::pair<double, std::pair<int, int>>> vis; for (int k = 0; k < n; k++) for (int s = 0; s < 2; s++) if (xs[k].c[s] == c) vis.push_back({xs[k].t[s], {k, s}});
    std::sort(vis.begin(), vis.end()); int m = vis.size();
    for (int i = 0; i < m; i++) { int k = vis[i].second.first, s = vis[i].second.second, in = e0 + i, out = e0 + (i + 1) % m; int pin = s == 0 ? 0 : xs[k].left ? 1 : 3, pout = (pin + 2) % 4;
      pd->cross[k].edge[pin] = in; pd->cross[k].edge[pout] = out; pd->edge[in].head = k; pd->edge[in].headpos = pin; pd->edge[out].tail = k; pd->edge[out].tailpos = pout; }
    e0 += m; }
  for (int k = 0; k < n; k++) pd->cross[k].sign = signmode == 2 ? PD_UNSET_ORIENTATION : signmode == 1 && r.below(3) == 0 ? PD_UNSET_ORIENTATION : r.below(2) ? PD_POS_ORIENTATION : PD_NEG_ORIENTATION;
  pd_regenerate(pd); return pd;
}
void randomize_tags(pd_code_t *pd) {
  std::vector<char> t; int span = pd->ncomps + ch(8); for (int i = 0; i < span; i++) t.push_back('A' + i);
  for (unsigned i = 0; i < pd->ncomps; i++) { int k = ch(t.size()); pd->comp[i].tag = t[k]; t.erase(t.begin() + k); }
}
pd_code_t *gen_pd(int maxcross, int signmode) {
  pd_code_t *pd = NULL; int src = pick({6, 1, 1, 1, 1, 1});
  if (src == 0) { int tries = 0; while (!pd && tries++ < 40) { int nc = 1 + pick({3, 2, 1}); pd = pd_random_planar(nc, chr(4, nc == 1 ? 8 : 6), maxcross, ch(1 << 20), signmode); } if (!pd) src = 1; }
  switch (src) {
  case 1: pd = pd_build_unknot(ch(std::min(maxcross, 5) + 1)); break;
  case 2: pd = pd_build_twist_knot(chr(1, std::max(1, maxcross - 2))); break;
  case 3: pd = pd_build_torus_knot(2, chr(2, std::max(2, maxcross))); break;
  case 4: pd = pd_build_simple_chain(chr(2, std::max(2, maxcross / 2))); break;
  case 5: pd = pd_build_unknot(0); break;
  }
  if (src && pd->ncross) { Rng r = subrng(); for (unsigned k = 0; k < pd->ncross; k++) { int m = r.below(3); if (signmode == 2 || (signmode == 1 && m == 0)) pd->cross[k].sign = PD_UNSET_ORIENTATION; else if (pd->cross[k].sign == PD_UNSET_ORIENTATION || r.below(4) == 0) pd->cross[k].sign = r.below(2); } }
  return pd;
}
// ------------------------------------------------------------ soundness
bool connected_pd(pd_code_t *pd) {
  if (pd->ncross == 0) return true; std::vector<char> seen(pd->ncross); std::vector<int> st{0}; seen[0] = 1; unsigned n = 1;
  while (!st.empty()) { int c = st.back(); st.pop_back(); for (int p = 0; p < 4; p++) { pd_edge_t &e = pd->edge[pd->cross[c].edge[p]]; for (unsigned d : {e.head, e.tail}) if (!seen[d]) { seen[d] = 1; n++; st.push_back(d); } } }
  return n == pd->ncross;
}
void sound_pd(const char *w, pd_code_t *pd) {
  if (!pd) sim_fail("null-pd", "%s: no diagram", w);
  if (!memchr(pd->hash, 0, PD_HASHSIZE)) sim_fail("unsound", "%s: hash is not terminated", w);
  if (pd->ncross > pd->MAXVERTS || pd->nedges > pd->MAXEDGES || pd->ncomps > pd->MAXCOMPONENTS || pd->nfaces > pd->MAXFACES) sim_fail("unsound", "%s: counts exceed the space allocated", w);
  std::set<int> tags; for (unsigned i = 0; i < pd->ncomps; i++) tags.insert(pd->comp[i].tag);
  if (tags.size() != pd->ncomps) sim_fail("unsound", "%s: %u components carry %zu different tags", w, pd->ncomps, tags.size());
  if (pd->ncross == 0) {
    if (pd->nedges != 1 || pd->ncomps != 1 || pd->nfaces != 2 || pd->comp[0].nedges != 1 || pd->comp[0].edge[0] != 0) sim_fail("unsound", "%s: bad zero-crossing diagram", w);
    for (int f = 0; f < 2; f++) if (pd->face[f].nedges != 1 || pd->face[f].edge[0] != 0) sim_fail("unsound", "%s: bad face in zero-crossing diagram", w);
    return; }
  unsigned n = pd->ncross, m = pd->nedges; if (m != 2 * n) sim_fail("unsound", "%s: %u edges for %u crossings", w, m, n);
  std::vector<int> slot(4 * n, 0);
  for (unsigned c = 0; c < n; c++) { if (pd->cross[c].sign > 2) sim_fail("unsound", "%s: crossing %u has sign %d", w, c, pd->cross[c].sign); for (int p = 0; p < 4; p++) if (pd->cross[c].edge[p] >= m) sim_fail("unsound", "%s: crossing %u names edge %u of %u", w, c, pd->cross[c].edge[p], m); }
  for (unsigned e = 0; e < m; e++) { pd_edge_t &E = pd->edge[e]; if (E.head >= n || E.tail >= n || E.headpos > 3 || E.tailpos > 3) sim_fail("unsound", "%s: edge %u out of range", w, e);
    if (pd->cross[E.head].edge[E.headpos] != e || pd->cross[E.tail].edge[E.tailpos] != e) sim_fail("unsound", "%s: edge %u is not where its crossings say", w, e);
    slot[4 * E.head + E.headpos] |= 1; slot[4 * E.tail + E.tailpos] |= 2; }
  for (unsigned c = 0; c < n; c++) for (int p = 0; p < 2; p++) { int a = slot[4 * c + p], b = slot[4 * c + p + 2]; if (!((a == 1 && b == 2) || (a == 2 && b == 1))) sim_fail("unsound", "%s: strands do not pass through crossing %u", w, c); }
  unsigned k = 0; for (unsigned i = 0; i < pd->ncomps; i++) { pd_component_t &C = pd->comp[i]; if (C.nedges == 0) sim_fail("unsound", "%s: component %u is empty", w, i);
    for (unsigned j = 0; j < C.nedges; j++, k++) { if (C.edge[j] != k) sim_fail("unsound", "%s: component %u is not numbered consecutively", w, i); } 
    for (unsigned j = 0; j < C.nedges; j++) { pd_edge_t &E = pd->edge[C.edge[j]], &F = pd->edge[C.edge[(j + 1) % C.nedges]]; if (E.head != F.tail || (E.headpos + 2) % 4 != F.tailpos) sim_fail("unsound", "%s: component %u breaks after edge %u", w, i, C.edge[j]); } }
  if (k != m) sim_fail("unsound", "%s: components cover %u of %u edges", w, k, m);
  std::vector<int> seen(2 * m, 0); unsigned tot = 0;
  for (unsigned f = 0; f < pd->nfaces; f++) { pd_face_t &F = pd->face[f]; if (F.nedges == 0) sim_fail("unsound", "%s: face %u is empty", w, f);
    for (unsigned j = 0; j < F.nedges; j++) { if (F.edge[j] >= m || F.orient[j] > 1) sim_fail("unsound", "%s: face %u names edge %u", w, f, F.edge[j]); if (seen[2 * F.edge[j] + F.orient[j]]++) sim_fail("unsound", "%s: edge %u twice on the same side", w, F.edge[j]); tot++; }
    for (unsigned j = 0; j < F.nedges; j++) { pd_edge_t &E = pd->edge[F.edge[j]], &G = pd->edge[F.edge[(j + 1) % F.nedges]]; unsigned c = F.orient[j] ? E.head : E.tail, p = F.orient[j] ? E.headpos : E.tailpos, d = F.orient[(j + 1) % F.nedges] ? G.tail : G.head, q = F.orient[(j + 1) % F.nedges] ? G.tailpos : G.headpos;
      if (c != d || (q + 1) % 4 != p) sim_fail("unsound", "%s: face %u does not turn left after edge %u", w, f, F.edge[j]); } }
  if (tot != 2 * m) sim_fail("unsound", "%s: faces cover %u of %u edge sides", w, tot, 2 * m);
  for (unsigned f = 0; f < pd->nfaces; f++) { pd_face_t &F = pd->face[f]; for (unsigned j = 1; j < F.nedges; j++) if (F.edge[j] < F.edge[0]) sim_fail("order", "%s: face %u does not start with its lowest edge", w, f); if (f) { pd_face_t &G = pd->face[f - 1]; bool bad = G.nedges < F.nedges; if (G.nedges == F.nedges) bad = std::lexicographical_compare(F.edge, F.edge + F.nedges, G.edge, G.edge + G.nedges); if (bad) sim_fail("order", "%s: faces %u and %u are out of order", w, f - 1, f); } }
  for (unsigned c = 1; c < n; c++) if (std::lexicographical_compare(pd->cross[c].edge, pd->cross[c].edge + 4, pd->cross[c - 1].edge, pd->cross[c - 1].edge + 4)) sim_fail("order", "%s: crossings %u and %u are out of order", w, c - 1, c);
  for (unsigned i = 1; i < pd->ncomps; i++) if (pd->comp[i].nedges > pd->comp[i - 1].nedges) sim_fail("order", "%s: components %u and %u are out of order", w, i - 1, i);
}
u64 hash_pd(pd_code_t *pd) {
  u64 h = hash_u64(pd->ncross); for (unsigned c = 0; c < pd->ncross; c++) { for (int p = 0; p < 4; p++) h = hash_u64(pd->cross[c].edge[p], h); h = hash_u64(pd->cross[c].sign, h); }
  for (unsigned i = 0; i < pd->ncomps; i++) h = hash_u64(pd->comp[i].tag, h); return h;
}
std::string diff_pd(pd_code_t *a, pd_code_t *b, bool uid) {
  char s[300]; 
#define D(...) do { snprintf(s, sizeof s, __VA_ARGS__); return s; } while (0)
  if (a->ncross != b->ncross) D("%u crossings, expected %u", b->ncross, a->ncross);
  if (a->nedges != b->nedges || a->ncomps != b->ncomps || a->nfaces != b->nfaces) D("%u edges %u components %u faces, expected %u %u %u", b->nedges, b->ncomps, b->nfaces, a->nedges, a->ncomps, a->nfaces);
  for (unsigned c = 0; c < a->ncross; c++) { for (int p = 0; p < 4; p++) if (a->cross[c].edge[p] != b->cross[c].edge[p]) D("crossing %u position %d is edge %u, expected %u", c, p, b->cross[c].edge[p], a->cross[c].edge[p]); if (a->cross[c].sign != b->cross[c].sign) D("crossing %u has sign %d, expected %d", c, b->cross[c].sign, a->cross[c].sign); }
  if (a->ncross) for (unsigned e = 0; e < a->nedges; e++) if (memcmp(&a->edge[e], &b->edge[e], sizeof(pd_edge_t))) D("edge %u differs", e);
  for (unsigned i = 0; i < a->ncomps; i++) { if (a->comp[i].nedges != b->comp[i].nedges) D("component %u has %u edges, expected %u", i, b->comp[i].nedges, a->comp[i].nedges); if (a->comp[i].tag != b->comp[i].tag) D("component %u has tag %d, expected %d", i, b->comp[i].tag, a->comp[i].tag); for (unsigned j = 0; j < a->comp[i].nedges; j++) if (a->comp[i].edge[j] != b->comp[i].edge[j]) D("component %u edge %u differs", i, j); }
  for (unsigned i = 0; i < a->nfaces; i++) { if (a->face[i].nedges != b->face[i].nedges) D("face %u has %u edges, expected %u", i, b->face[i].nedges, a->face[i].nedges); for (unsigned j = 0; j < a->face[i].nedges; j++) if (a->face[i].edge[j] != b->face[i].edge[j] || (a->ncross && a->face[i].orient[j] != b->face[i].orient[j])) D("face %u edge %u differs", i, j); }
  if (strncmp(a->hash, b->hash, PD_HASHSIZE)) D("hash %.32s, expected %.32s", b->hash, a->hash);
  if (uid && a->uid != b->uid) D("number %lu, expected %lu", b->uid, a->uid);
#undef D
  return "";
}
int over_in(pd_code_t *pd, unsigned c) { // position of the incoming over strand, from the sign convention
  // incoming positions
  int in02 = pd->edge[pd->cross[c].edge[0]].head == c && pd->edge[pd->cross[c].edge[0]].headpos == 0 ? 0 : 2;
  int in13 = pd->edge[pd->cross[c].edge[1]].head == c && pd->edge[pd->cross[c].edge[1]].headpos == 1 ? 1 : 3;
  // counterclockwise order; strand a enters at in02 and leaves opposite.  b crosses a from right to left iff it enters at in02+1.
  bool b_left = (in02 + 1) % 4 == in13;      // (a x b) points out
  // positive: (upper x lower) out
  if (pd->cross[c].sign == PD_POS_ORIENTATION) return b_left ? in02 : in13;
  return b_left ? in13 : in02;
}
bool same_diagram(pd_code_t *a, pd_code_t *b, bool exempt) {
  if (a->ncross != b->ncross || a->ncomps != b->ncomps || a->nedges != b->nedges) return false;
  if (a->ncross == 0) return true;
  unsigned m = a->nedges; std::vector<char> ex(m, 0), over(4 * a->ncross, 0);
  for (unsigned c = 0; c < a->ncross; c++) { int o = over_in(a, c); over[4 * c + o] = over[4 * c + (o + 2) % 4] = 1; }
  if (exempt) for (unsigned i = 0; i < a->ncomps; i++) if (a->comp[i].nedges == 2) { bool all = true; for (int j = 0; j < 2; j++) { pd_edge_t &e = a->edge[a->comp[i].edge[j]]; if (!over[4 * e.head + e.headpos]) all = false; } if (all) for (int j = 0; j < 2; j++) ex[a->comp[i].edge[j]] = 1; }
  for (unsigned f = 0; f < b->ncross; f++) for (int r0 = 0; r0 < 4; r0++) {  // crossing 0 of a -> crossing f of b, rotated by r0
    std::vector<int> to(a->ncross, -1), rot(a->ncross, 0), back(b->ncross, -1); std::vector<int> st{0}; to[0] = f; rot[0] = r0; back[f] = 0; bool ok = true; unsigned n = 0;
    while (ok && !st.empty()) { unsigned c = st.back(); st.pop_back(); n++; unsigned d = to[c]; int ob = over_in(b, d);
      for (int p = 0; p < 4 && ok; p++) { int q = (p + rot[c]) % 4; if (over[4 * c + p] != ((q - ob) % 2 == 0)) { ok = false; break; }
        unsigned ea = a->cross[c].edge[p], eb = b->cross[d].edge[q]; pd_edge_t &A_ = a->edge[ea], &B_ = b->edge[eb];
        bool ahead = A_.head == c && (int)A_.headpos == p, bhead = B_.head == d && (int)B_.headpos == q; if (ahead != bhead && !ex[ea]) { ok = false; break; }
        unsigned oc = ahead ? A_.tail : A_.head, op = ahead ? A_.tailpos : A_.headpos, od = bhead ? B_.tail : B_.head, oq = bhead ? B_.tailpos : B_.headpos; int rr = (oq + 4 - op) % 4;
        if (to[oc] < 0) { if (back[od] >= 0) { ok = false; break; } to[oc] = od; rot[oc] = rr; back[od] = oc; st.push_back(oc); } else if (to[oc] != (int)od || rot[oc] != rr) { ok = false; break; } } }
    if (ok && n == a->ncross) return true; }
  return false;
}
// ------------------------------------------------------------ C04
static void mutate(pd_code_t *pd) {
  if (pd->ncross) { int n = ch(3); for (int i = 0; i < n; i++) { if (chance(1, 2)) pd_reorient_component(pd, ch(pd->ncomps), PD_NEG_ORIENTATION); else { int c = ch(pd->ncomps); pd_renumber_component(pd, c, 1 + ch(pd->comp[c].nedges)); } } }
  if (chance(1, 2)) randomize_tags(pd);
  switch (ch(4)) { case 0: break; case 1: pd->uid = ch(1000); break; case 2: pd->uid = PD_UNSET_UID; break; case 3: pd->uid = 0x7000000000ul + ch(1000); break; }
}
static bool all_signed(pd_code_t *pd) { for (unsigned c = 0; c < pd->ncross; c++) if (pd->cross[c].sign == PD_UNSET_ORIENTATION) return false; return true; }
void run_C04() {
  alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE);
  FS.on = true; FS.wp = choose_write_plan(false); std::vector<pd_code_t *> v; bool kt = chance(1, 4); int n = kt ? 1 : chr(1, 6);
  Death d = sim_guard([&] {
    for (int i = 0; i < n; i++) { pd_code_t *pd = NULL; int sm = kt ? 0 : pick({2, 1, 1});
      if (chance(1, 40)) { int nc = chr(1, 3); pd = pd_random_planar(nc, chr(12, 36 / nc + 8), 500, ch(1 << 20), sm); }
      if (!pd) pd = gen_pd(chance(1, 10) ? 60 : 14, sm); mutate(pd); sound_pd("generated", pd); if (!pd_ok(pd)) sim_fail("pd-ok", "a sound diagram fails the library's own check"); v.push_back(pd); sim_state(hash_pd(pd)); }
    if (kt && v[0]->ncross == 0) { pd_code_free(&v[0]); v[0] = pd_build_torus_knot(2, 3); }
    FILE *f = sim_fopen("d.pd", "w"); for (auto p : v) { if (kt) pd_write_KnotTheory(f, p); else { pd_write(f, p); if (chance(1, 2)) fprintf(f, "\n"); } } if (fclose(f)) sim_fail("write-error", "fclose failed without a fault");
    for (auto p : v) sound_pd("after writing", p); });
  if (d.how != O_RETURN) sim_fail("died", "writing: %s", d.msg.c_str());
  std::string bytes = disk.get("d.pd"); ev("wrote %d %s diagrams, first has %u crossings %u components, %zu bytes %016llx", n, kt ? "KnotTheory" : "pd", v[0]->ncross, v[0]->ncomps, bytes.size(), (unsigned long long)hash_str(bytes));
  d = sim_proc([&] {
    sim_fault(F_RESTART); FS.rp = choose_read_plan(false, bytes.size()); FS.rp_on = true; alloc_reset(); A.track = true; A.poison = true; A.poison_mode = ch(5); size_t mark = alloc_mark();
    FILE *f = sim_fopen("d.pd", "r"); std::vector<pd_code_t *> got;
    if (kt) { pd_code_t *p = pd_read_KnotTheory(f); if (!p) sim_fail("refused", "own KnotTheory file refused: %.300s", bytes.c_str()); sound_pd("KnotTheory", p); if (!all_signed(p)) sim_fail("sign-lost", "crossing signs lost"); if (!same_diagram(v[0], p, true)) sim_fail("different-diagram", "KnotTheory round trip changed the diagram: %.300s", bytes.c_str()); pd_code_free(&p); }
    else { for (int i = 0; i < n; i++) { int e = 0; bool we = chance(1, 2); pd_code_t *p = we ? pd_read_err(f, &e) : pd_read(f); if (!p) sim_fail("refused", "diagram %d of %d refused (error %d)", i, n, e); if (e) sim_fail("error-code", "diagram read but error %d", e); sound_pd("after reading", p); std::string df = diff_pd(v[i], p, true); if (df != "") sim_fail("differs", "diagram %d of %d (%u crossings): %s", i, n, v[i]->ncross, df.c_str()); 
        pd_code_t *c = pd_copy(p); sound_pd("copy", c); df = diff_pd(p, c, true); if (df != "") sim_fail("copy-differs", "copy of diagram (%u crossings): %s", p->ncross, df.c_str()); pd_code_free(&c); pd_code_free(&p); sim_count(1); }
      int e = 0; pd_code_t *p = pd_read_err(f, &e); if (p) sim_fail("extra", "a diagram was read after the last one"); if (e != PD_EOF) sim_fail("error-code", "end of file reported as error %d", e); }
    fclose(f);
    if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str()); });
  if (d.how != O_RETURN) sim_fail("died", "reading: %s", d.msg.c_str());
  for (auto p : v) pd_code_free(&p);
}
// ------------------------------------------------------------ C05
// Do the two streams have the same words, and if so, the same numbers?  "" if not comparable or the same.
static std::vector<std::string> words_of(const std::string &s) { std::vector<std::string> w; for (size_t i = 0; i < s.size();) { if (isspace((unsigned char)s[i])) { i++; continue; } size_t j = i; if (isdigit((unsigned char)s[i])) { while (j < s.size() && isdigit((unsigned char)s[j])) j++; size_t k = i; while (k + 1 < j && s[k] == '0') k++; w.push_back("#" + s.substr(k, j - k)); } else { j++; w.push_back(s.substr(i, 1)); } i = j; } return w; }
static std::string other_numbers(const std::string &in, const std::string &out) {
  auto a = words_of(in), b = words_of(out); if (a.size() < b.size()) return ""; std::string r;
  for (size_t i = 0; i < b.size(); i++) { if ((a[i][0] == '#') != (b[i][0] == '#')) return ""; if (a[i][0] != '#') { if (a[i] != b[i]) return ""; } else if (a[i] != b[i] && r == "" && !(b[i] == "#18446744073709551615" && a[i].size() >= b[i].size())) r = "the stream says " + a[i].substr(1) + ", the diagram " + b[i].substr(1); }
  return r;
}
static size_t last_number(const std::string &s) { size_t i = s.size(); while (i > 0 && !isdigit((unsigned char)s[i - 1])) i--; while (i > 0 && isdigit((unsigned char)s[i - 1])) i--; return i; }
void run_C05() {
  alloc_reset(); A.track = true; A.limit = 64u << 20; FS.on = true; bool kt = chance(1, 4); int n = kt ? 1 : chr(1, 3); std::vector<pd_code_t *> v; std::vector<std::string> part;
  Death d = sim_guard([&] { for (int i = 0; i < n; i++) { pd_code_t *p = gen_pd(8, kt ? 0 : pick({2, 1, 1})); if (kt && !p->ncross) { pd_code_free(&p); p = pd_build_torus_knot(2, 3); } mutate(p); v.push_back(p); char nm[20]; snprintf(nm, 20, "p%d", i); FILE *f = sim_fopen(nm, "w"); if (kt) pd_write_KnotTheory(f, p); else pd_write(f, p); fclose(f); part.push_back(disk.get(nm)); } });
  if (d.how != O_RETURN) sim_fail("died", "writing: %s", d.msg.c_str());
  std::string bytes; std::vector<size_t> need, end; for (int i = 0; i < n; i++) { size_t b = bytes.size(); bytes += part[i]; if (v[i]->ncross || kt) need.push_back(b + (kt ? part[i].rfind("]]") : last_number(part[i]))); else need.push_back(b + part[i].find("tag ") + 4); end.push_back(bytes.size()); }
  std::string data = bytes, what; ReadPlan rp; size_t good = bytes.size(); bool cut = false;
  switch (pick({4, 4, 3, 2, 2, 2})) {
  case 0: { size_t k = ch((u32)bytes.size() + 1); data = bytes.substr(0, k); sim_fault(F_TRUNCATE); good = k; cut = true; rp = choose_read_plan(false, k); ev("truncated at %zu of %zu", k, bytes.size()); break; }
  case 1: { bool c; data = damage(bytes, &c, &what); size_t k = 0; while (k < data.size() && k < bytes.size() && data[k] == bytes[k]) k++; good = c ? k : bytes.size(); rp = choose_read_plan(false, data.size()); ev("damaged: %s", what.c_str()); break; }
  case 2: { rp = choose_read_plan(true, bytes.size()); good = rp.eio_at; cut = !rp.eio_transient; ev("read error at %ld transient %d", rp.eio_at, rp.eio_transient); break; }
  case 3: { // replace one number by an extreme one
    std::vector<std::pair<size_t, size_t>> at; for (size_t i = 0; i < bytes.size();) if (isdigit((unsigned char)bytes[i])) { size_t j = i; while (j < bytes.size() && isdigit((unsigned char)bytes[j])) j++; at.push_back({i, j - i}); i = j; } else i++;
    static const char *num[] = {"0", "1", "2", "3", "4", "5", "7", "100", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "99999999999999999999999", "-1", "-2147483648", ""};
    int k = ch(at.size()); char wb[60]; const char *w = num[ch(19)]; if (chance(1, 3)) { u64 o = strtoull(bytes.c_str() + at[k].first, NULL, 10); static const int sh[] = {8, 16, 31, 32, 63}; int s = ch(6); if (s < 5) snprintf(wb, sizeof wb, "%llu", (unsigned long long)(o + (1ull << sh[s]))); else { __uint128_t b = ((__uint128_t)1 << 64) + o; std::string t; while (b) { t.insert(t.begin(), '0' + (int)(b % 10)); b /= 10; } snprintf(wb, sizeof wb, "%s", t.c_str()); } w = wb; } data = bytes.substr(0, at[k].first) + w + bytes.substr(at[k].first + at[k].second); good = at[k].first; if (data == bytes) good = bytes.size(); sim_fault(F_TOKEN_DAMAGE); rp = choose_read_plan(false, data.size()); ev("number %d replaced by %s", k, w); break; }
  case 4: { bool c; data = damage(bytes, &c, &what); rp = choose_read_plan(true, data.size()); size_t k = 0; while (k < data.size() && k < bytes.size() && data[k] == bytes[k]) k++; good = std::min(k, (size_t)rp.eio_at); ev("damaged: %s and EIO at %ld", what.c_str(), rp.eio_at); break; }
  case 5: { // more entries than there should be, announced as such; or entries in another order
    sim_fault(F_TOKEN_DAMAGE); rp = choose_read_plan(false, bytes.size());
    if (kt) { size_t a = bytes.find("X["), b = bytes.find(']', a) + 1; int k = pick({1, 1}) ? chr(9985, 10040) : chr(1, 40); std::string one = bytes.substr(a, b - a), more; for (int i = 0; i < k; i++) more += one + ","; data = bytes.substr(0, a) + more + bytes.substr(a); good = a; ev("%d crossings more", k); break; }
    if (chance(1, 5)) { static const int len[] = {30, 31, 32, 33, 34, 64, 1000, 4080, 4090, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 9000}; size_t q = bytes.find('\n'); int k = len[ch(18)] + ch(3); int how = ch(4); data = how == 0 ? "pd " + std::string(k, 'A') + " 0" + bytes.substr(q) : how == 1 ? std::string(k, 'p') + bytes.substr(q) : how == 2 ? "pd " + std::string(k, '!') + bytes.substr(q) : "pd " + std::string(k, ' ') + bytes.substr(q); good = 0; ev("first line of %d characters, kind %d", k, how); break; }
    static const char *key[] = {"nv ", "ne ", "nc ", "nf "}; int w = ch(4); size_t a = bytes.find(std::string("\n") + key[w]); if (a == std::string::npos) break; a++; size_t e = bytes.find('\n', a) + 1; int cnt = atoi(bytes.c_str() + a + 3); size_t b = e; std::vector<std::string> line; for (int i = 0; i < cnt && b < bytes.size(); i++) { size_t q = bytes.find('\n', b); if (q == std::string::npos) break; line.push_back(bytes.substr(b, q + 1 - b)); b = q + 1; } if (line.empty()) break;
    bool swap = chance(1, 2); if (swap && line.size() > 1) { int i = ch(line.size() - 1); std::swap(line[i], line[i + 1]); ev("%sentries %d and %d exchanged", key[w], i, i + 1); } else { int k = chr(1, 60); for (int i = 0; i < k; i++) line.push_back(line[ch(line.size())]); cnt += k; ev("%s%d entries more", key[w], k); }
    std::string j; for (auto &x : line) j += x; data = bytes.substr(0, a + 3) + std::to_string(cnt) + "\n" + j + bytes.substr(b); good = a; if (data == bytes) good = bytes.size(); break; }
  }
  sim_state(hash_str(data)); size_t mark = alloc_mark(); A.refused = 0; bool intact = data == bytes && rp.eio_at < 0;
  d = sim_guard([&] {
    FILE *f = sim_open_bytes(data, rp); int limit = n + 3;
    for (int i = 0; i < limit; i++) {
      int e = 0; bool we = chance(1, 2); pd_code_t *p = kt ? pd_read_KnotTheory(f) : we ? pd_read_err(f, &e) : pd_read(f); sim_count(1);
      if (!p) { if (we && !kt && e != PD_NOT_OK && e != PD_BAD_FORMAT && e != PD_EOF) sim_fail("no-error-code", "refused with error code %d", e); if (i < n && (intact || good > end[i])) sim_fail("refused", "diagram %d, stored before the damage, was refused", i); ev("refused: %d", we ? e : -1); sim_probe("refused"); break; }
      if (e) sim_fail("error-code", "diagram returned with error %d", e);
      sound_pd("diagram from damaged stream", p); if (!pd_ok(p)) sim_fail("pd-ok", "accepted diagram fails the library's check");
      if (i < n && good <= need[i] && cut && (i == 0 || good >= end[i - 1])) sim_fail("accepted-incomplete", "diagram %d was accepted from a stream cut inside it", i);
      if (i < n && (intact || good >= end[i])) { if (kt) { if (!same_diagram(v[i], p, true)) sim_fail("differs", "intact diagram differs"); } else { std::string df = diff_pd(v[i], p, true); if (df != "") sim_fail("differs", "diagram %d before the damage: %s", i, df.c_str()); } }
      if (i == 0 && !kt && p->ncross && data != bytes && rp.eio_at < 0) { FS.wp = WritePlan(); FILE *g = sim_fopen("back", "w"); pd_write(g, p); fclose(g); std::string o = other_numbers(data, disk.get("back")); if (o != "") sim_fail("other-numbers", "a diagram was accepted, but %s", o.c_str()); }
      pd_code_t *c = pd_copy(p); pd_code_free(&c); pd_code_free(&p); sim_probe("accepted"); ev("accepted"); if (kt) break;
    }
    fclose(f); });
  if (d.how != O_RETURN) { if (A.refused && d.how == O_ASSERT) { ev("stopped: out of memory"); sim_probe("out of memory stop"); return; } sim_fail(d.how == O_ASSERT ? "assert" : "died", "reading ended the process: %s (code %d)", d.msg.c_str(), d.code); }
  if (alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
  for (auto p : v) pd_code_free(&p);
}
