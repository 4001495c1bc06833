// C18 diagram store tools: computepd, connectsum, splitpd, joinpd, filterpd, carbonizepd.
#include "sim.h"
#include "pd_model.h"
#include "plCurve.h"
#include <array>
#include "topo_model.h"
#include "store_model.h"
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <functional>
#include <sys/stat.h>
extern "C" {
unsigned int pd_stor_nelts(pd_stor_t *);
#define T(n) int tool_main_##n(int, char **);
T(computepd) T(connectsum) T(splitpd) T(joinpd) T(filterpd) T(carbonizepd)
#undef T
}
typedef int (*Main)(int, char **);
enum { COMPUTE, SUM, SPLIT, JOIN, FILTER, CARBON };
static const char *tname[] = {"computepd", "connectsum", "splitpd", "joinpd", "filterpd", "carbonizepd"};
static Main tmain[] = {tool_main_computepd, tool_main_connectsum, tool_main_splitpd, tool_main_joinpd, tool_main_filterpd, tool_main_carbonizepd};

// what a store file says, read by the library (C08) in a quiet world; elements in store order
Content content_of(const std::string &bytes) {
  Content c; FILE *f = sim_open_bytes(bytes, ReadPlan()); pd_stor_t *s = NULL; Death d = sim_guard([&] { s = pd_read_pdstor(f, NONE); }); fclose(f);
  if (d.how != O_RETURN || !s) return c; c.ok = true;
  if (pd_stor_nelts(s)) for (pd_code_t *p = pd_stor_firstelt(s); p; p = pd_stor_nextelt(s)) { c.e.push_back({p->uid, model_of(p), tags_of(p)}); c.pd.push_back(p); }
  pd_free_pdstor(&s); return c;
}
void free_content(Content &c) { for (auto p : c.pd) pd_code_free(&p); c.pd.clear(); }
std::string make_store(int maxn, int maxcross, bool all_signed) {
  pd_stor_t *s = pd_new_pdstor(); int n = chance(1, 12) ? 0 : chr(1, maxn); std::vector<pd_code_t *> pool;
  for (int i = 0; i < n; i++) { pd_code_t *p; if (!pool.empty() && chance(1, 4)) { Rng r = subrng(); p = scramble(pool[ch(pool.size())], all_signed, r); } else p = all_signed ? gen_pd(maxcross, 0) : storable(maxcross); any_tags(p); pd_addto_pdstor(s, p, NONE); pool.push_back(p); }
  FS.wp = WritePlan(); FILE *f = sim_fopen("making", "w"); pd_write_pdstor(f, s); fclose(f); pd_free_pdstor(&s); for (auto p : pool) pd_code_free(&p);
  std::string b = disk.get("making"); disk.del("making"); return b;
}
// ------------------------------------------------------------ references
std::vector<int> interlace_ref(pd_code_t *pd, bool sgn) {
  std::vector<int> out(pd->ncomps, 0); if (!pd->ncross) return out; std::vector<std::vector<int>> outp(pd->ncross);
  for (unsigned e = 0; e < pd->nedges; e++) outp[pd->edge[e].tail].push_back(pd->edge[e].tailpos);
  auto polyak = [&](int c) { int a = outp[c][0], b = outp[c][1]; int e1 = (a + 1) % 4 == b ? a : b, e2 = (e1 + 1) % 4; return pd->cross[c].edge[e2] > pd->cross[c].edge[e1] ? 1 : -1; };
  for (unsigned k = 0; k < pd->ncomps; k++) { std::map<int, std::vector<int>> at; for (unsigned i = 0; i < pd->comp[k].nedges; i++) at[pd->edge[pd->comp[k].edge[i]].head].push_back(i);
    for (auto x = at.begin(); x != at.end(); ++x) if (x->second.size() == 2) for (auto y = std::next(x); y != at.end(); ++y) if (y->second.size() == 2) { int in = 0; for (int p : y->second) if (p > x->second[0] && p < x->second[1]) in++; if (in == 1) out[k] += sgn ? polyak(x->first) * polyak(y->first) : 1; } }
  return out;
}
// all sums of two shadows: the strands at the ends of two cut edges joined either way
static void sums(const MD &a, const MD &b, std::vector<MD> &out) {
  if (a.n == 0 || b.n == 0) { out.push_back(a.n ? a : b); return; }
  MD base; base.n = a.n + b.n; base.nb = a.nb; for (int x : b.nb) base.nb.push_back(x + 4 * a.n); base.head.assign(4 * base.n, 0); base.sign.assign(base.n, 0); base.comp.assign(4 * base.n, 0);
  for (int x = 0; x < 4 * a.n; x++) if (x < a.nb[x]) for (int y = 0; y < 4 * b.n; y++) { MD m = base; int x2 = a.nb[x], Y = 4 * a.n + y, Y2 = 4 * a.n + b.nb[y]; m.nb[x] = Y; m.nb[Y] = x; m.nb[x2] = Y2; m.nb[Y2] = x2; out.push_back(m); }
}
// ------------------------------------------------------------ generated C code
static pd_code_t *run_generated(const std::string &src, size_t &at, std::string &name) {
  pd_code_t *pd = NULL; char b[400]; bool done = false;
  while (at < src.size() && !done) { size_t e = src.find('\n', at); if (e == std::string::npos) e = src.size(); std::string l = src.substr(at, e - at); at = e + 1; int i, j, v; char c; const char *s = l.c_str();
    while (*s == ' ') s++; if (!*s || !strncmp(s, "/*", 2) || !strncmp(s, "assert(", 7) || !strncmp(s, "pd_code_t *pd;", 14)) continue;
    if (sscanf(s, "pd_code_t *pd_create_%399[^(](", b) == 1) { if (name != "") sim_fail("carbon", "function %s begins inside %s", b, name.c_str()); name = b; continue; }
    if (name == "") sim_fail("carbon", "code outside a function: %.60s", s);
    if (sscanf(s, "pd = pd_code_new(%d)", &i) == 1) { pd = pd_code_new(i); continue; }
    if (!strncmp(s, "return pd;", 10)) continue; if (*s == '}') { done = true; continue; } if (!strncmp(s, "pd_regenerate_hash(pd)", 22)) { pd_regenerate_hash(pd); continue; }
    if (!pd) sim_fail("carbon", "no diagram allocated before: %.60s", s);
    auto need = [&](bool ok) { if (!ok) sim_fail("carbon", "index out of range: %.60s", s); };
    if (sscanf(s, "pd->ncross = %d", &v) == 1) { pd->ncross = v; need(v >= 0 && (unsigned)v <= pd->MAXVERTS); } else if (sscanf(s, "pd->nedges = %d", &v) == 1) { pd->nedges = v; need(v >= 0 && (unsigned)v <= pd->MAXEDGES); } else if (sscanf(s, "pd->ncomps = %d", &v) == 1) { pd->ncomps = v; need(v >= 0 && (unsigned)v <= pd->MAXCOMPONENTS); } else if (sscanf(s, "pd->nfaces = %d", &v) == 1) { pd->nfaces = v; need(v >= 0 && (unsigned)v <= pd->MAXFACES); }
    else if (sscanf(s, "pd->cross[%d].edge[%d] = %d", &i, &j, &v) == 3) { need(i >= 0 && i < (int)pd->MAXVERTS && j >= 0 && j < 4); pd->cross[i].edge[j] = v; } else if (sscanf(s, "pd->cross[%d].sign = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXVERTS); pd->cross[i].sign = v; }
    else if (sscanf(s, "pd->edge[%d].headpos = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXEDGES); pd->edge[i].headpos = v; } else if (sscanf(s, "pd->edge[%d].head = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXEDGES); pd->edge[i].head = v; } else if (sscanf(s, "pd->edge[%d].tailpos = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXEDGES); pd->edge[i].tailpos = v; } else if (sscanf(s, "pd->edge[%d].tail = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXEDGES); pd->edge[i].tail = v; }
    else if (sscanf(s, "pd->comp[%d].nedges = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXCOMPONENTS && v >= 0); pd->comp[i].nedges = v; } else if (sscanf(s, "pd->comp[%d].tag = '%c'", &i, &c) == 2) { need(i >= 0 && i < (int)pd->MAXCOMPONENTS); pd->comp[i].tag = c; }
    else if (sscanf(s, "pd->comp[%d].edge = calloc(pd->comp[%d].nedges,", &i, &j) == 2) { need(i >= 0 && i < (int)pd->MAXCOMPONENTS && j >= 0 && j < (int)pd->MAXCOMPONENTS); pd->comp[i].edge = (pd_idx_t *)calloc(pd->comp[j].nedges, sizeof(pd_idx_t)); } else if (sscanf(s, "pd->comp[%d].edge[%d] = %d", &i, &j, &v) == 3) { need(i >= 0 && i < (int)pd->MAXCOMPONENTS && pd->comp[i].edge && j >= 0 && j < (int)pd->comp[i].nedges); pd->comp[i].edge[j] = v; }
    else if (sscanf(s, "pd->face[%d].nedges = %d", &i, &v) == 2) { need(i >= 0 && i < (int)pd->MAXFACES && v >= 0); pd->face[i].nedges = v; } else if (sscanf(s, "pd->face[%d].edge = calloc(pd->face[%d].nedges,", &i, &j) == 2) { need(i >= 0 && i < (int)pd->MAXFACES && j >= 0 && j < (int)pd->MAXFACES); pd->face[i].edge = (pd_idx_t *)calloc(pd->face[j].nedges, sizeof(pd_idx_t)); } else if (sscanf(s, "pd->face[%d].orient = calloc(pd->face[%d].nedges,", &i, &j) == 2) { need(i >= 0 && i < (int)pd->MAXFACES && j >= 0 && j < (int)pd->MAXFACES); pd->face[i].orient = (pd_or_t *)calloc(pd->face[j].nedges, sizeof(pd_or_t)); }
    else if (sscanf(s, "pd->face[%d].edge[%d] = %d", &i, &j, &v) == 3) { need(i >= 0 && i < (int)pd->MAXFACES && pd->face[i].edge && j >= 0 && j < (int)pd->face[i].nedges); pd->face[i].edge[j] = v; } else if (sscanf(s, "pd->face[%d].orient[%d] = %d", &i, &j, &v) == 3) { need(i >= 0 && i < (int)pd->MAXFACES && pd->face[i].orient && j >= 0 && j < (int)pd->face[i].nedges); pd->face[i].orient[j] = v; }
    else sim_fail("carbon", "cannot follow: %.60s", s); }
  if (name != "" && !done) sim_fail("carbon", "function %s has no end", name.c_str());
  return pd;
}
static void check_generated(const char *file, const std::string &src, size_t &at, const std::string &base, const Content &c, const std::string &bytes) {
  // the codes in the order of the file
  FILE *f = sim_open_bytes(bytes, ReadPlan()); int a, b, h; fscanf(f, "pdstor nelts %d/%d (claimed/actual) nhashes %d", &a, &b, &h);
  for (size_t j = 0; j < c.e.size(); j++) { pd_code_t *want = pd_read(f); if (!want) sim_discard(); std::string name; pd_code_t *got = run_generated(src, at, name); if (!got) sim_fail("incomplete", "%s: %zu of %zu functions", file, j, c.e.size());
    if (name != base + "_" + std::to_string(j)) sim_fail("carbon", "function %zu of %s is called %s", j, base.c_str(), name.c_str());
    std::string df = diff_pd(want, got, false); if (df != "") sim_fail("carbon", "function %s builds another diagram: %s", name.c_str(), df.c_str()); pd_code_free(&want); pd_code_free(&got); }
  fclose(f);
}
// ------------------------------------------------------------ checks of complete output
static void same_file(const char *name, const std::vector<MEnt> &want) {
  if (!disk.exists(name)) sim_fail("incomplete", "%s was not written", name); FILE *f = sim_open_bytes(disk.get(name), ReadPlan()); pd_stor_t *s = pd_read_pdstor(f, NONE); fclose(f); if (!s) sim_fail("unreadable", "%s is no readable store", name); same_contents(name, s, want); pd_free_pdstor(&s); }
static std::vector<MEnt> in_order(const MStor &m) { std::vector<MEnt> v; for (auto &h : m.h) for (auto &e : h.second) v.push_back(e); return v; }

void choose_twins();
void run_C18() {
  alloc_reset(); A.track = false; A.limit = 256u << 20; FS.on = true; CK.on = true; CK.step = [](long) { return 700L; };
  int tool = ch(6); int kind = pick({5, 4, 1, 2, 2, 1}); // 0 quiet, 1 failing writes, 2 an open fails, 3 damaged input, 4 failing reads, 5 missing input
  std::vector<std::string> names, argv{tname[tool]}; std::vector<std::string> bytes; std::vector<std::string> quant; int arg = 0, mode = 0; bool single = false; std::string base, out = "out/result"; if (chance(1, 2)) out = "result";
  if (tool != SUM) choose_twins(); int nin = tool == SUM ? 2 : tool == JOIN ? chr(1, 4) : tool == CARBON ? chr(1, 3) : 1;
  bool longname = chance(1, 10), noext = chance(1, 8), indir = chance(1, 4); if (!FS.on) return; mkdir("out", 0700); mkdir("in", 0700);
  if (tool == COMPUTE) { static const char *q[] = {"hash", "uid", "ncomps", "ncross", "nauts", "interlacements", "unsigned-interlacements", "homfly", "monogons", "bigons"}; int n = chr(1, 6); for (int i = 0; i < n; i++) quant.push_back(q[ch(10)]); }
  Death d = sim_guard([&] { for (int i = 0; i < nin; i++) { names.push_back((indir ? "in/" : "") + (longname ? std::string(200 + ch(35), 'k') : std::string("codes")) + std::to_string(i) + (noext ? ".txt" : ".pdstor")); bytes.push_back(make_store(tool == SUM ? 2 : 7, tool == SUM ? 4 : 8, tool == COMPUTE)); } });
  if (d.how != O_RETURN) sim_fail("died", "building the stores: %s", d.msg.c_str());
  switch (tool) {
  case COMPUTE: argv.insert(argv.end(), {"--file", names[0], "-o", out}); for (auto &q : quant) { argv.push_back(chance(1, 2) ? "-c" : "--compute"); argv.push_back(q); } break;
  case SUM: argv.insert(argv.end(), {"-a", names[0], "-b", names[1], "-o", out}); break;
  case SPLIT: arg = chr(1, 9); mode = ch(2); argv.insert(argv.end(), {"--file", names[0], mode ? "-s" : "-n", std::to_string(arg)}); break;
  case JOIN: { mode = ch(3); static const char *m[] = {"--no-checking", "--isomorphism-checking", "--isotopy-checking"}; if (chance(1, 3)) out = names[ch(nin)]; argv.push_back(m[mode]); argv.insert(argv.end(), {"-o", out}); argv.insert(argv.end(), names.begin(), names.end()); break; }
  case FILTER: arg = ch(4); argv.insert(argv.end(), {"--file", names[0], "-o", out}); if (arg) argv.insert(argv.end(), {"--ncomps", std::to_string(arg)}); if (chance(1, 5)) { argv[4] = out = names[0]; } break;
  case CARBON: single = chance(1, 2); if (single) argv.insert(argv.end(), {"-o", out}); argv.insert(argv.end(), names.begin(), names.end()); break; }
  int victim = ch(nin); bool missing = kind == 5, changed = false;
  if (kind == 3) { std::string what; if (chance(1, 3)) { size_t at = ch(bytes[victim].size() + 1); if (chance(1, 2)) { size_t q = bytes[victim].find("\npd ", at); if (q != std::string::npos) at = q; } changed = at < bytes[victim].size(); bytes[victim].resize(at); sim_fault(F_TRUNCATE); what = "truncated"; } else bytes[victim] = damage(bytes[victim], &changed, &what); ev("input %d: %s", victim, what.c_str()); }
  for (int i = 0; i < nin; i++) if (!(missing && i == victim)) disk.put(names[i], bytes[i]); if (missing) { ev("input %d is missing", victim); sim_fault(F_OPEN_FAIL); }
  if (chance(1, 3) && tool != SPLIT && !(tool == CARBON && !single) && !disk.exists(out)) { disk.put(out, "old result\n"); sim_fault(F_STALE_TAIL); }
  std::vector<Content> in; bool readable = !missing; d = sim_guard([&] { for (int i = 0; i < nin; i++) { in.push_back(missing && i == victim ? Content() : content_of(bytes[i])); if (!in.back().ok) readable = false; } });
  if (d.how != O_RETURN) sim_fail("died", "reading the inputs: %s", d.msg.c_str());
  bool odd = false; if (kind == 3 && changed && in[victim].ok) { FILE *f = sim_open_bytes(bytes[victim], ReadPlan()); int x; fscanf(f, "pdstor nelts %d/%d (claimed/actual) nhashes %d", &x, &x, &x); for (size_t j = 0; j < in[victim].e.size(); j++) { pd_code_t *p = pd_read(f); if (!p) { odd = true; break; } pd_code_t *q = pd_copy(p); pd_regenerate_hash(q); if (strcmp(q->hash, p->hash)) odd = true; pd_code_free(&q); pd_code_free(&p); } fclose(f); } // damaged hash: only soundness is judged
  if (kind == 3 && tool == SUM) { double cost = 0; for (auto &a : in[0].e) for (auto &b : in[1].e) cost += 16.0 * a.d.n * b.d.n; if (cost > 5000) sim_discard(); }
  bool signed_ok = true; if (tool == COMPUTE) for (auto &q : quant) if (q == "homfly") for (auto &e : in[0].e) if (has_unset(e.d)) signed_ok = false; if (!signed_ok) sim_discard();
  std::vector<std::string> before = disk.list(); u64 hin = 7; for (auto &b : bytes) hin = hash_str(b, hin); sim_state(hin + tool);
  { std::string s; for (auto &a : argv) s += " " + (a.size() > 60 ? a.substr(0, 20) + ".." : a); ev("run%s (%zu inputs, faults %d)", s.c_str(), names.size(), kind); }
  auto launch = [&](bool faults) { return sim_proc([&] { alloc_reset(); A.limit = 256u << 20; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); FS.wops = 0; FS.opens = 0; FS.open_fail_at = -1; FS.rp_on = true; FS.rp = choose_read_plan(faults && kind == 4, bytes[0].size()); FS.wp = choose_write_plan(faults && kind == 1); if (faults && kind == 1 && chance(1, 2) && FS.wp.nospace_after >= 0) FS.wp.nospace_after = ch(20000); if (faults && kind == 2) FS.open_fail_at = ch(nin + 3);
      std::vector<char *> av; for (auto &a : argv) av.push_back(strdup(a.c_str())); av.push_back(NULL); int rc = tmain[tool](av.size() - 1, av.data()); exit(rc); }); };
  u64 f0 = 0, f1 = 0; auto faults_hit = [&] { u64 n = 0; for (Fault f : {F_READ_EIO, F_READ_TRANSIENT, F_ENOSPC, F_WRITE_EIO, F_CRASH_WRITE}) n += sim_faults_seen(f); return n + (kind == 2 ? sim_faults_seen(F_OPEN_FAIL) : 0); };
  auto complete = [&](const char *when) {
    d = sim_guard([&] { std::vector<std::string> expect = before; auto add = [&](const std::string &n) { if (std::find(expect.begin(), expect.end(), n) == expect.end()) expect.push_back(n); };
      switch (tool) {
      case FILTER: { std::vector<MEnt> w; for (size_t i = 0; i < in[0].e.size(); i++) if (!arg || (int)in[0].pd[i]->ncomps == arg) w.push_back(in[0].e[i]); if (w.size() < in[0].e.size()) sim_probe("diagrams filtered out"); same_file(out.c_str(), w); add(out); break; }
      case JOIN: { MStor m; for (auto &c : in) for (auto &e : c.e) { bool dup = false; for (auto &hk : m.h) for (auto &x : hk.second) if (!dup && equivalent(x, e.d, e.tag, mode)) dup = true; if (dup) sim_probe("duplicate joined"); else m.h[e.d.hash].push_back(e); } same_file(out.c_str(), in_order(m)); add(out); break; }
      case SPLIT: { size_t n = in[0].e.size(), size = mode ? arg : (n + arg - 1) / arg, k = 0; std::string b = names[0]; size_t sl = b.rfind('/'); if (sl != std::string::npos) b = b.substr(sl + 1); if (!noext) b = b.substr(0, b.size() - 7); for (size_t at = 0; at < n; at += size, k++) { char nm[400]; snprintf(nm, sizeof nm, "%s-%05zu.pdstor", b.c_str(), k); same_file(nm, std::vector<MEnt>(in[0].e.begin() + at, in[0].e.begin() + std::min(n, at + size))); add(nm); } if (k > 1) sim_probe("several pieces"); break; }
      case SUM: { std::vector<MD> cls; for (auto &a : in[0].e) for (auto &b : in[1].e) { std::vector<MD> v; sums(a.d, b.d, v); for (auto &m : v) { bool dup = false; for (auto &c : cls) if (count_iso(m, c, false, NULL, NULL)) { dup = true; break; } if (!dup) cls.push_back(m); } }
        FILE *f = sim_open_bytes(disk.get(out), ReadPlan()); pd_stor_t *s = pd_read_pdstor(f, NONE); fclose(f); if (!s) sim_fail("unreadable", "the sums are no readable store"); std::vector<char> seen(cls.size(), 0); size_t n = 0; if (pd_stor_nelts(s)) for (pd_code_t *p = pd_stor_firstelt(s); p; p = pd_stor_nextelt(s)) { sound_pd("sum", p); MD m = model_of(p); int hit = -1; for (size_t i = 0; i < cls.size() && hit < 0; i++) if (count_iso(m, cls[i], false, NULL, NULL)) hit = i; if (hit < 0) sim_fail("sum", "a diagram of %d crossings is not a sum of the given ones", m.n); if (seen[hit]) sim_fail("sum", "the same sum twice"); seen[hit] = 1; n++; pd_code_free(&p); } if (n != cls.size()) sim_fail("incomplete", "%zu of %zu sums", n, cls.size()); pd_free_pdstor(&s); add(out); if (n > 3) sim_probe("several sums"); break; }
      case CARBON: { std::string src = disk.get(out); size_t at = 0; for (int i = 0; i < nin; i++) { std::string b = names[i]; size_t sl = b.rfind('/'); if (sl != std::string::npos) b = b.substr(sl + 1); std::string bn = noext ? b : b.substr(0, b.size() - 7), of = single ? out : bn + ".c"; if (!single) { at = 0; if (!disk.exists(of)) sim_fail("incomplete", "%s was not written", of.c_str()); src = disk.get(of); } add(of); check_generated(of.c_str(), src, at, bn, in[i], bytes[i]); if (!single) { std::string nm; if (run_generated(src, at, nm)) sim_fail("carbon", "more functions than diagrams"); } } break; }
      case COMPUTE: { std::string t = disk.get(out); add(out); std::vector<std::string> ls; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) sim_fail("incomplete", "the last line has no end"); ls.push_back(t.substr(a, e - a)); a = e + 1; } if (ls.size() != in[0].e.size()) sim_fail("incomplete", "%zu lines for %zu diagrams", ls.size(), in[0].e.size());
        for (size_t i = 0; i < ls.size(); i++) { pd_code_t *p = in[0].pd[i]; std::vector<std::string> v; std::string cur; for (char c : ls[i] + ",") if (c == ',') { while (!cur.empty() && cur.back() == ' ') cur.pop_back(); v.push_back(cur); cur.clear(); } else cur += c; size_t k = 0; auto next = [&](const char *q) { if (k >= v.size()) sim_fail("compute", "line %zu has no %s", i, q); return v[k++]; }; auto num = [&](const char *q, long want) { std::string s = next(q); char *e; long x = strtol(s.c_str(), &e, 10); if (s == "" || *e || x != want) sim_fail("compute", "%s of diagram %zu is %s, expected %ld", q, i, s.c_str(), want); sim_count(1); };
          num("index", i);
          for (auto &q : quant) { if (q == "hash") { std::string s = next("hash"); if (s != p->hash) sim_fail("compute", "hash %s, expected %s", s.c_str(), p->hash); } else if (q == "uid") num("uid", in[0].e[i].uid); else if (q == "ncomps") num("ncomps", p->ncomps); else if (q == "ncross") num("ncross", p->ncross);
            else if (q == "nauts") { bool small = p->ncross <= 2; for (unsigned c = 0; c < p->ncomps; c++) if (p->comp[c].nedges < 3) small = true; if (small) next("nauts"); else num("nauts", count_iso(in[0].e[i].d, in[0].e[i].d, false, NULL, NULL)); }
            else if (q == "interlacements" || q == "unsigned-interlacements") { for (int x : interlace_ref(p, q[0] == 'i')) num(q.c_str(), x); }
            else if (q == "homfly") { std::string s = next("homfly"); Poly got; if (!parse_latex(s.c_str(), got)) sim_fail("compute", "homfly %.60s", s.c_str()); if (p->ncross <= 10) { Poly want = ref_homfly(gauss_of(p)); if (got != want) sim_fail("compute", "homfly of diagram %zu is %s, expected %s", i, s.c_str(), poly_str(want).c_str()); } }
            else { int w = 0, len = q == "monogons" ? 1 : 2; for (unsigned fc = 0; fc < p->nfaces; fc++) if ((int)p->face[fc].nedges == len) w++; num(q.c_str(), w); } }
          if (k != v.size()) sim_fail("compute", "line %zu has %zu entries, expected %zu", i, v.size(), k); }
        break; } }
      std::sort(expect.begin(), expect.end()); std::vector<std::string> now = disk.list(); if (now != expect) { std::string x; for (auto &n : now) if (std::find(expect.begin(), expect.end(), n) == expect.end()) x = n; sim_fail("stray", "%s: %zu files, expected %zu (%s)", when, now.size(), expect.size(), x.c_str()); }
      for (int i = 0; i < nin; i++) if (names[i] != out && disk.get(names[i]) != bytes[i]) sim_fail("input-changed", "%s was modified", names[i].c_str()); sim_count(1); });
    if (d.how != O_RETURN) sim_fail("died", "checking the output: %s", d.msg.c_str()); };
  f0 = faults_hit(); Death r = launch(true); f1 = faults_hit(); bool hit = f1 != f0; ev("%s: %s %d %s", tname[tool], r.how == O_EXIT ? "exit" : r.how == O_CRASH ? "killed" : "died", r.code, r.msg.c_str());
  if (r.how == O_EXIT && r.code == 0) { sim_probe("exit 0"); if (!readable) sim_fail("accepted", "%s reports success, but its input %s", tname[tool], missing ? "is missing" : "cannot be read"); if (f1 != f0) sim_probe("success despite faults"); if (odd) sim_probe("damaged hash accepted"); else complete("after success"); }
  else if (r.how == O_EXIT || ((r.how == O_ASSERT || r.how == O_ABORT) && (hit || !readable))) { sim_probe("failure reported"); if (!hit && readable && kind != 3) sim_fail("refused", "%s fails (code %d) although nothing went wrong", tname[tool], r.code); }
  else if (r.how != O_CRASH) sim_fail("died", "%s: %s (code %d)", tname[tool], r.msg.c_str(), r.code);
  // once the faults stop, running the tool again gives the complete result
  if ((r.how != O_EXIT || r.code) && readable && kind != 3 && names[0] != out && std::find(names.begin(), names.end(), out) == names.end()) { sim_fault(F_RESTART); Death q = launch(false); if (q.how != O_EXIT || q.code) sim_fail("stuck", "%s still fails after the faults stopped: %s (code %d)", tname[tool], q.msg.c_str(), q.code); complete("after running again"); sim_probe("recovered"); }
  for (auto &c : in) free_content(c);
}
