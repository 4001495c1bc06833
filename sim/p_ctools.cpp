// C22 curve tools: randompolygon, plcurvature, struts, mrlocs, ropelength.
#include "sim.h"
#include "plCurve.h"
#include "plcTopology.h"
#include <cmath>
#include <cfloat>
#include <cstring>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" {
#include "octrope.h"
#define T(n) int tool_main_##n(int, char **);
T(plcrwalk) T(plcurvature) T(struts) T(mrlocs) T(ropelength)
#undef T
}
std::vector<std::pair<bool, std::vector<plc_vector>>> gen_measurable(int maxn);
typedef std::vector<std::string> Lines;
static double dist(const plc_vector &a, const plc_vector &b) { double s = 0; for (int k = 0; k < 3; k++) s += (a.c[k] - b.c[k]) * (a.c[k] - b.c[k]); return sqrt(s); }
static Lines split(const char *what, const std::string &t) { Lines l; size_t a = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) sim_fail("incomplete", "%s: the last line is cut off", what); l.push_back(t.substr(a, e - a)); a = e + 1; } return l; }
static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) { char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static std::string catted(const Lines &v) { std::string s; for (auto &a : v) s += " " + (a.size() > 50 ? a.substr(0, 20) + ".." : a); return s; }
static plCurve *load(const std::string &b) { FILE *f = sim_open_bytes(b, ReadPlan()); int e = 0; char s[200]; plCurve *L = plc_read(f, &e, s, 200); fclose(f); return L; }
struct Run { int tool; Lines argv; int fd = -1; std::string out; int kind; size_t inlen = 0; int opens = 4; };
typedef int (*Main)(int, char **);
static Main tmain[] = {tool_main_plcrwalk, tool_main_plcurvature, tool_main_struts, tool_main_mrlocs, tool_main_ropelength};
static const char *tname[] = {"randompolygon", "plcurvature", "struts", "mrlocs", "ropelength"};
static Death launch(Run &r, bool faults) {
  int fd = memfd_create("out", 0); u64 clock0 = ch(1000000);
  Death d = sim_proc([&] { alloc_reset(); A.limit = 256u << 20; A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); FS.wops = 0; FS.opens = 0; FS.open_fail_at = -1; FS.rp_on = true; FS.rp = choose_read_plan(faults && r.kind == 4, r.inlen); FS.wp = choose_write_plan(faults && r.kind == 1); if (faults && r.kind == 1 && chance(1, 2) && FS.wp.nospace_after >= 0) FS.wp.nospace_after = ch(3000); if (faults && r.kind == 2) FS.open_fail_at = ch(r.opens);
    CK.on = true; CK.now = clock0; CK.step = [](long) { return 900L; }; FILE *keep = stdout; stdout = fdopen(dup(fd), "w"); setvbuf(stdout, NULL, _IONBF, 0); (void)keep;
    std::vector<char *> av; for (auto &a : r.argv) av.push_back(strdup(a.c_str())); av.push_back(NULL); int rc = tmain[r.tool](av.size() - 1, av.data()); exit(rc); });
  off_t n = lseek(fd, 0, SEEK_END); r.out.resize(n > 0 ? n : 0); if (n > 0) pread(fd, &r.out[0], n, 0); close(fd); return d;
}
static u64 hits(int kind) { u64 n = 0; for (Fault f : {F_READ_EIO, F_READ_TRANSIENT, F_ENOSPC, F_WRITE_EIO, F_CRASH_WRITE}) n += sim_faults_seen(f); return n + (kind == 2 ? sim_faults_seen(F_OPEN_FAIL) : 0); }
static void only(const Lines &before, Lines add) { for (auto &b : before) if (std::find(add.begin(), add.end(), b) == add.end()) add.push_back(b); std::sort(add.begin(), add.end()); Lines now = disk.list(); std::sort(now.begin(), now.end()); if (now != add) { for (auto &n : now) if (std::find(add.begin(), add.end(), n) == add.end()) sim_fail("stray-file", "%s was left behind", n.c_str()); for (auto &n : add) if (std::find(now.begin(), now.end(), n) == now.end()) sim_fail("incomplete", "%s does not exist", n.c_str()); } }

// ------------------------------------------------------------ randompolygon
static void run_walk(Run &r) {
  r.kind = pick({5, 4, 2}); int n = chance(1, 8) ? chr(3, 5) : chr(5, 24), s = chance(1, 12) ? 0 : chr(1, 12); int mode = pick({4, 2, 2, 2}); // 0 plain, 1 confined, 2 gap, 3 self avoiding
  if (mode == 3) { n = chr(5, 12); s = std::min(s, 4); } if (mode == 2 && n < 4) n = 4; int form = pick({4, 2, 2}); double R = (double[]){1.1, 1.5, 2.5, 6}[ch(4)], gap = 0.25 + 0.5 * ch(2 * (n - 1)); if (gap >= n - 1.2) gap = 0.75; int seed = ch(100000), ck = ch(n + 1); bool ckset = ch(2);
  if (mode == 0 && chance(1, 4)) { n = chr(3, 12); }
  std::string knot; if (mode == 0 && form == 0 && chance(1, 5)) { knot = "0_1"; if (chance(1, 4)) { knot = "3_1"; n = chr(7, 9); s = std::min(s, 2); } }
  ck = std::min(ck, n); std::string out = (const char *[]){"walks", "out/set", "./walks.d", "x"}[ch(4)]; bool named = chance(4, 5); if (chance(1, 12)) out = std::string(150 + ch(90), 'w'); mkdir("out", 0700);
  r.argv = {"randompolygon", "-n", std::to_string(n), "-s", std::to_string(s), "--seed", std::to_string(seed)};
  if (mode == 1) r.argv.insert(r.argv.end(), {"-r", fmt("%g", R)}); if (mode == 2) r.argv.insert(r.argv.end(), {"--failure-to-close", fmt("%.17g", gap)}); if (mode == 3) r.argv.push_back("--sap");
  if (mode == 1 || mode == 2) { r.argv.insert(r.argv.end(), {"--skip", std::to_string(ch(6))}); if (ch(2)) r.argv.insert(r.argv.end(), {"-b", std::to_string(ch(30))}); if (ch(2)) r.argv.insert(r.argv.end(), {"--beta", fmt("%g", ch(5) / 4.0)}); if (mode == 2 && ch(2)) r.argv.insert(r.argv.end(), {"--delta", fmt("%g", ch(5) / 4.0)}); if (ch(2)) r.argv.insert(r.argv.end(), {"--moment-polytope-repeat", std::to_string(1 + ch(12))}); }
  if (knot != "") r.argv.insert(r.argv.end(), {"-k", knot}); if (chance(1, 4)) r.argv.push_back("--verbose"); if (chance(1, 4)) r.argv.push_back("-q");
  if (form || ch(2)) r.argv.insert(r.argv.end(), {"-f", form == 0 ? (ch(2) ? "VECT" : "vect") : form == 1 ? (ch(2) ? "Mathematica" : "csv") : "ChordLength"}); if (form == 2 && ckset) r.argv.insert(r.argv.end(), {"--chord_skip", std::to_string(ck)}); if (!ckset) ck = n / 2;
  if (named) r.argv.insert(r.argv.end(), {"-o", out}); else out = form == 2 ? fmt("rws-chordlength-%03d-edge-%03d-skip.csv", n, ck) : mode == 1 ? fmt("rws-%03d-edge-%.2f-rad", n, R) : fmt("rws-%03d-edge", n);
  if (out.compare(0, 2, "./") == 0) out = out.substr(2);
  bool blocked = false; if (chance(1, 2)) { int w = ch(6); sim_fault(F_STALE_TAIL); if (form == 2) { disk.put(out, "old\n"); } else if (w == 0) { disk.put(out, "a plain file\n"); blocked = true; } else { mkdir(out.c_str(), 0700); int k = ch(5); for (int i = 0; i < k; i++) disk.put(out + "/" + (ch(2) ? fmt("walk-%05u.vect", ch(20)) : fmt("note%u", ch(9))), "old sample, rather long and not a polygon at all\n"); if (w == 1) { mkdir((out + "/sub").c_str(), 0700); disk.put(out + "/sub/file", "x"); blocked = true; } } ev("something is in the way: %d", w); }
  Lines before = disk.list(); Lines outside; for (auto &b : before) if (b != out && b.compare(0, out.size() + 1, out + "/")) outside.push_back(b); r.opens = s + 3; sim_state(hash_u64(n * 1000 + s, hash_u64(seed * 4 + mode, form + 1))); ev("run%s (faults %d)", catted(r.argv).c_str(), r.kind);
  std::string sum1; auto complete = [&](const char *when) -> std::string {
    std::string all; Death d = sim_guard([&] { Lines add = outside; add.push_back(out);
      auto edges = [&](const std::vector<plc_vector> &v, double tol, const char *name) { int odd = 0; if ((int)v.size() != n) sim_fail("polygon", "%s: %zu vertices, asked for %d", name, v.size(), n); for (int i = 0; i < n; i++) { double l = dist(v[i], v[(i + 1) % n]); if (fabs(l - 1) > tol) { if (mode == 2 && fabs(l - gap) <= tol) odd++; else sim_fail("polygon", "%s: edge %d has length %.9g", name, i, l); } } if (mode == 2 && fabs(gap - 1) > 3 * tol && odd != 1) sim_fail("polygon", "%s: %d edges have the length %g of the gap", name, odd, gap); if (mode == 1) for (int i = 0; i < n; i++) if (dist(v[0], v[i]) > R + tol) sim_fail("polygon", "%s: vertex %d is %.9g from vertex 0, radius %g", name, i, dist(v[0], v[i]), R); if (mode == 3) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (dist(v[i], v[j]) < 1 - tol) sim_fail("polygon", "%s: vertices %d and %d are %.9g apart", name, i, j, dist(v[i], v[j])); };
      if (form == 2) { Lines l = split("chord lengths", disk.get(out)); if ((int)l.size() != s) sim_fail("incomplete", "%zu chord lengths, asked for %d", l.size(), s); for (auto &x : l) { double c = atof(x.c_str()); int k = std::min(ck, n - ck); double top = mode == 2 ? std::max(ck, n) : k; if (!(c >= -1e-9 && c <= top + 1e-6)) sim_fail("chord", "chord of %d edges of %d has length %g", ck, n, c); if (mode != 2 && k == 1 && fabs(c - 1) > 1e-6) sim_fail("chord", "edge of length %g", c); all += x + "\n"; } }
      else for (int i = 0; i < s; i++) { std::string name = out + fmt(form == 0 ? "/walk-%05d.vect" : "/walk-%05d.csv", i); add.push_back(name); if (!disk.exists(name)) sim_fail("incomplete", "sample %d of %d does not exist", i, s); std::string b = disk.get(name); all += b;
          if (form == 0) { plCurve *L = load(b); if (!L) sim_fail("incomplete", "sample %d is no readable curve", i); if (L->nc != 1 || L->cp[0].open) sim_fail("polygon", "sample %d has %d components", i, L->nc); std::vector<plc_vector> v(L->cp[0].vt, L->cp[0].vt + L->cp[0].nv); edges(v, 1e-6, name.c_str());
            if (knot != "") { gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); int np = 0; plc_knottype *k = plc_classify(g, L, &np); bool ok = false; for (int a = 0; k && a < np; a++) if (k[a].nf == 1 && k[a].cr[0] == knot[0] - '0' && k[a].ind[0] == 1) ok = true; if (!ok) sim_fail("knot", "sample %d is not of type %s", i, knot.c_str()); free(k); gsl_rng_free(g); sim_probe("knot types checked"); } plc_free(L); }
          else { Lines l = split(name.c_str(), b); std::vector<plc_vector> v; for (auto &x : l) { plc_vector p; char c; if (sscanf(x.c_str(), "%lf, %lf, %lf %c", &p.c[0], &p.c[1], &p.c[2], &c) != 3) sim_fail("csv", "sample %d: line %s", i, x.c_str()); v.push_back(p); } edges(v, 2e-4, name.c_str()); } }
      only(Lines(), add); for (auto &b : outside) (void)b; sim_count(s + 1); });
    if (d.how != O_RETURN) sim_fail("died", "checking %s: %s", when, d.msg.c_str()); return all; };
  u64 h0 = hits(r.kind); Death d = launch(r, true); bool hit = hits(r.kind) != h0; ev("%s: %s %d %s", tname[0], d.how == O_EXIT ? "exit" : d.how == O_CRASH ? "killed" : "died", d.code, d.msg.c_str()); std::string first; bool done = false;
  if (d.how == O_EXIT && d.code == 0) { if (blocked) sim_fail("accepted", "success although %s is in the way", out.c_str()); sim_probe("exit 0"); first = complete("after success"); done = true; }
  else if (d.how == O_EXIT) { sim_probe("failure reported"); if (!hit && !blocked) sim_fail("refused", "randompolygon fails (code %d) although nothing went wrong", d.code); }
  else if (d.how != O_CRASH) sim_fail("died", "randompolygon: %s (code %d)", d.msg.c_str(), d.code);
  if (blocked) return; sim_fault(F_RESTART); Death q = launch(r, false); if (q.how != O_EXIT || q.code) sim_fail("stuck", "randompolygon still fails after the faults stopped: %s (code %d)", q.msg.c_str(), q.code); std::string second = complete("after running again"); if (done && first != second) sim_fail("not-reproducible", "the same seed gave other samples"); sim_probe(done ? "repeated" : "recovered");
}
// ------------------------------------------------------------ tools that measure a curve
static double mrk(plCurve *L, int c, int v) { return plc_MR_curvature(L, c, v); }
void run_C22() {
  alloc_reset(); A.track = false; A.limit = 256u << 20; FS.on = true; CK.on = true; CK.step = [](long) { return 700L; }; octrope_set_levels(0); octrope_set_debug(0);
  Run r; r.tool = pick({4, 2, 2, 2, 2}); if (r.tool == 0) { run_walk(r); return; } int tool = r.tool;
  r.kind = pick({5, tool == 4 ? 0u : 4u, 2, 2, 2, 1}); int nin = tool == 4 ? chr(1, 4) : 1; Lines names, bytes; mkdir("in", 0700); mkdir("out", 0700);
  const char *ext = (const char *[]){".vect", ".vect", ".txt", ""}[ch(4)]; bool indir = ch(2); std::string base = chance(1, 10) ? std::string(120 + ch(100), 'k') : "knot";
  Death d = sim_guard([&] { for (int i = 0; i < nin; i++) { auto g = gen_measurable(40); std::vector<int> nv, cc; bool op[16]; for (size_t c = 0; c < g.size(); c++) { nv.push_back(g[c].second.size()); cc.push_back(0); op[c] = g[c].first; } plCurve *L = plc_new(g.size(), nv.data(), op, cc.data()); for (size_t c = 0; c < g.size(); c++) for (size_t j = 0; j < g[c].second.size(); j++) L->cp[c].vt[j] = g[c].second[j]; plc_fix_wrap(L); FS.wp = WritePlan(); FILE *f = sim_fopen("making", "w"); plc_write(f, L); fclose(f); plc_free(L); bytes.push_back(disk.get("making")); disk.del("making"); names.push_back((indir ? "in/" : "") + base + (i ? std::to_string(i) : "") + ext); } });
  if (d.how != O_RETURN) sim_fail("died", "making the curve: %s", d.msg.c_str());
  int victim = ch(nin); bool readable = true, missing = r.kind == 5; if (missing) { readable = false; sim_fault(F_OPEN_FAIL); }
  if (r.kind == 3) { std::string what; bool changed; if (chance(1, 2)) { size_t at = ch(bytes[victim].size()); bytes[victim].resize(at); what = "truncated"; sim_fault(F_TRUNCATE); } else bytes[victim] = damage(bytes[victim], &changed, &what); ev("input: %s", what.c_str()); }
  std::vector<plCurve *> C; for (int i = 0; i < nin; i++) { plCurve *L = NULL; d = sim_guard([&] { L = load(bytes[i]); }); if (d.how != O_RETURN) sim_fail("died", "reading: %s", d.msg.c_str()); if (!L) readable = false; else if (r.kind == 3 && i == victim) { sim_discard(); } C.push_back(L); if (!(missing && i == victim)) disk.put(names[i], bytes[i]); }
  r.inlen = bytes[0].size(); r.opens = nin + 1; r.argv = {tname[tool]}; std::string stem = names[0].substr(names[0].rfind('/') == std::string::npos ? 0 : names[0].rfind('/') + 1); if (!strcmp(ext, ".vect")) stem.resize(stem.size() - 5); std::string outname; bool file = true; double eps = -1, rad = -1; int maxn = -1; bool quiet = false, statf = false, svf = false; double lam = 1;
  switch (tool) {
  case 1: outname = stem + ".curvature.dat"; if (ch(2)) { outname = (const char *[]){"out/k.dat", "k.out", "out/curv"}[ch(3)]; r.argv.insert(r.argv.end(), {"-o", outname}); } break;
  case 2: outname = stem + ".struts.skel"; if (ch(3) == 0) { eps = (double[]){0.01, 0.1, 0.5}[ch(3)]; r.argv.insert(r.argv.end(), {"-e", fmt("%g", eps)}); } else if (ch(2)) { rad = (double[]){0.25, 0.5, 1, 2}[ch(4)]; r.argv.insert(r.argv.end(), {"-r", fmt("%g", rad)}); } if (chance(1, 4)) { r.argv.push_back("-n"); file = false; } if (chance(1, 4)) { r.argv.push_back("-s"); statf = true; } if (chance(1, 4)) r.argv.push_back("-S"); if (chance(1, 6)) { r.argv.push_back("--sv"); svf = true; file = false; } if (chance(1, 5)) { maxn = 1 + ch(6); r.argv.insert(r.argv.end(), {"-M", std::to_string(maxn)}); } break;
  case 3: outname = stem + ".mrlocs"; if (ch(2)) { eps = (double[]){0.01, 0.1, 0.5}[ch(3)]; r.argv.insert(r.argv.end(), {"-e", fmt("%g", eps)}); } else if (ch(2)) { rad = (double[]){0.5, 1, 3}[ch(3)]; r.argv.insert(r.argv.end(), {"--lambda", fmt("%g", rad)}); } if (chance(1, 4)) { r.argv.push_back("-n"); file = false; } if (chance(1, 4)) { r.argv.push_back("-s"); statf = true; } if (chance(1, 5)) { maxn = 1 + ch(6); r.argv.insert(r.argv.end(), {"-M", std::to_string(maxn)}); } break;
  default: file = false; if (ch(2)) { r.argv.push_back("-q"); quiet = true; } if (ch(2)) { lam = (double[]){0, 1, 0.5, 2}[ch(4)]; r.argv.insert(r.argv.end(), {"-L", fmt("%g", lam)}); } break; }
  int levels = 0; if (tool == 2 && chance(1, 4)) { levels = ch(8); r.argv.insert(r.argv.end(), {"--levels", std::to_string(levels)}); }
  r.argv.insert(r.argv.end(), names.begin(), names.end()); if (file && chance(1, 3)) { disk.put(outname, std::string(ch(4000), 'o') + "\n"); sim_fault(F_STALE_TAIL); }
  Lines before = disk.list(); sim_state(hash_str(bytes[0], tool)); ev("run%s (faults %d)", catted(r.argv).c_str(), r.kind);
  auto complete = [&](const char *when) { Death d = sim_guard([&] { plCurve *L = C[0]; std::string t; if (file) { if (!disk.exists(outname)) sim_fail("incomplete", "%s was not written", outname.c_str()); t = disk.get(outname); } Lines add; if (file) add.push_back(outname);
      switch (tool) {
      case 1: { Lines l = split(outname.c_str(), t); size_t at = 0; auto next = [&]() { while (at < l.size() && l[at][0] == '#') at++; return at < l.size() ? l[at++] : std::string(); }; for (int c = 0; c < L->nc; c++) { double s = 0; for (int v = 0; v < L->cp[c].nv; v++) { s += dist(L->cp[c].vt[v], L->cp[c].vt[v + 1]); int a, b; double gs, k, ik; std::string x = next(); if (sscanf(x.c_str(), "%d %d %lf %lf %lf", &a, &b, &gs, &k, &ik) != 5) sim_fail("incomplete", "no line for vertex %d:%d", c, v); double wk = mrk(L, c, v); if (a != c || b != v) sim_fail("curvature", "vertex %d:%d where %d:%d is expected", a, b, c, v); if (!feq(k, wk, 1e-4, 1e-9)) sim_fail("curvature", "curvature %g at %d:%d, is %g", k, c, v, wk); if (!(L->cp[c].open && v == L->cp[c].nv - 1) && !feq(gs, s, 1e-4, 1e-9)) sim_fail("curvature", "arclength %g at %d:%d, is %g", gs, c, v, s); if (wk > 1e-6 && !feq(ik, 1 / wk, 1e-4, 1e-9)) sim_fail("curvature", "radius %g at %d:%d, is %g", ik, c, v, 1 / wk); } } if (next() != "") sim_fail("curvature", "lines for vertices that do not exist"); break; }
      case 2: { int room = maxn > 0 ? maxn : 20 * plc_num_edges(L); std::vector<octrope_strut> sl(room); double sh; octrope_set_levels(levels); int n = eps > 0 ? octrope_struts(L, 0, eps, sl.data(), room, &sh, NULL, 0) : octrope_struts(L, rad > 0 ? 2 * rad : 1.0, 0, sl.data(), room, &sh, NULL, 0); if (n) sim_probe("struts in the file");
        auto both = [](std::string a, std::string b) { return a < b ? a + " / " + b : b + " / " + a; }; std::vector<std::string> want, got; for (int i = 0; i < n; i++) { plc_vector se[2]; octrope_strut_ends(L, &sl[i], se); want.push_back(both(fmt("%g %g %g", se[0].c[0], se[0].c[1], se[0].c[2]), fmt("%g %g %g", se[1].c[0], se[1].c[1], se[1].c[2]))); }
        if (!file) { std::string x = fmt("struts: %d struts found.", n); if (r.out.find(x) == std::string::npos) sim_fail("struts", "the number of struts (%d) is not reported", n); break; }
        Lines l = split(outname.c_str(), t); int nv, ns; if (l.size() != (size_t)(2 + 3 * n) || l[0] != "SKEL" || sscanf(l[1].c_str(), "%d %d", &nv, &ns) != 2 || nv != 2 * n || ns != n) sim_fail("struts", "the file does not hold %d struts", n); auto trim = [](std::string x) { while (!x.empty() && x.back() == ' ') x.pop_back(); return x; };
        for (int i = 0; i < n; i++) { int a, b; if (sscanf(l[2 + 2 * n + i].c_str(), "2 %d %d", &a, &b) != 2 || a != 2 * i || b != 2 * i + 1) sim_fail("struts", "strut %d joins %s", i, l[2 + 2 * n + i].c_str()); got.push_back(both(trim(l[2 + 2 * i]), trim(l[3 + 2 * i]))); }
        if (maxn > 0 && n == maxn) break; std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); if (want != got) { for (int i = 0; i < n; i++) if (want[i] != got[i]) { double a[6], b[6]; sscanf(want[i].c_str(), "%lf %lf %lf / %lf %lf %lf", a, a + 1, a + 2, a + 3, a + 4, a + 5); sscanf(got[i].c_str(), "%lf %lf %lf / %lf %lf %lf", b, b + 1, b + 2, b + 3, b + 4, b + 5); for (int k = 0; k < 6; k++) if (!feq(a[k], b[k], 1e-5, 1e-8)) sim_fail("struts", "strut %s, expected %s", got[i].c_str(), want[i].c_str()); } } break; }
      case 3: { int room = maxn > 0 ? maxn : 2 * plc_num_edges(L) + 1, n = 0; std::vector<octrope_mrloc> ml(room); double mr = eps > 0 ? octrope_minrad(L, 0, eps, ml.data(), room, &n) : octrope_minrad(L, rad > 0 ? rad / 2 : 0.5, 0, ml.data(), room, &n); if (n) sim_probe("places in the file");
        if (!file) { if (r.out.find(fmt("mrlocs: %d mrlocs found.", n)) == std::string::npos || r.out.find(fmt("mrlocs: minrad %g\n", mr)) == std::string::npos) sim_fail("mrlocs", "%d places and minrad %g are not reported", n, mr); break; }
        Lines l = split(outname.c_str(), t), want, got; if (l.size() != (size_t)(1 + n) || l[0] != "MRLOCS") sim_fail("mrlocs", "the file does not hold %d places", n); for (int i = 0; i < n; i++) { want.push_back(fmt("%d %d %.16g", ml[i].component, ml[i].vert, ml[i].mr)); got.push_back(l[1 + i]); } std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); for (int i = 0; i < n; i++) if (want[i] != got[i]) { int a, b, c, e; double x, y; sscanf(want[i].c_str(), "%d %d %lf", &a, &b, &x); if (sscanf(got[i].c_str(), "%d %d %lf", &c, &e, &y) != 3 || a != c || b != e || !feq(x, y, 1e-12)) sim_fail("mrlocs", "place %s, expected %s", got[i].c_str(), want[i].c_str()); } break; }
      default: { Lines l = split("ropelength", r.out); size_t at = 0; double best = 1e128; std::string bn = "No file"; for (int i = 0; i < nin; i++) { double rl, th, mr, ms; octrope(C[i], &rl, &th, NULL, &mr, &ms, 0, 0, NULL, 0, NULL, 0, 0, NULL, 0, NULL, NULL, 0, lam); if (th == 0) sim_probe("thickness zero"); if (th > 0 && rl < best) { best = rl; bn = names[i]; }
          if (quiet) { if (at >= l.size()) sim_fail("ropelength", "no ropelength for file %d", i); double g = strtod(l[at].c_str(), NULL); at++; if (th == 0 ? !std::isinf(g) : !feq(g, rl, 1e-9)) sim_fail("ropelength", "ropelength %g of file %d, is %g (thickness %g)", g, i, rl, th); }
          else { std::string p = names[i] + ":Ropelength: ", p2 = names[i] + ":minRad: "; bool ok = false, ok2 = false; for (; at < l.size() && !ok; at++) if (l[at].compare(0, p.size(), p) == 0) { ok = true; const char *x = l[at].c_str() + p.size(); double g = strtod(x, NULL), t = -1; const char *y = strstr(x, "Thickness: "); if (y) t = strtod(y + 11, NULL); if (th == 0 ? !std::isinf(g) : !feq(g, rl, 1e-6, 1e-5)) sim_fail("ropelength", "ropelength %g of file %d, is %g (thickness %g)", g, i, rl, th); if (!feq(t, th, 1e-6, 1e-5)) sim_fail("ropelength", "thickness %g of file %d, is %g", t, i, th); } if (!ok) sim_fail("ropelength", "no ropelength for file %d", i); for (; at < l.size() && !ok2; at++) if (l[at].compare(0, p2.size(), p2) == 0) { ok2 = true; const char *y = strstr(l[at].c_str(), "minStrut: "); double s = y ? strtod(y + 10, NULL) : -1; if (!feq(s, ms, 1e-6, 1e-5)) sim_fail("ropelength", "shortest strut %g of file %d, is %g", s, i, ms); if (lam > 0) { double g = strtod(l[at].c_str() + p2.size(), NULL); if (!feq(g, mr, 1e-6, 1e-5)) sim_fail("ropelength", "minimum radius %g of file %d, is %g", g, i, mr); } } if (!ok2) sim_fail("ropelength", "no minimum radius for file %d", i); } }
        if (nin > 1) { bool ok = false; for (; at < l.size(); at++) { size_t q = l[at].find(" Rop: "); if (q != std::string::npos) { ok = true; double g = strtod(l[at].c_str() + q + 6, NULL); if (!feq(g, best, 1e-4)) sim_fail("ropelength", "least ropelength %g, is %g", g, best); std::string w = l[at].substr(0, q); bool tie = false; for (int i = 0; i < nin; i++) if (names[i] == w) tie = true; if (bn != "No file" && !tie) sim_fail("ropelength", "least ropelength in %s, expected %s", w.c_str(), bn.c_str()); if (w != bn && bn != "No file") { double rl2 = 0; for (int i = 0; i < nin; i++) if (names[i] == w) octrope(C[i], &rl2, NULL, NULL, NULL, NULL, 0, 0, NULL, 0, NULL, 0, 0, NULL, 0, NULL, NULL, 0, lam); if (!feq(rl2, best, 1e-9)) sim_fail("ropelength", "least ropelength in %s, expected %s", w.c_str(), bn.c_str()); } } } if (!ok) sim_fail("ropelength", "the least ropelength is not reported"); } break; } }
      only(before, add); for (int i = 0; i < nin; i++) if (disk.get(names[i]) != bytes[i]) sim_fail("input-changed", "%s was modified", names[i].c_str()); sim_count(1); });
    if (d.how != O_RETURN) sim_fail("died", "checking %s: %s", when, d.msg.c_str()); };
  (void)statf; (void)svf;
  u64 h0 = hits(r.kind); d = launch(r, true); bool hit = hits(r.kind) != h0; ev("%s: %s %d %s", tname[tool], d.how == O_EXIT ? "exit" : d.how == O_CRASH ? "killed" : "died", d.code, d.msg.c_str());
  if (d.how == O_EXIT && d.code == 0) { sim_probe("exit 0"); if (!readable) sim_fail("accepted", "%s reports success, but its input %s", tname[tool], missing ? "is missing" : "cannot be read"); complete("after success"); }
  else if (d.how == O_EXIT) { sim_probe("failure reported"); if (!hit && readable) sim_fail("refused", "%s fails (code %d) although nothing went wrong", tname[tool], d.code); }
  else if (d.how != O_CRASH) sim_fail("died", "%s: %s (code %d)", tname[tool], d.msg.c_str(), d.code);
  if ((d.how != O_EXIT || d.code) && readable) { sim_fault(F_RESTART); Death q = launch(r, false); if (q.how != O_EXIT || q.code) sim_fail("stuck", "%s still fails after the faults stopped: %s (code %d)", tname[tool], q.msg.c_str(), q.code); complete("after running again"); sim_probe("recovered"); }
  for (auto L : C) if (L) plc_free(L);
}
