// C19 the bundled Judy arrays (Judy1, JudyL, JudySL, JudyHS) as ordered sets and maps under any history and failing allocation
#include "sim.h"
#include "Judy.h"
#include <cstring>
#include <cstdlib>
#include <map>
#include <set>
#include <string>
#include <algorithm>
typedef std::map<Word_t, Word_t> M;
static u64 vtag = 1;
static const Word_t MAXW = ~(Word_t)0;
// keys: what matters is which bytes of the index are shared
struct Keys {
  int style; Rng r; std::vector<Word_t> base; int low;
  Keys(int s, Rng q) : style(s), r(q) { low = 1 + r.below(7); int n = 1 + r.below(6); for (int i = 0; i < n; i++) base.push_back(any()); }
  Word_t any() { Word_t w = 0; for (int i = 0; i < 8; i++) w = w << 8 | r.below(256); return w; }
  Word_t next(const M &m) {
    Word_t b = base[r.below(base.size())];
    switch (style) {
    case 0: return r.below(300);                                                 // small and dense
    case 1: return any();                                                        // scattered
    case 2: { Word_t mask = (Word_t)1 << (8 * low); return (b & ~(mask - 1)) | (any() & (mask - 1)); }   // common high bytes
    case 3: return b + r.below(700);                                             // runs
    case 4: { Word_t w = b; int k = r.below(8); w &= ~((Word_t)255 << 8 * k); return w | (Word_t)r.below(256) << 8 * k; }  // one byte differs
    case 5: { Word_t w = 0; for (int k = 0; k < 8; k++) w |= (Word_t)(r.below(3)) << 8 * k; return w; }   // few values in each byte
    case 6: { static const Word_t e[] = {0, 1, MAXW, MAXW - 1, 255, 256, 65535, 65536, (Word_t)1 << 32, ((Word_t)1 << 32) - 1, (Word_t)1 << 56, ((Word_t)1 << 56) - 1}; Word_t w = e[r.below(12)]; return w + r.below(5) - 2; }
    default: { if (m.empty()) return b; auto it = m.lower_bound(any()); if (it == m.end()) it = m.begin(); Word_t w = it->first; int k = 8 * r.below(8); return r.below(2) ? w ^ ((Word_t)1 << (k + r.below(8))) : w + 1; }   // near a present one
    }
  }
};
static bool have_err(const JError_t &e) { return e.je_Errno != JU_ERRNO_NONE; }
struct Words {   // one Judy1 or JudyL array with its model
  bool l; Pvoid_t a = NULL; M m; bool nomem = false;
  void full(const char *w) {
    Word_t i = 0; JError_t e; memset(&e, 0, sizeof e); size_t n = 0; auto it = m.begin(); bool found; PPvoid_t v = NULL;
    for (bool first = true;; first = false) {
      if (l) { v = first ? JudyLFirst(a, &i, &e) : JudyLNext(a, &i, &e); found = v != NULL; if (v == PPJERR) sim_fail("error", "%s: walk reports error %d", w, e.je_Errno); } else { int rc = first ? Judy1First(a, &i, &e) : Judy1Next(a, &i, &e); if (rc == JERR) sim_fail("error", "%s: walk reports error %d", w, e.je_Errno); found = rc; }
      if (!found) break; if (it == m.end()) sim_fail("contents", "%s: holds %016lx, which was never put there", w, i); if (i != it->first) sim_fail("contents", "%s: element %zu is %016lx, expected %016lx", w, n, i, it->first); if (l && *(Word_t *)v != it->second) sim_fail("value", "%s: value of %016lx is %lu, expected %lu", w, i, *(Word_t *)v, it->second); ++it; n++; }
    if (it != m.end()) sim_fail("contents", "%s: only %zu of %zu elements, %016lx is missing", w, n, m.size(), it->first);
    Word_t c = l ? JudyLCount(a, 0, MAXW, &e) : Judy1Count(a, 0, MAXW, &e); if (c != m.size()) sim_fail("count", "%s: counts %lu elements, expected %zu", w, c, m.size()); sim_count(1);
  }
  // returns false if the array refused for lack of memory
  bool insert(Word_t k) {
    JError_t e; memset(&e, 0, sizeof e); long f0 = A.failed; bool was = m.count(k); bool failed;
    if (l) { PPvoid_t v = JudyLIns(&a, k, &e); failed = v == PPJERR; if (!v) sim_fail("insert", "inserting %016lx gives no place", k); if (!failed) { if (*(Word_t *)v != (was ? m[k] : 0)) sim_fail("insert", "inserting %016lx (%s) gives a place holding %lu", k, was ? "present" : "new", *(Word_t *)v); *(Word_t *)v = m[k] = ++vtag; } }
    else { int rc = Judy1Set(&a, k, &e); failed = rc == JERR; if (!failed) { if (rc != !was) sim_fail("insert", "setting %016lx returns %d", k, rc); m[k] = 0; } }
    if (failed) { if (A.failed == f0) sim_fail("error", "inserting %016lx fails with error %d though memory was there", k, e.je_Errno); if (e.je_Errno != JU_ERRNO_NOMEM) sim_fail("error", "memory exhausted, but the error is %d", e.je_Errno); nomem = true; sim_probe("insertion refused"); return false; }
    return true;
  }
  bool remove(Word_t k) {
    JError_t e; memset(&e, 0, sizeof e); long f0 = A.failed; int was = m.count(k), rc = l ? JudyLDel(&a, k, &e) : Judy1Unset(&a, k, &e);
    if (rc == JERR) { if (A.failed == f0) sim_fail("error", "deleting %016lx fails with error %d though memory was there", k, e.je_Errno); if (e.je_Errno != JU_ERRNO_NOMEM) sim_fail("error", "memory exhausted, but the error is %d", e.je_Errno); nomem = true; sim_probe("deletion refused"); return false; }
    if (rc != was) sim_fail("delete", "deleting %016lx returns %d, expected %d", k, rc, was); m.erase(k); return true;
  }
  void query(Word_t k, Rng &r) {
    JError_t e; memset(&e, 0, sizeof e); auto lo = m.lower_bound(k), up = m.upper_bound(k); Word_t i = k; bool found; PPvoid_t v = NULL;
    auto expect = [&](const char *w, bool want, Word_t key, Word_t val) { if (have_err(e)) sim_fail("error", "%s %016lx: error %d", w, k, e.je_Errno); if (found != want) sim_fail("search", "%s %016lx: %s", w, k, found ? "found something" : "found nothing"); if (found && i != key) sim_fail("search", "%s %016lx: found %016lx, expected %016lx", w, k, i, key); if (found && l && *(Word_t *)v != val) sim_fail("value", "%s %016lx: value %lu, expected %lu", w, k, *(Word_t *)v, val); sim_count(1); };
    switch (r.below(12)) {
    case 0: case 1: if (l) found = (v = JudyLGet(a, k, &e)) != NULL; else found = Judy1Test(a, k, &e) == 1; expect("looking up", m.count(k), k, m.count(k) ? m[k] : 0); break;
    case 2: if (l) found = (v = JudyLFirst(a, &i, &e)) != NULL; else found = Judy1First(a, &i, &e) == 1; expect("first from", lo != m.end(), lo == m.end() ? 0 : lo->first, lo == m.end() ? 0 : lo->second); break;
    case 3: if (l) found = (v = JudyLNext(a, &i, &e)) != NULL; else found = Judy1Next(a, &i, &e) == 1; expect("next after", up != m.end(), up == m.end() ? 0 : up->first, up == m.end() ? 0 : up->second); break;
    case 4: { if (l) found = (v = JudyLLast(a, &i, &e)) != NULL; else found = Judy1Last(a, &i, &e) == 1; bool h = up != m.begin(); auto q = up; if (h) --q; expect("last from", h, h ? q->first : 0, h ? q->second : 0); break; }
    case 5: { if (l) found = (v = JudyLPrev(a, &i, &e)) != NULL; else found = Judy1Prev(a, &i, &e) == 1; bool h = lo != m.begin(); auto q = lo; if (h) --q; expect("previous to", h, h ? q->first : 0, h ? q->second : 0); break; }
    case 6: case 7: { int fn = r.below(4); int rc = fn == 0 ? (l ? JudyLFirstEmpty(a, &i, &e) : Judy1FirstEmpty(a, &i, &e)) : fn == 1 ? (l ? JudyLNextEmpty(a, &i, &e) : Judy1NextEmpty(a, &i, &e)) : fn == 2 ? (l ? JudyLLastEmpty(a, &i, &e) : Judy1LastEmpty(a, &i, &e)) : (l ? JudyLPrevEmpty(a, &i, &e) : Judy1PrevEmpty(a, &i, &e));
      Word_t x = k; bool want = true; if (fn == 1) { if (x == MAXW) want = false; else x++; } if (fn == 3) { if (!x) want = false; else x--; } while (want && m.count(x)) { if (fn < 2) { if (x == MAXW) want = false; else x++; } else { if (!x) want = false; else x--; } }
      l = l; found = rc == 1; if (rc == JERR) sim_fail("error", "empty search from %016lx: error %d", k, e.je_Errno); if (found != want || (found && i != x)) sim_fail("empty", "search %d for an empty index from %016lx: %s%016lx, expected %s%016lx", fn, k, found ? "" : "none ", i, want ? "" : "none ", x); sim_count(1); break; }
    case 8: case 9: { Word_t j = r.below(3) ? (m.empty() ? k : std::next(m.begin(), r.below(m.size()))->first) : k + r.below(1000); if (j < k) std::swap(j, i); Word_t c = l ? JudyLCount(a, i, j, &e) : Judy1Count(a, i, j, &e), want = std::distance(m.lower_bound(i), m.upper_bound(j)); if (c != want) sim_fail("count", "%lu elements from %016lx to %016lx, expected %lu", c, i, j, want); sim_count(1); break; }
    case 10: { Word_t c = m.empty() ? 1 + r.below(3) : 1 + r.below(m.size() + (r.below(4) == 0)); if (l) found = (v = JudyLByCount(a, c, &i, &e)) != NULL; else found = Judy1ByCount(a, c, &i, &e) == 1; bool h = c <= m.size(); auto q = h ? std::next(m.begin(), c - 1) : m.end(); expect("by count from", h, h ? q->first : 0, h ? q->second : 0); break; }
    case 11: { Word_t u = l ? JudyLMemUsed(a) : Judy1MemUsed(a), ac = l ? JudyLMemActive(a) : Judy1MemActive(a); if ((u == 0) != m.empty() || ac > u) sim_fail("memory", "%zu elements use %lu bytes, %lu of them active", m.size(), u, ac); break; }
    }
  }
  void drop() { JError_t e; Word_t u = l ? JudyLMemUsed(a) : Judy1MemUsed(a), b = l ? JudyLFreeArray(&a, &e) : Judy1FreeArray(&a, &e); if (a) sim_fail("free", "array still there after freeing"); if (b != u) sim_fail("memory", "freeing gave back %lu bytes of %lu", b, u); m.clear(); }
};
static void words() {
  int na = chr(1, 2); Words w[2]; bool garbage = chance(1, 2); if (garbage) { A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); } if (na > 1) sim_fault(F_INTERLEAVE);
  bool faulty = chance(1, 2); size_t mark = alloc_mark(); int nph = chr(1, 5); u64 total = 0;
  Death d = sim_guard([&] {
    for (int i = 0; i < na; i++) w[i].l = chance(3, 5);
    for (int ph = 0; ph < nph; ph++) { Words &x = w[ch(na)]; int style = ch(8); Rng r = subrng(); Keys K(style, subrng()); int n = chance(1, 20) ? chr(1000, 6000) : chr(5, 500), ins = ch(11);   // of 10
      if (x.m.empty() && chance(1, 6)) {   // all at once
        M mm; int c = chr(1, 600); for (int i = 0; i < c; i++) mm[K.next(mm)] = x.l ? ++vtag : 0; std::vector<Word_t> k, v; for (auto &p : mm) { k.push_back(p.first); v.push_back(p.second); } JError_t e; memset(&e, 0, sizeof e); int rc = x.l ? JudyLInsArray(&x.a, k.size(), k.data(), v.data(), &e) : Judy1SetArray(&x.a, k.size(), k.data(), &e);
        if (rc != 1) sim_fail("array", "building from a sorted array of %zu returns %d, error %d", k.size(), rc, e.je_Errno); x.m = mm; sim_probe("built from an array"); ev("array of %zu", k.size()); x.full("after building"); }
      ev("phase %d: %s style %d, %d operations, insert %d", ph, x.l ? "JudyL" : "Judy1", style, n, ins);
      for (int i = 0; i < n; i++) {
        bool ff = faulty && r.below(40) == 0; if (ff) { A.n = 0; A.fail_at = r.below(5); A.fail_len = r.below(2) ? 1 : 1 + r.below(6); } long f0 = A.failed; bool ok = true; Word_t k;
        if (r.below(10) < (u64)ins) { k = K.next(x.m); ok = x.insert(k); }
        else { if (r.below(4) == 0 || x.m.empty()) k = K.next(x.m); else { k = K.next(x.m); auto it = x.m.lower_bound(k); if (it == x.m.end()) it = x.m.begin(); k = it->first; } ok = x.remove(k); }
        A.fail_at = -1; if (A.failed > f0) { x.full("after a failed allocation"); if (!ok && r.below(2)) { if (x.m.count(k) ? !x.remove(k) : !x.insert(k)) sim_fail("error", "again refused when memory was there"); } }
        if (r.below(3) == 0) { Rng &q = r; x.query(q.below(3) ? K.next(x.m) : x.m.empty() ? 0 : std::next(x.m.begin(), q.below(std::min<size_t>(x.m.size(), 50)))->first + q.below(3) - 1, q); }
        total++; }
      for (int i = 0; i < na; i++) w[i].full("at the end of a phase"); sim_state(hash_u64(x.m.size(), (u64)style * 31 + x.l)); if (chance(1, 8)) { ev("freed"); x.drop(); } }
    for (int i = 0; i < na; i++) { if (chance(1, 3)) { Rng r = subrng(); std::vector<Word_t> k; for (auto &p : w[i].m) k.push_back(p.first); for (size_t j = k.size(); j > 1; j--) std::swap(k[j - 1], k[r.below(j)]); for (auto q : k) w[i].remove(q); if (w[i].a) sim_fail("empty", "an array without elements is still there"); sim_probe("emptied element by element"); } w[i].drop(); } });
  A.fail_at = -1; if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code);
  bool nomem = false; for (int i = 0; i < na; i++) nomem |= w[i].nomem; if (!nomem && alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
typedef std::map<std::string, Word_t> SM;
static std::string skey(int style, Rng &r, const SM &m) {
  std::string s; switch (style) {
  case 0: { int n = r.below(4); for (int i = 0; i < n; i++) s += "ab"[r.below(2)]; return s; }
  case 1: { int n = r.below(40); for (int i = 0; i < n; i++) s += (char)(1 + r.below(255)); return s; }
  case 2: { s = "common prefix of all the keys/"; int n = r.below(12); for (int i = 0; i < n; i++) s += (char)('a' + r.below(3)); return s; }
  case 3: { int n = r.below(60); s = std::string(n, 'x'); if (r.below(2)) s += (char)(1 + r.below(255)); return s; }
  case 4: { char b[64]; snprintf(b, 64, "%c%cAgEBAQI%05u", "AB"[r.below(2)], "QI"[r.below(2)], (unsigned)r.below(300)); return b; }
  default: { if (m.empty()) return "k"; auto it = std::next(m.begin(), r.below(std::min<size_t>(m.size(), 60))); s = it->first; int k = r.below(4); if (k == 0 && !s.empty()) s.pop_back(); else if (k == 1) s += (char)(1 + r.below(255)); else if (!s.empty()) s[r.below(s.size())] = (char)(1 + r.below(255)); else s = "z"; return s; }
  }
}
static bool less_bytes(const std::string &a, const std::string &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (unsigned char)x < (unsigned char)y; }); }
struct Ucmp { bool operator()(const std::string &a, const std::string &b) const { return less_bytes(a, b); } };
static void strings() {
  bool hs = chance(2, 5), faulty = false, nomem = false; if (chance(1, 2)) { A.poison = true; A.poison_mode = ch(5); A.poison_seed = ch(1000); sim_fault(F_HEAP_GARBAGE); } size_t mark = alloc_mark(); int nph = chr(1, 4);
  Death d = sim_guard([&] {
    Pvoid_t a = NULL; std::map<std::string, Word_t, Ucmp> m; uint8_t *buf = (uint8_t *)malloc(200); JError_t e;
    auto get = [&](const std::string &k) -> PPvoid_t { return hs ? JudyHSGet(a, (void *)k.data(), k.size()) : JudySLGet(a, (const uint8_t *)k.c_str(), &e); };
    auto full = [&](const char *w) { if (hs) { for (auto &p : m) { PPvoid_t v = get(p.first); if (!v || v == PPJERR) sim_fail("contents", "%s: key of %zu bytes is missing", w, p.first.size()); if (*(Word_t *)v != p.second) sim_fail("value", "%s: value %lu, expected %lu", w, *(Word_t *)v, p.second); } sim_count(1); return; }
      auto it = m.begin(); buf[0] = 0; size_t n = 0; for (PPvoid_t v = JudySLFirst(a, buf, &e); v; v = JudySLNext(a, buf, &e)) { if (v == PPJERR) sim_fail("error", "%s: walk reports error %d", w, e.je_Errno); if (it == m.end()) sim_fail("contents", "%s: more than %zu strings", w, m.size()); if (it->first != (char *)buf) sim_fail("contents", "%s: string %zu is \"%s\", expected \"%s\"", w, n, (char *)buf, it->first.c_str()); if (*(Word_t *)v != it->second) sim_fail("value", "%s: value of \"%s\" is %lu, expected %lu", w, (char *)buf, *(Word_t *)v, it->second); ++it; n++; } if (it != m.end()) sim_fail("contents", "%s: %zu of %zu strings", w, n, m.size()); sim_count(1); };
    for (int ph = 0; ph < nph; ph++) { int style = ch(6), n = chr(5, 250), ins = ch(11); Rng r = subrng(); ev("%s phase %d: style %d, %d operations, insert %d", hs ? "JudyHS" : "JudySL", ph, style, n, ins);
      for (int i = 0; i < n; i++) {
        SM view(m.begin(), m.end()); std::string k = skey(style, r, view); if (hs && r.below(3) == 0) for (auto &c : k) if (r.below(4) == 0) c = 0; bool was = m.count(k); memset(&e, 0, sizeof e);
        bool refused = false; int op = r.below(14); if (op >= ins && op < 10 && r.below(3) && !m.empty()) { auto it = m.lower_bound(k); if (it == m.end()) it = m.begin(); k = it->first; was = true; }
        char *own = (char *)malloc(k.size() + 1); memcpy(own, k.c_str(), k.size() + 1);   // the exact bytes, so that overreads show
        long f0 = A.failed; if (faulty && r.below(25) == 0) { A.n = 0; A.fail_at = r.below(4); A.fail_len = r.below(2) ? 1 : 1 + r.below(6); }
        if (op < ins) { PPvoid_t v = hs ? JudyHSIns(&a, own, k.size(), &e) : JudySLIns(&a, (uint8_t *)own, &e); if (!v) sim_fail("insert", "inserting gives no place"); if (v == PPJERR) refused = true; else { if (*(Word_t *)v != (was ? m[k] : 0)) sim_fail("insert", "inserting a %s string gives a place holding %lu", was ? "present" : "new", *(Word_t *)v); *(Word_t *)v = m[k] = ++vtag; } }
        else if (op < 10) { int rc = hs ? JudyHSDel(&a, own, k.size(), &e) : JudySLDel(&a, (uint8_t *)own, &e); if (rc == JERR) refused = true; else { if (rc != (int)was) sim_fail("delete", "deleting a %s string returns %d", was ? "present" : "missing", rc); m.erase(k); } }
        else { PPvoid_t v; bool want = was; Word_t val = was ? m[k] : 0; std::string key = k; if (hs || op == 10) v = hs ? JudyHSGet(a, own, k.size()) : JudySLGet(a, (uint8_t *)own, &e); else { strcpy((char *)buf, k.c_str()); auto lo = m.lower_bound(k), up = m.upper_bound(k), q = m.end(); if (op == 11) { v = JudySLFirst(a, buf, &e); q = lo; } else if (op == 12) { v = JudySLNext(a, buf, &e); q = up; } else { bool last = r.below(2); v = last ? JudySLLast(a, buf, &e) : JudySLPrev(a, buf, &e); q = last ? up : lo; if (q == m.begin()) q = m.end(); else --q; } want = q != m.end(); if (want) { key = q->first; val = q->second; } }
          if (v == PPJERR) sim_fail("error", "search %d: error %d", op, e.je_Errno); if ((v != NULL) != want) sim_fail("search", "search %d from \"%s\": found %s", op, k.c_str(), v ? "something" : "nothing"); if (v && *(Word_t *)v != val) sim_fail("value", "search %d: value %lu, expected %lu", op, *(Word_t *)v, val); if (v && !hs && op > 10 && key != (char *)buf) sim_fail("search", "search %d from \"%s\": found \"%s\", expected \"%s\"", op, k.c_str(), (char *)buf, key.c_str()); sim_count(1); }
        A.fail_at = -1; free(own);
        if (refused) { if (A.failed == f0) sim_fail("error", "refused with error %d though memory was there", e.je_Errno); if (e.je_Errno != JU_ERRNO_NOMEM) sim_fail("error", "memory exhausted, but the error is %d", e.je_Errno); nomem = true; sim_probe(op < ins ? "string insertion refused" : "string deletion refused"); }
        if (A.failed > f0) { full("after a failed allocation"); } }
      full("at the end of a phase"); sim_state(hash_u64(m.size(), (u64)style * 17 + hs)); }
    if (chance(1, 3)) { Rng r = subrng(); std::vector<std::string> k; for (auto &p : m) k.push_back(p.first); for (size_t j = k.size(); j > 1; j--) std::swap(k[j - 1], k[r.below(j)]); for (auto &q : k) { int rc = hs ? JudyHSDel(&a, (void *)q.data(), q.size(), &e) : JudySLDel(&a, (const uint8_t *)q.c_str(), &e); if (rc != 1) sim_fail("delete", "deleting a present string returns %d", rc); } if (a) sim_fail("empty", "an array without strings is still there"); }
    else { if (hs) JudyHSFreeArray(&a, &e); else JudySLFreeArray(&a, &e); if (a) sim_fail("free", "array still there after freeing"); }
    free(buf); });
  A.fail_at = -1; if (d.how != O_RETURN) sim_fail("died", "%s (code %d)", d.msg.c_str(), d.code); if (!nomem && alloc_live_since(mark)) sim_fail("leak", "%zu blocks never freed: %s", alloc_live_since(mark), alloc_live_desc(mark).c_str());
}
void run_C19() { alloc_reset(); A.track = true; if (pick({3, 2}) == 0) words(); else strings(); }
