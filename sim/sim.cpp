#include "sim.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>

const char *fault_name[NFAULT] = {
  "short_read", "read_EIO_sticky", "read_EIO_transient", "file_truncated", "stored_bits_flipped", "stored_token_damaged", "stream_buffer_mode",
  "short_write", "disk_full", "write_EIO", "crash_during_write", "torn_write_on_power_loss", "lost_or_reordered_write_on_power_loss", "stale_bytes_past_new_end",
  "open_failure", "allocation_failure", "garbage_in_fresh_memory", "clock_jump_forward", "clock_slow_or_stalled", "clock_step_back",
  "random_stream_extreme_values", "random_stream_stuck", "random_stream_cycle", "libc_rand_state_perturbed", "process_restart", "interleaved_unrelated_calls",
  "stale_cache_handed_in", "scratch_memory_size_varied", "operation_abandoned" };

static const u32 MAXT = 1 << 17;
static const int NFILES = 48;
static const u32 FCAP = 1 << 19;
static const int MAXOPS = 4096;
struct WOp { u32 file, off, len, pos; };
struct DFile { char name[300]; u32 len; u32 blen; bool used, dir, cut; };
struct Shared {
  u32 tape_len, rep_len, tpos; int replaying; u64 rng;
  u32 loglen; u64 evhash, nev;
  u64 evals; double simsec;
  u32 fc[NFAULT];
  u32 nstates; u64 states[512];
  u32 nprobe; char probe[32][48];
  int verdict; char vclass[96]; char vmsg[2048];
  int discard;
  int gcode; int ghow; char gmsg[512];
  DFile f[NFILES];
  u32 nops; WOp ops[MAXOPS]; u32 opdata_len; char opdata[1 << 21];
  u32 tape[MAXT], rep[MAXT];
  char log[1 << 17];
  char fdata[NFILES][FCAP];
  char fbase[NFILES][FCAP];
};
static Shared *S;
bool thorough = false;
AllocCfg A; ClockCfg CK; Disk disk; FsCfg FS;
u64 libc_rand_state = 12345; long libc_rand_calls, libc_srand_calls, signal_calls; int last_signal_sig; void *last_signal_handler;

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); int __real_fflush(FILE*);
int __real_clock_gettime(clockid_t, struct timespec *); pid_t __real_getpid(void); typedef void (*sigh0)(int); sigh0 __real_signal(int, sigh0);
clock_t __real_clock(void); time_t __real_time(time_t *);
void __real_exit(int) __attribute__((noreturn)); void __real_abort(void) __attribute__((noreturn));
}
void *raw_malloc(size_t n) { return __real_malloc(n); }
void raw_free(void *p) { __real_free(p); }

bool feq(double a, double b, double rel, double ab) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return fabs(a - b) <= ab + rel * std::max(fabs(a), fabs(b));
}
u64 hash_bytes(const void *p, size_t n, u64 h) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
u64 Rng::next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 core_next() { Rng r(S->rng); u64 v = r.next(); S->rng = r.s; return v; }

// ------------------------------------------------------------ choices
u32 ch(u32 n) {
  if (n <= 1) return 0;
  u32 v;
  if (S->replaying) { v = S->tpos < S->rep_len ? S->rep[S->tpos] : 0; if (v >= n) v = n - 1; }
  else v = (u32)(core_next() % n);
  if (S->tpos >= MAXT) { S->discard = 2; _exit(0); }
  S->tape[S->tpos++] = v; S->tape_len = S->tpos;
  return v;
}
bool chance(u32 num, u32 den) { return ch(den) >= den - num; }
int chr(int lo, int hi) { return lo + (int)ch((u32)(hi - lo + 1)); }
u32 pick(std::initializer_list<u32> w) { u32 t = 0; for (u32 x : w) t += x; u32 v = ch(t), i = 0; for (u32 x : w) { if (v < x) return i; v -= x; i++; } return 0; }
Rng subrng() { return Rng(ch(1u << 30) * 2654435761ull + 17); }

// ------------------------------------------------------------ log
void ev(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  S->evhash = hash_bytes(b, n, S->evhash); S->nev++;
  if (S->loglen + n + 1 < sizeof S->log) { memcpy(S->log + S->loglen, b, n); S->loglen += n; S->log[S->loglen++] = '\n'; }
}
void sim_fault(Fault f) { S->fc[f]++; }
u64 sim_faults_seen(Fault f) { return S->fc[f]; }
void sim_state(u64 h) { S->evhash = hash_u64(h, S->evhash); if (S->nstates < 512) S->states[S->nstates++] = h; }
void sim_probe(const char *nm) { for (u32 i = 0; i < S->nprobe; i++) if (!strcmp(S->probe[i], nm)) return; if (S->nprobe < 32) { strncpy(S->probe[S->nprobe], nm, 47); S->nprobe++; } }
void sim_count(u64 n) { S->evals += n; }
void sim_time_add(double s) { S->simsec += s; }
void sim_fail(const char *cls, const char *fmt, ...) {
  A.fail_at = -1;
  strncpy(S->vclass, cls, sizeof S->vclass - 1);
  va_list ap; va_start(ap, fmt); vsnprintf(S->vmsg, sizeof S->vmsg, fmt, ap); va_end(ap);
  ev("VIOLATION [%s] %s", cls, S->vmsg);
  S->verdict = 1; _exit(0);
}
void sim_discard() { S->discard = 1; _exit(0); }
void sim_hang(const char *where) { sim_fail("hang", "no progress: %s", where); }

// ------------------------------------------------------------ allocator
struct Blk { size_t size; size_t seq; };
static std::unordered_map<void *, Blk> *live; static size_t seqno;
static long total_big;
void alloc_reset() { A = AllocCfg(); if (live) live->clear(); }
size_t alloc_live() { return live ? live->size() : 0; }
size_t alloc_mark() { return seqno; }
size_t alloc_live_since(size_t m) { size_t n = 0; if (live) for (auto &k : *live) if (k.second.seq >= m) n++; return n; }
std::string alloc_live_desc(size_t m) { std::vector<std::pair<size_t, size_t>> v; if (live) for (auto &k : *live) if (k.second.seq >= m) v.push_back({k.second.seq - m, k.second.size});
  std::sort(v.begin(), v.end()); std::string s; for (size_t i = 0; i < v.size() && i < 8; i++) { char b[64]; snprintf(b, 64, "alloc#%zu:%zuB ", v[i].first, v[i].second); s += b; } return s; }
static void fill(void *p, size_t n) {
  if (!A.poison || !p) return;
  if (n > (1 << 22)) n = 1 << 22;
  unsigned char *c = (unsigned char *)p;
  switch (A.poison_mode) {
  case 1: memset(p, 0, n); break;
  case 2: memset(p, 0xff, n); break;
  case 3: { for (size_t i = 0; i < n; i++) c[i] = (i % 4 == 0) ? (unsigned char)(1 + (A.n + i / 4) % 5) : 0; break; }
  case 4: memset(p, 1, n); break;
  default: { Rng r(A.poison_seed * 77 + A.n); size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(c + i, &v, 8); } u64 v = r.next(); for (; i < n; i++) { c[i] = v; v >>= 8; } }
  }
}
static bool should_fail(size_t n) {
  long k = A.n++;
  if (n > A.limit) { A.refused++; return true; }   // no machine of the simulation has this much memory
  if (A.fail_at >= 0 && k >= A.fail_at && k < A.fail_at + A.fail_len) { A.failed++; S->fc[F_ALLOC_FAIL]++; return true; }
  return false;
}
static void reg(void *p, size_t n) { if (A.track && p) { if (!live) live = new std::unordered_map<void *, Blk>(); (*live)[p] = {n, seqno++}; } else seqno++; }
static void unreg(void *p) { if (live && p) live->erase(p); }
extern "C" {
void *__wrap_malloc(size_t n) { if (should_fail(n)) { errno = ENOMEM; return NULL; } void *p = __real_malloc(n); fill(p, n); reg(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } if (should_fail(n)) { errno = ENOMEM; return NULL; } void *p = __real_calloc(a, b); reg(p, n); return p; }
size_t malloc_usable_size(void *);
void *__wrap_realloc(void *o, size_t n) { if (should_fail(n)) { errno = ENOMEM; return NULL; } size_t os = o ? malloc_usable_size(o) : 0; void *p = __real_realloc(o, n); if (p || n == 0) unreg(o); if (p && n > os) fill((char *)p + os, n - os); if (p) reg(p, n); return p; }
void __wrap_free(void *p) { unreg(p); __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }

// ------------------------------------------------------------ clock, randomness, signals
clock_t __wrap_clock(void) { if (!CK.on) return 0; long d = CK.step ? CK.step(CK.calls) : 1000; CK.calls++; CK.now += d; S->simsec += d > 0 ? d / 1e6 : 0; if (CK.calls > 20000000) sim_hang("clock() polled 20 million times"); return CK.now; }
time_t __wrap_time(time_t *t) { CK.tcalls++; time_t v = CK.t; if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { if (tv) { tv->tv_sec = CK.t; tv->tv_usec = CK.now % 1000000; } return 0; }
int __wrap_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = CK.t + CK.now / 1000000; ts->tv_nsec = (CK.now % 1000000) * 1000; return 0; }
clock_t __wrap_times(struct tms *b) { if (b) memset(b, 0, sizeof *b); return CK.now / 10000; }
int __wrap_rand(void) { libc_rand_calls++; libc_rand_state = libc_rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)((libc_rand_state >> 33) & 0x7fffffff); }
void __wrap_srand(unsigned s) { libc_srand_calls++; libc_rand_state = s * 2654435761ull + 99; }
long __wrap_random(void) { return __wrap_rand(); }
void __wrap_srandom(unsigned s) { __wrap_srand(s); }
double __wrap_drand48(void) { return __wrap_rand() / 2147483648.0; }
typedef void (*sigh)(int);
sigh __wrap_signal(int sig, sigh h) { signal_calls++; last_signal_sig = sig; sigh old = (sigh)last_signal_handler; last_signal_handler = (void *)h; return old; }
int __wrap_sigaction(int, const void *, void *) { signal_calls++; return 0; }
int __wrap_system(const char *) { return -1; }
pid_t __wrap_getpid(void) { return 4242; }
}

// ------------------------------------------------------------ process lifecycle
struct Frame { jmp_buf jb; int how; int code; char msg[512]; };
static Frame *frame;
static void *dead_fls;
static void die(int how, int code, const char *msg) {
  if (!frame) {  // outside a simulated process: harness error, visible as a crash
    fprintf(stderr, "SIMULATOR: process end outside guard how=%d code=%d %s\n", how, code, msg ? msg : "");
    _exit(98);
  }
  A.fail_at = -1;
  frame->how = how; frame->code = code; frame->msg[0] = 0; if (msg) { strncpy(frame->msg, msg, 511); frame->msg[511] = 0; }
  longjmp(frame->jb, 1);
}
extern "C" {
void __wrap_exit(int c) { if (!frame) __real_exit(c); sim_close_all(true); die(O_EXIT, c, NULL); __real_exit(c); }
void __wrap_abort(void) { if (!frame) __real_abort(); sim_close_all(false); die(O_ABORT, 0, NULL); __real_abort(); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { char b[400]; const char *base = strrchr(f, '/'); snprintf(b, sizeof b, "%s: %s: assertion `%s' failed", base ? base + 1 : f, fn, e); sim_close_all(false); die(O_ASSERT, 0, b); __real_abort(); }
}
void sim_process_crash() { if (!frame) _exit(97); sim_close_all(false); die(O_CRASH, 0, "injected crash"); _exit(97); }
__attribute__((noinline)) static int guard_body(Frame &f, const std::function<void()> &fn) { if (setjmp(f.jb) == 0) { fn(); return 0; } return 1; }
Death sim_guard(const std::function<void()> &fn) {
  Frame *f = new Frame(); Frame *old = frame; f->how = O_RETURN; f->code = 0; f->msg[0] = 0; frame = f;
  guard_body(*f, fn);
  frame = old; Death d{(Outcome)f->how, f->code, f->msg}; delete f; return d;
}
Death sim_proc(const std::function<void()> &fn) {
  fflush(stdout); S->ghow = O_HANG; S->gmsg[0] = 0;
  pid_t p = fork();
  if (p == 0) { Death d = sim_guard(fn); if (d.how == O_RETURN) sim_close_all(false); S->gcode = d.code; strncpy(S->gmsg, d.msg.c_str(), 511); S->ghow = d.how; _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  if (S->verdict || S->discard) _exit(0);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (WIFSIGNALED(st)) { __real_signal(WTERMSIG(st), SIG_DFL); kill(__real_getpid(), WTERMSIG(st)); } _exit(WEXITSTATUS(st)); }
  return Death{(Outcome)S->ghow, S->gcode, S->gmsg};
}

// ------------------------------------------------------------ streams
static void set_buf(FILE *f, int mode) {
  switch (mode) { case 1: setvbuf(f, NULL, _IONBF, 0); sim_fault(F_BUFMODE); break; case 2: setvbuf(f, (char *)__real_malloc(16), _IOFBF, 16); sim_fault(F_BUFMODE); break;
  case 3: setvbuf(f, (char *)__real_malloc(65536), _IOFBF, 65536); sim_fault(F_BUFMODE); break; case 4: setvbuf(f, NULL, _IOLBF, 0); sim_fault(F_BUFMODE); break; }
}
ReadPlan choose_read_plan(bool faults, size_t len) {
  ReadPlan p; p.chunk_mode = pick({3, 2, 2, 1}); p.buf_mode = pick({3, 1, 1, 1}); p.rs = ch(1 << 16);
  if (faults) { p.eio_at = (long)ch((u32)len + 1); p.eio_transient = chance(1, 2); }
  return p;
}
struct RCookie { std::string data; size_t pos = 0; ReadPlan p; Rng r; int fails = 0; long after = 0; bool eof_seen = false; };
static size_t plan_chunk(const ReadPlan &p, Rng &r, size_t n) { size_t k = n; switch (p.chunk_mode) { case 1: k = 1; break; case 2: k = 1 + r.below(7); break; case 3: k = std::max<size_t>(1, n / 2); break; } if (k < n) sim_fault(F_SHORT_READ); return std::min(k, n); }
static ssize_t rc_read(void *c, char *buf, size_t n) {
  RCookie *k = (RCookie *)c;
  if (k->p.eio_at >= 0 && (long)k->pos >= k->p.eio_at && !(k->p.eio_transient && k->fails)) {
    if (!k->fails) { sim_fault(k->p.eio_transient ? F_READ_TRANSIENT : F_READ_EIO); ev("read: EIO at offset %zu", k->pos); }
    k->fails++; if (k->fails > 5000) sim_hang("reader keeps polling a stream whose reads fail with EIO");
    errno = EIO; return -1; }
  size_t av = k->data.size() - k->pos;
  if (av == 0) { if (++k->after > 5000) sim_hang("reader keeps polling a stream at end of file"); return 0; }
  size_t m = plan_chunk(k->p, k->r, std::min(n, av));
  if (k->p.eio_at >= 0 && !(k->p.eio_transient && k->fails) && (long)(k->pos + m) > k->p.eio_at) { m = k->p.eio_at - k->pos; if (m == 0) return rc_read(c, buf, n); }
  memcpy(buf, k->data.data() + k->pos, m); k->pos += m; return m;
}
static int rc_seek(void *c, off64_t *off, int wh) { RCookie *k = (RCookie *)c; off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)k->pos : (off64_t)k->data.size(); b += *off; if (b < 0) return -1; if (b > (off64_t)k->data.size()) b = k->data.size(); k->pos = b; *off = b; return 0; }
static std::set<FILE *> *openf; static std::map<FILE *, int> *dead;
static int rc_close(void *c) { delete (RCookie *)c; return 0; }
FILE *sim_open_bytes(const std::string &data, const ReadPlan &p) {
  RCookie *k = new RCookie(); k->data = data; k->p = p; k->r = Rng(p.rs + 5);
  cookie_io_functions_t io = {rc_read, NULL, rc_seek, rc_close};
  FILE *f = fopencookie(k, "r", io); set_buf(f, p.buf_mode); return f;
}

std::string damage(std::string d, bool *changed, std::string *what) {
  std::string o = d; char b[200];
  int n = 1 + (int)pick({6, 2, 1});
  for (int i = 0; i < n && !d.empty(); i++) {
    switch (pick({5, 3, 3, 3, 2, 2, 2, 3})) {
    case 7: { // one word overwritten by another one of its kind
      auto kind = [](const std::string &w) { return isdigit((unsigned char)w[0]) ? 0 : isalpha((unsigned char)w[0]) ? (w.size() == 1 ? 1 : 2) : 3; };
      std::vector<std::pair<size_t, size_t>> t; for (size_t k = 0; k < d.size();) { if (isspace((unsigned char)d[k]) || d[k] == ',') { k++; continue; } size_t e = k; while (e < d.size() && !isspace((unsigned char)d[e]) && d[e] != ',') e++; t.push_back({k, e - k}); k = e; }
      if (t.size() < 2) break; int want = pick({3, 2, 1, 1}); std::vector<std::pair<size_t, size_t>> c; for (auto &q : t) if (kind(d.substr(q.first, q.second)) == want) c.push_back(q); if (c.size() < 2) c = t;
      auto p = c[ch((u32)c.size())], q = c[ch((u32)c.size())]; std::string w = d.substr(p.first, p.second), o2 = d.substr(q.first, q.second); bool swap = chance(1, 3); if (swap && p.first != q.first) { auto a = p.first < q.first ? p : q, z = p.first < q.first ? q : p; std::string wa = d.substr(a.first, a.second), wz = d.substr(z.first, z.second); d.replace(z.first, z.second, wa); d.replace(a.first, a.second, wz); } else d.replace(q.first, q.second, w);
      snprintf(b, 200, "word@%zu:%.20s->%.20s%s ", q.first, o2.c_str(), w.c_str(), swap ? " swapped" : ""); sim_fault(F_TOKEN_DAMAGE); *what += b; break; }
    case 0: { size_t k = ch((u32)d.size()); d.resize(k); sim_fault(F_TRUNCATE); snprintf(b, 200, "truncate@%zu ", k); *what += b; break; }
    case 1: { size_t k = ch((u32)d.size()); int bit = ch(8); d[k] ^= (1 << bit); sim_fault(F_BITFLIP); snprintf(b, 200, "flip@%zu.%d ", k, bit); *what += b; break; }
    case 2: { // replace a number by another
      std::vector<std::pair<size_t, size_t>> t; for (size_t k = 0; k < d.size();) { if (isdigit((unsigned char)d[k])) { size_t e = k; while (e < d.size() && isdigit((unsigned char)d[e])) e++; t.push_back({k, e}); k = e; } else k++; }
      if (t.empty()) break; auto q = t[ch((u32)t.size())];
      static const char *v[] = {"0", "1", "2", "3", "7", "12", "40", "99", "255", "256", "1000", "65535", "65536", "99999", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", "-1", "-7", "1e999", "nan"};
      const char *nv = v[ch(sizeof v / sizeof *v)]; snprintf(b, 200, "number@%zu:%s->%s ", q.first, d.substr(q.first, std::min<size_t>(20, q.second - q.first)).c_str(), nv); d.replace(q.first, q.second - q.first, nv); sim_fault(F_TOKEN_DAMAGE); *what += b; break; }
    case 3: { // drop or duplicate a line
      std::vector<size_t> ls{0}; for (size_t k = 0; k + 1 < d.size(); k++) if (d[k] == '\n') ls.push_back(k + 1);
      size_t a = ch((u32)ls.size()); size_t s = ls[a], e = a + 1 < ls.size() ? ls[a + 1] : d.size(); if (chance(1, 2)) { std::string l = d.substr(s, e - s); d.insert(s, l); snprintf(b, 200, "dupline %zu ", a); } else { d.erase(s, e - s); snprintf(b, 200, "dropline %zu ", a); } sim_fault(F_TOKEN_DAMAGE); *what += b; break; }
    case 4: { size_t k = ch((u32)d.size()), l = 1 + ch(64); l = std::min(l, d.size() - k); d.replace(k, l, std::string(l, '\0')); sim_fault(F_TORN_WRITE); snprintf(b, 200, "zeroed@%zu+%zu ", k, l); *what += b; break; }
    case 5: { size_t k = ch((u32)d.size() + 1); static const char *junk[] = {"x", " ", "\n", "#", "pd", "+", "tag", ":", "VECT", "\xff", "-", "PD[X["}; const char *j = junk[ch(12)]; d.insert(k, j); sim_fault(F_TOKEN_DAMAGE); snprintf(b, 200, "insert@%zu:%s ", k, j); *what += b; break; }
    case 6: { std::string rep(1 + ch(400), (char)('0' + ch(10))); size_t k = ch((u32)d.size() + 1); if (chance(1, 2)) for (auto &c : rep) c = 'q'; d.insert(k, rep); sim_fault(F_TOKEN_DAMAGE); snprintf(b, 200, "long token@%zu*%zu ", k, rep.size()); *what += b; break; }
    }
  }
  *changed = (d != o); return d;
}

// ------------------------------------------------------------ disk
static int dfind(const std::string &n) { for (int i = 0; i < NFILES; i++) if (S->f[i].used && n == S->f[i].name) return i; return -1; }
static int dnew(const std::string &n) { int k = dfind(n); if (k >= 0) return k; for (int i = 0; i < NFILES; i++) if (!S->f[i].used) { S->f[i].used = true; strncpy(S->f[i].name, n.c_str(), 299); S->f[i].len = 0; S->f[i].blen = 0; S->f[i].cut = false; S->f[i].dir = false; return i; } sim_discard(); }
static std::string norm(const char *n) { std::string s(n); while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
void Disk::reset() { for (int i = 0; i < NFILES; i++) S->f[i].used = false; S->nops = S->opdata_len = 0; }
bool Disk::exists(const std::string &n) { return dfind(n) >= 0; }
std::string Disk::get(const std::string &n) { int i = dfind(n); return i < 0 ? "" : std::string(S->fdata[i], S->f[i].len); }
void Disk::put(const std::string &n, const std::string &d) { int i = dnew(n); if (d.size() > FCAP) sim_discard(); memcpy(S->fdata[i], d.data(), d.size()); memcpy(S->fbase[i], d.data(), d.size()); S->f[i].len = S->f[i].blen = d.size(); S->f[i].cut = false; }
void Disk::del(const std::string &n) { int i = dfind(n); if (i >= 0) S->f[i].used = false; }
std::vector<std::string> Disk::list() { std::vector<std::string> v; for (int i = 0; i < NFILES; i++) if (S->f[i].used) v.push_back(S->f[i].name); std::sort(v.begin(), v.end()); return v; }
void Disk::barrier() { for (int i = 0; i < NFILES; i++) if (S->f[i].used) { S->f[i].blen = S->f[i].len; memcpy(S->fbase[i], S->fdata[i], S->f[i].len); S->f[i].cut = false; } S->nops = S->opdata_len = 0; }
std::string Disk::power_loss(const std::string &n) {
  int i = dfind(n); if (i < 0) return "";
  std::string d(S->fbase[i], S->f[i].blen); std::vector<int> ops; for (u32 k = 0; k < S->nops; k++) if ((int)S->ops[k].file == i) ops.push_back(k);
  int mode = pick({3, 2, 2});  // 0: prefix, 1: prefix with torn last, 2: arbitrary subset
  size_t keep = ops.empty() ? 0 : ch((u32)ops.size() + 1); int lost = 0, torn = 0;
  if (S->f[i].cut && (keep > 0 || mode == 2 || chance(1, 2))) d.clear();   // truncation on opening reaches the disk before anything written after it
  for (size_t k = 0; k < ops.size(); k++) { WOp &o = S->ops[ops[k]]; bool in = mode == 2 ? !chance(1, 3) : k < keep; u32 len = o.len;
    if (!in && mode == 1 && k == keep) { len = ch(o.len + 1); in = true; torn++; }
    if (!in) { lost++; continue; }
    if (d.size() < o.off + len) d.resize(o.off + len, '\0'); memcpy(&d[o.off], S->opdata + o.pos, len); }
  if (torn) sim_fault(F_TORN_WRITE); if (lost) sim_fault(F_LOST_WRITE);
  ev("power loss on %s: mode %d, %d of %zu writes lost, %d torn, %zu bytes remain", n.c_str(), mode, lost, ops.size(), torn, d.size());
  put(n, d); S->nops = S->opdata_len = 0; return d;
}
struct DCookie { int file; size_t pos; bool wr, app; ReadPlan rp; WritePlan wp; Rng r; long after = 0; int fails = 0; std::string name; bool abandoned = false; };
static std::map<FILE *, DCookie *> *dopen;
static ssize_t dc_read(void *c, char *buf, size_t n) {
  DCookie *k = (DCookie *)c; DFile &f = S->f[k->file];
  if (k->rp.eio_at >= 0 && (long)k->pos >= k->rp.eio_at && !(k->rp.eio_transient && k->fails)) { if (!k->fails) { sim_fault(k->rp.eio_transient ? F_READ_TRANSIENT : F_READ_EIO); ev("read %s: EIO at %zu", k->name.c_str(), k->pos); } if (++k->fails > 5000) sim_hang("reader keeps polling a failing file"); errno = EIO; return -1; }
  size_t av = k->pos < f.len ? f.len - k->pos : 0; if (!av) { if (++k->after > 5000) sim_hang("reader keeps polling a file at end"); return 0; }
  size_t m = plan_chunk(k->rp, k->r, std::min(n, av));
  if (k->rp.eio_at >= 0 && !(k->rp.eio_transient && k->fails) && (long)(k->pos + m) > k->rp.eio_at) m = k->rp.eio_at - k->pos;
  memcpy(buf, S->fdata[k->file] + k->pos, m); k->pos += m; return m;
}
static void dput(DCookie *k, const char *buf, size_t n) {
  if (k->pos + n > FCAP) sim_discard();
  DFile &f = S->f[k->file]; if (k->app) k->pos = f.len; if (k->pos > f.len) memset(S->fdata[k->file] + f.len, 0, k->pos - f.len);
  memcpy(S->fdata[k->file] + k->pos, buf, n);
  if (S->nops < MAXOPS && S->opdata_len + n <= sizeof S->opdata) { S->ops[S->nops++] = {(u32)k->file, (u32)k->pos, (u32)n, S->opdata_len}; memcpy(S->opdata + S->opdata_len, buf, n); S->opdata_len += n; }
  k->pos += n; if (k->pos > f.len) f.len = k->pos;
}
static ssize_t dc_write1(DCookie *k, const char *buf, size_t n) {
  WritePlan &w = FS.wp; long op = FS.wops++;
  size_t m = n; if (w.short_mode && m > (size_t)w.short_mode) { m = w.short_mode; sim_fault(F_SHORT_WRITE); }
  if (w.crash_op == op) { size_t q = w.crash_part == 0 ? 0 : w.crash_part == 1 ? m / 2 : m; dput(k, buf, q); sim_fault(F_CRASH_WRITE); ev("crash at write op %ld (%zu of %zu bytes reached %s)", op, q, n, k->name.c_str()); k->abandoned = true; sim_process_crash(); }
  if (w.eio_op >= 0 && (w.eio_once ? op == w.eio_op : op >= w.eio_op)) { sim_fault(F_WRITE_EIO); if (!FS.write_failed) ev("write to %s: EIO", k->name.c_str()); FS.write_failed = true; errno = EIO; return 0; }
  if (w.nospace_after >= 0) { size_t len = S->f[k->file].len, have = k->app || k->pos >= len ? 0 : len - k->pos; /* overwriting needs no space */ if (m > have + (size_t)w.nospace_after) m = have + w.nospace_after; if (m > have) w.nospace_after -= m - have; if (m == 0) { sim_fault(F_ENOSPC); if (!FS.write_failed) ev("write to %s: ENOSPC", k->name.c_str()); FS.write_failed = true; errno = ENOSPC; return 0; } }
  dput(k, buf, m); return m;
}
// like the C library on a real descriptor: short writes are continued until an error
static ssize_t dc_write(void *c, const char *buf, size_t n) {
  DCookie *k = (DCookie *)c; if (k->abandoned) return n; size_t done = 0;
  while (done < n) { ssize_t m = dc_write1(k, buf + done, n - done); if (m <= 0) break; done += m; }
  return done;
}
static int dc_seek(void *c, off64_t *off, int wh) { DCookie *k = (DCookie *)c; off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)k->pos : (off64_t)S->f[k->file].len; b += *off; if (b < 0) return -1; k->pos = b; *off = b; return 0; }
static int dc_close(void *c) { DCookie *k = (DCookie *)c; delete k; return 0; }
WritePlan choose_write_plan(bool faults) {
  WritePlan w; w.buf_mode = pick({3, 1, 1, 1, 1}); w.short_mode = chance(1, 5) ? 1 + ch(40) : 0;
  if (faults) switch (pick({3, 3, 2})) { case 0: w.crash_op = ch(40); if (w.buf_mode == 0 || w.buf_mode == 3) w.crash_op %= 4; w.crash_part = ch(3); break; case 1: w.nospace_after = ch(3000); break; case 2: w.eio_op = ch(30); w.eio_once = chance(1, 2); break; }
  return w;
}
FILE *sim_fopen(const char *name, const char *mode) {
  std::string n = norm(name); int no = FS.opens++;
  if (FS.open_fail_at == no) { sim_fault(F_OPEN_FAIL); ev("open %s: EMFILE", n.c_str()); errno = EMFILE; return NULL; }
  bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'); int i;
  size_t sl = n.rfind('/'); if (wr && sl != std::string::npos) { int pd = dfind(n.substr(0, sl)); if (pd < 0 || !S->f[pd].dir) { errno = ENOENT; return NULL; } } if (dfind(n) >= 0 && S->f[dfind(n)].dir) { errno = EISDIR; return NULL; } if (n.size() - (sl == std::string::npos ? 0 : sl + 1) > 255 || n.size() > 298) { errno = ENAMETOOLONG; return NULL; }
  if (mode[0] == 'r') { i = dfind(n); if (i < 0) { errno = ENOENT; return NULL; } if (FS.on_read_open) FS.on_read_open(n); } else { i = dnew(n); if (mode[0] == 'w') { S->f[i].len = 0; S->f[i].cut = true; } }
  DCookie *k = new DCookie(); k->file = i; k->pos = 0; k->wr = wr; k->app = mode[0] == 'a'; k->name = n; if (FS.rp_on) k->rp = FS.rp; k->r = Rng(k->rp.rs + 3);
  cookie_io_functions_t io = {dc_read, dc_write, dc_seek, dc_close};
  FILE *f = fopencookie(k, mode, io); set_buf(f, mode[0] == 'r' && !wr ? k->rp.buf_mode : FS.wp.buf_mode);
  if (!dopen) dopen = new std::map<FILE *, DCookie *>(); (*dopen)[f] = k; return f;
}
int sim_open_files() { return dopen ? dopen->size() : 0; }
void sim_close_all(bool flush) { if (!dopen) return; auto m = *dopen; dopen->clear(); for (auto &p : m) { if (!flush) { p.second->abandoned = true; } if (flush) __real_fflush(p.first); } }
extern "C" {
FILE *__wrap_fopen(const char *n, const char *m) { if (!FS.on) return __real_fopen(n, m); return sim_fopen(n, m); }
int __wrap_fclose(FILE *f) { if (f && dopen) dopen->erase(f); return __real_fclose(f); }
int __wrap_fflush(FILE *f) { return __real_fflush(f); }
int __wrap_rename(const char *a, const char *b) { if (!FS.on) return -1; int i = dfind(norm(a)); if (i < 0) { errno = ENOENT; return -1; } int j = dfind(norm(b)); if (j >= 0 && j != i) S->f[j].used = false; strncpy(S->f[i].name, norm(b).c_str(), 299); return 0; }
int __wrap_remove(const char *a) { int i = dfind(norm(a)); if (i < 0) { errno = ENOENT; return -1; } if (S->f[i].dir) { std::string p = norm(a) + "/"; for (auto &n : disk.list()) if (n.compare(0, p.size(), p) == 0) { errno = ENOTEMPTY; return -1; } } S->f[i].used = false; return 0; }
int __wrap_unlink(const char *a) { return __wrap_remove(a); }
int __wrap_mkdir(const char *a, unsigned) { int i = dfind(norm(a)); if (i >= 0) { errno = EEXIST; return -1; } int no = FS.opens++; if (FS.open_fail_at == no) { sim_fault(F_OPEN_FAIL); ev("mkdir %s: ENOSPC", a); errno = ENOSPC; return -1; } S->f[dnew(norm(a))].dir = true; return 0; }
struct SDir { std::vector<std::string> n; size_t at = 0; struct dirent e; };
DIR *__wrap_opendir(const char *a) { int i = dfind(norm(a)); if (i < 0) { errno = ENOENT; return NULL; } if (!S->f[i].dir) { errno = ENOTDIR; return NULL; } SDir *d = new SDir; d->n = {".", ".."}; std::string p = norm(a) + "/"; for (auto &x : disk.list()) if (x.compare(0, p.size(), p) == 0) d->n.push_back(x.substr(p.size())); if (FS.dir_order) std::reverse(d->n.begin(), d->n.end()); return (DIR *)d; }
struct dirent *__wrap_readdir(DIR *D) { SDir *d = (SDir *)D; if (d->at >= d->n.size()) return NULL; memset(&d->e, 0, sizeof d->e); snprintf(d->e.d_name, sizeof d->e.d_name, "%s", d->n[d->at++].c_str()); return &d->e; }
int __wrap_closedir(DIR *D) { delete (SDir *)D; return 0; }
int __wrap_rmdir(const char *a) { return __wrap_remove(a); }
int __wrap_mkstemp(char *t) { errno = EACCES; return -1; }
}

// ------------------------------------------------------------ driver
static int errfd = -1;
struct RunResult { int verdict; std::string cls, msg; bool discard; };
static std::string slurp_err() { std::string s; char b[8192]; lseek(errfd, 0, SEEK_SET); ssize_t n; while ((n = read(errfd, b, sizeof b)) > 0 && s.size() < 200000) s.append(b, n); return s; }
static void (*cur)();
static const char *cur_id;
static RunResult run_once(u64 seed, const std::vector<u32> *tape) {
  S->tape_len = S->tpos = 0; S->replaying = tape != NULL; S->rep_len = 0; S->rng = seed; S->loglen = 0; S->evhash = 14695981039346656037ull; S->nev = 0; S->evals = 0; S->simsec = 0;
  memset(S->fc, 0, sizeof S->fc); S->nstates = S->nprobe = 0; S->verdict = S->discard = 0; S->vclass[0] = S->vmsg[0] = 0; disk.reset();
  if (tape) { S->rep_len = std::min<size_t>(tape->size(), MAXT); memcpy(S->rep, tape->data(), S->rep_len * 4); }
  if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_RDWR); dup2(dn, 0); dup2(dn, 1); dup2(errfd, 2);
    struct rlimit rl = {40, 41}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    setvbuf(stdout, NULL, _IOFBF, 1 << 16);
    cur(); _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  RunResult r; r.verdict = S->verdict; r.discard = S->discard; r.cls = S->vclass; r.msg = S->vmsg;
  if (!r.verdict && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    std::string e = slurp_err(); r.verdict = 1; std::string sum; size_t k = e.find("SUMMARY: AddressSanitizer: ");
    if (k != std::string::npos) { sum = e.substr(k + 27, e.find('\n', k) - k - 27); std::string kind = sum.substr(0, sum.find(' ')); std::string fn = sum.rfind(" in ") != std::string::npos ? sum.substr(sum.rfind(" in ") + 4) : ""; r.cls = "memory:" + kind + ":" + fn;
      // the first frame inside the repository names the site better than an interceptor does
      for (size_t q = e.find("    #"); q != std::string::npos && q < k; q = e.find("    #", q + 5)) { std::string l = e.substr(q, e.find('\n', q) - q); size_t s = l.find("/src/"); if (s != std::string::npos && l.find(" in ") != std::string::npos && l.find("/verif/") == std::string::npos) { std::string f2 = l.substr(l.find(" in ") + 4); f2 = f2.substr(0, f2.find(' ')); r.cls = "memory:" + kind + ":" + f2; sum += " | " + l; break; } } r.msg = sum; }
    else if (WIFSIGNALED(st)) { r.cls = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "hang:cpu" : "signal"; char b[128]; snprintf(b, 128, "process killed by signal %d", WTERMSIG(st)); r.msg = b; if (r.cls == "signal") r.cls = std::string("signal:") + strsignal(WTERMSIG(st)); }
    else { char b[128]; snprintf(b, 128, "unexpected process exit %d", WEXITSTATUS(st)); r.cls = b; r.msg = e.substr(0, 600); }
    ev("VIOLATION [%s] %s", r.cls.c_str(), r.msg.c_str());
  }
  return r;
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::vector<u32> read_tape(const char *fn) { std::vector<u32> t; FILE *f = __real_fopen(fn, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", fn); _exit(2); } char line[1 << 16]; while (fgets(line, sizeof line, f)) { if (line[0] == '#') continue; char *p = line; char *e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; t.push_back(v); p = e; } } __real_fclose(f); return t; }
static u64 run_seed(u64 seed, const char *id, u64 idx) { return hash_u64(idx, hash_bytes(id, strlen(id), hash_u64(seed))); }
static std::vector<u32> got_tape() { return std::vector<u32>(S->tape, S->tape + S->tape_len); }
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::vector<u32> shrink(std::vector<u32> t, const std::string &cls, double budget) {
  double t0 = wall(); auto ok = [&](const std::vector<u32> &c) { RunResult r = run_once(0, &c); return r.verdict && r.cls == cls; };
  auto adopt = [&](std::vector<u32> c) { auto g = got_tape(); while (!g.empty() && g.back() == 0) g.pop_back(); t = g.size() <= c.size() ? g : c; };
  bool prog = true; while (prog && wall() - t0 < budget) { prog = false;
    for (size_t blk = std::max<size_t>(1, t.size() / 2); blk >= 1 && wall() - t0 < budget; blk /= 2) { for (size_t i = 0; i + blk <= t.size() && wall() - t0 < budget;) { std::vector<u32> c = t; c.erase(c.begin() + i, c.begin() + i + blk); if (ok(c)) { size_t old = t.size(); adopt(c); prog = true; if (t.size() >= old) i++; } else i += blk; } if (blk == 1) break; }
    for (size_t i = 0; i < t.size() && wall() - t0 < budget; i++) if (t[i]) { std::vector<u32> c = t; c[i] = 0; if (ok(c)) { adopt(c); prog = true; continue; } u32 lo = 0, hi = t[i]; while (hi - lo > 1 && wall() - t0 < budget) { u32 m = lo + (hi - lo) / 2; c = t; if (i >= c.size()) break; c[i] = m; if (ok(c)) { hi = m; adopt(c); prog = true; } else lo = m; if (i >= t.size()) break; } }
  }
  return t;
}
static Prop *find_prop(const char *id) { for (Prop *p = props; p->id; p++) if (!strcmp(p->id, id)) return p; fprintf(stderr, "no property %s\n", id); _exit(2); }

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } setenv("SIM_NOASLR", "1", 1); }
  S = (Shared *)mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (S == MAP_FAILED) { perror("mmap"); return 2; }
  errfd = memfd_create("err", 0); if (errfd < 0) { perror("memfd"); return 2; }
  std::string cmd = argc > 1 ? argv[1] : ""; thorough = getenv("SIM_THOROUGH") != NULL;
  if (cmd == "list") { for (Prop *p = props; p->id; p++) printf("%s\t%s\n", p->id, p->what); return 0; }
  if (argc < 3) { fprintf(stderr, "usage: sim run|replay|shrink|hash ...\n"); return 2; }
  Prop *p = find_prop(argv[2]); cur = p->run; cur_id = p->id;
  if (cmd == "run" || cmd == "hash") { // sim run PROP seed start step count budget_s statefile
    u64 seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), step = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10); double budget = atof(argv[7]);
    u64 runs = 0, disc = 0, evs = 0, evals = 0, tapes = 0; double simsec = 0; u64 fc[NFAULT] = {0}, fr[NFAULT] = {0}; std::unordered_set<u64> st, hs; std::map<std::string, u64> pr; std::set<std::string> seen; u64 allhash = 0; int nviol = 0; double t0 = wall(); bool cut = false;
    std::string samples;
    for (u64 k = 0; k < count; k++) { u64 idx = start + k * step; if (wall() - t0 > budget) { cut = true; break; }
      RunResult r = run_once(run_seed(seed, p->id, idx), NULL); runs++;
      if (cmd == "hash") { printf("%llu %016llx %u %d %s\n", (unsigned long long)idx, (unsigned long long)S->evhash, S->tape_len, r.verdict, r.cls.c_str()); continue; }
      if (r.discard) disc++; evs += S->nev; evals += S->evals; tapes += S->tape_len; simsec += S->simsec; allhash ^= S->evhash * (idx * 2 + 1); { bool nt = false; for (int i = 0; i < NFAULT; i++) if (S->fc[i]) nt = true; if (!r.discard && (nt || S->nev > 1)) hs.insert(S->evhash); }
      for (int i = 0; i < NFAULT; i++) { fc[i] += S->fc[i]; fr[i] += S->fc[i] > 0; }
      for (u32 i = 0; i < S->nstates; i++) if (st.size() < 400000) st.insert(S->states[i]);
      for (u32 i = 0; i < S->nprobe; i++) pr[S->probe[i]]++;
      if (k < 2 && start < 2 && !r.verdict) { if (!samples.empty()) samples += ","; std::string l(S->log, std::min<u32>(S->loglen, 1500)); samples += jstr(l); }
      if (r.verdict) { nviol++; if (seen.insert(r.cls).second && seen.size() <= 6) { std::string t; for (u32 i = 0; i < S->tape_len; i++) { t += std::to_string(S->tape[i]); t += i + 1 < S->tape_len ? "," : ""; } printf("{\"violation\":{\"run\":%llu,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"tape\":[%s]}}\n", (unsigned long long)idx, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)S->evhash, t.c_str()); fflush(stdout); } if (nviol >= 40 || r.cls.compare(0, 4, "hang") == 0) { cut = true; break; } }
    }
    if (cmd == "run") { printf("{\"summary\":{\"runs\":%llu,\"discarded\":%llu,\"events\":%llu,\"evals\":%llu,\"choices\":%llu,\"simsec\":%.3f,\"cut\":%s,\"hash\":\"%016llx\",\"violations\":%d,\"distinct_histories\":%zu,\"faults\":{", (unsigned long long)runs, (unsigned long long)disc, (unsigned long long)evs, (unsigned long long)evals, (unsigned long long)tapes, simsec, cut ? "true" : "false", (unsigned long long)allhash, nviol, hs.size());
      bool first = true; for (int i = 0; i < NFAULT; i++) if (fc[i]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_name[i], (unsigned long long)fc[i], (unsigned long long)fr[i]); first = false; }
      printf("},\"probes\":{"); first = true; for (auto &q : pr) { printf("%s%s:%llu", first ? "" : ",", jstr(q.first).c_str(), (unsigned long long)q.second); first = false; } printf("},\"samples\":[%s]}}\n", samples.c_str());
      if (argc > 8) { FILE *f = __real_fopen(argv[8], "wb"); if (f) { for (u64 h : st) fwrite(&h, 8, 1, f); __real_fclose(f); } f = __real_fopen((std::string(argv[8]) + ".h").c_str(), "wb"); if (f) { for (u64 h : hs) fwrite(&h, 8, 1, f); __real_fclose(f); } } }
    return 0;
  }
  if (cmd == "replay" || cmd == "shrink") { // sim replay PROP tapefile   /  sim shrink PROP tapefile outfile budget
    std::vector<u32> t = read_tape(argv[3]); RunResult r = run_once(0, &t); u64 h1 = S->evhash;
    if (cmd == "shrink") { if (!r.verdict) { printf("{\"lost\":true}\n"); return 0; } std::string cls = r.cls; t = shrink(got_tape(), cls, atof(argv[5])); r = run_once(0, &t); h1 = S->evhash; if (!r.verdict) { printf("{\"lost\":true}\n"); return 0; }
      FILE *f = __real_fopen(argv[4], "w"); fprintf(f, "# replay file: property %s\n# class: %s\n# %s\n# event hash %016llx\n", p->id, r.cls.c_str(), std::string(r.msg.substr(0, 300)).c_str(), (unsigned long long)h1); std::string l(S->log, S->loglen); size_t a = 0; while (a < l.size()) { size_t e = l.find('\n', a); std::string x = l.substr(a, e - a); for (auto &c : x) if (c == '\r') c = ' '; fprintf(f, "#   %s\n", x.c_str()); a = e + 1; } for (size_t i = 0; i < t.size(); i++) fprintf(f, "%u%c", t[i], i % 30 == 29 ? '\n' : ' '); fprintf(f, "\n"); __real_fclose(f); }
    printf("{\"verdict\":%d,\"class\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"len\":%zu}\n", r.verdict, jstr(r.cls).c_str(), jstr(r.msg).c_str(), (unsigned long long)h1, t.size());
    if (getenv("SIM_LOG")) { fwrite(S->log, 1, S->loglen, stderr); std::string e = slurp_err(); fwrite(e.data(), 1, std::min<size_t>(e.size(), 6000), stderr); }
    return 0;
  }
  fprintf(stderr, "bad command\n"); return 2;
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=8:max_allocation_size_mb=3000:handle_segv=1:handle_abort=0:detect_stack_use_after_return=0:symbolize=1:print_legend=0:malloc_context_size=4"; }
