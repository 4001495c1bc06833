// Deterministic simulator core: choice tape, event log, simulated allocator,
// clock, libc randomness, file system and process lifecycle.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <setjmp.h>

typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- fault kinds
enum Fault {
  F_SHORT_READ, F_READ_EIO, F_READ_TRANSIENT, F_TRUNCATE, F_BITFLIP, F_TOKEN_DAMAGE, F_BUFMODE,
  F_SHORT_WRITE, F_ENOSPC, F_WRITE_EIO, F_CRASH_WRITE, F_TORN_WRITE, F_LOST_WRITE, F_STALE_TAIL,
  F_OPEN_FAIL, F_ALLOC_FAIL, F_HEAP_GARBAGE, F_CLOCK_JUMP, F_CLOCK_SLOW, F_CLOCK_BACK,
  F_RNG_EXTREME, F_RNG_STUCK, F_RNG_CYCLE, F_LIBC_RAND, F_RESTART, F_INTERLEAVE, F_PC_STALE, F_SCRATCH_MEM,
  F_ABANDON, NFAULT
};
extern const char *fault_name[NFAULT];
void sim_fault(Fault f);
u64 sim_faults_seen(Fault f);        // in this run, in every process

// ---------------------------------------------------------------- choices
u32 ch(u32 n);                       // uniform in [0,n); 0 is always the simplest
bool chance(u32 num, u32 den);       // false is the simplest
int  chr(int lo, int hi);            // inclusive; lo simplest
u32  pick(std::initializer_list<u32> w);  // weighted index; index 0 simplest
struct Rng { u64 s; Rng(u64 x = 1) : s(x) {} u64 next(); u32 below(u32 n) { return n ? (u32)(next() % n) : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); } };
Rng subrng();                        // data generator seeded by one choice

// ---------------------------------------------------------------- log, verdicts, coverage
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_state(u64 h);
void sim_probe(const char *name);    // "this rare condition was hit"
void sim_count(u64 n);               // extra property evaluations in this run
void sim_time_add(double seconds);
[[noreturn]] void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_discard();     // run is not meaningful
u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull);
inline u64 hash_u64(u64 v, u64 h = 1469598103934665603ull) { return hash_bytes(&v, 8, h); }
inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// ---------------------------------------------------------------- allocator
struct AllocCfg {
  bool track = false;       // record live blocks
  bool poison = false;      // fill fresh memory with garbage
  u64 poison_seed = 1;
  int poison_mode = 0;      // 0 pseudo-random bytes, 1: 0x00, 2: 0xff, 3: small ints, 4: 0x01
  long fail_at = -1;        // index (from arming) of the first failing allocation
  long fail_len = 1;        // how many consecutive allocations fail
  long n = 0;               // allocations since arming
  long failed = 0;
  size_t limit = 1ull << 30; // memory of the simulated machine, per request
  long refused = 0;         // requests beyond it
};
extern AllocCfg A;
size_t alloc_live();                         // tracked live blocks
std::string alloc_live_desc(size_t since);   // description of blocks allocated after mark
size_t alloc_mark();
size_t alloc_live_since(size_t mark);
void alloc_reset();
void *raw_malloc(size_t n);
void raw_free(void *p);

// ---------------------------------------------------------------- clock / libc rand
struct ClockCfg {
  std::function<long(long)> step;  // called on every clock() with the call number; returns the increment in ticks
  long now = 0, calls = 0;
  long t = 1700000000; long tcalls = 0;
  bool on = false;
};
extern ClockCfg CK;
extern u64 libc_rand_state; extern long libc_rand_calls, libc_srand_calls;
extern long signal_calls; extern int last_signal_sig; extern void *last_signal_handler;

// ---------------------------------------------------------------- process lifecycle
enum Outcome { O_RETURN, O_EXIT, O_ASSERT, O_ABORT, O_CRASH, O_HANG };
struct Death { Outcome how; int code; std::string msg; };
// Runs fn as a simulated process in this address space: exit(), abort() and a
// failed assert end fn and come back here.
Death sim_guard(const std::function<void()> &fn);
// Runs fn as a simulated process in a forked image: its memory is lost, the simulated disk survives.
Death sim_proc(const std::function<void()> &fn);
[[noreturn]] void sim_process_crash();       // injected kill -9

// ---------------------------------------------------------------- simulated streams and disk
struct ReadPlan {          // how a reader meets the bytes
  int chunk_mode = 0;      // 0 as asked, 1 one byte, 2 random small, 3 half
  int buf_mode = 0;        // 0 default, 1 unbuffered, 2 tiny, 3 large, 4 line
  long eio_at = -1;        // offset at which reads fail
  bool eio_transient = false;
  u64 rs = 1;
};
ReadPlan choose_read_plan(bool faults, size_t len);
FILE *sim_open_bytes(const std::string &data, const ReadPlan &plan);
std::string damage(std::string data, bool *changed, std::string *what);  // torn, truncated, flipped, token level

struct WritePlan {
  int buf_mode = 0;
  long nospace_after = -1;   // bytes the device still takes
  long crash_op = -1;        // kill the process at this write op
  int  crash_part = 0;       // 0 none, 1 half, 2 all of that op reaches the device
  long eio_op = -1;          // this write op fails with EIO
  bool eio_once = false;     // and only this one
  int  short_mode = 0;       // device takes at most this many bytes per op (0 = all)
};
WritePlan choose_write_plan(bool faults);
struct Disk {
  void reset();
  bool exists(const std::string &n);
  std::string get(const std::string &n);
  void put(const std::string &n, const std::string &d);
  void del(const std::string &n);
  std::vector<std::string> list();
  // power loss: keeps a chosen subset of the write operations since the last barrier
  std::string power_loss(const std::string &n);
  void barrier();
};
extern Disk disk;
struct FsCfg { bool on = false; WritePlan wp; ReadPlan rp; bool rp_on = false; int open_fail_at = -1; int opens = 0; bool plan_per_open = false;
  std::function<void(const std::string&)> on_read_open; bool dir_order = false; long wops = 0; bool write_failed = false; };
extern FsCfg FS;
FILE *sim_fopen(const char *name, const char *mode);
int sim_open_files();        // FILEs on the simulated disk not yet closed
void sim_close_all(bool flush);
void sim_hang(const char *where);

// ---------------------------------------------------------------- properties
struct Prop { const char *id; void (*run)(); const char *what; };
extern Prop props[];
extern bool thorough;
bool feq(double a, double b, double rel, double abs = 0);
