// Deterministic simulation runtime: choice source, simulated heap, disk, clock,
// process life cycle (fork/crash/restart), search driver, replay, minimiser.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

static inline u64 mix64(u64 x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
struct Rng { // splitmix64
	u64 s;
	explicit Rng(u64 seed = 0) : s(seed) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	u64 below(u64 n) { return n ? next() % n : 0; }
};

// ---- the choice source: every nondeterministic decision of a run comes from here
u64  draw(u64 n);                 // uniform in [0,n); 0 is always the "simplest" option
bool chance(u32 num, u32 den);    // true with num/den; false is the simple option
struct SeedScope { Rng r, *old; bool zero; SeedScope(u64 seed); ~SeedScope(); }; // inside, draws come from this seed and are not recorded as choices
u64  drawSeed();                  // one draw giving a 62 bit seed; 0 = canonical behaviour
static inline u64 pick(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }

// ---- fault / probe counters (persist in shared memory, aggregated by the driver)
enum Fault {
	F_HEAP_LAYOUT, F_HEAP_JUNK, F_HEAP_MOVE, F_ALLOC_FAIL, F_STACK_JUNK,
	F_SHORT_READ, F_READ_EIO, F_TORN_FILE, F_BITFLIP, F_SHORT_WRITE, F_WRITE_EIO, F_WRITE_ENOSPC,
	F_FLUSH_FAIL, F_CLOSE_FAIL, F_OPEN_FAIL, F_EINTR, F_CLOCK_JUMP_FWD, F_CLOCK_JUMP_BACK,
	F_RAND_SEED, F_CRASH, F_RESTART, F_QSORT_TIE, F_ENV, F_CORRUPT, F_SCHED_FAIL,
	F_COUNT
};
extern const char *const fault_names[F_COUNT];
void fault(Fault f, u64 n = 1);          // record that a fault actually fired
void probe(const char *name, u64 n = 1); // "this condition was reached"

// ---- event log: hash always, text when tracing
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void evt(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // shown when tracing, not an event of the execution
void evHash(u64 h);
extern bool g_trace;

// ---- verdicts
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void discard(const char *why);  // run is trivial / outside the property's precondition
void note_history(u64 h); // hash identifying the interleaving/history explored by this run
void set_nontrivial(bool);
void set_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- simulated machine configuration of one simulated process
struct HeapCfg {
	u64 seed = 0;      // 0: canonical layout
	bool pad = false, junk = false, reuse = false, move = false;
	u8 junkByte = 0;
	i64 failAt = -1;   // k-th allocation fails (-1: never)
	bool failSticky = false;
};
HeapCfg drawHeap();  // draws a layout

struct DiskCfg { // fault plan for simulated files opened while active
	u32 bufsz = 4096;        // stdio buffer size (0 = unbuffered)
	u32 shortMax = 0;        // max bytes a read/write transfers (0 = unlimited)
	i64 readFailAt = -1;     // byte offset at which reads fail with EIO
	i64 writeFailAt = -1;    // total bytes after which writes fail
	int writeErrno = 28;     // ENOSPC
	bool failOnce = false;   // only the first attempt fails (a transient error), later ones succeed
	bool closeFail = false;  // close() reports an error
	bool openFail = false;
	u32 shortSeed = 0;
};
struct SimFile {
	std::string data;
	bool exists = false;
};
struct ClockCfg {
	u64 start = 1000000000ull * 1000000ull; // usec
	u64 step = 10;                           // usec per read
	u64 jumpSeed = 0;                        // 0: no jumps
	u32 jumpEvery = 0;
};

struct SubOut { // result of one simulated process
	enum Kind { OK, EXIT, ASSERT, ABORT, SIGNAL, HANG, OOMEXIT, VIOL, DISCARD } kind = OK;
	int code = 0;
	std::string what;      // "assert file:line: expr", "signal 11 in f", ...
	std::string err;       // captured stderr
	std::vector<std::string> out; // data handed back with sub_put
	std::map<std::string, std::string> disk; // durable files
	u64 allocs = 0, heapHash = 0;
	bool died() const { return kind != OK; }
	std::string cls() const;
};
struct SubCfg {
	HeapCfg heap;
	ClockCfg clock;
	u64 randSeed = 0;
	u64 stackJunk = 0;
	u64 qsortSeed = 0;
	u64 envSeed = 0;
	u32 cpuMs = 8000;
	u64 pid = 4711;
	bool keepAddr = false;
};
// run f as a simulated process (forked; fresh libfirm state); files in `disk` are its
// durable storage at start.  Violations raised inside are propagated.
SubOut run_sub(const SubCfg &cfg, const std::function<void()> &f,
               const std::map<std::string, std::string> &disk = {});
void sub_put(const std::string &s); // return data to the parent
// as run_sub, but any abnormal end is a violation
SubOut run_sub_ok(const SubCfg &cfg, const char *stage, const std::function<void()> &f,
                  const std::map<std::string, std::string> &disk = {});

// ---- things usable inside a simulated process
std::map<std::string, SimFile> &sim_disk();
DiskCfg &sim_diskcfg();
struct DiskStat { u64 reads, writes, opens, closes, openNow, failedReads, failedWrites; };
DiskStat &sim_diskstat();
FILE *sim_open(const char *name, const char *mode); // same seam libfirm's fopen goes to
u64 sim_clock_now();
void sim_clock_set(u64 usec);
ClockCfg &sim_clockcfg();
u64 sim_clock_reads();
u64 sim_alloc_count();
void sim_alloc_fail_at(i64 k, bool sticky);
void sim_heap_check(const char *where);
enum { SC_GETAFF = 1, SC_GETSCHED = 2, SC_GETPARAM = 4, SC_SETAFF = 8, SC_SETSCHED = 16, SC_SETPARAM = 32 };
extern int g_sched_fail;              // mask of the scheduling system calls that fail
struct SchedState { int policy = 0, prio = 0; u64 affinity = 0xff; bool operator==(const SchedState &o) const { return policy == o.policy && prio == o.prio && affinity == o.affinity; } };
SchedState &sim_sched();
extern u64 g_seam_reads; // clock/env/pid/rand reads seen

u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
static inline u64 fnvs(const std::string &s) { return fnv(s.data(), s.size()); }
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern std::string g_scratch; // per worker scratch directory
extern bool g_thorough;

// ---- property registry
struct Prop {
	const char *id;
	void (*scenario)();
	u64 quickRuns, thoroughRuns;
	const char *level;
	const char *rule;
	std::vector<std::string> assumptions;
	const char *real, *stub;
	u32 shards = 1;
};
void register_prop(const Prop &p);
#define REG_CAT2(a, b) a##b
#define REG_CAT(a, b) REG_CAT2(a, b)
#define REGISTER(...) static int REG_CAT(_reg_, __COUNTER__) = (register_prop(Prop{__VA_ARGS__}), 0)
