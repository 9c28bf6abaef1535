// Simulation runtime: seams, fault injection, simulated processes, search driver,
// replay and minimisation.  See DESIGN.md, section "The simulator".
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.h"
#include <algorithm>
#include <csignal>
#include <cstdlib>
#include <errno.h>
#include <elf.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

const char *const fault_names[F_COUNT] = {
	"heap_layout", "heap_junk", "heap_move", "alloc_fail", "stack_junk",
	"short_read", "read_error", "torn_file", "bit_flip", "short_write", "write_eio", "write_enospc",
	"flush_fail", "close_fail", "open_fail", "eintr", "clock_jump_fwd", "clock_jump_back",
	"rand_seed", "crash", "restart", "qsort_tie", "env", "graph_corruption", "sched_syscall_fail",
};

// ------------------------------------------------------------------ shared memory
enum { CH_MAX = 1 << 18, OUT_MAX = 24 << 20, PROBES = 192, PROBE_LEN = 56 };
struct Verdict { int kind; char cls[512]; char msg[8192]; }; // 0 none,1 violation,2 discard
struct Shm {
	volatile int stop;
	volatile u64 minViol;
	u64 seed;
	u64 nch;
	u64 evHash, evCount;
	u64 faults[F_COUNT];
	struct { char name[PROBE_LEN]; u64 n; } probes[PROBES];
	u64 simTime;
	u64 hist; int nontrivial; u64 subs;
	char sample[4096];
	Verdict verdict;
	int subKind, subCode; char subWhat[2048];
	u64 subAllocs, subHeapHash, subPc, subPcs[16];
	u64 outLen;
	u64 choices[CH_MAX];
	u64 bounds[CH_MAX];
	u8 out[OUT_MAX];
};
static Shm *S;
static u64 *g_replay; static u64 g_replayN; static bool g_isReplay;
bool g_trace; static FILE *g_traceF;
std::string g_scratch; bool g_thorough;
static bool in_sub;

u64 fnv(const void *p, size_t n, u64 h)
{
	const u8 *b = (const u8 *)p;
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
std::string strf(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	char *b = nullptr; int n = vasprintf(&b, fmt, ap); va_end(ap);
	std::string s(b, n); free(b); return s;
}
static Rng *g_scope; static bool g_scopeZero;
SeedScope::SeedScope(u64 seed) : r(seed), old(g_scope), zero(g_scopeZero) { g_scope = &r; g_scopeZero = !seed; }
SeedScope::~SeedScope() { g_scope = old; g_scopeZero = zero; }
u64 draw(u64 n)
{
	if (g_scope) { u64 v = g_scopeZero ? 0 : g_scope->next(); return n ? v % n : v; }
	u64 i = S->nch;
	if (i >= CH_MAX) discard("choice budget exhausted");
	u64 v;
	if (g_isReplay) { v = i < g_replayN ? g_replay[i] : 0; if (n && v >= n) v = n - 1; }
	else { v = mix64(S->seed ^ mix64(i + 0x51ed)); if (n) v %= n; }
	S->choices[i] = v; S->bounds[i] = n;
	S->nch = i + 1;
	return v;
}
bool chance(u32 num, u32 den) { return draw(den) >= den - num; }
u64 drawSeed() { return draw(1ull << 62); }
void fault(Fault f, u64 n) { S->faults[f] += n; }
void probe(const char *name, u64 n)
{
	for (int i = 0; i < PROBES; ++i) {
		if (!S->probes[i].name[0]) { strncpy(S->probes[i].name, name, PROBE_LEN - 1); S->probes[i].n = n; return; }
		if (!strncmp(S->probes[i].name, name, PROBE_LEN - 1)) { S->probes[i].n += n; return; }
	}
}
void evHash(u64 h) { S->evHash = mix64(S->evHash ^ h); S->evCount++; }
void ev(const char *fmt, ...)
{
	char b[2048]; va_list ap; va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n > (int)sizeof b - 1) n = sizeof b - 1;
	evHash(fnv(b, n));
	if (g_trace && g_traceF) { fprintf(g_traceF, "  [%llu] %s\n", (unsigned long long)S->evCount, b); fflush(g_traceF); }
}
void evt(const char *fmt, ...)
{
	if (!g_trace || !g_traceF) return;
	va_list ap; va_start(ap, fmt); fprintf(g_traceF, "  [-] "); vfprintf(g_traceF, fmt, ap); fprintf(g_traceF, "\n"); va_end(ap); fflush(g_traceF);
}
static void hand_back_disk();
static int err_fd = -1;
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(S->verdict.msg, sizeof S->verdict.msg, fmt, ap); va_end(ap);
	snprintf(S->verdict.cls, sizeof S->verdict.cls, "%s", cls);
	for (char *p = S->verdict.cls; *p; ++p) if (*p == '\n') *p = ' ';
	if (in_sub) {
		fflush(stderr); char b[1500]; off_t n = lseek(err_fd, 0, SEEK_END); off_t o = n > 1400 ? n - 1400 : 0; ssize_t k = pread(err_fd, b, 1400, o);
		if (k > 0) { b[k] = 0; size_t l = strlen(S->verdict.msg); snprintf(S->verdict.msg + l, sizeof S->verdict.msg - l, "\nstderr: %s", b); }
	}
	S->verdict.kind = 1;
	ev("VIOLATION %s", cls);
	_exit(77);
}
[[noreturn]] void discard(const char *why)
{
	S->verdict.kind = 2;
	snprintf(S->verdict.cls, sizeof S->verdict.cls, "%s", why);
	probe(strf("discard: %s", why).c_str());
	_exit(78);
}
void note_history(u64 h) { S->hist = mix64(S->hist ^ h); }
void set_nontrivial(bool b) { S->nontrivial = b; }
void set_sample(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	vsnprintf(S->sample, sizeof S->sample, fmt, ap); va_end(ap);
}

// ------------------------------------------------------------------ simulated heap
static const u64 HEAP_BASE = 0x100000000000ull;
static const u64 HEAP_SIZE = 1536ull << 20;
struct Hdr { u64 size; u32 cap16; u32 magic; Hdr *next; u64 serial; }; // 32 bytes
static struct {
	bool on; HeapCfg cfg; Rng rng; u8 *cur, *end; Hdr *bins[66]; Hdr *big;
	u64 count, frees, hash, live; bool failed; i64 failAt; bool sticky; i64 crashAt;
	u64 serial;
} H;
enum { M_LIVE = 0x11fe11fe, M_FREE = 0xdeadf4ee };
static const u64 CANARY = 0xc0ffee0ddba11c0dull;
HeapCfg drawHeap()
{
	HeapCfg c;
	c.seed = drawSeed();
	if (c.seed) {
		Rng r(mix64(c.seed));
		c.pad = r.below(4) != 0; c.reuse = r.below(2); c.move = r.below(2); c.junk = r.below(4) != 0;
		c.junkByte = (u8)r.next();
	}
	return c;
}
static void heap_start(const HeapCfg &c)
{
	memset(&H, 0, sizeof H);
	void *p = mmap((void *)HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE,
	               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	if (p == MAP_FAILED) { perror("sim heap"); _exit(79); }
	H.cfg = c; H.rng = Rng(mix64(c.seed ^ 0x4ea9));
	H.cur = (u8 *)p; H.end = H.cur + HEAP_SIZE;
	if (c.seed) { H.cur += 16 * H.rng.below(1 << 20); fault(F_HEAP_LAYOUT); if (c.junk) fault(F_HEAP_JUNK); }
	H.failAt = c.failAt; H.sticky = c.failSticky; H.crashAt = -1;
	H.on = true;
}
u64 sim_alloc_count() { return H.count; }
void sim_alloc_fail_at(i64 k, bool sticky) { H.failAt = k; H.sticky = sticky; }
[[noreturn]] static void sub_end(int kind, int code, const char *what);
[[noreturn]] static void heap_corrupt(const char *what)
{
	char b[200]; snprintf(b, sizeof b, "heap corruption: %s", what);
	sub_end(SubOut::ABORT, 0, b);
}
static inline bool in_heap(const void *p) { return (u64)p >= HEAP_BASE && (u64)p < HEAP_BASE + HEAP_SIZE; }
static void chk(Hdr *h, const char *op)
{
	if (!in_heap(h)) heap_corrupt(strf("%s of a pointer that was never allocated", op).c_str());
	if (h->magic == M_FREE) heap_corrupt(strf("double free / %s of freed block", op).c_str());
	if (h->magic != M_LIVE) heap_corrupt(strf("%s: block header overwritten or bad pointer", op).c_str());
	u64 c; memcpy(&c, (u8 *)(h + 1) + h->size, 8);
	if (c != CANARY) heap_corrupt(strf("%s: write past the end of a block", op).c_str());
}
static FILE *alloc_trace; static std::string symname(u64 pc); // debugging aid: SIMALLOC=prefix with --only
static void trace_alloc(size_t n)
{
	fprintf(alloc_trace, "%zu", n); u64 *fp = (u64 *)__builtin_frame_address(1);
	for (int i = 0; i < 14 && (u64)fp > 0x300000000000ull && (u64)fp < 0x300000000000ull + (96ull << 20) - 64; ++i) { fprintf(alloc_trace, " %s", symname(fp[1] - 1).c_str()); fp = (u64 *)fp[0]; }
	fputc('\n', alloc_trace);
}
extern "C" void *sim_malloc(size_t n)
{
	if (!H.on) return malloc(n);
	u64 k = H.count++;
	H.hash = mix64(H.hash ^ n);
	if (__builtin_expect(alloc_trace != nullptr, 0)) trace_alloc(n);
	if (H.failAt >= 0 && ((i64)k == H.failAt || (H.sticky && (i64)k > H.failAt))) {
		if (!H.failed) { fault(F_ALLOC_FAIL); ev("alloc #%llu (%zu bytes) fails", (unsigned long long)k, n); }
		H.failed = true; errno = ENOMEM; return nullptr;
	}
	u64 cap = (n + 8 + 15) / 16; if (cap == 0) cap = 1;
	Hdr *h = nullptr;
	bool tryReuse = !(H.cfg.reuse && H.rng.below(3) == 0);
	Hdr **bin = cap < 65 ? &H.bins[cap] : &H.big;
	if (tryReuse) {
		Hdr **pp = bin;
		int skip = H.cfg.reuse ? (int)H.rng.below(4) : 0;
		for (Hdr **q = bin; *q; q = &(*q)->next) {
			if ((*q)->cap16 == cap || (cap >= 65 && (*q)->cap16 >= cap && (*q)->cap16 <= 2 * cap)) {
				pp = q; h = *q; if (skip-- <= 0) break;
			}
		}
		if (h) *pp = h->next;
	}
	if (!h) {
		u64 pad = 0;
		if (H.cfg.pad) pad = H.rng.below(8) ? H.rng.below(16) * 16 : H.rng.below(600) * 16;
		if (H.cur + pad + sizeof(Hdr) + cap * 16 > H.end) {
			sub_end(SubOut::HANG, 0, "memory: simulated heap of 1.5 GB exhausted");
		}
		h = (Hdr *)(H.cur + pad);
		H.cur += pad + sizeof(Hdr) + cap * 16;
		h->cap16 = (u32)cap;
	}
	h->size = n; h->magic = M_LIVE; h->next = nullptr; h->serial = k;
	u8 *p = (u8 *)(h + 1);
	if (H.cfg.junk) memset(p, H.cfg.junkByte, n);
	memcpy(p + n, &CANARY, 8);
	H.live++;
	return p;
}
extern "C" void sim_free(void *p)
{
	if (!H.on) { free(p); return; }
	if (!p) return;
	Hdr *h = (Hdr *)p - 1;
	chk(h, "free");
	memset(p, H.cfg.seed ? 0xDD ^ H.cfg.junkByte : 0xDD, h->size);
	h->magic = M_FREE;
	Hdr **bin = h->cap16 < 65 ? &H.bins[h->cap16] : &H.big;
	h->next = *bin; *bin = h;
	H.live--; H.frees++;
}
extern "C" void *sim_realloc(void *p, size_t n)
{
	if (!H.on) return realloc(p, n);
	if (!p) return sim_malloc(n);
	Hdr *h = (Hdr *)p - 1;
	chk(h, "realloc");
	bool fits = (n + 8 + 15) / 16 <= h->cap16;
	if (fits && !(H.cfg.move && H.rng.below(2))) {
		H.count++; H.hash = mix64(H.hash ^ n ^ 0x7ea1);
		u64 k = H.count - 1;
		if (H.failAt >= 0 && ((i64)k == H.failAt || (H.sticky && (i64)k > H.failAt))) {
			if (!H.failed) { fault(F_ALLOC_FAIL); ev("realloc #%llu (%zu bytes) fails", (unsigned long long)k, n); }
			H.failed = true; errno = ENOMEM; return nullptr;
		}
		if (n > h->size && H.cfg.junk) memset((u8 *)p + h->size, H.cfg.junkByte, n - h->size);
		h->size = n; memcpy((u8 *)p + n, &CANARY, 8);
		return p;
	}
	void *q = sim_malloc(n);
	if (!q) return nullptr;
	memcpy(q, p, h->size < n ? h->size : n);
	sim_free(p);
	if (fits) fault(F_HEAP_MOVE);
	return q;
}
extern "C" void *sim_calloc(size_t a, size_t b)
{
	if (!H.on) return calloc(a, b);
	void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
void sim_heap_check(const char *) {}

// ------------------------------------------------------------------ qsort, rand, clock, env
static u64 q_seed; static Rng q_rng;
extern "C" void sim_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	if (n < 2) return;
	std::vector<u32> idx(n);
	for (size_t i = 0; i < n; ++i) idx[i] = (u32)i;
	u8 *b = (u8 *)base;
	if (q_seed) { // C leaves the order of equal elements open: permute, then sort stably
		fault(F_QSORT_TIE);
		for (size_t i = n - 1; i > 0; --i) std::swap(idx[i], idx[q_rng.below(i + 1)]);
	}
	// simple merge sort: tolerates inconsistent comparison functions
	std::vector<u32> tmp(n);
	for (size_t w = 1; w < n; w *= 2) {
		for (size_t i = 0; i < n; i += 2 * w) {
			size_t l = i, m = std::min(i + w, n), r = m, e = std::min(i + 2 * w, n), o = i;
			while (l < m && r < e) tmp[o++] = cmp(b + (size_t)idx[l] * sz, b + (size_t)idx[r] * sz) <= 0 ? idx[l++] : idx[r++];
			while (l < m) tmp[o++] = idx[l++];
			while (r < e) tmp[o++] = idx[r++];
		}
		idx.swap(tmp);
	}
	std::vector<u8> out(n * sz);
	for (size_t i = 0; i < n; ++i) memcpy(&out[i * sz], b + (size_t)idx[i] * sz, sz);
	memcpy(b, out.data(), n * sz);
}
u64 g_seam_reads;
static u64 r_seed; static Rng r_rng;
extern "C" int sim_rand(void) { g_seam_reads++; return (int)(r_rng.next() & 0x7fffffff); }
extern "C" void sim_srand(unsigned s) { r_rng = Rng(mix64(r_seed ^ s)); }
static ClockCfg C; static u64 c_now, c_reads; static Rng c_rng;
u64 sim_clock_now() { return c_now; }
void sim_clock_set(u64 u) { c_now = u; }
ClockCfg &sim_clockcfg() { return C; }
u64 sim_clock_reads() { return c_reads; }
static u64 clock_tick()
{
	g_seam_reads++; c_reads++;
	c_now += C.step; S->simTime += C.step;
	if (C.jumpSeed && C.jumpEvery && c_rng.below(C.jumpEvery) == 0) {
		u64 d = c_rng.next() % (3600ull * 1000000 * 48);
		if (c_rng.below(2)) { c_now += d; fault(F_CLOCK_JUMP_FWD); S->simTime += d; }
		else { c_now -= std::min(d, c_now / 2); fault(F_CLOCK_JUMP_BACK); }
		ev("clock jump to %llu", (unsigned long long)c_now);
	}
	return c_now;
}
extern "C" int sim_gettimeofday(struct timeval *tv, void *)
{
	u64 t = clock_tick(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
extern "C" int sim_clock_gettime(int, struct timespec *ts)
{
	u64 t = clock_tick(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
extern "C" time_t sim_time(time_t *p) { time_t t = clock_tick() / 1000000; if (p) *p = t; return t; }
extern "C" long sim_clock(void) { return (long)clock_tick(); }
static u64 e_seed, p_pid;
extern "C" char *sim_getenv(const char *n)
{
	g_seam_reads++;
	if (!e_seed) return nullptr;
	static char b[64]; u64 h = mix64(e_seed ^ fnv(n, strlen(n)));
	fault(F_ENV);
	if (h % 3 == 0) return nullptr;
	snprintf(b, sizeof b, "%llx", (unsigned long long)h); return b;
}
extern "C" int sim_getpid(void) { g_seam_reads++; return (int)p_pid; }
int g_sched_fail; static SchedState SS; SchedState &sim_sched() { return SS; }
static bool sfail(int k) { if (g_sched_fail & k) { fault(F_SCHED_FAIL); ev("scheduling call %d fails", k); errno = EPERM; return true; } return false; }
struct sim_sched_param { int p; };
extern "C" int sim_sched_get_priority_max(int pol) { if (pol < 0) { errno = EINVAL; return -1; } return pol == 1 || pol == 2 ? 99 : 0; }
extern "C" int sim_sched_getscheduler(int) { return sfail(SC_GETSCHED) ? -1 : SS.policy; }
extern "C" int sim_sched_setscheduler(int, int pol, const void *sp) { if (sfail(SC_SETSCHED)) return -1; int pr = ((const sim_sched_param *)sp)->p; if (pol ? pr < 1 || pr > 99 : pr) { errno = EINVAL; return -1; } SS.policy = pol; SS.prio = pr; return 0; }
extern "C" int sim_sched_getparam(int, void *sp) { if (sfail(SC_GETPARAM)) return -1; ((sim_sched_param *)sp)->p = SS.prio; return 0; }
extern "C" int sim_sched_setparam(int, const void *sp) { if (sfail(SC_SETPARAM)) return -1; int pr = ((const sim_sched_param *)sp)->p; if (SS.policy ? pr < 1 || pr > 99 : pr) { errno = EINVAL; return -1; } SS.prio = pr; return 0; }
extern "C" int sim_sched_getaffinity(int, size_t n, void *m) { if (sfail(SC_GETAFF)) return -1; memset(m, 0, n); memcpy(m, &SS.affinity, 8); return 0; }
extern "C" int sim_sched_setaffinity(int, size_t n, const void *m) { if (sfail(SC_SETAFF)) return -1; SS.affinity = 0; memcpy(&SS.affinity, m, n < 8 ? n : 8); return 0; }

// ------------------------------------------------------------------ simulated disk
static std::map<std::string, SimFile> D; static DiskCfg DC; static DiskStat DS;
std::map<std::string, SimFile> &sim_disk() { return D; }
DiskCfg &sim_diskcfg() { return DC; }
DiskStat &sim_diskstat() { return DS; }
struct Cookie { std::string name; size_t pos; DiskCfg cfg; bool w; bool failedOnce; Rng rng; bool append; size_t total; };
[[noreturn]] static void sub_hang(const char *);
static ssize_t ck_read(void *c, char *buf, size_t n)
{
	Cookie *k = (Cookie *)c; SimFile &f = D[k->name];
	DS.reads++;
	if (k->cfg.shortMax && n > k->cfg.shortMax) {
		size_t m = 1 + k->rng.below(k->cfg.shortMax); if (m < n && k->pos + m < f.data.size()) fault(F_SHORT_READ); n = std::min(n, m);
	}
	if (k->cfg.readFailAt >= 0 && !(k->cfg.failOnce && k->failedOnce)) {
		if ((i64)k->pos >= k->cfg.readFailAt) {
			k->failedOnce = true; fault(F_READ_EIO); DS.failedReads++;
			ev("read %s at %zu: EIO", k->name.c_str(), k->pos); errno = EIO; return -1;
		}
		n = std::min(n, (size_t)(k->cfg.readFailAt - k->pos));
	}
	if (k->pos >= f.data.size()) return 0;
	n = std::min(n, f.data.size() - k->pos);
	memcpy(buf, f.data.data() + k->pos, n); k->pos += n;
	return n;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
	Cookie *k = (Cookie *)c; SimFile &f = D[k->name];
	if (++DS.writes > 3000000) sub_hang("hang: more than 3000000 write calls");
	if (k->cfg.writeFailAt >= 0 && !(k->cfg.failOnce && k->failedOnce)) {
		size_t room = (i64)k->total >= k->cfg.writeFailAt ? 0 : (size_t)k->cfg.writeFailAt - k->total;
		if (room < n) {
			fault(k->cfg.writeErrno == EIO ? F_WRITE_EIO : k->cfg.writeErrno == EINTR ? F_EINTR : F_WRITE_ENOSPC);
			if (room) fault(F_SHORT_WRITE);
			DS.failedWrites++; k->failedOnce = true;
			if (room) ev("write %s at %zu: error %d after %zu bytes", k->name.c_str(), k->total, k->cfg.writeErrno, room);
			if (room == 0) { errno = k->cfg.writeErrno; return 0; }
			n = room;
		}
	}
	// stdio continues after a short write(2); the cookie interface reports the sum
	if (k->cfg.shortMax && n > k->cfg.shortMax) fault(F_SHORT_WRITE, (n + k->cfg.shortMax - 1) / k->cfg.shortMax);
	if (f.data.size() < k->pos) f.data.resize(k->pos);
	f.data.replace(k->pos, std::min(n, f.data.size() - k->pos), std::string(buf, n));
	k->pos += n; k->total += n;
	return n;
}
static int ck_seek(void *c, off64_t *o, int w)
{
	Cookie *k = (Cookie *)c; SimFile &f = D[k->name];
	i64 p = w == SEEK_SET ? *o : w == SEEK_CUR ? (i64)k->pos + *o : (i64)f.data.size() + *o;
	if (p < 0) { errno = EINVAL; return -1; }
	k->pos = p; *o = p; return 0;
}
static int ck_close(void *c)
{
	Cookie *k = (Cookie *)c; bool bad = k->cfg.closeFail; DS.closes++; DS.openNow--;
	if (bad) { fault(F_CLOSE_FAIL); ev("close %s: EIO", k->name.c_str()); }
	delete k;
	if (bad) { errno = EIO; return -1; }
	return 0;
}
extern "C" FILE *sim_fopen(const char *name, const char *mode)
{
	if (!H.on && !in_sub) return fopen(name, mode);
	DS.opens++;
	if (DC.openFail) { fault(F_OPEN_FAIL); ev("open %s fails", name); errno = EACCES; return nullptr; }
	bool w = strchr(mode, 'w') || strchr(mode, 'a');
	SimFile &f = D[name];
	if (!w && !f.exists) { D.erase(name); errno = ENOENT; return nullptr; }
	if (strchr(mode, 'w')) f.data.clear();
	f.exists = true;
	Cookie *k = new Cookie{name, strchr(mode, 'a') ? f.data.size() : 0, DC, w, false, Rng(mix64(DC.shortSeed + 77)), false, 0};
	cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
	FILE *F = fopencookie(k, mode, io);
	if (DC.bufsz == 0) setvbuf(F, nullptr, _IONBF, 0);
	else setvbuf(F, (char *)malloc(DC.bufsz), _IOFBF, DC.bufsz);
	DS.openNow++;
	return F;
}
FILE *sim_open(const char *n, const char *m) { return sim_fopen(n, m); }

// ------------------------------------------------------------------ simulated processes
static bool sub_ending;
static void put_bytes(const void *p, size_t n)
{
	if (S->outLen + n > OUT_MAX) { S->verdict.kind = 2; snprintf(S->verdict.cls, 64, "output too large"); _exit(78); }
	memcpy(S->out + S->outLen, p, n); S->outLen += n;
}
static void put_rec(char tag, const std::string &a, const std::string &b)
{
	u64 la = a.size(), lb = b.size();
	put_bytes(&tag, 1); put_bytes(&la, 8); put_bytes(a.data(), la); put_bytes(&lb, 8); put_bytes(b.data(), lb);
}
void sub_put(const std::string &s) { put_rec('o', s, ""); }
static void hand_back_disk() { for (auto &kv : D) if (kv.second.exists) put_rec('d', kv.first, kv.second.data); }
[[noreturn]] static void sub_end(int kind, int code, const char *what)
{
	if (sub_ending) _exit(70);
	sub_ending = true;
	S->subKind = kind; S->subCode = code; snprintf(S->subWhat, sizeof S->subWhat, "%s", what);
	S->subAllocs = H.count; S->subHeapHash = H.hash;
	H.on = false;
	hand_back_disk();
	_exit(71);
}
[[noreturn]] static void sub_hang(const char *w) { sub_end(SubOut::HANG, 0, w); }
void sim_crash_now(const char *what) { fault(F_CRASH); ev("crash: %s", what); sub_end(SubOut::EXIT, -1, what); }
extern "C" [[noreturn]] void sim_exit(int c)
{
	if (!in_sub) exit(c);
	fflush(nullptr);
	sub_end(SubOut::EXIT, c, "exit");
}
#define GRAB_BT() do { \
	u64 *fp = (u64 *)__builtin_frame_address(0); S->subPc = (u64)__builtin_return_address(0); \
	for (int i = 0; i < 16; ++i) { S->subPcs[i] = 0; if (!fp || ((u64)fp & 7) || (u64)fp < 4096) continue; S->subPcs[i] = fp[1]; u64 *nf = (u64 *)fp[0]; fp = nf > fp && nf < fp + (1 << 20) ? nf : nullptr; } \
} while (0)
extern "C" [[noreturn]] void sim_abort(void)
{
	if (!in_sub) abort();
	GRAB_BT();
	sub_end(SubOut::ABORT, 0, "abort");
}
extern "C" [[noreturn]] void sim_assert_fail(const char *e, const char *f, unsigned line, const char *fn)
{
	const char *b = strstr(f, "ir/"); if (!b) b = f;
	GRAB_BT(); (void)line; (void)fn;
	char w[1024]; snprintf(w, sizeof w, "assert %s: %s", b, e);
	if (!in_sub) { fprintf(stderr, "%s\n", w); abort(); }
	sub_end(SubOut::ASSERT, 0, w);
}
struct Sym { u64 a, e; std::string n; };
static std::vector<Sym> syms;
static void load_syms()
{
	int fd = open("/proc/self/exe", O_RDONLY); struct stat st; fstat(fd, &st);
	u8 *m = (u8 *)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
	if (m == MAP_FAILED) return;
	Elf64_Ehdr *eh = (Elf64_Ehdr *)m; Elf64_Shdr *sh = (Elf64_Shdr *)(m + eh->e_shoff);
	for (int i = 0; i < eh->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
		Elf64_Sym *y = (Elf64_Sym *)(m + sh[i].sh_offset); const char *str = (char *)m + sh[sh[i].sh_link].sh_offset;
		for (u64 j = 0; j < sh[i].sh_size / sizeof *y; ++j)
			if (ELF64_ST_TYPE(y[j].st_info) == STT_FUNC && y[j].st_size) syms.push_back({y[j].st_value, y[j].st_value + y[j].st_size, str + y[j].st_name});
	}
	munmap(m, st.st_size);
	std::sort(syms.begin(), syms.end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
static std::string symname(u64 pc)
{
	size_t lo = 0, hi = syms.size();
	while (lo < hi) { size_t m = (lo + hi) / 2; if (syms[m].a <= pc) lo = m + 1; else hi = m; }
	if (lo && pc < syms[lo - 1].e) { std::string n = syms[lo - 1].n; size_t d = n.find('.'); if (d != std::string::npos && d) n = n.substr(0, d); return n; }
	return "?";
}
static u8 *altst;
static void on_sig(int sig, siginfo_t *, void *uc)
{
	ucontext_t *u = (ucontext_t *)uc;
	S->subPc = u->uc_mcontext.gregs[REG_RIP];
	u64 *fp = (u64 *)u->uc_mcontext.gregs[REG_RBP];
	u64 sp = u->uc_mcontext.gregs[REG_RSP];
	for (int i = 0; i < 16; ++i) {
		S->subPcs[i] = 0;
		if ((u64)fp < sp || (u64)fp > sp + (64u << 20) || ((u64)fp & 7)) continue;
		S->subPcs[i] = fp[1]; fp = (u64 *)fp[0];
	}
	if (sig == SIGPROF) sub_end(SubOut::HANG, 0, "hang: CPU limit of the simulated process exceeded");
	char b[64]; snprintf(b, sizeof b, "signal %d", sig);
	sub_end(SubOut::SIGNAL, sig, b);
}
static ucontext_t uc_main, uc_sub; static const std::function<void()> *sub_fn;
static void sub_tramp() { (*sub_fn)(); }
static const u64 STK_BASE = 0x300000000000ull; static const u64 STK_SIZE = 96ull << 20;
std::string SubOut::cls() const
{
	std::string w = what;
	return w;
}
SubOut run_sub(const SubCfg &cfg, const std::function<void()> &f, const std::map<std::string, std::string> &disk)
{
	S->outLen = 0; S->subKind = -1; S->subWhat[0] = 0; S->subPc = 0; memset(S->subPcs, 0, sizeof S->subPcs); S->subs++;
	S->subAllocs = S->subHeapHash = 0;
	u64 evh0 = S->evHash, evc0 = S->evCount, hist0 = S->hist;
	if (err_fd < 0) err_fd = memfd_create("err", 0);
	if (ftruncate(err_fd, 0)) {}
	lseek(err_fd, 0, SEEK_SET);
	fflush(nullptr);
	pid_t pid = fork();
	if (pid < 0) { fprintf(stderr, "sim: fork: %s\n", strerror(errno)); _exit(79); }
	if (pid == 0) {
		in_sub = true; sub_ending = false;
		dup2(err_fd, 2); dup2(err_fd, 1);
		D.clear(); for (auto &kv : disk) { D[kv.first].data = kv.second; D[kv.first].exists = true; }
		DC = DiskCfg(); memset(&DS, 0, sizeof DS);
		C = cfg.clock; c_now = C.start; c_reads = 0; c_rng = Rng(mix64(C.jumpSeed ^ 0xc10c)); g_seam_reads = 0;
		r_seed = cfg.randSeed; r_rng = Rng(mix64(r_seed ^ 1)); if (r_seed) fault(F_RAND_SEED);
		q_seed = cfg.qsortSeed; q_rng = Rng(mix64(q_seed)); e_seed = cfg.envSeed; p_pid = cfg.pid;
		g_sched_fail = 0; SS = SchedState();
		if (!altst) altst = (u8 *)mmap(0, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altst; ss.ss_size = 1 << 17; sigaltstack(&ss, 0);
		struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
		for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGPROF, SIGTRAP}) sigaction(s, &sa, 0);
		itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cfg.cpuMs / 1000; it.it_value.tv_usec = (cfg.cpuMs % 1000) * 1000;
		setitimer(ITIMER_PROF, &it, 0);
		rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		void *st = mmap((void *)STK_BASE, STK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		if (st == MAP_FAILED) _exit(79);
		mprotect(st, 65536, PROT_NONE);
		if (cfg.stackJunk) { fault(F_STACK_JUNK); Rng r(mix64(cfg.stackJunk)); u64 v = r.next(); u64 *e = (u64 *)(STK_BASE + STK_SIZE); for (u64 i = 1; i < (192 << 10) / 8; ++i) e[-(i64)i] = v; }
		heap_start(cfg.heap);
		if (g_trace) if (const char *at = getenv("SIMALLOC")) alloc_trace = fopen(strf("%s.%llu", at, (unsigned long long)S->subs).c_str(), "w");
		getcontext(&uc_sub); uc_sub.uc_stack.ss_sp = st; uc_sub.uc_stack.ss_size = STK_SIZE - (cfg.stackJunk ? 16 * (cfg.stackJunk % 64) : 0); uc_sub.uc_link = &uc_main;
		sub_fn = &f;
		makecontext(&uc_sub, sub_tramp, 0);
		swapcontext(&uc_main, &uc_sub);
		sub_end(SubOut::OK, 0, "");
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	SubOut o;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) _exit(77);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 78) _exit(78);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 79) _exit(79);
	{ off_t n = lseek(err_fd, 0, SEEK_END); if (n > 20000) n = 20000; o.err.resize(n); if (pread(err_fd, &o.err[0], n, 0) < 0) {} }
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 71)) {
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "sim: simulated process killed from outside\n"); _exit(79); }
		o.kind = SubOut::SIGNAL; o.code = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st);
		o.what = strf("died (status %x)", st);
	} else {
		o.kind = (SubOut::Kind)S->subKind; o.code = S->subCode; o.what = S->subWhat;
	}
	if (o.kind == SubOut::SIGNAL) o.what += " in " + symname(S->subPc);
	if (o.kind == SubOut::HANG && S->subPc) o.what += "";
	if (o.kind == SubOut::ABORT && o.what == "abort") {
		std::string l = o.err; size_t p = l.find("libFirm panic"); 
		if (p != std::string::npos) { size_t b = l.rfind('\n', p); l = l.substr(b == std::string::npos ? 0 : b + 1); size_t i = l.find("ir/"); if (i != std::string::npos && i < 200) l = l.substr(i); }
		else { while (l.size() && l.back() == '\n') l.pop_back(); size_t b = l.rfind('\n'); if (b != std::string::npos) l = l.substr(b + 1); }
		size_t nl = l.find('\n'); if (nl != std::string::npos) l = l.substr(0, nl);
		// strip numbers so that the class is stable
		std::string c; for (size_t i = 0; i < l.size(); ++i) { if (isdigit((u8)l[i])) { c += '#'; while (i + 1 < l.size() && isdigit((u8)l[i + 1])) ++i; } else c += l[i]; }
		o.what = "abort: " + c.substr(0, 240);
	}
	if (o.died() && S->subPcs[0]) { o.err += "\nbacktrace: " + symname(S->subPc); for (int i = 0; i < 16; ++i) if (S->subPcs[i]) o.err += " <- " + symname(S->subPcs[i] - 1); o.err += "\n"; }
	o.allocs = S->subAllocs; o.heapHash = S->subHeapHash;
	if (o.kind == SubOut::HANG) { // where the CPU limit struck is not part of the execution
		S->evHash = evh0; S->evCount = evc0; S->hist = hist0; S->outLen = 0; o.allocs = o.heapHash = 0; o.err = "";
	}
	u64 p = 0;
	while (p < S->outLen) {
		char tag = S->out[p++]; u64 la, lb; memcpy(&la, S->out + p, 8); p += 8; std::string a((char *)S->out + p, la); p += la;
		memcpy(&lb, S->out + p, 8); p += 8; std::string b((char *)S->out + p, lb); p += lb;
		if (tag == 'o') o.out.push_back(a); else o.disk[a] = b;
	}
	evHash(o.heapHash ^ o.allocs ^ fnvs(o.what));
	ev("process ended: %s (%llu allocations)", o.kind == SubOut::OK ? "ok" : o.what.c_str(), (unsigned long long)o.allocs);
	return o;
}
static std::string tail(const std::string &s, size_t n) { return s.size() > n ? s.substr(s.size() - n) : s; }
SubOut run_sub_ok(const SubCfg &cfg, const char *stage, const std::function<void()> &f, const std::map<std::string, std::string> &disk)
{
	SubOut o = run_sub(cfg, f, disk);
	if (o.kind == SubOut::HANG && o.what[0] == 'm') discard("memory limit");
	if (o.died()) violation(strf("%s: %s", stage, o.what.c_str()).c_str(), "simulated process died during %s: %s\n%s", stage, o.what.c_str(), tail(o.err, 3000).c_str());
	return o;
}

// ------------------------------------------------------------------ driver
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void register_prop(const Prop &p) { props().push_back(p); }
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct RunRes { int kind; std::string cls, msg; u64 evHash, evCount, nch, hist; bool nontrivial; std::string sample; };
// run one scenario in a child; choices are left in S->choices
static RunRes run_one(const Prop &p, u64 seed, const std::vector<u64> *replay)
{
	S->seed = seed; S->nch = 0; S->evHash = 0; S->evCount = 0; S->verdict.kind = 0; S->verdict.msg[0] = S->verdict.cls[0] = 0;
	S->hist = 0; S->nontrivial = 0; S->sample[0] = 0;
	g_isReplay = replay != nullptr; if (replay) { g_replay = (u64 *)replay->data(); g_replayN = replay->size(); }
	pid_t pid = fork();
	if (pid < 0) { perror("sim: fork"); _exit(2); }
	if (pid == 0) { p.scenario(); _exit(0); }
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	RunRes r; r.kind = 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) r.kind = 1;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) r.kind = 2;
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { r.kind = 3; r.msg = strf("harness died, status %x", st); }
	if (r.kind == 1 || r.kind == 2) { r.cls = S->verdict.cls; r.msg = S->verdict.msg; }
	r.evHash = S->evHash; r.evCount = S->evCount; r.nch = S->nch; r.hist = S->hist; r.nontrivial = S->nontrivial; r.sample = S->sample;
	return r;
}
static std::string jesc(const std::string &s)
{
	std::string o; for (char c : s) { u8 u = (u8)c; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (u < 32 || u > 126) o += strf("\\u%04x", u); else o += c; } return o;
}
static std::vector<std::string> known; static std::vector<std::string> knownDesc;
static void load_known(const std::string &verif, const char *id)
{
	FILE *f = fopen((verif + "/known_findings.txt").c_str(), "r"); if (!f) return;
	char b[8192];
	while (fgets(b, sizeof b, f)) {
		std::string l = b; while (l.size() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
		std::string pre = strf("finding: property=%s class=`", id);
		if (l.compare(0, pre.size(), pre)) continue;
		size_t e = l.find('`', pre.size()); if (e == std::string::npos) continue;
		known.push_back(l.substr(pre.size(), e - pre.size())); knownDesc.push_back(l.substr(e + 1));
	}
	fclose(f);
}
static bool globm(const char *p, const char *s) // '*' matches anything, everything else literally
{
	if (!*p) return !*s;
	if (*p == '*') { for (;; ++s) { if (globm(p + 1, s)) return true; if (!*s) return false; } }
	return *p == *s && globm(p + 1, s + 1);
}
static int known_match(const std::string &cls) { for (size_t i = 0; i < known.size(); ++i) if (globm(known[i].c_str(), cls.c_str())) return (int)i; return -1; }
static bool read_replay(const char *path, std::string &prop, std::string &cls, u64 &hash, std::vector<u64> &ch)
{
	FILE *f = fopen(path, "r"); if (!f) return false;
	char *line = nullptr; size_t cap = 0; ssize_t n; bool ok = false;
	while ((n = getline(&line, &cap, f)) >= 0) {
		std::string l(line, n); if (l.size() && l.back() == '\n') l.pop_back();
		if (!l.compare(0, 10, "property: ")) prop = l.substr(10);
		else if (!l.compare(0, 7, "class: ")) cls = l.substr(7);
		else if (!l.compare(0, 11, "eventhash: ")) hash = strtoull(l.c_str() + 11, 0, 16);
		else if (!l.compare(0, 9, "choices: ")) { const char *p = l.c_str() + 9; while (*p) { char *e; u64 v = strtoull(p, &e, 10); if (e == p) break; ch.push_back(v); p = e; } ok = true; }
	}
	free(line); fclose(f); return ok;
}
static void write_replay(const std::string &path, const Prop &p, u64 seed, u64 idx, const RunRes &r, const std::vector<u64> &ch, size_t orig)
{
	FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
	fprintf(f, "# replay: ./check.sh %s --replay %s\n", p.id, path.c_str());
	fprintf(f, "property: %s\nseed: %llu\nrun: %llu\nclass: %s\neventhash: %llx\nminimised: %zu choices (from %zu)\nchoices:", p.id, (unsigned long long)seed, (unsigned long long)idx, r.cls.c_str(), (unsigned long long)r.evHash, ch.size(), orig);
	for (u64 c : ch) fprintf(f, " %llu", (unsigned long long)c);
	fprintf(f, "\nmessage:\n%s\n", r.msg.c_str());
	fclose(f);
}
static int replay_main(const Prop &p, const char *path, bool quiet)
{
	std::string pr, cls; u64 hash = 0; std::vector<u64> ch;
	if (!read_replay(path, pr, cls, hash, ch)) { fprintf(stderr, "cannot read replay %s\n", path); return 2; }
	if (!quiet) { g_trace = true; g_traceF = fdopen(dup(1), "w"); printf("replaying %s (%zu choices)\n", path, ch.size()); fflush(stdout); }
	RunRes r = run_one(p, 0, &ch);
	if (!quiet) { printf("outcome: %s\n%s\nevent hash %llx (recorded %llx)\n", r.kind == 1 ? r.cls.c_str() : r.kind == 0 ? "property held" : "discarded/harness error", r.msg.c_str(), (unsigned long long)r.evHash, (unsigned long long)hash); }
	if (r.kind == 1) {
		if (r.cls != cls || r.evHash != hash) { fprintf(stderr, "replay differs: class '%s' vs '%s', hash %llx vs %llx\n", r.cls.c_str(), cls.c_str(), (unsigned long long)r.evHash, (unsigned long long)hash); if (quiet) return 3; }
		printf("VIOLATION property=%s replay=%s\n", p.id, path); return 1;
	}
	return r.kind == 0 ? 0 : 2;
}
static std::string class_key(const std::string &c)
{ // minimisation must stay within the violation class: drop line numbers
	std::string o; for (size_t i = 0; i < c.size(); ++i) { if (isdigit((u8)c[i])) continue; o += c[i]; } return o;
}
static std::vector<u64> minimise(const Prop &p, std::vector<u64> ch, const std::string &cls, double budget)
{
	double t0 = now_s(); std::string key = class_key(cls); u64 tries = 0;
	auto test = [&](const std::vector<u64> &c) -> bool {
		if (now_s() - t0 > budget) return false;
		++tries;
		RunRes r = run_one(p, 0, &c);
		if (r.kind == 1 && class_key(r.cls) == key && known_match(r.cls) < 0) return true;
		return false;
	};
	auto accept = [&](std::vector<u64> &c) { u64 n = S->nch; c.resize(std::min<u64>(c.size(), n)); for (u64 i = 0; i < c.size(); ++i) c[i] = S->choices[i]; while (c.size() && c.back() == 0) c.pop_back(); };
	bool changed = true; int round = 0;
	if (test(ch)) accept(ch);
	while (changed && now_s() - t0 < budget && round++ < 6) {
		changed = false;
		// truncate tail
		for (size_t cut = ch.size() / 2; cut >= 1; cut /= 2)
			while (cut <= ch.size()) { std::vector<u64> c(ch.begin(), ch.end() - cut); if (test(c)) { accept(c); ch = c; changed = true; } else break; if (now_s() - t0 > budget) break; }
		// delete / zero blocks
		for (size_t bl = std::min<size_t>(256, ch.size() / 2 + 1); bl >= 1; bl /= 2) {
			for (size_t i = 0; i + bl <= ch.size();) {
				if (now_s() - t0 > budget) break;
				std::vector<u64> c(ch); c.erase(c.begin() + i, c.begin() + i + bl);
				if (test(c)) { accept(c); if (c.size() < ch.size()) { ch = c; changed = true; continue; } }
				bool nz = false; for (size_t j = i; j < i + bl; ++j) nz |= ch[j] != 0;
				if (nz) { c = ch; for (size_t j = i; j < i + bl; ++j) c[j] = 0; if (test(c)) { accept(c); if (c != ch) { ch = c; changed = true; } } }
				i += bl;
			}
		}
		// lower single values
		for (size_t i = 0; i < ch.size(); ++i) {
			if (now_s() - t0 > budget) break;
			if (ch[i] > 1) for (u64 v : {ch[i] / 16, ch[i] / 2, ch[i] - 1}) { if (v == 0 || i >= ch.size() || v >= ch[i]) continue; std::vector<u64> c(ch); c[i] = v; if (test(c)) { accept(c); ch = c; changed = true; break; } }
		}
	}
	probe("minimiser_runs", tries);
	return ch;
}

int main(int argc, char **argv)
{
	std::string id, verif = ".", replay, dump; u64 seed = 1; u64 runs = 0, only = ~0ull, start = 0; int workers = 8; bool thorough = false, quiet = false, keep = false, trace1 = false;
	double minBudget = 40, wall = 0; bool selfcheck = false, showProbes = false, showFails = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 0);
		else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--thorough") thorough = true; else if (a == "--verif") verif = nx();
		else if (a == "--replay") replay = nx(); else if (a == "--quiet") quiet = true; else if (a == "--only") { only = strtoull(nx().c_str(), 0, 0); trace1 = true; }
		else if (a == "--start") start = strtoull(nx().c_str(), 0, 0); else if (a == "--keep-going") keep = true; else if (a == "--min") minBudget = atof(nx().c_str()); else if (a == "--wall") wall = atof(nx().c_str());
		else if (a == "--hashes") selfcheck = true; else if (a == "--probes") showProbes = true; else if (a == "--fails") showFails = keep = true;
		else if (a == "--list") { for (auto &p : props()) printf("%s\n", p.id); return 0; } else id = a;
	}
	const Prop *P = nullptr; for (auto &p : props()) if (id == p.id) P = &p;
	if (!P) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
	g_thorough = thorough;
	if (!wall && !thorough && only == ~0ull) wall = 600; // a slow machine covers less
	if (!runs) runs = thorough ? P->thoroughRuns : P->quickRuns;
	load_syms(); load_known(verif, P->id);
	char tmpl[] = "/tmp/firmsim.XXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } std::string scratchRoot = tmpl;
	struct Cleanup { std::string d; pid_t me = getpid(); ~Cleanup() { if (getpid() == me) { std::string c = "rm -rf -- " + d; if (system(c.c_str())) {} } } } cleanup{scratchRoot};
	g_scratch = scratchRoot + "/w"; mkdir(g_scratch.c_str(), 0700);
	auto newShm = [] { Shm *s = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (s == MAP_FAILED) { perror("shm"); exit(2); } return s; };
	Shm *main_shm = newShm(); S = main_shm;
	if (!replay.empty()) return replay_main(*P, replay.c_str(), quiet);
	auto runSeed = [&](u64 i) { return mix64(mix64(seed) ^ mix64(fnvs(P->id)) ^ (i * 0x9e3779b97f4a7c15ull)); };
	if (trace1) {
		g_trace = true; g_traceF = fdopen(dup(1), "w");
		RunRes r = run_one(*P, runSeed(only), nullptr);
		printf("run %llu: kind %d\nclass: %s\n%s\nsample: %s\nnontrivial %d, choices %llu, event hash %llx\n", (unsigned long long)only, r.kind, r.cls.c_str(), r.msg.c_str(), r.sample.c_str(), r.nontrivial, (unsigned long long)r.nch, (unsigned long long)r.evHash);
		if (r.kind == 1 && minBudget > 0 && keep) { g_trace = false; std::vector<u64> ch(S->choices, S->choices + S->nch); size_t o = ch.size(); std::vector<u64> m = minimise(*P, ch, r.cls, minBudget); g_trace = true; RunRes r2 = run_one(*P, 0, &m); printf("minimised to %zu choices (from %zu)\n%s\n%s\n", m.size(), o, r2.cls.c_str(), r2.msg.c_str()); write_replay("/tmp/last.replay", *P, seed, only, r2, m, o); }
		return r.kind == 1;
	}
	double t0 = now_s();
	std::vector<Shm *> shms; std::vector<int> pipes; std::vector<pid_t> pids;
	for (int w = 0; w < workers; ++w) shms.push_back(newShm());
	main_shm->minViol = ~0ull;
	for (int w = 0; w < workers; ++w) {
		int pfd[2]; if (pipe(pfd)) { perror("pipe"); return 2; }
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			close(pfd[0]); S = shms[w]; g_scratch = scratchRoot + strf("/w%d", w); mkdir(g_scratch.c_str(), 0700);
			FILE *o = fdopen(pfd[1], "w");
			for (u64 i = start + w; i < start + runs; i += workers) {
				if (!keep && i > __atomic_load_n(&main_shm->minViol, __ATOMIC_SEQ_CST)) break;
				if (wall > 0 && now_s() - t0 > wall) break;
				RunRes r = run_one(*P, runSeed(i), nullptr);
				int km = r.kind == 1 ? known_match(r.cls) : -1;
				if (r.kind == 1 && km < 0) { u64 cur = main_shm->minViol; while (i < cur && !__atomic_compare_exchange_n(&main_shm->minViol, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {} }
				std::string cls = r.cls, smp = i < 4 ? r.sample : ""; for (char &c : cls) if (c == '\n' || c == '\t') c = ' '; for (char &c : smp) if (c == '\t') c = ' '; else if (c == '\n') c = '\x01';
				if (r.kind == 3) cls = r.msg;
				fprintf(o, "%llu\t%d\t%d\t%d\t%llx\t%llx\t%s\t%s\n", (unsigned long long)i, r.kind, km, (int)r.nontrivial, (unsigned long long)r.hist, (unsigned long long)r.evHash, cls.c_str(), smp.c_str());
				fflush(o);
			}
			fclose(o); _exit(0);
		}
		close(pfd[1]); pids.push_back(pid); pipes.push_back(pfd[0]);
	}
	// collect
	u64 evals = 0, discards = 0, nontriv = 0, harness = 0, knownHits = 0; std::set<u64> hists, evs; std::vector<std::string> samples; std::map<u64, std::string> viols; std::map<std::string, u64> violClasses; std::string harnessMsg;
	std::map<u64, u64> hashes; std::map<std::string, u64> firstRun;
	std::vector<std::string> bufs(workers); int open_n = workers; std::vector<bool> closed(workers, false);
	auto handle = [&](const std::string &l) {
		std::vector<std::string> f; size_t p = 0; for (int k = 0; k < 7; ++k) { size_t e = l.find('\t', p); f.push_back(l.substr(p, e - p)); p = e + 1; } f.push_back(l.substr(p));
		u64 i = strtoull(f[0].c_str(), 0, 10); int kind = atoi(f[1].c_str()), km = atoi(f[2].c_str()); evals++;
		if (kind == 2) discards++; if (kind == 3) { harness++; harnessMsg = f[6]; }
		if (kind == 1) { if (km >= 0) knownHits++; else viols[i] = f[6]; violClasses[f[6]]++; if (!firstRun.count(f[6]) || firstRun[f[6]] > i) firstRun[f[6]] = i; }
		if (atoi(f[3].c_str())) { nontriv++; hists.insert(strtoull(f[4].c_str(), 0, 16)); }
		evs.insert(strtoull(f[5].c_str(), 0, 16)); hashes[i] = strtoull(f[5].c_str(), 0, 16);
		if (f[7].size()) { std::string s = f[7]; for (char &c : s) if (c == '\x01') c = '\n'; samples.push_back(strf("run %llu: ", (unsigned long long)i) + s); }
	};
	while (open_n) {
		fd_set fs; FD_ZERO(&fs); int mx = 0; for (int w = 0; w < workers; ++w) if (!closed[w]) { FD_SET(pipes[w], &fs); mx = std::max(mx, pipes[w]); }
		if (select(mx + 1, &fs, 0, 0, 0) < 0) continue;
		for (int w = 0; w < workers; ++w) if (!closed[w] && FD_ISSET(pipes[w], &fs)) {
			char b[65536]; ssize_t n = read(pipes[w], b, sizeof b);
			if (n <= 0) { closed[w] = true; --open_n; continue; }
			bufs[w].append(b, n); size_t p; while ((p = bufs[w].find('\n')) != std::string::npos) { handle(bufs[w].substr(0, p)); bufs[w].erase(0, p + 1); }
		}
	}
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { harness++; harnessMsg = "worker died"; } }
	double t1 = now_s();
	if (selfcheck) { for (auto &kv : hashes) printf("%llu %llx\n", (unsigned long long)kv.first, (unsigned long long)kv.second); }
	int rc = 0; std::string replayPath;
	if (showFails) for (auto &kv : viols) printf("fail %llu %s\n", (unsigned long long)kv.first, kv.second.c_str());
	if (keep) for (auto &kv : violClasses) printf("class x%llu (first run %llu)%s: %s\n", (unsigned long long)kv.second, (unsigned long long)firstRun[kv.first], known_match(kv.first) >= 0 ? " [known]" : "", kv.first.c_str());
	if (harness) { fprintf(stderr, "sim: %llu harness errors: %s\n", (unsigned long long)harness, harnessMsg.c_str()); rc = 2; }
	if (!viols.empty() && !keep) {
		u64 i = 0; S = main_shm; g_scratch = scratchRoot + "/w"; RunRes a; std::vector<u64> ch; bool same = false;
		for (auto &v : viols) { // the first that repeats; broken code may do what the simulator does not control
			i = v.first; memset((void *)S->faults, 0, sizeof S->faults);
			a = run_one(*P, runSeed(i), nullptr); ch.assign(S->choices, S->choices + S->nch);
			RunRes b = run_one(*P, runSeed(i), nullptr);
			if (a.kind == 1 && b.kind == 1 && a.cls == b.cls && known_match(a.cls) < 0) { same = true; break; }
			fprintf(stderr, "sim: run %llu does not repeat (%s / %s / %s; hashes %llx %llx %llx)\n", (unsigned long long)i, v.second.c_str(), a.cls.c_str(), b.cls.c_str(), (unsigned long long)hashes[i], (unsigned long long)a.evHash, (unsigned long long)b.evHash);
		}
		if (!same) {
			fprintf(stderr, "sim: no violation repeats: error of the check\n"); rc = 2;
		} else {
			size_t orig = ch.size(); std::vector<u64> m = minimise(*P, ch, a.cls, minBudget);
			RunRes r = run_one(*P, 0, &m);
			mkdir((verif + "/replays").c_str(), 0755);
			replayPath = verif + strf("/replays/%s-seed%llu-run%llu.replay", P->id, (unsigned long long)seed, (unsigned long long)i);
			std::string cmd = strf("%s %s --verif '%s' --quiet --replay '%s' >/dev/null 2>&1", "/proc/self/exe", P->id, verif.c_str(), replayPath.c_str());
			char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
			cmd = strf("'%s' %s --verif '%s' --quiet --replay '%s' >/dev/null 2>&1", self, P->id, verif.c_str(), replayPath.c_str());
			bool good = false;
			if (r.kind == 1) { write_replay(replayPath, *P, seed, i, r, m, orig); int s = system(cmd.c_str()); good = WIFEXITED(s) && WEXITSTATUS(s) == 1; }
			if (!good) { while (ch.size() && ch.back() == 0) ch.pop_back(); r = run_one(*P, 0, &ch); write_replay(replayPath, *P, seed, i, r, ch, orig); int s = system(cmd.c_str()); good = WIFEXITED(s) && WEXITSTATUS(s) == 1; m = ch; }
			if (!good) { fprintf(stderr, "sim: violation of run %llu does not reproduce in a fresh process: error of the check\n", (unsigned long long)i); rc = 2; }
			else { printf("violation class: %s\n%s\nminimised from %zu to %zu choices\nVIOLATION property=%s replay=%s\n", r.cls.c_str(), r.msg.c_str(), orig, m.size(), P->id, replayPath.c_str()); rc = rc ? rc : 1; if (rc == 2) rc = 1; }
		}
	}
	for (size_t k = 0; k < known.size(); ++k) printf("KNOWN-FINDING: property=%s %s\n", P->id, knownDesc[k].c_str());
	// evidence
	u64 faults[F_COUNT] = {0}; std::map<std::string, u64> pr; u64 simt = 0, subs = 0;
	for (Shm *s : shms) { for (int i = 0; i < F_COUNT; ++i) faults[i] += s->faults[i]; for (int i = 0; i < PROBES && s->probes[i].name[0]; ++i) pr[s->probes[i].name] += s->probes[i].n; simt += s->simTime; subs += s->subs; }
	double dt = t1 - t0;
	mkdir((verif + "/evidence").c_str(), 0755);
	if (FILE *f = fopen((verif + "/evidence/" + P->id + ".json").c_str(), "w")) {
		fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"%s\",\n \"coverage\": {\n", P->id, thorough ? "thorough" : "quick", (unsigned long long)seed, P->level);
		fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n", (unsigned long long)evals, hists.size(), jesc(P->rule).c_str());
		fprintf(f, "  \"samples\": ["); std::sort(samples.begin(), samples.end()); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(samples[i]).c_str()); fprintf(f, "],\n");
		fprintf(f, "  \"simulated_runs\": %llu, \"simulated_processes\": %llu, \"nontrivial_runs\": %llu, \"discarded_runs\": %llu, \"distinct_event_logs\": %zu,\n", (unsigned long long)evals, (unsigned long long)subs, (unsigned long long)nontriv, (unsigned long long)discards, evs.size());
		fprintf(f, "  \"seeds_per_hour\": %.0f, \"simulated_time_s\": %.3f, \"known_finding_hits\": %llu,\n", evals / dt * 3600, simt / 1e6, (unsigned long long)knownHits);
		fprintf(f, "  \"faults_injected\": {"); bool first = true; for (int i = 0; i < F_COUNT; ++i) if (faults[i]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", fault_names[i], (unsigned long long)faults[i]); first = false; } fprintf(f, "},\n");
		fprintf(f, "  \"probes\": {"); first = true; for (auto &kv : pr) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; } fprintf(f, "},\n");
		fprintf(f, "  \"real_components\": \"%s\", \"stubbed_components\": \"%s\"\n },\n", jesc(P->real).c_str(), jesc(P->stub).c_str());
		fprintf(f, " \"assumptions\": ["); for (size_t i = 0; i < P->assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(P->assumptions[i]).c_str());
		fprintf(f, "],\n \"wall_s\": %.3f, \"violations\": %llu\n}\n", now_s() - t0, (unsigned long long)viols.size());
		fclose(f);
	}
	if (!quiet) {
		printf("%s: seed %llu, %llu runs (%llu discarded, %zu distinct nontrivial), %llu simulated processes, %.1f s, %.0f runs/h; faults:", P->id, (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)discards, hists.size(), (unsigned long long)subs, dt, evals / dt * 3600);
		for (int i = 0; i < F_COUNT; ++i) if (faults[i]) printf(" %s=%llu", fault_names[i], (unsigned long long)faults[i]); printf("\n");
		if (showProbes) for (auto &kv : pr) printf("  probe %s = %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
	}
	if (!rc && evals && nontriv * 10 < evals) { fprintf(stderr, "sim: only %llu of %llu runs were non-trivial: error of the check\n", (unsigned long long)nontriv, (unsigned long long)evals); rc = 2; }
	return rc;
}
