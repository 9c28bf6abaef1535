/* freestanding runtime the natively executed code is linked with (built -m64 and -m32) */
typedef unsigned long long u64; typedef long long i64; typedef unsigned u32; typedef int i32; typedef unsigned char u8; typedef unsigned long W;
struct vec { u64 a, b, c, d; };
extern const u32 sim_nvec, sim_nglob; extern const struct vec sim_vecs[]; extern u8 *const sim_globs[]; extern const u32 sim_gsize[];
extern i64 sim_entry(i32, u32, i64, u64);
static u64 state; static u64 buf[4096]; static u32 nbuf;
static long sysc(long n, long a, long b, long c)
{
	long r;
#ifdef __x86_64__
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
#else
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
#endif
	return r;
}
#ifdef __x86_64__
enum { SYS_write = 1, SYS_exit = 60, SYS_prctl = 157 };
#else
enum { SYS_write = 4, SYS_exit = 1, SYS_prctl = 172 };
#endif
static void flush(void) { u8 *p = (u8 *)buf; long n = nbuf * 8L; while (n > 0) { long r = sysc(SYS_write, 1, (long)p, n); if (r <= 0) break; p += r; n -= r; } nbuf = 0; }
static void put(u64 v) { if (nbuf == 4096) flush(); buf[nbuf++] = v; }
static u64 ext(u64 tag, u64 v) { put(tag); put(v); state = state * 6364136223846793005ull + 1442695040888963407ull + (v ^ (tag << 7)); return (state >> 11) ^ (v << 3); }
i64 sim_ext(i32 tag, i64 v);
i64 sim_extd(i32 tag, double v);
__attribute__((used)) i64 sim_ext_c(i32 tag, i64 v) { return (i64)ext((u64)(i64)tag, (u64)v); }
__attribute__((used)) i64 sim_extd_c(i32 tag, double d) { u64 v; __builtin_memcpy(&v, &d, 8); if (d != d) v = 0x7ff8000000000000ull; return (i64)ext((u64)(i64)tag, v); }
/* callers: check the ABI at every call boundary and clobber all caller-saved registers */
#ifdef __x86_64__
#define TRASH_V "movq $0x5a5a5a5a5a5a5a5a,%r11\n\tmovq %r11,%xmm0\n\tmovq %r11,%xmm1\n\tmovq %r11,%xmm2\n\tmovq %r11,%xmm3\n\tmovq %r11,%xmm4\n\tmovq %r11,%xmm5\n\tmovq %r11,%xmm6\n\tmovq %r11,%xmm7\n\tmovq %r11,%xmm8\n\tmovq %r11,%xmm9\n\tmovq %r11,%xmm10\n\tmovq %r11,%xmm11\n\tmovq %r11,%xmm12\n\tmovq %r11,%xmm13\n\tmovq %r11,%xmm14\n\tmovq %r11,%xmm15\n\t"
#define EXT(n) __asm__(".text\n.globl " #n "\n" #n ":\n\ttest $15,%spl\n\tleaq 8(%rsp),%rax\n\ttestb $15,%al\n\tjne 1f\n\tsubq $8,%rsp\n\tcall " #n "_c\n\taddq $8,%rsp\n\tmovq $0x1122334455667788,%rcx\n\tmovq %rcx,%rdx\n\tmovq %rcx,%rsi\n\tmovq %rcx,%rdi\n\tmovq %rcx,%r8\n\tmovq %rcx,%r9\n\tmovq %rcx,%r10\n\t" TRASH_V "ret\n1:\tud2\n")
#else
/* the x87 stack must be empty and the stack pointer is kept; scratch registers get overwritten */
#define EXT(n) __asm__(".text\n.globl " #n "\n" #n ":\n\tsubl $28,%esp\n\tfnstenv (%esp)\n\tfldenv (%esp)\n\tcmpw $-1,8(%esp)\n\tjne 1f\n\taddl $28,%esp\n\tpushl 12(%esp)\n\tpushl 12(%esp)\n\tpushl 12(%esp)\n\tcall " #n "_c\n\taddl $12,%esp\n\tmovl $0x5a5a5a5a,%ecx\n\tmovd %ecx,%xmm0\n\tmovd %ecx,%xmm1\n\tmovd %ecx,%xmm2\n\tmovd %ecx,%xmm3\n\tmovd %ecx,%xmm4\n\tmovd %ecx,%xmm5\n\tmovd %ecx,%xmm6\n\tmovd %ecx,%xmm7\n\tret\n1:\tud2\n")
#endif
EXT(sim_ext); EXT(sim_extd);

#define CALLEE_OK 1
/* call the entry with all callee-saved registers filled with markers and check them afterwards */
i64 call_entry(i32, u32, i64, u64);
extern u32 abi_bad;
u32 abi_bad;
#ifdef __x86_64__
__asm__(".text\ncall_entry:\n\tpushq %rbx\n\tpushq %rbp\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n\tsubq $8,%rsp\n"
	"\tmovq $0x1111,%rbx\n\tmovq $0x2222,%rbp\n\tmovq $0x3333,%r12\n\tmovq $0x4444,%r13\n\tmovq $0x5555,%r14\n\tmovq $0x6666,%r15\n"
	"\tmovl $0,%eax\n\tcall sim_entry\n"
	"\tcmpq $0x1111,%rbx\n\tjne 1f\n\tcmpq $0x2222,%rbp\n\tjne 1f\n\tcmpq $0x3333,%r12\n\tjne 1f\n\tcmpq $0x4444,%r13\n\tjne 1f\n\tcmpq $0x5555,%r14\n\tjne 1f\n\tcmpq $0x6666,%r15\n\tje 2f\n1:\tmovl $1,abi_bad\n"
	"2:\taddq $8,%rsp\n\tpopq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbp\n\tpopq %rbx\n\tret\n");
#else
__asm__(".text\ncall_entry:\n\tpushl %ebx\n\tpushl %ebp\n\tpushl %esi\n\tpushl %edi\n"
	"\tmovl 40(%esp),%eax\n\tpushl %eax\n\tmovl 40(%esp),%eax\n\tpushl %eax\n\tmovl 40(%esp),%eax\n\tpushl %eax\n\tmovl 40(%esp),%eax\n\tpushl %eax\n\tmovl 40(%esp),%eax\n\tpushl %eax\n\tmovl 40(%esp),%eax\n\tpushl %eax\n"
	"\tmovl $0x1111,%ebx\n\tmovl $0x2222,%ebp\n\tmovl $0x3333,%esi\n\tmovl $0x4444,%edi\n\tcall sim_entry\n"
	"\tcmpl $0x1111,%ebx\n\tjne 1f\n\tcmpl $0x2222,%ebp\n\tjne 1f\n\tcmpl $0x3333,%esi\n\tjne 1f\n\tcmpl $0x4444,%edi\n\tje 2f\n1:\tmovl $1,abi_bad\n"
	"2:\taddl $24,%esp\n\tpopl %edi\n\tpopl %esi\n\tpopl %ebp\n\tpopl %ebx\n\tret\n");
#endif

void *memcpy(void *d, const void *s, W n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, W n) { u8 *a = d; const u8 *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, W n) { u8 *a = d; while (n--) *a++ = (u8)c; return d; }
int memcmp(const void *x, const void *y, W n) { const u8 *a = x, *b = y; for (; n--; ++a, ++b) if (*a != *b) return *a - *b; return 0; }

/* compiler library (independent of libgcc, which is only present for 64 bit) */
static u64 udivmod(u64 a, u64 b, u64 *r) { u64 q = 0, m = 0; for (int i = 63; i >= 0; --i) { m = (m << 1) | ((a >> i) & 1); q <<= 1; if (m >= b) { m -= b; q |= 1; } } *r = m; return q; }
static void div0(void) { __asm__ volatile("ud2"); }
u64 __udivdi3(u64 a, u64 b) { u64 r; if (!b) div0(); return udivmod(a, b, &r); }
u64 __umoddi3(u64 a, u64 b) { u64 r; if (!b) div0(); udivmod(a, b, &r); return r; }
i64 __divdi3(i64 a, i64 b) { u64 r; if (!b) div0(); u64 q = udivmod(a < 0 ? -(u64)a : (u64)a, b < 0 ? -(u64)b : (u64)b, &r); return (i64)((a < 0) != (b < 0) ? -q : q); }
i64 __moddi3(i64 a, i64 b) { u64 r; if (!b) div0(); udivmod(a < 0 ? -(u64)a : (u64)a, b < 0 ? -(u64)b : (u64)b, &r); return (i64)(a < 0 ? -r : r); }
u64 __muldi3(u64 a, u64 b) { u64 r = 0; while (b) { if (b & 1) r += a; a += a; b >>= 1; } return r; }
i64 __ashldi3(i64 a, int n) { return (i64)((u64)a << n); }
i64 __ashrdi3(i64 a, int n) { return a >> n; }
u64 __lshrdi3(u64 a, int n) { return a >> n; }
i64 __negdi2(i64 a) { return (i64)-(u64)a; }
static int pop(u64 v) { int n = 0; for (; v; v &= v - 1) ++n; return n; }
int __popcountsi2(u32 v) { return pop(v); }
int __popcountdi2(u64 v) { return pop(v); }
int __paritysi2(u32 v) { return pop(v) & 1; }
int __paritydi2(u64 v) { return pop(v) & 1; }
int __ctzsi2(u32 v) { int n = 0; if (!v) return 32; while (!(v & 1)) v >>= 1, ++n; return n; }
int __ctzdi2(u64 v) { int n = 0; if (!v) return 64; while (!(v & 1)) v >>= 1, ++n; return n; }
int __clzsi2(u32 v) { int n = 32; while (v) v >>= 1, --n; return n; }
int __clzdi2(u64 v) { int n = 64; while (v) v >>= 1, --n; return n; }
int __ffssi2(u32 v) { return v ? __ctzsi2(v) + 1 : 0; }
int __ffsdi2(u64 v) { return v ? __ctzdi2(v) + 1 : 0; }
u32 __bswapsi2(u32 v) { return v >> 24 | (v >> 8 & 0xff00) | (v << 8 & 0xff0000) | v << 24; }
u64 __bswapdi2(u64 v) { return (u64)__bswapsi2((u32)v) << 32 | __bswapsi2((u32)(v >> 32)); }
#ifdef __i386__
static u64 dbits(double d) { u64 v; __builtin_memcpy(&v, &d, 8); return v; }
static double bitsd(u64 v) { double d; __builtin_memcpy(&d, &v, 8); return d; }
static u32 fbits(float d) { u32 v; __builtin_memcpy(&v, &d, 4); return v; }
static float bitsf(u32 v) { float d; __builtin_memcpy(&d, &v, 4); return d; }
static u64 fixu(double d) { u64 b = dbits(d); int e = (int)(b >> 52 & 0x7ff) - 1075; u64 m = (b & 0xfffffffffffffull) | 1ull << 52; if (b >> 63 || e < -52) return 0; return e < 0 ? m >> -e : m << e; }
static i64 fixs(double d) { u64 v = fixu(d < 0 ? -d : d); return d < 0 ? -(i64)v : (i64)v; }
static u64 roundTo(u64 v, int bits, int *exp) { /* v normalised at bit 63 */ u64 half = 1ull << (63 - bits), mask = (half << 1) - 1, r = v & mask, q = v >> (64 - bits); if (r > half || (r == half && (q & 1))) { if (++q >> bits) { q >>= 1; ++*exp; } } return q; }
static int norm(u64 *v) { int e = 63; while (!(*v >> 63)) *v <<= 1, --e; return e; }
static u64 fluD(u64 v) { if (!v) return 0; int e = norm(&v); u64 q = roundTo(v, 53, &e); return (q & 0xfffffffffffffull) | (u64)(e + 1023) << 52; }
static u64 flsD(i64 v) { return v < 0 ? fluD(-(u64)v) | 1ull << 63 : fluD((u64)v); }
static u32 fluF(u64 v) { if (!v) return 0; int e = norm(&v); u64 q = roundTo(v, 24, &e); return (u32)(q & 0x7fffff) | (u32)(e + 127) << 23; }
static u32 flsF(i64 v) { return v < 0 ? fluF(-(u64)v) | 1u << 31 : fluF((u64)v); }
#ifndef SOFTFLOAT
u64 __fixunsdfdi(double d) { return fixu(d); } i64 __fixdfdi(double d) { return fixs(d); } u64 __fixunssfdi(float f) { return fixu(f); } i64 __fixsfdi(float f) { return fixs(f); }
double __floatundidf(u64 v) { return bitsd(fluD(v)); } double __floatdidf(i64 v) { return bitsd(flsD(v)); } float __floatundisf(u64 v) { return bitsf(fluF(v)); } float __floatdisf(i64 v) { return bitsf(flsF(v)); }
#else /* floating point values travel in integer registers */
u64 __fixunsdfdi(u64 d) { return fixu(bitsd(d)); } i64 __fixdfdi(u64 d) { return fixs(bitsd(d)); } u64 __fixunssfdi(u32 f) { return fixu(bitsf(f)); } i64 __fixsfdi(u32 f) { return fixs(bitsf(f)); }
u32 __fixunsdfsi(u64 d) { return (u32)fixu(bitsd(d)); } i32 __fixdfsi(u64 d) { return (i32)fixs(bitsd(d)); } u32 __fixunssfsi(u32 f) { return (u32)fixu(bitsf(f)); } i32 __fixsfsi(u32 f) { return (i32)fixs(bitsf(f)); }
u64 __floatundidf(u64 v) { return fluD(v); } u64 __floatdidf(i64 v) { return flsD(v); } u32 __floatundisf(u64 v) { return fluF(v); } u32 __floatdisf(i64 v) { return flsF(v); }
u64 __floatunsidf(u32 v) { return fluD(v); } u64 __floatsidf(i32 v) { return flsD(v); } u32 __floatunsisf(u32 v) { return fluF(v); } u32 __floatsisf(i32 v) { return flsF(v); }
#define D(x) bitsd(x)
#define F(x) bitsf(x)
u64 __adddf3(u64 a, u64 b) { return dbits(D(a) + D(b)); } u64 __subdf3(u64 a, u64 b) { return dbits(D(a) - D(b)); } u64 __muldf3(u64 a, u64 b) { return dbits(D(a) * D(b)); } u64 __divdf3(u64 a, u64 b) { return dbits(D(a) / D(b)); } u64 __negdf2(u64 a) { return a ^ 1ull << 63; }
u32 __addsf3(u32 a, u32 b) { return fbits(F(a) + F(b)); } u32 __subsf3(u32 a, u32 b) { return fbits(F(a) - F(b)); } u32 __mulsf3(u32 a, u32 b) { return fbits(F(a) * F(b)); } u32 __divsf3(u32 a, u32 b) { return fbits(F(a) / F(b)); } u32 __negsf2(u32 a) { return a ^ 1u << 31; }
u32 __truncdfsf2(u64 a) { return fbits((float)D(a)); } u64 __extendsfdf2(u32 a) { return dbits((double)F(a)); }
#define CMP(s, T, C) \
	i32 __eq##s(T a, T b) { return C(a) == C(b) ? 0 : 3; } i32 __ne##s(T a, T b) { return C(a) == C(b) ? 0 : 5; } i32 __unord##s(T a, T b) { return C(a) != C(a) || C(b) != C(b) ? 4 : 0; } \
	i32 __lt##s(T a, T b) { return C(a) < C(b) ? -2 : C(a) == C(b) ? 0 : 2; } i32 __le##s(T a, T b) { return C(a) < C(b) ? -3 : C(a) == C(b) ? 0 : 3; } \
	i32 __gt##s(T a, T b) { return C(a) > C(b) ? 2 : C(a) == C(b) ? 0 : -2; } i32 __ge##s(T a, T b) { return C(a) > C(b) ? 3 : C(a) == C(b) ? 0 : -3; }
CMP(df2, u64, D) CMP(sf2, u32, F)
#endif
#endif

/* an instrumented program registers its execution counters in a constructor */
static const u8 *prof_name[4]; static const u32 *prof_cnt[4]; static u32 prof_len[4], nprof;
void __init_firmprof(const u8 *name, const u32 *c, W n) { if (nprof < 4) { prof_name[nprof] = name; prof_cnt[nprof] = c; prof_len[nprof++] = (u32)n; } }
extern void (*__init_array_start[])(void) __attribute__((weak, visibility("hidden"))); extern void (*__init_array_end[])(void) __attribute__((weak, visibility("hidden")));

__attribute__((used, noreturn)) void sim_main(void)
{
	sysc(SYS_prctl, 22, 1, 0); /* strict: only read, write, exit from here on */
	state = 0; u64 words = 0;
	for (void (**f)(void) = __init_array_start; f < __init_array_end; ++f) (*f)();
	for (u32 i = 0; i < sim_nvec; ++i) {
		i64 r = call_entry((i32)sim_vecs[i].a, (u32)sim_vecs[i].b, (i64)sim_vecs[i].c, sim_vecs[i].d);
		put(0x7e7); put((u64)r);
		if (abi_bad) { put(0xabadull); put(0xdeadbeef); break; }
	}
	for (u32 g = 0; g < sim_nglob; ++g) { u64 h = 1469598103934665603ull; for (u32 i = 0; i < sim_gsize[g]; ++i) { h ^= sim_globs[g][i]; h *= 1099511628211ull; } put(0x61b); put(h); }
	for (u32 i = 0; i < nprof; ++i) { u64 h = 1469598103934665603ull; for (const u8 *s = prof_name[i]; *s; ++s) { h ^= *s; h *= 1099511628211ull; } put(h); put(prof_len[i]); for (u32 k = 0; k < prof_len[i]; ++k) put(prof_cnt[i][k]); words += 2 + prof_len[i]; }
	put(0xe0d); put(words); flush();
	for (;;) sysc(SYS_exit, 0, 0, 0);
}
#ifdef __x86_64__
__asm__(".text\n.globl _start\n_start:\n\txorl %ebp,%ebp\n\tandq $-16,%rsp\n\tcall sim_main\n");
#else
__asm__(".text\n.globl _start\n_start:\n\txorl %ebp,%ebp\n\tandl $-16,%esp\n\tcall sim_main\n");
#endif
