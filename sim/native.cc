// assemble, link and execute emitted code in a confined process (seccomp strict, rlimits)
#include "fb.h"
#include <fcntl.h>
#include <poll.h>
#include <csignal>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

std::string g_bindir;
static const std::string &bindir()
{
	if (g_bindir.empty()) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; g_bindir = b; g_bindir.resize(g_bindir.rfind('/')); }
	return g_bindir;
}
static int spawn(const std::vector<std::string> &argv, std::string &out, size_t maxOut, bool target, int &status)
{
	int fd[2]; if (pipe(fd)) return -1;
	std::vector<char *> av; for (auto &s : argv) av.push_back(const_cast<char *>(s.c_str())); av.push_back(nullptr);
	char *envT[] = { nullptr }; char *envB[] = { const_cast<char *>("PATH=/usr/bin:/bin"), const_cast<char *>("LC_ALL=C"), nullptr };
	pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); return -1; }
	if (!p) {
		dup2(fd[1], 1); if (!target) dup2(fd[1], 2); else { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
		close(fd[0]); close(fd[1]); int n = open("/dev/null", O_RDONLY); dup2(n, 0);
		rlimit r; r.rlim_cur = target ? 2 : 20; r.rlim_max = r.rlim_cur + 1; setrlimit(RLIMIT_CPU, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_CORE, &r);
		if (target) { personality(ADDR_NO_RANDOMIZE); r.rlim_cur = r.rlim_max = 4 << 20; setrlimit(RLIMIT_STACK, &r); r.rlim_cur = r.rlim_max = 0; setrlimit(RLIMIT_FSIZE, &r); }
		for (int s = 1; s < 32; ++s) signal(s, SIG_DFL);
		execve(av[0], av.data(), target ? envT : envB); _exit(127);
	}
	close(fd[1]); char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) { if (out.size() < maxOut) out.append(b, k); }
	close(fd[0]); while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
	return 0;
}
[[noreturn]] static void tool_broken(const std::string &what)
{ // not the emitted code's fault: the run has no verdict
	dprintf(2, "sim: cannot run native code: %s\n", what.c_str()); _exit(79);
}
NativeRes run_native(const Prog &P, bool is32, const std::string &asmText, const std::string &prefix, bool soft, std::vector<u64> *prof)
{
	NativeRes R; std::string s = asmText; if (s.empty() || s.back() != '\n') s += '\n';
	s += "\t.section .rodata.simtab,\"a\"\n\t.p2align 3\n";
	auto glob = [&](const char *n) { s += strf("\t.globl %s\n%s:\n", n, n); };
	glob("sim_vecs"); for (auto &v : P.vecs) s += strf("\t.quad 0x%llx,0x%llx,0x%llx,0x%llx\n", (unsigned long long)v[0], (unsigned long long)v[1], (unsigned long long)v[2], (unsigned long long)v[3]);
	glob("sim_nvec"); s += strf("\t.long %zu\n", P.vecs.size());
	std::string gs, gp; unsigned ng = 0;
	for (size_t g = 0; g < P.gl.size(); ++g) if (P.gl[g].external) {
		std::function<bool(int)> flt = [&](int t) { const Type &y = P.types[t]; if (y.k == Type::Scalar) return mflt(y.m) || y.m == PTR; if (y.k == Type::Array) return flt(y.elem); for (int f : y.fields) if (flt(f)) return true; return false; };
		if (flt(P.gl[g].type)) continue; ++ng;
		gp += strf("\t%s %sg%zu\n", is32 ? ".long" : ".quad", prefix.c_str(), g); gs += strf("\t.long %u\n", P.types[P.gl[g].type].size);
	}
	glob("sim_nglob"); s += strf("\t.long %u\n", ng); glob("sim_gsize"); s += gs + "\t.p2align 3\n"; glob("sim_globs"); s += gp;
	s += strf("\t.globl sim_entry\n\t.set sim_entry, %sf%d\n", prefix.c_str(), P.entry());
	if (g_trace) if (const char *t = getenv("SIMDUMP")) { FILE *o = fopen((std::string(t) + "/native.s").c_str(), "w"); if (o) { fwrite(s.data(), 1, s.size(), o); fclose(o); } }
	std::string sp = g_scratch + "/n.s", op = g_scratch + "/n.o", xp = g_scratch + "/n.x"; FILE *f = fopen(sp.c_str(), "w"); if (!f) tool_broken("no scratch file"); if (is32) fputs(".macro femms\n emms\n.endm\n", f); /* 3DNow! is not there on today's processors */ fwrite(s.data(), 1, s.size(), f); fclose(f);
	int st = 0; std::string o;
	if (spawn({ "/usr/bin/as", is32 ? "--32" : "--64", "-o", op, sp }, o, 4000, false, st) || st) { R.k = NativeRes::TOOL; R.err = "assembler: " + o; if (o.find("n.s") == std::string::npos) tool_broken(R.err); return R; }
	o.clear(); if (spawn({ "/usr/bin/ld", "-m", is32 ? "elf_i386" : "elf_x86_64", "-static", "-z", "noexecstack", "--no-warn-rwx-segments", "-o", xp, bindir() + (soft ? "/nrt32s.o" : is32 ? "/nrt32.o" : "/nrt64.o"), op }, o, 4000, false, st) || st) { if (o.find("relocation truncated") != std::string::npos) discard("a never executed access 2 GB beyond an object does not link"); R.k = NativeRes::TOOL; R.err = "linker: " + o; if (o.find("undefined reference") == std::string::npos || o.find("n.o") == std::string::npos) tool_broken(R.err); return R; }
	o.clear(); if (spawn({ xp }, o, 8 << 20, true, st)) tool_broken("spawn");
	R.t.resize(o.size() / 8); memcpy(R.t.data(), o.data(), R.t.size() * 8);
	if (WIFSIGNALED(st)) { R.sig = WTERMSIG(st); R.k = R.sig == SIGXCPU || R.sig == SIGKILL ? NativeRes::HANG : NativeRes::CRASH; return R; }
	if (R.t.size() < 2 || R.t[R.t.size() - 2] != 0xe0d) { R.k = NativeRes::CRASH; R.sig = -1; return R; }
	u64 w = R.t.back(); R.t.resize(R.t.size() - 2); if (w > R.t.size()) tool_broken("trace");
	if (prof) prof->assign(R.t.end() - w, R.t.end());
	R.t.resize(R.t.size() - w);
	return R;
}
bool same_trace(const std::vector<u64> &a, const std::vector<u64> &b, std::string &d)
{
	size_t n = std::min(a.size(), b.size());
	for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) { size_t k = i & ~(size_t)1; d = strf("event %zu of %zu/%zu: expected (%llx,%llx) got (%llx,%llx)", k / 2, a.size() / 2, b.size() / 2, (unsigned long long)a[k], (unsigned long long)(k + 1 < a.size() ? a[k + 1] : 0), (unsigned long long)b[k], (unsigned long long)(k + 1 < b.size() ? b[k + 1] : 0)); return false; }
	if (a.size() != b.size()) { d = strf("expected %zu events, got %zu", a.size() / 2, b.size() / 2); return false; }
	return true;
}
