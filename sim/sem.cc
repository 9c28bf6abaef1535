#include "sem.h"
#include <unistd.h>

SubCfg draw_machine()
{
	SubCfg c; c.heap = drawHeap(); c.clock.start = 1000000000000000ull + drawSeed() % 1000000000000000ull; c.pid = 2 + draw(30000);
	c.stackJunk = chance(1, 2) ? drawSeed() : 0; c.randSeed = chance(1, 2) ? drawSeed() : 0; c.qsortSeed = 0; c.envSeed = chance(1, 2) ? drawSeed() : 0;
	if (g_trace) if (const char *e = getenv("SIMDBG")) { if (strchr(e, 'j')) c.heap.junk = false; if (strchr(e, 'p')) c.heap.pad = false; if (strchr(e, 'r')) c.heap.reuse = false; if (strchr(e, 'm')) c.heap.move = false; if (strchr(e, 's')) c.stackJunk = 0; if (strchr(e, 'e')) c.envSeed = 0; if (strchr(e, 'h')) c.heap = HeapCfg(); ev("heap pad %d junk %d reuse %d move %d stack %d env %d", c.heap.pad, c.heap.junk, c.heap.reuse, c.heap.move, c.stackJunk != 0, c.envSeed != 0); }
	return c;
}
std::string emit_asm(const char *name)
{
	char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); be_main(f, name); fclose(f); std::string s(b, n); free(b); return s;
}
SubCfg plain_machine() { return SubCfg(); }
std::string export_text()
{
	char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); ir_export_file(f); fclose(f); std::string s(b, n); free(b); return s;
}
std::string first_diff(const std::string &a, const std::string &b)
{
	size_t i = 0, n = std::min(a.size(), b.size()); while (i < n && a[i] == b[i]) ++i;
	if (i == a.size() && i == b.size()) return "identical";
	size_t line = 1; for (size_t k = 0; k < i; ++k) line += a[k] == '\n';
	auto ln = [&](const std::string &s) { size_t p = i > s.size() ? s.size() : i; size_t st = p ? s.rfind('\n', p - 1) : std::string::npos; st = st == std::string::npos ? 0 : st + 1; size_t e = s.find('\n', p); return s.substr(st, std::min<size_t>(200, (e == std::string::npos ? s.size() : e) - st)); };
	return strf("line %zu (byte %zu of %zu/%zu): '%s' versus '%s'", line, i, a.size(), b.size(), ln(a).c_str(), ln(b).c_str());
}
u64 job_hash(const Job &j) { u64 h = mix64(prog_hash(j.P) ^ fnvs(passes_text(j.hist))); for (auto &o : j.tgt.opts) h = mix64(h ^ fnvs(o)); return mix64(h ^ fnvs(j.tgt.triple)); }
DiskCfg draw_slow_disk()
{
	DiskCfg d; static const u32 sz[] = { 4096, 0, 1, 7, 64, 1000 }; d.bufsz = sz[draw(6)]; static const u32 sh[] = { 0, 1, 3, 17, 500 }; d.shortMax = sh[draw(5)]; d.shortSeed = (u32)draw(1u << 30); return d;
}
bool draw_job(Job &j, bool floats, int scale, int kind, bool rich, int maxPasses, bool native)
{
	j.is32 = kind != 0; j.tgt = draw_target(kind, rich, native);
	bool sse = false; for (auto &o : j.tgt.opts) { if (o == "fpmath=sse") sse = true; if (o == "fpmath=softfloat") j.soft = true; }
	GenCfg g = draw_gencfg(j.is32, floats && !(kind == 1 && sse && native), scale);
	g.exact = kind == 1 && !j.soft; // x87 computes in extended precision
	g.noLLF = kind == 1 && sse;
	j.bc.seed = drawSeed(); j.bc.member = !chance(1, 4); j.bc.matureStyle = (int)draw(3); j.bc.ptr32 = j.is32;
	gen_program(j.P, g); j.P.ptrBytes = j.is32 ? 4 : 8;
	if (maxPasses) j.hist = draw_passes(maxPasses, false);
	if (!eval_program(j.P, j.ref)) return false;
	note_history(job_hash(j));
	if (g_trace) { evt("target %s", j.tgt.triple.c_str()); for (auto &o : j.tgt.opts) evt("  option %s", o.c_str()); evt("passes %s", passes_text(j.hist).c_str()); evt("%s", prog_text(j.P).c_str()); }
	return true;
}
static void dump_ir(const char *after) // for triage: SIMDUMP=dir with --only
{
	if (g_trace) if (const char *t = getenv("SIMDUMP")) { static int n; std::string x = export_text(), f = strf("%s/%03d-%s.ir", t, n, after); while (!access(f.c_str(), 0)) f = strf("%s/%03d-%s.ir", t, n += 100, after); ++n; FILE *o = fopen(f.c_str(), "w"); fwrite(x.data(), 1, x.size(), o); fclose(o); }
}
void optimise_job(const Job &j, bool verifyEach, bool log)
{
	firm_start(j.tgt); build_firm(j.P, j.bc); if (verifyEach) verify_all("construction");
	dump_ir("construction");
	for (auto &s : j.hist) { if (log && g_trace) evt("pass %s", pass_name(s.pass)); run_pass(s); if (verifyEach) verify_all(pass_name(s.pass)); dump_ir(pass_name(s.pass)); }
}
void compile_job(const Job &j, bool verifyEach, bool log)
{
	optimise_job(j, verifyEach, log);
	finish_for_backend(0); if (verifyEach) verify_all("lowering");
}
std::string native_verdict(const Job &j, const std::string &a)
{
	NativeRes r = run_native(j.P, j.is32, a, j.bc.prefix, j.soft); std::string d;
	switch (r.k) { case NativeRes::TOOL: return "rejected"; case NativeRes::CRASH: return "crash"; case NativeRes::HANG: return "hang"; default: return same_trace(j.ref.t, r.t, d) ? "" : "wrong"; }
}
void check_native(const Job &j, const std::string &a, const char *what)
{
	NativeRes r = run_native(j.P, j.is32, a, j.bc.prefix, j.soft); std::string d;
	if (r.k == NativeRes::TOOL) violation(strf("%s-asm-rejected", what).c_str(), "emitted code rejected: %s", r.err.c_str());
	if (r.k == NativeRes::CRASH) violation(strf("%s-code-crash", what).c_str(), "emitted code ends with signal %d; program\n%s\npasses %s", r.sig, prog_text(j.P).c_str(), passes_text(j.hist).c_str());
	if (r.k == NativeRes::HANG) violation(strf("%s-code-hang", what).c_str(), "emitted code does not terminate within its CPU budget");
	if (!same_trace(j.ref.t, r.t, d)) {
		Trace tw; Prog q = j.P; std::string e; eval_u64f32_twice = true; bool ok = !j.is32 && eval_program(q, tw); eval_u64f32_twice = false;
		if (ok && same_trace(tw.t, r.t, e)) violation("amd64-u64-to-f32-rounded-twice", "%s", d.c_str());
	}
	if (!same_trace(j.ref.t, r.t, d)) violation(strf("%s-wrong-result", what).c_str(), "%s; passes %s", d.c_str(), passes_text(j.hist).c_str());
	probe("native_ok"); ev("trace %zu %llx", r.t.size(), (unsigned long long)fnv(r.t.data(), r.t.size() * 8));
}
void check_interp(const Job &j, u64 seed, const char *after)
{
	dump_ir(after);
	IRun r = interpret(j.P, j.bc.prefix, seed, 200000 + 100 * j.ref.steps); std::string d;
	switch (r.k) {
	case IRun::UNSUPPORTED: probe(strf("interp_unsupported:%s", r.why.c_str()).c_str()); return;
	case IRun::LIMIT: violation(strf("%s-never-ends", after).c_str(), "the program does not terminate within 100 times the reference's steps after %s (%s); passes %s", after, r.why.c_str(), passes_text(j.hist).c_str());
	case IRun::STUCK: violation(strf("%s-breaks-program", after).c_str(), "executing the graphs after %s: %s; passes %s", after, r.why.c_str(), passes_text(j.hist).c_str());
	default: break;
	}
	if (!same_trace(j.ref.t, r.t, d)) violation(strf("%s-wrong-result", after).c_str(), "the program behaves differently after %s: %s; passes %s", after, d.c_str(), passes_text(j.hist).c_str());
	probe("interpreted");
}
