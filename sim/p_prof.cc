// C14 profiles: instrumented execution, the file libfirmprof writes, reading it back in a later compilation
#include "sem.h"
#include <algorithm>
#include <set>
extern "C" {
#include <libfirm/firm.h>
ir_graph *ir_profile_instrument(const char *filename);
bool ir_profile_read(const char *filename);
uint32_t ir_profile_get_block_execcount(const ir_node *block);
void ir_create_execfreqs_from_profile(void);
void ir_profile_free(void);
void ir_estimate_execfreq(ir_graph *irg);
double get_block_execfreq(const ir_node *block);
void prof_init_firmprof(const char *, unsigned *, size_t);
extern void (*sim_atexit_fn[8])(void);
extern unsigned sim_atexit_n;
}
// as the backend does before it instruments
extern "C" void shim_intrinsics(void);
static void prepare()
{
	be_lower_for_target();
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) assure_irg_properties(get_irp_irg(i), IR_GRAPH_PROPERTY_NO_BADS | IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE | IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES | IR_GRAPH_PROPERTY_MANY_RETURNS);
	shim_intrinsics();
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) edges_deactivate(get_irp_irg(i)); // the instrumentation leaves unused nodes
}
static void collect(ir_node *b, void *e) { ((std::vector<ir_node *> *)e)->push_back(b); }
static std::vector<ir_node *> blocks(ir_graph *g) { std::vector<ir_node *> v; irg_block_walk_graph(g, collect, nullptr, &v); return v; }
// what flows into a block flows out of it: needs no interpreter
static void check_flow(ir_graph *g)
{
	std::map<ir_node *, int> outs; std::map<ir_node *, u64> to; bool plain = true; std::vector<ir_node *> v = blocks(g);
	for (ir_node *b : v) for (int i = 0; i < get_Block_n_cfgpreds(b); ++i) { ir_node *x = get_Block_cfgpred(b, i); if (is_Bad(x)) continue; ++outs[get_nodes_block(x)]; if (is_fragile_op(skip_Proj(x)) && b != get_irg_end_block(g)) plain = false; }
	if (!plain) return;
	for (ir_node *b : v) {
		if (b == get_irg_end_block(g) || b == get_irg_start_block(g)) continue;
		u64 in = 0; bool all = true; for (int i = 0; i < get_Block_n_cfgpreds(b); ++i) { ir_node *x = get_Block_cfgpred(b, i); if (is_Bad(x)) continue; ir_node *p = get_nodes_block(x); if (outs[p] == 1) in += ir_profile_get_block_execcount(p); else { all = false; to[p] += ir_profile_get_block_execcount(b); } }
		if (all && get_Block_n_cfgpreds(b) && (u32)in != ir_profile_get_block_execcount(b)) violation("count-of-wrong-block", "block %ld of %s executed %u times, control entered it %llu times", get_irn_node_nr(b), get_entity_name(get_irg_entity(g)), ir_profile_get_block_execcount(b), (unsigned long long)in);
	}
	for (auto &k : to) { bool end = false; ir_node *e = get_irg_end_block(g); for (int i = 0; i < get_Block_n_cfgpreds(e); ++i) end |= get_nodes_block(get_Block_cfgpred(e, i)) == k.first; if (!end && (u32)k.second != ir_profile_get_block_execcount(k.first)) violation("count-of-wrong-block", "block %ld of %s executed %u times, control left it %llu times", get_irn_node_nr(k.first), get_entity_name(get_irg_entity(g)), ir_profile_get_block_execcount(k.first), (unsigned long long)k.second); }
}
static std::string le(const std::vector<u32> &c) { std::string s = "firmprof"; for (u32 v : c) for (int k = 0; k < 4; ++k) s += (char)(v >> 8 * k); return s; }
static void c14()
{
	Job j; if (!draw_job(j, chance(1, 3), 1 + (int)draw(2), (int)draw(2), false, 2)) discard("step budget");
	SubCfg ma = draw_machine(), mb = draw_machine(), mc = draw_machine(); bool viaOption = chance(1, 3), useOption = chance(1, 2); u64 sched = drawSeed(), big = chance(2, 3) ? drawSeed() | 1 : 0;
	u64 limit = 200000 + 100 * j.ref.steps;
	// a compiler instruments the program
	SubOut a = run_sub(ma, [&] {
		Job ja = j; if (viaOption) ja.tgt.opts.push_back("profilegenerate"); optimise_job(ja, false); finish_for_backend(0); prepare();
		bool truth = !j.is32; // 64 bit arithmetic of i686 is lowered to machine specific nodes
		IProbe p; IRun r; std::string d; if (truth) r = interpret(j.P, j.bc.prefix, 0, limit, &p);
		if (truth) if (r.k != IRun::OK || !same_trace(j.ref.t, r.t, d)) discard("the middle end broke the program (C01) or it cannot be interpreted");
		if (p.vague) truth = false; // a branch on an undefined value may go either way
		std::string s; size_t n = 0; for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); for (ir_node *b : blocks(g)) { ++n; if (truth && b != get_irg_end_block(g)) s += strf("%ld %llu\n", get_irn_node_nr(b), (unsigned long long)p.runs[get_irn_node_nr(b)]); } }
		sub_put(s); sub_put(strf("%zu", n));
		std::string counts;
		if (!viaOption) { ir_profile_instrument("unit.prof"); verify_all("instrumentation"); }
		if (!viaOption && truth) {
			IProbe q; q.entity = "__FIRMPROF__BLOCK_COUNTS"; r = interpret(j.P, j.bc.prefix, sched, limit * 4, &q);
			if (r.k == IRun::UNSUPPORTED) discard(r.why.c_str());
			if (r.k != IRun::OK) violation("instrumentation-breaks-program", "executing the instrumented graphs: %s", r.why.c_str());
			if (!same_trace(j.ref.t, r.t, d)) violation("instrumentation-wrong-result", "the program behaves differently after instrumentation: %s", d.c_str());
			counts.assign((const char *)q.bytes.data(), q.bytes.size()); if (q.bytes.size() != n * 4) violation("counter-array-size", "%zu blocks, %zu bytes of counters", n, q.bytes.size());
		}
		sub_put(counts); sub_put(emit_asm("unit"));
	});
	if (a.died() && a.what.find("no PBQP solution") != std::string::npos) discard("the PBQP allocator gives up (finding of C02)");
	if (a.died()) { if (a.out.size() < 2) discard("middle end"); violation(strf("instrument: %s", a.what.c_str()).c_str(), "compiling with instrumentation died: %s", a.err.c_str()); }
	if (a.out.size() < 4) discard("middle end");
	std::map<long, u64> runs; { const char *p = a.out[0].c_str(); long nr; unsigned long long c; int k; while (sscanf(p, "%ld %llu\n%n", &nr, &c, &k) == 2) { runs[nr] = c; p += k; } }
	size_t n = strtoul(a.out[1].c_str(), nullptr, 10);
	// the instrumented program runs: the trace is unchanged and followed by the counters
	std::vector<u64> prof; NativeRes r = run_native(j.P, j.is32, a.out[3], j.bc.prefix, j.soft, &prof); std::string d;
	if (r.k == NativeRes::TOOL) violation("asm-rejected", "instrumented code rejected: %s", r.err.c_str());
	if (r.k != NativeRes::OK) violation("code-crash", "instrumented code ends with signal %d", r.sig);
	if (!same_trace(j.ref.t, r.t, d)) violation("code-wrong-result", "instrumented code behaves differently: %s", d.c_str());
	if (prof.size() != n + 2) violation("not-registered", "%zu counters registered, %zu blocks", prof.empty() ? 0 : prof.size() - 2, n);
	u64 fh = 1469598103934665603ull; for (const char *s = "unit.prof"; *s; ++s) { fh ^= (u8)*s; fh *= 1099511628211ull; }
	if (prof[0] != fh || prof[1] != n) violation("not-registered", "registered with another file name or size");
	std::vector<u32> cnt; for (size_t i = 0; i < n; ++i) cnt.push_back((u32)prof[i + 2]);
	bool truth = !runs.empty(); if (truth) probe("counted_by_interpreter");
	if (a.out[2].size()) for (size_t i = 0; i < n; ++i) { u32 v; memcpy(&v, &a.out[2][4 * i], 4); if (v != cnt[i]) violation("counter-differs", "counter %zu is %u when interpreted and %u when executed", i, v, cnt[i]); }
	if (truth) { std::vector<u64> x, y; for (auto &k : runs) if (k.second) x.push_back(k.second); for (u32 v : cnt) if (v) y.push_back(v); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) violation("counts-wrong", "the counters are not the execution counts of the blocks"); }
	// it ends: libfirmprof writes the profiles of all units
	int others = (int)draw(3), pos = (int)draw(others + 1), what = (int)draw(7); std::vector<std::vector<u32>> oc; for (int i = 0; i < others; ++i) { std::vector<u32> v; for (u64 k = draw(40); k--;) v.push_back((u32)drawSeed()); oc.push_back(v); }
	u64 frac = draw(1001); i64 failAlloc = what == 6 ? (i64)draw(others + 1) : -1; DiskCfg dc = draw_slow_disk(); size_t total = 8 + 4 * n, at = total * frac / 1000; bool stale = chance(1, 3);
	switch (what) { case 1: dc.writeFailAt = at; break; case 2: dc.writeFailAt = at; dc.writeErrno = 5; dc.failOnce = true; break; case 3: dc.openFail = true; break; case 4: dc.writeFailAt = at; dc.writeErrno = 4; dc.failOnce = true; break; default: break; }
	std::map<std::string, std::string> before; if (stale) before["unit.prof"] = le(std::vector<u32>(n, 7)).substr(0, 8 + draw(4 * n + 1)); 
	bool staleFull = stale && before["unit.prof"].size() == total;
	SubOut b = run_sub_ok(mb, "exit", [&] {
		if (failAlloc >= 0) sim_alloc_fail_at((i64)sim_alloc_count() + failAlloc, true);
		std::vector<std::string> names; for (int i = 0; i < others; ++i) names.push_back(strf("other%d.prof", i));
		for (int i = 0, o = 0; i <= others; ++i) if (i == pos) prof_init_firmprof("unit.prof", cnt.data(), cnt.size()); else { prof_init_firmprof(names[o].c_str(), oc[o].data(), oc[o].size()); ++o; }
		sim_alloc_fail_at(-1, false); sim_diskcfg() = dc;
		while (sim_atexit_n) sim_atexit_fn[--sim_atexit_n]();
		if (sim_diskstat().openNow) violation("handle-leak", "a profile is left open");
		if (what == 0 || what == 5) for (int i = 0; i < others; ++i) if (sim_disk()[names[i]].data != le(oc[i])) violation("other-profile-wrong", "the profile of unit %d is not what was counted", i);
	}, before);
	auto it = b.disk.find("unit.prof"); bool there = it != b.disk.end(); std::string file = there ? it->second : "";
	if ((what == 0 || what == 5) && (!there || file != le(cnt))) violation("profile-wrong", "the profile written to a healthy disk is not what was counted");
	// a later compilation uses what is on the disk, which may be torn or unreadable
	DiskCfg rc = draw_slow_disk(); int rw = what == 0 ? (int)draw(4) : 0; size_t rat = draw(total);
	if (rw == 1) { file = file.substr(0, rat); fault(F_TORN_FILE); } if (rw == 2) rc.readFailAt = rat; if (rw == 3) { rc.readFailAt = rat; rc.failOnce = true; }
	bool good = there && file == le(cnt), mayStale = there && staleFull && file == before["unit.prof"];
	std::map<std::string, std::string> disk; if (there) disk["unit.prof"] = file;
	auto late = [&](bool opt, const std::map<std::string, std::string> &dk, const DiskCfg &cfg) {
		return run_sub(mc, [&] {
			Job jc = j; if (opt) jc.tgt.opts.push_back("profileuse"); optimise_job(jc, false); finish_for_backend(0); prepare(); sim_diskcfg() = cfg; if (g_trace) { size_t m = 0; for (size_t i = 0; i < get_irp_n_irgs(); ++i) m += blocks(get_irp_irg(i)).size(); evt("%zu blocks", m); }
			if (!opt) {
				bool ok = ir_profile_read("unit.prof"); 
				if (!ok && good && rw < 2) violation("profile-rejected", "an undamaged profile is not accepted (%zu bytes, %zu)", file.size(), total);
				if (ok && !good && !mayStale) violation("damaged-profile-accepted", "a profile of %zu of %zu bytes is accepted", file.size(), total);
				if (ok && rw >= 2 && rat < total) violation("damaged-profile-accepted", "a read error at byte %zu of the profile is ignored", rat);
				if (ok && good) {
					probe("profile_read");
					for (size_t i = 0; i < get_irp_n_irgs(); ++i) check_flow(get_irp_irg(i));
					if (truth) for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); for (ir_node *x : blocks(g)) if (x != get_irg_end_block(g)) { u64 w = runs[get_irn_node_nr(x)]; if (ir_profile_get_block_execcount(x) != w) violation("count-of-wrong-block", "block %ld of %s executed %llu times, the profile says %u", get_irn_node_nr(x), get_entity_name(get_irg_entity(g)), (unsigned long long)w, ir_profile_get_block_execcount(x)); } }
					ir_create_execfreqs_from_profile();
					for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); u64 st = ir_profile_get_block_execcount(get_irg_start_block(g)); if (!st) continue;
						for (ir_node *x : blocks(g)) { double f = get_block_execfreq(x), w = x == get_irg_start_block(g) || x == get_irg_end_block(g) ? 1.0 : std::max((double)ir_profile_get_block_execcount(x) / st, 0.00001); if (f < w * 0.999999 || f > w * 1.000001) violation("frequency-not-proportional", "block %ld has frequency %g, executed %g times per call", get_irn_node_nr(x), f, w); } }
				} else probe("profile_refused");
				ir_profile_free();
				if (big && !useOption) { // counts a short run never reaches
					sim_diskcfg() = DiskCfg(); std::vector<u32> idx, val; for (size_t i = 0; i < n; ++i) idx.push_back((u32)i), val.push_back((u32)(mix64(big + i) >> mix64(big ^ i) % 33));
					std::map<ir_node *, u32> at; sim_disk()["a.prof"] = { le(idx), true }; sim_disk()["b.prof"] = { le(val), true }; std::set<u32> seen;
					if (!ir_profile_read("a.prof")) violation("profile-rejected", "an undamaged profile of %zu blocks is not accepted", n);
					for (size_t i = 0; i < get_irp_n_irgs(); ++i) for (ir_node *x : blocks(get_irp_irg(i))) { u32 k = ir_profile_get_block_execcount(x); if (k >= n || !seen.insert(k).second) violation("count-of-wrong-block", "block %ld has counter %u of %zu, as another block", get_irn_node_nr(x), k, n); at[x] = k; }
					if (mix64(big) & 1) ir_profile_free(); // reading another profile replaces the first in any case
					if (!ir_profile_read("b.prof")) violation("profile-rejected", "an undamaged profile of %zu blocks is not accepted", n);
					for (auto &k : at) if (ir_profile_get_block_execcount(k.first) != val[k.second]) violation("count-changed", "a count of %u is read as %u", val[k.second], ir_profile_get_block_execcount(k.first));
					ir_create_execfreqs_from_profile();
					for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); double st = val[at[get_irg_start_block(g)]]; if (!st) continue;
						for (ir_node *x : blocks(g)) { double fq = get_block_execfreq(x), w = x == get_irg_start_block(g) || x == get_irg_end_block(g) ? 1.0 : std::max(val[at[x]] / st, 0.00001); if (fq < w * 0.999999 || fq > w * 1.000001) violation("frequency-not-proportional", "block %ld has frequency %g, the profile says %g times per call", get_irn_node_nr(x), fq, w); } }
					ir_profile_free(); probe("big_counts");
					for (size_t i = 0; i < get_irp_n_irgs(); ++i) ir_estimate_execfreq(get_irp_irg(i));
				}
			}
			sub_put(emit_asm("unit")); fflush(stderr);
		}, dk);
	};
	SubOut c = late(useOption, disk, rc);
	if (c.died() && c.what.find("no PBQP solution") != std::string::npos) discard("the PBQP allocator gives up (finding of C02)");
	if (c.died()) violation(strf("profile-use: %s", c.what.c_str()).c_str(), "compiling with a profile died: %s", c.err.c_str());
	if (useOption) {
		bool warned = c.err.find("could not read profile") != std::string::npos;
		if (good && rw < 2 && warned) violation("profile-rejected", "an undamaged profile is not accepted (%zu bytes, %zu): %s", file.size(), total, c.err.c_str());
		if (!good && !mayStale && !warned) violation("damage-not-reported", "the compiler does not report that the profile of %zu of %zu bytes cannot be used: %s", file.size(), total, c.err.c_str());
		if (warned) { SubOut e = late(false, {}, DiskCfg()); if (e.died() || e.out.size() != 1) violation("no-profile", "compiling without profile failed"); if (e.out[0] != c.out[0]) violation("unusable-profile-changes-code", "the code differs from that without a profile: %s", first_diff(e.out[0], c.out[0]).c_str()); probe("profile_refused"); }
		else probe("compiled_with_profile");
	}
	if (c.out.size() == 1) check_native(j, c.out[0], "profile-use");
	note_history(mix64(what * 1001 + frac) ^ mix64(rw * total + rat) ^ job_hash(j)); set_nontrivial(true); set_sample("%zu blocks, disk %d, read %d", n, what, rw);
}
REGISTER("C14", c14, 12000, 300000, "exploration", "one run compiles a generated program with instrumentation on one simulated machine, executes it (graph interpreter and machine code), lets the real libfirmprof write the counters of one to three units to a simulated disk that may run full, fail once, fail to open, or with failing allocations, and compiles the program again on another machine with that profile, possibly torn or unreadable at a drawn byte; counters, file, counts per block, frequencies and the code generated with the profile are compared with block executions counted by the interpreter; distinct by (program, fault kinds, positions)", { "counters do not overflow", "a complete profile of an older run of the same program is accepted: the format has no identification" }, "libfirm (instrumentation, profile reading, execution frequencies, backends), libfirmprof, assembler, linker, CPU", "heap, disk, process exit");
