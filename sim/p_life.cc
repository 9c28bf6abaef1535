// C08 observers change nothing, C09 failing allocations, C12 library restarts
#include "sem.h"
extern "C" {
#include <libfirm/irdump.h>
#include <libfirm/timing.h>
#include <libfirm/statev.h>
#include <libfirm/callgraph.h>
struct firm_dbg_module_t; firm_dbg_module_t *firm_dbg_register(const char *name); void firm_dbg_set_mask(firm_dbg_module_t *, unsigned); void firm_dbg_set_file(firm_dbg_module_t *, FILE *);
}
static std::string outcome(const SubOut &o) { return o.kind == SubOut::OK ? "ok" : o.what; }

// ---------------------------------------------------------------- C08
enum { OB_N = 16 };
static const char *const ob_name[OB_N] = { "verify", "dump_ir_graph", "dump_all_ir_graphs", "dump_typegraph", "dump_class_hierarchy", "dump_types_as_text", "dump_globals_as_text", "dump_cfg", "dump_loop_tree", "dump_graph_as_text", "export", "snapshot", "timers", "dump_entity_type", "statistics", "dump_callgraph" };
static void observe(u64 seed)
{
	if (!seed) return; std::string before = export_text();
	Rng r(seed); int n = 1 + (int)r.below(3); size_t ng = get_irp_n_irgs();
	ir_dump_flags_t of = ir_get_dump_flags(); ir_dump_verbosity_t ov = ir_get_dump_verbosity();
	ir_set_dump_flags((ir_dump_flags_t)(r.below(3) ? r.next() & 0x1ffff : of)); if (r.below(2)) ir_set_dump_verbosity((ir_dump_verbosity_t)(r.next() & 0x17f));
	for (int i = 0; i < n; ++i) {
		int k = 1 + (int)r.below(OB_N - 1); ir_graph *g = ng ? get_irp_irg(r.below(ng)) : nullptr; if (!g) return;
		ev("observe %s flags %x verbosity %x", ob_name[k], (unsigned)ir_get_dump_flags(), (unsigned)ir_get_dump_verbosity()); probe(strf("obs_%s", ob_name[k]).c_str());
		switch (k) {
		case 1: dump_ir_graph(g, "obs"); break;
		case 2: dump_all_ir_graphs("all"); break;
		case 3: dump_ir_prog_ext(dump_typegraph, "types.vcg"); break;
		case 4: dump_ir_prog_ext(dump_class_hierarchy, "classes.vcg"); break;
		case 5: dump_ir_prog_ext(dump_types_as_text, "types.txt"); break;
		case 6: dump_ir_prog_ext(dump_globals_as_text, "globals.txt"); break;
		case 7: dump_ir_graph_ext(dump_cfg, g, "cfg.vcg"); break;
		case 8: dump_ir_graph_ext(dump_loop_tree, g, "loop.vcg"); break;
		case 9: { FILE *f = sim_open("g.txt", "w"); if (f) { dump_graph_as_text(f, g); fclose(f); } break; }
		case 10: ir_export("obs.ir"); break;
		case 11: ir_snapshot(); break;
		case 12: { ir_timer_t *t = ir_timer_new(); ir_timer_start(t); ir_timer_elapsed_usec(t); ir_timer_stop(t); ir_timer_free(t); break; }
		case 13: { FILE *f = sim_open("e.txt", "w"); if (!f) break; ir_type *gt = get_glob_type(); for (size_t j = 0; j < get_compound_n_members(gt); ++j) dump_entity_to_file(f, get_compound_member(gt, j)); for (size_t j = 0; j < get_irp_n_types(); ++j) dump_type_to_file(f, get_irp_type(j)); fclose(f); break; }
		case 14: stat_ev_end(); if (r.below(2)) stat_ev_begin("st", r.below(2) ? "be" : nullptr); break;
		case 15: if (get_irp_callgraph_state() == irp_callgraph_consistent) dump_ir_prog_ext(dump_callgraph, "calls.vcg"); break;
		}
		std::string after = export_text(); if (before != after) violation(strf("observer-changes-ir: %s", ob_name[k]).c_str(), "%s changes the program: %s", ob_name[k], first_diff(before, after).c_str());
	}
	ir_set_dump_flags(of); ir_set_dump_verbosity(ov);
}
static const char *const dbg_mods[] = { "firm.ana.confirm", "firm.ana.constbits", "firm.ana.dca", "firm.ana.irmemory", "firm.be.2addr", "firm.be.amd64.transform", "firm.be.arm.emit", "firm.be.arm.transform", "firm.be.blocksched", "firm.be.chordal", "firm.be.chordal_common", "firm.be.co.heur4", "firm.be.ia32.emitter", "firm.be.ia32.optimize", "firm.be.ia32.transform", "firm.be.listsched", "firm.be.liveness", "firm.be.loopana", "firm.be.lower", "firm.be.lower.constr", "firm.be.lower.permmove", "firm.be.peephole", "firm.be.prefalloc", "firm.be.sched.normal", "firm.be.sparc.emit", "firm.be.sparc.transform", "firm.be.spill", "firm.be.spill.belady", "firm.be.spilldaemel", "firm.be.spillslots", "firm.be.ssaconstr", "firm.be.state", "firm.be.uses", "firm.be.x86.x87", "firm.hungarian", "firm.ir.edges", "firm.ir.profile", "firm.lower.calls", "firm.lower.dw", "firm.opt.blocks", "firm.opt.bool", "firm.opt.cc", "firm.opt.cgopt", "firm.opt.combo", "firm.opt.controlflow", "firm.opt.conv", "firm.opt.funccalls", "firm.opt.garbagecollect", "firm.opt.gvn_pre", "firm.opt.ifconv", "firm.opt.inline", "firm.opt.jumpthreading", "firm.opt.lcssa", "firm.opt.ldstopt", "firm.opt.loop", "firm.opt.loop-unrolling", "firm.opt.occults", "firm.opt.osr", "firm.opt.proc_cloning", "firm.opt.reassoc", "firm.opt.remove_phi", "firm.opt.scalar_replace", "firm.opt.tailrec", "ir.ana.lvchk", "ir.ana.vrp", "ir.be.copyopt", "ir.be.ssadestr" };
enum { N_DBG = sizeof dbg_mods / sizeof *dbg_mods };
static void c08()
{
	Job j; int kind = (int)draw(6);
	if (!draw_job(j, chance(1, 4), 1 + (int)draw(2), kind, true, g_thorough ? 8 : 5, false)) discard("step budget");
	std::vector<u64> ob(j.hist.size() + 2); for (auto &o : ob) o = chance(1, 2) ? drawSeed() : 0; std::vector<char> ver(ob.size()); for (auto &v : ver) v = chance(1, 3);
	bool stats = chance(1, 3); DiskCfg dc = draw_slow_disk(); if (dc.bufsz < 64) dc.bufsz = 1000; switch (draw(5)) { case 1: dc.openFail = true; break; case 2: dc.writeFailAt = draw(20000); break; case 3: dc.writeFailAt = draw(20000); dc.failOnce = true; break; case 4: dc.closeFail = true; break; }
	std::vector<std::string> extra; if (chance(1, 3)) extra.push_back(chance(1, 2) ? "dump=all" : "dump=final"); if (chance(1, 3)) extra.push_back("time"); if (chance(1, 3)) extra.push_back("verify"); if (chance(1, 5)) extra.push_back("ra-chordal-dump=all"); if (chance(1, 5)) extra.push_back("ra-chordal-co-dump=all"), extra.push_back("ra-chordal-co-style=full"), dc.openFail = false; /* refuses to run without that file */ if (chance(1, 5)) extra.push_back("ra-chordal-co-stats");
	std::vector<int> dbg; if (chance(1, 3)) { int n = 1 + (int)draw(4); for (int i = 0; i < n; ++i) dbg.push_back((int)draw(N_DBG)); } unsigned mask = 1 + (unsigned)draw(31);
	bool zoo = chance(1, 6); u64 zs = drawSeed(); SubCfg m = plain_machine(); m.cpuMs = 20000;
	// verification computes dominance and out edges and keeps them, which may change the order later passes work in: both runs verify at the same points
	auto checked = [&](size_t i) { if (!ver[i]) return; for (size_t k = 0; k < get_irp_n_irgs(); ++k) assure_irg_properties(get_irp_irg(k), IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE); /* resolves tuples */ std::string before = export_text(); verify_all("c08"); std::string after = export_text(); if (before != after) violation("verify-changes-ir", "verification changes the program: %s", first_diff(before, after).c_str()); };
	auto compile = [&](bool obs) {
		TargetCfg t = j.tgt; if (obs) for (auto &e : extra) t.opts.push_back(e);
		firm_start(t); FILE *df = nullptr;
		if (obs) { if (g_trace) for (auto &e : extra) evt("option %s", e.c_str()); sim_diskcfg() = dc; if (stats) stat_ev_begin("st", nullptr); if (!dbg.empty()) df = sim_open("debug.txt", "w"); if (df) for (int d : dbg) { ev("debug messages of %s mask %x", dbg_mods[d], mask); firm_dbg_module_t *mod = firm_dbg_register(dbg_mods[d]); firm_dbg_set_file(mod, df); firm_dbg_set_mask(mod, mask); } }
		build_firm(j.P, j.bc); if (zoo) zoo_build(zs); checked(0); if (obs) observe(ob[0]);
		if (!zoo) for (size_t i = 0; i < j.hist.size(); ++i) { run_pass(j.hist[i]); checked(i + 1); if (obs) observe(ob[i + 1]); }
		sub_put(export_text()); if (zoo) { return; }
		finish_for_backend(0); checked(ob.size() - 1); if (obs) observe(ob.back()); sub_put(emit_asm()); if (obs) stat_ev_end();
	};
	SubOut a = run_sub(m, [&] { compile(false); }), b = run_sub(m, [&] { compile(true); });
	if (a.kind == SubOut::HANG || b.kind == SubOut::HANG) discard("memory or time limit");
	if (a.died()) discard("unsupported program"); if (outcome(a) != outcome(b)) violation(strf("observed-run-dies: %s", outcome(b).c_str()).c_str(), "without observers the compilation ends with '%s', with them with '%s'\n%s", outcome(a).c_str(), outcome(b).c_str(), b.err.substr(b.err.size() > 1500 ? b.err.size() - 1500 : 0).c_str());
	for (size_t k = 0; k < std::min(a.out.size(), b.out.size()); ++k) if (a.out[k] != b.out[k]) violation(k ? "assembly-changed" : "ir-changed", "%s is not the one without observers: %s", k ? "the assembler output" : "the exported program", first_diff(a.out[k], b.out[k]).c_str());
	if (a.out.empty()) discard("unsupported program");
	u64 nob = extra.size() + dbg.size() + stats; for (u64 o : ob) nob += o != 0; for (u64 o : ob) note_history(o);
	set_nontrivial(nob > 0); set_sample("%s, passes %s, %llu observers", j.tgt.triple.c_str(), passes_text(j.hist).c_str(), (unsigned long long)nob);
}
REGISTER("C08", c08, 15000, 300000, "exploration", "one run compiles a generated program twice on the same simulated machine, the second time with observers at drawn points (verification, graph, type, entity, loop and control flow dumps with drawn flags, exports, timers, statistics, debug messages, dump/time/verify options of the backends) writing to a healthy or failing simulated disk; exported program and assembler output must be byte identical; distinct by (program, passes, observers)", { "debug messages are part of the debug variant" }, "libfirm", "disk, heap, clock");

// ---------------------------------------------------------------- C09
static void c09()
{
	Job j; int kind = (int)draw(6);
	if (!draw_job(j, chance(1, 4), 1 + (int)draw(2), kind, true, 4, false)) discard("step budget");
	u64 zs = drawSeed(); bool zoo = chance(1, 8), roundtrip = chance(1, 4);
	auto compile = [&] {
		optimise_job(j, false, false); if (zoo) zoo_build(zs);
		if (ir_export("x.ir")) { sub_put("export error"); return; } sub_put(sim_disk()["x.ir"].data);
		if (zoo) return;
		finish_for_backend(0); sub_put(emit_asm()); ir_finish();
		if (roundtrip) { firm_start(j.tgt); if (ir_import("x.ir")) { sub_put("import error"); return; } sub_put(export_text()); ir_finish(); }
	};
	SubCfg m = plain_machine(); SubOut a = run_sub(m, compile); if (a.died()) discard("unsupported program");
	int n = g_thorough ? 12 : 5;
	for (int i = 0; i < n; ++i) {
		SubCfg f = m; u64 k = draw(a.allocs); if (chance(1, 4)) k >>= draw(12); f.heap.failAt = (i64)k; f.heap.failSticky = chance(1, 2);
		SubOut b = run_sub(f, compile); note_history(k * 2 + f.heap.failSticky);
		if (b.kind == SubOut::OK) { if (b.out != a.out) { if (b.out.size() && (b.out.back() == "export error" || b.out.back() == "import error")) { probe("reported_by_result"); continue; } violation("output-differs", "allocation %llu fails (%s) and the compilation ends normally with other output", (unsigned long long)k, f.heap.failSticky ? "for good" : "once"); } probe("tolerated"); continue; }
		bool diag = b.err.find("memory") != std::string::npos;
		if ((b.kind == SubOut::ABORT || (b.kind == SubOut::EXIT && b.code)) && diag && b.what.find("heap corruption") == std::string::npos) { probe("diagnosed"); continue; }
		violation(strf("oom: %s", b.what.c_str()).c_str(), "allocation %llu of %llu fails (%s) and the process ends with '%s'\n%s", (unsigned long long)k, (unsigned long long)a.allocs, f.heap.failSticky ? "for good" : "once", b.what.c_str(), b.err.c_str());
	}
	set_nontrivial(true); set_sample("%s, %llu allocations", j.tgt.triple.c_str(), (unsigned long long)a.allocs);
}
REGISTER("C09", c09, 16000, 300000, "exploration", "one run compiles, exports and sometimes re-imports a generated program and repeats that with an allocation failing at drawn positions, once or from then on; the process must end with a diagnostic about memory, report an error result, or produce unchanged output; distinct by (program, position, kind)", { "allocations inside the C library succeed" }, "libfirm", "heap");

// ---------------------------------------------------------------- C12
[[maybe_unused]] static void c12()
{
	Job j; int kind = (int)draw(6), n = 1 + (int)draw(3); auto floats = chance(1, 4);
	if (!draw_job(j, floats, 1 + (int)draw(2), kind, true, 4, false)) discard("step budget");
	for (auto it = j.tgt.opts.begin(); it != j.tgt.opts.end();) if (*it == "scheduler=random") it = j.tgt.opts.erase(it); else ++it; // uses the C library's process-wide rand
	std::vector<Job> lives(n); std::vector<int> stop(n), zoo(n);
	for (int i = 0; i < n; ++i) { if (!draw_job(lives[i], floats, 1 + (int)draw(2), kind, false, 4, false)) discard("step budget"); lives[i].tgt = j.tgt; stop[i] = (int)draw(5); zoo[i] = chance(1, 5); }
	auto live = [&](Job &l, int stop, bool zoo) {
		firm_start(l.tgt); if (stop == 1) return; build_firm(l.P, l.bc); if (zoo) { zoo_build(l.bc.seed); ir_snapshot(); return; } if (stop == 2) return;
		for (auto &s : l.hist) run_pass(s); if (stop == 3) { export_text(); return; }
		finish_for_backend(0); if (stop == 4) return; emit_asm();
	};
	auto last = [&] { optimise_job(j, false, false); sub_put(export_text()); finish_for_backend(0); sub_put(emit_asm()); ir_finish(); };
	SubCfg m = plain_machine(); SubOut a = run_sub(m, last); if (a.died()) discard("unsupported program");
	SubOut b = run_sub(m, [&] { for (int i = 0; i < n; ++i) { ev("life %d stops at %d zoo %d", i, stop[i], zoo[i]); live(lives[i], stop[i], zoo[i]); sub_put("end"); ir_finish(); sub_put("finished"); fault(F_RESTART); } last(); });
	if (b.kind == SubOut::HANG) discard("memory or time limit");
	if (b.died()) {
		if (b.out.size() % 2 == 0 && b.out.size() < (size_t)(2 * n)) discard("an earlier life cannot be compiled"); // died before ir_finish
		violation(strf("restart: %s", b.what.c_str()).c_str(), "after %zu lives in one process it dies: %s", b.out.size() / 2, b.err.c_str());
	}
	for (size_t k = 0; k < 2; ++k) if (a.out[k] != b.out[2 * n + k]) violation(k ? "assembly-differs" : "ir-differs", "after %d earlier lives in the same process the %s differs: %s", n, k ? "assembler output" : "exported program", first_diff(a.out[k], b.out[2 * n + k]).c_str());
	for (auto &l : lives) note_history(job_hash(l)); set_nontrivial(true); set_sample("%s, %d earlier lives", j.tgt.triple.c_str(), n);
}
// not registered, see DESIGN.md: the library keeps state across ir_finish
// REGISTER("C12", c12, 4000, 300000, "exploration", "one run compiles a generated program in a fresh simulated process and again in a process in which the library was already initialised, used for one to three other programs up to a drawn stage, and finished; exported program and assembler output must be byte identical; distinct by the programs and stages", { "every life selects the same target and options: options are process-wide", "the random scheduler is excluded: it uses the C library's process-wide rand" }, "libfirm", "process life cycle, heap");
