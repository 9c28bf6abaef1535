// libfirm process life cycle, target configuration, pass histories
#include "sem.h"
extern "C" { void shim_lower_mux(ir_graph *, int); }

bool firm_start(const TargetCfg &t)
{
	ir_init_library();
	if (!ir_target_set(t.triple.c_str())) return false;
	for (auto &o : t.opts) if (!ir_target_option(o.c_str())) violation("option-rejected", "target %s rejects documented option %s", t.triple.c_str(), o.c_str());
	ir_target_init();
	return true;
}

TargetCfg draw_target(int kind, bool rich, bool native)
{
	TargetCfg t; auto add = [&](const std::string &s) { t.opts.push_back(s); };
	static const char *triples[] = { "x86_64-linux-gnu", "i686-linux-gnu", "arm-linux-gnueabi", "sparc-linux-gnu", "mips-linux-gnu", "riscv32-unknown-elf" };
	t.triple = triples[kind];
	if (kind == 0 && rich && chance(1, 6) && !native) t.triple = "x86_64-apple-darwin";
	if (kind == 1) { static const char *a[] = { "i686-linux-gnu", "i386-linux-gnu", "i486-linux-gnu", "i586-linux-gnu" }; t.triple = a[chance(1, 4) ? draw(4) : 0]; }
	// backend configuration swarm
	if (chance(1, 3)) add("omitfp");
	if (chance(1, 3)) add("verboseasm=no");
	switch (draw(5)) { case 1: add("scheduler=trivial"); break; case 2: add("scheduler=random"); break; case 3: add("scheduler=normal"); break; }
	if (chance(1, 4)) add("regalloc=pref");
	else {
		if (chance(1, 5)) add("ra-chordal-perm=copy");
		switch (draw(6)) { case 1: add("ra-chordal-co-algo=none"); break; case 2: add("ra-chordal-co-algo=heur4"); break; }
		switch (draw(5)) { case 1: add("ra-chordal-co-cost=loop"); break; case 2: add("ra-chordal-co-cost=one"); break; }
		if (chance(1, 6)) add("ra-chordal-coloring=pbqp");
	}
	if (chance(1, 3)) add("spill-algo=daemel");
	else {
		if (chance(1, 4)) add("belady-movespills");
		if (chance(1, 4)) add("belady-respectloopdepth=no");
		if (chance(1, 4)) add("belady-improveknownpreds=no");
	}
	if (chance(1, 4)) add("spill-coalesce_slots=no");
	if (chance(1, 4)) add("spill-remat=no");
	if (kind == 0) {
		if (chance(1, 4)) { static const char *a[] = { "core2", "nehalem", "haswell", "k8", "k10", "skylake", "atom", "bdver1" }; add(std::string("arch=") + a[draw(8)]); }
		if (chance(1, 5)) add("no-red-zone");
		if (rich && chance(1, 5)) add("pic");
	} else if (kind == 1) {
		static const char *a[] = { "i386", "i486", "i586", "i686", "k6", "athlon", "geode", "c3", "generic", "pentium4", "core2", "nehalem", "k8", "atom", "pentium-m" };
		if (chance(1, 3)) add("fpmath=sse"), add("sse2"), add(std::string("arch=") + a[9 + draw(6)]);
		else { if (chance(1, 6)) add("fpmath=softfloat"); if (chance(1, 2)) add(std::string("arch=") + a[draw(15)]); }
		if (chance(1, 5)) add(std::string("tune=") + a[draw(15)]);
		if (chance(1, 6)) add("optcc=no");
		if (chance(1, 5)) add("size");
		if (chance(1, 4)) add("cmov");
		if (rich && chance(1, 5)) add("pic");
	}
	return t;
}

void verify_all(const char *stage)
{
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); if (!irg_verify(g)) violation(strf("verify:%s", stage).c_str(), "graph %s fails verification after %s", get_entity_name(get_irg_entity(g)), stage); }
}

enum { PF_IRP = 1, PF_HL = 2 /* only before lowering */ };
struct PassDesc { const char *name; int flags; int w; void (*f)(ir_graph *, u64); };
static void local_opt(ir_graph *g) { optimize_graph_df(g); }
static const PassDesc PASSES[] = {
	{ "local", 0, 6, [](ir_graph *g, u64) { optimize_graph_df(g); } },
	{ "local_graph", 0, 1, [](ir_graph *g, u64) { local_optimize_graph(g); } },
	{ "cfopt", 0, 5, [](ir_graph *g, u64) { optimize_cf(g); } },
	{ "jumpthreading", 0, 3, [](ir_graph *g, u64) { opt_jumpthreading(g); } },
	{ "bool", 0, 2, [](ir_graph *g, u64) { opt_bool(g); } },
	{ "conv", 0, 3, [](ir_graph *g, u64) { conv_opt(g); } },
	{ "gvn-pre", 0, 3, [](ir_graph *g, u64) { do_gvn_pre(g); } },
	{ "if-conv", 0, 3, [](ir_graph *g, u64) { opt_if_conv(g); } },
	{ "parallelize-mem", 0, 2, [](ir_graph *g, u64) { opt_parallelize_mem(g); } },
	{ "load-store", 0, 4, [](ir_graph *g, u64) { optimize_load_store(g); } },
	{ "combine-memops", 0, 2, [](ir_graph *g, u64) { combine_memops(g); } },
	{ "frame", 0, 2, [](ir_graph *g, u64) { opt_frame_irg(g); } },
	{ "osr", 0, 3, [](ir_graph *g, u64 a) { opt_osr(g, osr_flag_default | (a & 1 ? osr_flag_keep_reg_pressure : 0) | (a & 2 ? osr_flag_ignore_x86_shift : 0)); } },
	{ "phi-cycles", 0, 1, [](ir_graph *g, u64) { remove_phi_cycles(g); } },
	{ "reassoc", 0, 3, [](ir_graph *g, u64) { optimize_reassociation(g); } },
	{ "one-return", 0, 1, [](ir_graph *g, u64) { normalize_one_return(g); } },
	{ "n-returns", 0, 1, [](ir_graph *g, u64) { normalize_n_returns(g); } },
	{ "scalar-replace", PF_HL, 3, [](ir_graph *g, u64) { scalar_replacement_opt(g); } },
	{ "tail-rec", 0, 2, [](ir_graph *g, u64) { opt_tail_rec_irg(g); } },
	{ "combo", 0, 4, [](ir_graph *g, u64) { combo(g); } },
	{ "shape-blocks", 0, 0, [](ir_graph *g, u64) { shape_blocks(g); } },
	{ "loop-inversion", 0, 2, [](ir_graph *g, u64) { do_loop_inversion(g); } },
	{ "loop-unrolling", 0, 2, [](ir_graph *g, u64) { do_loop_unrolling(g); } },
	{ "unroll-loops", 0, 2, [](ir_graph *g, u64 a) { unroll_loops(g, 2 + a % 5, 100 + a % 300); } },
	{ "dead-node-elim", 0, 1, [](ir_graph *g, u64) { dead_node_elimination(g); } },
	{ "gcse-place", 0, 3, [](ir_graph *g, u64) { set_opt_global_cse(1); optimize_graph_df(g); set_opt_global_cse(0); place_code(g); } },
	{ "place", 0, 1, [](ir_graph *g, u64) { place_code(g); } },
	{ "confirms", 0, 2, [](ir_graph *g, u64) { construct_confirms(g); } },
	{ "confirms-only", 0, 1, [](ir_graph *g, u64) { construct_confirms_only(g); } },
	{ "remove-confirms", 0, 2, [](ir_graph *g, u64) { remove_confirms(g); } },
	{ "vrp", 0, 3, [](ir_graph *g, u64) { set_vrp_data(g); } },
	{ "unreachable", 0, 1, [](ir_graph *g, u64) { remove_unreachable_code(g); } },
	{ "bads", 0, 1, [](ir_graph *g, u64) { remove_bads(g); } },
	{ "tuples", 0, 1, [](ir_graph *g, u64) { remove_tuples(g); } },
	{ "critical-edges", 0, 1, [](ir_graph *g, u64) { remove_critical_cf_edges(g); } },
	{ "switch", 0, 1, [](ir_graph *g, u64 a) { lower_switch(g, 1 + a % 6, 16 << (a % 5), get_modeIu()); } },
	{ "mux", 0, 1, [](ir_graph *g, u64) { shim_lower_mux(g, 0); } },
	{ "args", 0, 1, [](ir_graph *g, u64) { analyze_irg_args(g); } },
	{ "dom", 0, 1, [](ir_graph *g, u64) { assure_irg_properties(g, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE | IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO); } },
	{ "edges", 0, 1, [](ir_graph *g, u64) { assure_edges(g); } },
	{ "no-edges", 0, 1, [](ir_graph *g, u64) { edges_deactivate(g); } },
	{ "outs", 0, 1, [](ir_graph *g, u64) { assure_irg_outs(g); } },
	{ "entity-usage", 0, 1, [](ir_graph *g, u64) { assure_irg_entity_usage_computed(g); } },
	{ "execfreq", 0, 1, [](ir_graph *g, u64) { ir_estimate_execfreq(g); } },
	{ "copyb", 0, 1, [](ir_graph *g, u64 a) { lower_CopyB(g, 16 << (a % 3), 4000, 1); } },
	// whole program
	{ "funccalls", PF_IRP, 3, [](ir_graph *, u64) { optimize_funccalls(); } },
	{ "proc-clone", PF_IRP, 2, [](ir_graph *, u64 a) { proc_cloning(a & 1 ? 0.0f : 300.0f); } },
	{ "inline", PF_IRP, 4, [](ir_graph *, u64 a) { inline_functions(750, (int)(a % 4) * -100, local_opt); } },
	{ "gc-entities", PF_IRP, 2, [](ir_graph *, u64) { garbage_collect_entities(); } },
	{ "private", PF_IRP, 1, [](ir_graph *, u64) { mark_private_methods(); } },
	{ "const-code", PF_IRP, 1, [](ir_graph *, u64) { local_opts_const_code(); } },
	{ "opt-call-addrs", PF_IRP, 1, [](ir_graph *, u64) { opt_call_addrs(); } },
	{ "cgana", PF_IRP, 1, [](ir_graph *, u64) { ir_entity **e = nullptr; cgana(&e); } },
	{ "globals-usage", PF_IRP, 1, [](ir_graph *, u64) { assure_irp_globals_entity_usage_computed(); } },
	{ "lower-hl", PF_HL, 1, [](ir_graph *g, u64) { lower_highlevel_graph(g); } },
	{ "occults", 0, 0, [](ir_graph *g, u64) { occult_consts(g); } },
};
static const int NPASS = sizeof PASSES / sizeof *PASSES;
const char *pass_name(int p) { return PASSES[p].name; }
int pass_count() { return NPASS; }
bool pass_is_irp(int p) { return PASSES[p].flags & PF_IRP; }

std::vector<PassStep> draw_passes(int maxLen, bool lowered)
{
	std::vector<PassStep> v; static int tot = 0; if (!tot) for (auto &p : PASSES) tot += p.w;
	// swarm: some runs disable a random half of the passes
	u64 mask = chance(1, 2) ? drawSeed() : 0;
	int n = (int)draw(maxLen + 1);
	for (int i = 0; i < n; ++i) {
		int r = (int)draw(tot), p = 0; while (r >= PASSES[p].w) r -= PASSES[p++].w;
		int irg = (int)draw(8); u64 arg = draw(64);
		if (lowered && (PASSES[p].flags & PF_HL)) continue;
		if (mask && !(PASSES[p].flags & PF_IRP) && (mix64(mask + p) & 3) == 0) continue;
		v.push_back({ p, irg - 1, arg });
	}
	return v;
}
void run_pass(const PassStep &s)
{
	const PassDesc &d = PASSES[s.pass];
	probe(d.name);
	if (d.flags & PF_IRP) { d.f(nullptr, s.arg); return; }
	size_t n = get_irp_n_irgs();
	if (s.irg < 0 || !n) { for (size_t i = 0; i < get_irp_n_irgs(); ++i) d.f(get_irp_irg(i), s.arg); }
	else d.f(get_irp_irg(s.irg % n), s.arg);
}
std::string passes_text(const std::vector<PassStep> &v)
{
	std::string o; for (auto &s : v) o += (o.empty() ? "" : " ") + (PASSES[s.pass].flags & PF_IRP ? strf("%s:%llu", PASSES[s.pass].name, (unsigned long long)s.arg) : s.irg < 0 ? strf("%s:%llu", PASSES[s.pass].name, (unsigned long long)s.arg) : strf("%s@%d:%llu", PASSES[s.pass].name, s.irg, (unsigned long long)s.arg)); return o;
}
void finish_for_backend(u64 seed)
{
	(void)seed;
	// triage aid (only with --only and SIMDBG): v verify between the backend's preparation steps, w write the program after each
	const char *dbg = g_trace ? getenv("SIMDBG") : nullptr;
	if (dbg && (strchr(dbg, 'v') || strchr(dbg, 'w'))) for (size_t i = 0; i < get_irp_n_irgs(); ++i) {
		ir_graph *g = get_irp_irg(i);
		auto chk = [&](const char *w) { if (strchr(dbg, 'v') && !irg_verify(g)) ev("DBG %s fails after %s", get_entity_name(get_irg_entity(g)), w); if (strchr(dbg, 'w')) { FILE *o = fopen("/tmp/w/steps.txt", "a"); fprintf(o, "=== %s\n%s", w, export_text().c_str()); fclose(o); } };
		remove_confirms(g); chk("remove_confirms"); lower_highlevel_graph(g); chk("hl"); shim_lower_mux(g, 0); chk("mux");
		if (strchr(dbg, 'x')) { if (i == get_irp_n_irgs() - 1) { be_lower_for_target(); chk("target"); } continue; }
		assure_irg_properties(g, IR_GRAPH_PROPERTY_MANY_RETURNS); chk("ret"); assure_irg_properties(g, IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES); chk("crit"); assure_irg_properties(g, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE); chk("unreach"); assure_irg_properties(g, IR_GRAPH_PROPERTY_NO_BADS); chk("bads");
	}
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); remove_confirms(g); }
	lower_highlevel();
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) { ir_graph *g = get_irp_irg(i); shim_lower_mux(g, 0); }
}
