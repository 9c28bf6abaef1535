// C01 middle end semantics under any pass history; C02 emitted code under any backend configuration
#include "sem.h"

static void c01()
{
	Job j; int scale = 1 + (int)draw(3);
	if (!draw_job(j, chance(1, 3), scale, chance(1, 3) ? 1 : 0, false, g_thorough ? 16 : 10)) discard("step budget");
	SubCfg m = draw_machine(); u64 sched = drawSeed();
	run_sub_ok(m, "optimise", [&] {
		firm_start(j.tgt); build_firm(j.P, j.bc); verify_all("construction"); check_interp(j, sched, "construction");
		for (size_t i = 0; i < j.hist.size(); ++i) { const char *n = pass_name(j.hist[i].pass); if (g_trace) evt("pass %s", n); run_pass(j.hist[i]); verify_all(n); check_interp(j, sched + i, n); }
		finish_for_backend(0); verify_all("lowering"); check_interp(j, sched, "lowering");
	});
	set_nontrivial(true); set_sample("%s", passes_text(j.hist).c_str());
}
REGISTER("C01", c01, 200000, 3000000, "exploration", "one run builds a generated program (several functions, loops with extra entries, switches, memory, calls) on a simulated machine and applies a drawn history of up to 10 (thorough 16) optimisation passes; after the construction, after every pass and after the lowering the graphs are verified and executed by a graph interpreter with a seeded order of independent memory operations, and the recorded trace of external calls, results and final memory is compared with the reference evaluation of the source program; non-trivial: all passes ran and every execution was decided; distinct by hash of the choices", { "programs are free of undefined behaviour by construction (reference evaluation rejects the others)", "shape-blocks, opt_ldst and loop peeling are excluded: marked experimental, unmaintained or unimplemented" }, "libfirm construction, all analyses and optimisations, lowering", "graph interpreter instead of code generation, heap, clock, environment, rand");
static void c02()
{
	Job j; int scale = 1 + (int)draw(3);
	int kind = (int)draw(2); bool flt = chance(1, 2);
	if (!draw_job(j, flt, scale, kind, true, 3)) discard("step budget");
	SubCfg m = draw_machine();
	SubOut o = run_sub_ok(m, "generate", [&] {
		optimise_job(j, false); finish_for_backend(0);
		IRun r = interpret(j.P, j.bc.prefix, 0, 200000 + 100 * j.ref.steps); std::string d;
		if (r.k == IRun::UNSUPPORTED) probe(strf("interp_unsupported:%s", r.why.c_str()).c_str());
		else if (r.k != IRun::OK || !same_trace(j.ref.t, r.t, d)) discard("the middle end broke the program (C01)");
		for (size_t i = 0; i < get_irp_n_irgs(); ++i) if (!irg_verify(get_irp_irg(i))) discard("the middle end broke a graph (C01)");
		sub_put("1"); sub_put(emit_asm());
	});
	if (o.out.size() < 2) discard("middle end");
	ev("asm %llx", (unsigned long long)fnvs(o.out[1]));
	check_native(j, o.out[1], "be"); set_nontrivial(true); set_sample("%s", j.tgt.triple.c_str());
}
REGISTER("C02", c02, 40000, 1500000, "exploration", "one run compiles a generated program with up to 3 optimisation passes for i686 or x86_64 with a drawn backend configuration (scheduler, register allocator, spiller, coalescing, colouring, rematerialisation, cpu, PIC, frame pointer, red zone, SSE, cmov ...) on a simulated machine, lets the graph interpreter confirm the lowered graphs, and executes the emitted machine code in a sandboxed process against recording externals; the trace of external calls, results and final memory must equal the reference evaluation of the source program; non-trivial: the code ran to its end; distinct by hash of the choices", { "programs are free of undefined behaviour by construction", "i686 with x87 arithmetic: programs only perform floating point arithmetic whose result is exact, as x87 keeps excess precision", "no floating point for i686 with fpmath=sse, where parts are marked unimplemented" }, "libfirm (construction, optimisation, lowering, both x86 backends, emitters), assembler, linker, CPU", "heap, clock, environment, rand; external functions of the compiled program");
