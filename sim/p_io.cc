// C03 machine independence, C04 export/restart/import, C05 torn and failing reads,
// C06 acknowledged exports are complete, C07 assembler output under write faults
#include "sem.h"

static std::string outcome(const SubOut &o) { return o.kind == SubOut::OK ? "ok" : o.what; }

// ---------------------------------------------------------------- C03
static void c03()
{
	Job j; int kind = (int)draw(chance(1, 2) ? 2 : 6);
	if (!draw_job(j, chance(1, 4), 1 + (int)draw(3), kind, true, g_thorough ? 12 : 6, false)) discard("step budget");
	auto compile = [&] { optimise_job(j, false); sub_put(export_text()); finish_for_backend(0); sub_put(emit_asm()); };
	SubCfg m0 = plain_machine(); SubOut a = run_sub(m0, compile);
	int n = 1 + (int)draw(2);
	for (int i = 0; i < n; ++i) {
		SubCfg m = draw_machine(); m.randSeed = 0; if (!m.heap.seed) m.heap.seed = 1 + draw(1000);
		SubOut b = run_sub(m, compile);
		if (a.kind == SubOut::HANG || b.kind == SubOut::HANG) discard("memory or time limit");
		if (outcome(a) != outcome(b)) violation("outcome-differs", "the same compilation ends with '%s' on one machine and '%s' on another (heap layout, junk, clock, pid, environment differ)\n%s\n%s", outcome(a).c_str(), outcome(b).c_str(), a.err.c_str(), b.err.c_str());
		for (size_t k = 0; k < std::min(a.out.size(), b.out.size()); ++k) if (a.out[k] != b.out[k]) violation(k ? "assembly-differs" : "ir-differs", "%s differs between two machines: %s", k ? "assembler output" : "exported program", first_diff(a.out[k], b.out[k]).c_str());
	}
	if (a.kind != SubOut::OK) { probe("compilation_rejected"); if (a.out.empty()) discard("unsupported program"); }
	else probe(strf("compared_%s", j.tgt.triple.substr(0, 5).c_str()).c_str());
	set_nontrivial(true); set_sample("%s, passes %s, %zu bytes of assembler", j.tgt.triple.c_str(), passes_text(j.hist).c_str(), a.out.size() > 1 ? a.out[1].size() : 0);
}
REGISTER("C03", c03, 16000, 400000, "exploration", "one run compiles one generated program (target, options, pass history drawn) on a canonical simulated machine and on 1-2 machines with another heap layout, block reuse policy, uninitialised memory contents, stack contents, clock, pid and environment; non-trivial: both machines produced the exported program; distinct by hash of (program, passes, target)", { "libc qsort is the stable sort of the canonical C library", "rand() starts from the same state in every process, as in C" }, "libfirm (construction, optimisation, all backends, export)", "heap, clock, environment, pid, rand, qsort of the simulated machine");

// ---------------------------------------------------------------- export comparison
static std::vector<std::string> tokens(const std::string &s)
{
	std::vector<std::string> t; size_t i = 0; while (i < s.size()) {
		char c = s[i]; if (c == ' ' || c == '\t' || c == '\n') { ++i; continue; }
		if (c == '[' || c == ']' || c == '{' || c == '}') { t.push_back(std::string(1, c)); ++i; continue; }
		if (c == '"') { size_t e = i + 1; while (e < s.size() && s[e] != '"') e += s[e] == '\\' ? 2 : 1; t.push_back(s.substr(i, e + 1 - i)); i = e + 1; continue; }
		size_t e = i; while (e < s.size() && !strchr(" \t\n[]{}", s[e])) ++e; t.push_back(s.substr(i, e - i)); i = e;
	}
	return t;
}
static bool isnum(const std::string &s) { if (s.empty()) return false; for (char c : s) if (!isdigit((u8)c)) return false; return true; }
// equal up to a one to one renumbering of objects
static bool same_export(const std::string &a, const std::string &b, std::string &why)
{
	auto x = tokens(a), y = tokens(b); std::map<std::string, std::string> f, g;
	for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) {
		if (x[i] == y[i]) continue;
		bool ok = isnum(x[i]) && isnum(y[i]);
		if (ok) { auto p = f.find(x[i]); auto q = g.find(y[i]); if (p == f.end() && q == g.end()) { f[x[i]] = y[i]; g[y[i]] = x[i]; } else ok = p != f.end() && q != g.end() && p->second == y[i] && q->second == x[i]; }
		if (!ok) { std::string ca, cb; for (size_t k = i > 12 ? i - 12 : 0; k < i + 4; ++k) { if (k < x.size()) ca += x[k] + " "; if (k < y.size()) cb += y[k] + " "; } why = strf("token %zu: '%s' versus '%s' in '%s' / '%s'", i, x[i].c_str(), y[i].c_str(), ca.c_str(), cb.c_str()); return false; }
	}
	if (x.size() != y.size()) { why = strf("%zu tokens versus %zu", x.size(), y.size()); return false; }
	return true;
}

// ---------------------------------------------------------------- C04
static void c04()
{
	Job j; int kind = (int)draw(2);
	if (!draw_job(j, chance(1, 3), 1 + (int)draw(3), kind, false, g_thorough ? 8 : 4)) discard("step budget");
	u64 zs = drawSeed(); bool zoo = chance(1, 2), name = chance(1, 3), lowered = !zoo && chance(1, 3); DiskCfg w = draw_slow_disk(), r = draw_slow_disk(), w2 = draw_slow_disk();
	SubOut a = run_sub(draw_machine(), [&] {
		if (zoo && chance(2, 3)) firm_start(j.tgt); else optimise_job(j, false); if (zoo) zoo_build(zs);
		for (size_t i = 0; i < get_irp_n_irgs(); ++i) if (!irg_verify(get_irp_irg(i))) discard("program does not verify before the export"); // C01's business
		if (name) set_irp_prog_name(new_id_from_str("unit \"x\"\n")); if (lowered) finish_for_backend(0);
		sim_diskcfg() = w; int rc = ir_export("prog.ir"); if (rc) violation("export-failed", "ir_export reports error %d on a healthy disk", rc);
		sub_put(ir_snapshot());
	});
	if (a.died()) { if (a.out.empty()) discard("compilation before the export failed"); violation("exporter-died", "%s", a.err.c_str()); }
	fault(F_CRASH); // the exporting process is gone, only the file survives
	std::map<std::string, std::string> d = { { "prog.ir", a.disk["prog.ir"] } };
	auto dump = [&] { if (g_trace) if (const char *t = getenv("SIMDUMP")) for (auto &f : d) { FILE *o = fopen((std::string(t) + "/" + f.first).c_str(), "w"); fwrite(f.second.data(), 1, f.second.size(), o); fclose(o); } };
	dump();
	auto restart = [&](const char *from, const char *to, bool be) {
		fault(F_RESTART);
		SubOut o = run_sub(draw_machine(), [&, be] {
			firm_start(j.tgt); sim_diskcfg() = r; int rc = ir_import(from); if (rc) { fflush(stderr); violation("import-failed", "ir_import of a complete export reports error %d", rc); }
			verify_all("import"); sim_diskcfg() = w2; rc = ir_export(to); if (rc) violation("export-failed", "ir_export reports error %d on a healthy disk", rc);
			sub_put(ir_snapshot());
			if (be) { finish_for_backend(0); sub_put(emit_asm()); }
		}, d);
		if (!o.died()) return o;
		if (!o.out.empty()) { // died in the backend: only a defect of the round trip if the original program compiles
			SubOut c = run_sub(plain_machine(), [&] { compile_job(j, false); emit_asm(); });
			if (c.died()) discard("the program cannot be compiled without the round trip, either");
		}
		violation(strf("restart: %s", o.cls().c_str()).c_str(), "the restarted process dies: %s\n%s", o.what.c_str(), o.err.c_str());
	};
	SubOut b = restart("prog.ir", "prog2.ir", !zoo); std::string key, what;
	if (snapshot_diff(a.out[0], b.out[0], key, what)) violation(strf("roundtrip-loses: %s", key.c_str()).c_str(), "after the restart the program is not the exported one: %s", what.c_str());
	d["prog2.ir"] = b.disk["prog2.ir"];
	dump(); std::string why; if (!same_export(d["prog.ir"], d["prog2.ir"], why)) violation("roundtrip-changes-program", "the imported program differs from the exported one: %s", why.c_str());
	SubOut c = restart("prog2.ir", "prog3.ir", false);
	if (d["prog2.ir"] != c.disk["prog3.ir"] && !same_export(d["prog2.ir"], c.disk["prog3.ir"], why)) violation("roundtrip-not-idempotent", "second round trip: %s", why.c_str());
	if (zoo) { probe("zoo_ok"); set_nontrivial(true); set_sample("%s, feature zoo, %zu byte export, %zu byte snapshot", j.tgt.triple.c_str(), d["prog.ir"].size(), a.out[0].size()); return; }
	std::string bad = native_verdict(j, b.out[1]);
	if (!bad.empty()) { // is it the round trip, or was the program broken before?
		SubOut o = run_sub(plain_machine(), [&] { compile_job(j, false); sub_put(emit_asm()); });
		if (o.died() || !native_verdict(j, o.out[0]).empty()) discard("the program is miscompiled without the round trip, too");
		check_native(j, b.out[1], "roundtrip");
	}
	probe("native_ok"); set_nontrivial(true); set_sample("%s, passes %s, %zu byte export", j.tgt.triple.c_str(), passes_text(j.hist).c_str(), d["prog.ir"].size());
}
REGISTER("C04", c04, 12000, 200000, "exploration", "one run builds and optimises a generated program in one simulated process, exports it, lets the process die, imports it in a fresh process (other heap, short transfers, odd buffers), compares the re-export up to renumbering, and executes the code generated from the imported program; non-trivial: the export was imported again; distinct by hash of (program, passes, target)", { "the exporter sees no write error (C06 covers those)" }, "libfirm, assembler, linker, CPU", "disk, process restart, heap, clock");

// ---------------------------------------------------------------- C05
static void c05()
{
	Job j; int kind = (int)draw(2);
	if (!draw_job(j, chance(1, 3), 1 + (int)draw(2), kind, false, 3)) discard("step budget");
	bool nm = chance(1, 4);
	SubOut a = run_sub(plain_machine(), [&] { optimise_job(j, false); if (nm) set_irp_prog_name(new_id_from_str("unit")); if (ir_export("prog.ir")) discard("export failed"); });
	if (a.died()) discard("compilation before the export failed");
	std::string full = a.disk["prog.ir"], d = full; int n = g_thorough ? 12 : 6;
	// which positions are outside every { }: a file ending there is a shorter but complete sequence of sections
	std::vector<bool> top(full.size() + 1, false); { int depth = 0; bool str = false; for (size_t i = 0; i <= full.size(); ++i) { if (i && !str && depth == 0 && full[i - 1] != ' ') {} if (i) { char c = full[i - 1]; if (str) { if (c == '\\') { ++i; if (i > full.size()) break; continue; } if (c == '"') str = false; } else if (c == '"') str = true; else if (c == '{') ++depth; else if (c == '}') --depth; }
		top[i] = depth == 0 && !str; } }
	auto complete = [&](size_t cut) { size_t k = cut; while (k && isspace((u8)full[k - 1])) --k; return k == 0 || (top[cut] && full[k - 1] == '}'); };
	std::vector<size_t> tokEnds; 
	for (int i = 0; i < n; ++i) {
		bool eio = chance(1, 3); size_t cut = draw(full.size()); DiskCfg dc = draw_slow_disk(); bool once = eio && chance(1, 2), clean = chance(1, 8);
		// aim at the structured places: just before or after a bracket, quote or line end
		if (chance(1, 2)) { size_t k = full.find_first_of("{}[]\"\n", cut); if (k != std::string::npos) cut = k + draw(2); }
		if (eio) { dc.readFailAt = cut; dc.failOnce = once; d = full; } else { d = full.substr(0, cut); }
		if (clean) { dc.readFailAt = -1; d = full; } else if (!eio) fault(F_TORN_FILE);
		ev("%s at %zu of %zu", clean ? "clean" : eio ? "read error" : "torn", cut, full.size());
		SubOut b = run_sub(draw_machine(), [&] { firm_start(j.tgt); sim_diskcfg() = dc; int rc = ir_import("prog.ir"); sub_put(strf("%d", rc)); }, { { "prog.ir", d } });
		const char *how = eio ? "read error" : "truncated";
		if (clean) { if (b.died() || b.out.empty() || b.out[0] != "0") violation("clean-import-failed", "import with short reads of an undamaged file failed: %s %s", outcome(b).c_str(), b.err.c_str()); probe("clean_imports"); continue; }
		if (b.kind == SubOut::HANG) violation(strf("hang-%s", how).c_str(), "import of a file with a %s at byte %zu of %zu does not terminate (%s); tail of the readable part: '%s'", how, cut, full.size(), b.what.c_str(), full.substr(cut > 60 ? cut - 60 : 0, std::min<size_t>(cut, 60)).c_str());
		if (b.kind == SubOut::SIGNAL || (b.kind == SubOut::ABORT && b.what.find("heap corruption") != std::string::npos)) violation(strf("crash-%s", how).c_str(), "import of a file with a %s at byte %zu of %zu crashes: %s%s; tail '%s'", how, cut, full.size(), b.what.c_str(), b.err.c_str(), full.substr(cut > 60 ? cut - 60 : 0, std::min<size_t>(cut, 60)).c_str());
		bool accepted = b.kind == SubOut::OK && b.out.size() == 1 && b.out[0] == "0";
		if (accepted && eio) violation("read-error-accepted", "a read error at byte %zu of %zu is not reported", cut, full.size());
		if (accepted && !complete(cut)) violation("truncation-accepted", "an export cut at byte %zu of %zu is accepted as complete; tail '%s'", cut, full.size(), full.substr(cut > 60 ? cut - 60 : 0, std::min<size_t>(cut, 60)).c_str());
		if (accepted) probe("cut_between_sections"); else if (b.kind == SubOut::OK) probe("reported_by_result"); else if (b.kind == SubOut::EXIT && b.code) { if (b.err.empty()) violation("silent-exit", "import ends the process without a diagnostic"); probe("reported_by_exit"); }
		else if (b.kind == SubOut::EXIT) violation("exit-success", "import of a damaged file ends the process with status 0");
		else probe("diagnosed_abort");
		note_history(mix64(cut * 2 + eio) ^ fnvs(full));
	}
	set_nontrivial(true); set_sample("%zu byte export, %d damaged imports", full.size(), n);
}
REGISTER("C05", c05, 20000, 600000, "exploration", "one run exports a generated program and imports it repeatedly from a simulated disk that lost everything behind a drawn byte, or fails reading at it once or for good, with short reads and odd buffer sizes; non-trivial: at least one damaged import was attempted; distinct by (export, byte, kind)", { "a file cut exactly between two sections cannot be told from a shorter complete file", "content corruption other than truncation is out of scope: the format has no checksum" }, "libfirm import and export", "disk, heap, clock");

// ---------------------------------------------------------------- C06
static void c06()
{
	Job j; int kind = (int)draw(2);
	if (!draw_job(j, chance(1, 4), 1 + (int)draw(2), kind, false, 3)) discard("step budget");
	DiskCfg f = draw_slow_disk(); int what = (int)draw(7); u64 frac = draw(1001); bool tailAim = chance(1, 3); u64 tailOff = draw(5000);
	SubOut a = run_sub(plain_machine(), [&] {
		optimise_job(j, false); int rc = ir_export("good.ir"); if (rc) violation("export-failed", "ir_export reports error %d on a healthy disk", rc);
		std::string good = sim_disk()["good.ir"].data; sub_put("built");
		size_t at = good.size() * frac / 1000; if (tailAim) at = good.size() - std::min<size_t>(good.size(), tailOff);
		DiskCfg d = f; bool mustFail = false;
		switch (what) { case 1: d.writeFailAt = at; break; case 2: d.writeFailAt = at; d.writeErrno = 5; break; case 3: d.writeFailAt = at; d.writeErrno = 4; d.failOnce = true; break; case 4: d.closeFail = true; mustFail = true; break; case 5: d.openFail = true; mustFail = true; break; case 6: d.writeFailAt = at; d.failOnce = true; d.closeFail = chance(1, 2); break; }
		sim_diskcfg() = d; rc = ir_export("x.ir"); std::string got = sim_disk()["x.ir"].data; sim_diskcfg() = DiskCfg();
		ev("export under fault %d at %zu: rc %d, %zu of %zu bytes", what, at, rc, got.size(), good.size());
		if (rc == 0 && got != good) violation("lost-write-acknowledged", "ir_export returns 0 but the file holds %zu of %zu bytes (fault kind %d at byte %zu): %s", got.size(), good.size(), what, at, first_diff(good, got).c_str());
		if (rc == 0 && mustFail) violation("failed-close-acknowledged", "ir_export returns 0 although %s failed", d.openFail ? "opening" : "closing");
		if (rc != 0 && what == 0) violation("export-failed", "ir_export reports error %d although every (short) write succeeded", rc);
		if (sim_diskstat().openNow) violation("handle-leak", "ir_export leaves %llu files open", (unsigned long long)sim_diskstat().openNow);
		if (rc) probe("export_error_reported"); else probe("export_acknowledged");
		rc = ir_export("again.ir"); if (rc || sim_disk()["again.ir"].data != good) violation("export-after-fault", "after a failed export a second export on a healthy disk returns %d and differs: %s", rc, first_diff(good, sim_disk()["again.ir"].data).c_str());
	});
	if (a.died()) { if (a.out.empty()) discard("compilation before the export failed"); violation(strf("export: %s", a.what.c_str()).c_str(), "process died while exporting under write faults: %s", a.err.c_str()); }
	note_history(mix64(what * 1001 + frac)); set_nontrivial(what != 0); set_sample("fault kind %d", what);
}
REGISTER("C06", c06, 60000, 2000000, "exploration", "one run exports a generated program to a simulated disk that runs full, fails (once or for good), transfers short counts, or fails when opening or closing; non-trivial: an error was injected; distinct by (program, fault kind, position)", {}, "libfirm export", "disk, stdio buffer size, heap");

// ---------------------------------------------------------------- C07
static void c07()
{
	Job j; int kind = (int)draw(6);
	if (!draw_job(j, chance(1, 4), 1 + (int)draw(2), kind, true, 2, false)) discard("step budget");
	SubOut a = run_sub(plain_machine(), [&] { compile_job(j, false); sub_put(emit_asm()); });
	if (a.died()) discard("unsupported program");
	std::string good = a.out[0]; DiskCfg d = draw_slow_disk(); int what = (int)draw(5); size_t at = draw(good.size() + 1);
	switch (what) { case 1: d.writeFailAt = at; break; case 2: d.writeFailAt = at; d.writeErrno = 5; break; case 3: d.writeFailAt = at; d.failOnce = true; d.writeErrno = 4; break; case 4: d.writeFailAt = good.size() - std::min<size_t>(good.size(), at % 200); break; }
	SubOut b = run_sub(plain_machine(), [&] {
		compile_job(j, false); sub_put("compiled"); sim_diskcfg() = d; FILE *f = sim_open("out.s", "w"); be_main(f, "unit"); int e = ferror(f) != 0; int c = fclose(f) != 0; sub_put(e || c ? "error" : "ok");
	});
	if (b.died()) violation(strf("emit: %s", b.what.c_str()).c_str(), "code generation dies when its output cannot be written: %s", b.err.c_str());
	std::string got = b.disk["out.s"]; bool ok = b.out[1] == "ok";
	ev("emit under fault %d at %zu: %s, %zu of %zu bytes", what, at, b.out[1].c_str(), got.size(), good.size());
	if (ok && got != good) violation("lost-output-unreported", "the stream reports no error but the output differs: %s", first_diff(good, got).c_str());
	if (!ok && what == 0) violation("spurious-error", "the stream has its error flag set although every (short) write succeeded");
	if (!d.failOnce && good.compare(0, got.size(), got)) violation("not-a-prefix", "after a write error the file is not a prefix of the complete output: %s", first_diff(good, got).c_str());
	probe(ok ? "output_complete" : "error_visible"); note_history(mix64(what * 100003 + at)); set_nontrivial(what != 0); set_sample("%s fault kind %d at %zu of %zu", j.tgt.triple.c_str(), what, at, good.size());
}
REGISTER("C07", c07, 15000, 500000, "exploration", "one run generates assembler into a simulated disk with short writes, running full, failing once or for good at a drawn byte; non-trivial: an error was injected; distinct by (program, target, fault kind, position)", {}, "libfirm backends and emitters", "disk, stdio buffer size");
