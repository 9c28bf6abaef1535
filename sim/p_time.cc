// C10 timers under clock jumps and failing scheduling calls, C15 the statistics event log
#include "sem.h"
#include <regex.h>
#include <memory>
extern "C" {
#include <libfirm/timing.h>
#include <libfirm/statev.h>
void stat_ev_tim_push(void);
void stat_ev_tim_pop(const char *name);
}
static u64 draw_delta() { switch (draw(6)) { case 0: return draw(3); case 1: return draw(2000); case 2: return draw(3000000); case 3: return 999999 + draw(3); case 4: return draw(100ull * 3600 * 1000000); default: return draw(20000000); } }
static void move_clock(u64 &now)
{
	u64 d = draw_delta(); bool back = chance(1, 12); if (back) { d = std::min(d, now / 2); now -= d; fault(F_CLOCK_JUMP_BACK); } else { now += d; if (d > 3600ull * 1000000) fault(F_CLOCK_JUMP_FWD); }
	sim_clock_set(now); ev("clock %llu", (unsigned long long)now);
}
static SchedState draw_sched() { SchedState s; if (chance(1, 2)) { s.policy = 1 + (int)draw(2); s.prio = 1 + (int)draw(99); } s.affinity = 1 + draw(255); return s; }
static int draw_schedfail() { return chance(1, 3) ? 1 << draw(6) : chance(1, 8) ? 63 : 0; }

// ---------------------------------------------------------------- C10
struct MT { ir_timer_t *t = nullptr; i64 el = 0, st = 0; int parent = -1; bool run = false, pushed = false, susp = false; std::vector<int> disp; };
static void c10()
{
	int nt = 1 + (int)draw(6), ops = 4 + (int)draw(g_thorough ? 200 : 40); bool misuse = chance(1, 6); SubCfg m = draw_machine(); m.clock.step = 0;
	SubOut o = run_sub(m, [&] {
		u64 now = sim_clock_now(); std::vector<MT> T(nt); std::vector<int> stk; SchedState init = draw_sched(), &S = sim_sched(); S = init; bool entered = false;
		for (auto &t : T) t.t = ir_timer_new();
		auto top = [&] { return stk.empty() ? -1 : stk.back(); };
		auto inStk = [&](int i) { for (int k : stk) if (k == i) return true; return false; };
		auto mstart = [&](int i) { T[i].run = true; T[i].susp = false; T[i].st = (i64)now; if (T[i].parent == -1) T[i].parent = top(); stk.push_back(i); };
		auto mstop = [&](int i) { T[i].run = false; T[i].el += (i64)now - T[i].st; stk.pop_back(); };
		auto canStart = [&](int i) { return !T[i].run && !T[i].susp && (T[i].parent == -1 || T[i].parent == top()); };
		auto check = [&](const char *after) {
			for (int i = 0; i < nt; ++i) {
				i64 e = T[i].el + (T[i].run ? (i64)now - T[i].st : 0); if (e < 0) { probe("negative_total_skipped"); continue; }
				u64 us = ir_timer_elapsed_usec(T[i].t), ms = ir_timer_elapsed_msec(T[i].t); double s = ir_timer_elapsed_sec(T[i].t);
				if (us != (u64)e) violation("elapsed-usec", "after %s timer %d (%s) reports %llu us, the clock says %lld us", after, i, T[i].run ? "running" : "stopped", (unsigned long long)us, (long long)e);
				if (ms != (u64)e / 1000) violation("elapsed-msec", "after %s timer %d reports %llu ms, the clock says %lld us", after, i, (unsigned long long)ms, (long long)e);
				double d = s - e / 1e6; if (d > 1e-6 * (1 + e / 1e6) || d < -1e-6 * (1 + e / 1e6)) violation("elapsed-sec", "after %s timer %d reports %.9g s, the clock says %lld us", after, i, s, (long long)e);
			}
		};
		for (int k = 0; k < ops; ++k) {
			int i = (int)draw(nt), op = (int)draw(9); MT &t = T[i]; const char *what = "";
			switch (op) {
			case 0: case 1: if (!canStart(i)) continue; what = "start"; t.pushed = false; ev("start %d", i); ir_timer_start(t.t); mstart(i); break;
			case 2: case 3: { if (stk.empty()) continue; int j = top(); if (T[j].pushed) { what = "pop"; ev("pop %d", j); ir_timer_pop(T[j].t); mstop(j); T[j].pushed = false; auto d = T[j].disp; T[j].disp.clear(); for (int x : d) mstart(x); } else { what = "stop"; ev("stop %d", j); ir_timer_stop(T[j].t); mstop(j); } break; }
			case 4: if (t.parent != -1 && t.parent != top()) continue; if (top() == i || t.run || t.susp) continue; { bool cyc = false; for (int p = top(); p != -1; p = T[p].parent) cyc |= p == i; if (cyc) continue; } what = "init_parent"; ev("init_parent %d", i); ir_timer_init_parent(t.t); t.parent = top(); break;
			case 5: { if (t.run || t.susp || t.parent == -1 || !inStk(t.parent)) continue; what = "push"; ev("push %d", i); ir_timer_push(t.t); while (top() != t.parent) { int x = top(); mstop(x); T[x].susp = true; t.disp.insert(t.disp.begin(), x); } mstart(i); t.pushed = true; break; }
			case 6: if (t.run || t.susp) continue; what = "reset"; ev("reset %d", i); ir_timer_reset(t.t); t.el = 0; break;
			case 7: if (!canStart(i)) continue; what = "reset_and_start"; t.pushed = false; ev("reset_and_start %d", i); t.el = 0; ir_timer_reset_and_start(t.t); mstart(i); break;
			case 8: {
				g_sched_fail = draw_schedfail(); SchedState before = S; int rc;
				if (!entered || chance(1, 4)) { what = "enter_high_priority"; rc = ir_timer_enter_high_priority(); ev("enter rc %d", rc); entered = true; if (rc == 0 && S.policy && S.prio != 99) violation("priority-not-raised", "entering high priority reports success but the priority is %d", S.prio); if (rc && !(S == before)) violation("failed-enter-changes-state", "entering high priority reports an error but changed the scheduling state"); if (g_sched_fail & SC_SETPARAM && rc == 0) violation("sched-error-hidden", "setting the priority failed but success is reported"); }
				else { what = "leave_high_priority"; rc = ir_timer_leave_high_priority(); ev("leave rc %d", rc); if (rc == 0) { if (!(S == init)) violation("priority-not-restored", "leaving high priority leaves policy %d priority %d affinity %llx instead of %d %d %llx", S.policy, S.prio, (unsigned long long)S.affinity, init.policy, init.prio, (unsigned long long)init.affinity); entered = false; } else if (!g_sched_fail) violation("leave-fails", "leaving high priority fails although every system call succeeds"); }
				g_sched_fail = 0; break; }
			}
			move_clock(now); check(what); probe(what); note_history(mix64(op * 8 + i));
		}
		sub_put("ops done");
		if (misuse) {
			int i = (int)draw(nt), k = (int)draw(5); MT &t = T[i];
			switch (k) {
			case 0: if (!t.run) discard("no misuse"); ev("misuse: start of running"); ir_timer_start(t.t); break;
			case 1: if (t.run) discard("no misuse"); ev("misuse: stop of stopped"); ir_timer_stop(t.t); break;
			case 2: if (!t.run || top() == i) discard("no misuse"); ev("misuse: stop below top"); ir_timer_stop(t.t); break;
			case 3: if (t.run || t.susp || t.parent == -1 || t.parent == top()) discard("no misuse"); ev("misuse: start at another stack position"); ir_timer_start(t.t); break;
			case 4: if (!t.run || t.pushed) discard("no misuse"); ev("misuse: pop of a started timer"); ir_timer_pop(t.t); break;
			}
			violation("misuse-accepted", "wrong use %d of a timer is not diagnosed", k);
		}
		while (!stk.empty()) { int j = top(); if (T[j].pushed) { ir_timer_pop(T[j].t); mstop(j); auto d = T[j].disp; T[j].disp.clear(); T[j].pushed = false; for (int x : d) mstart(x); } else { ir_timer_stop(T[j].t); mstop(j); } }
		check("unwinding"); for (auto &t : T) ir_timer_free(t.t);
	});
	if (o.died() && !(misuse && o.out.size() == 1 && o.kind == SubOut::ABORT && o.err.find("timer") != std::string::npos)) violation(strf("timers: %s", o.what.c_str()).c_str(), "a legal sequence of timer operations ends the process: %s", o.err.c_str());
	if (o.died()) probe("misuse_diagnosed");
	set_nontrivial(ops > 4); set_sample("%d timers, %d operations", nt, ops);
}
REGISTER("C10", c10, 150000, 4000000, "exploration", "one run applies a drawn sequence of timer operations (start, stop, push, pop, init_parent, reset, priority changes; sometimes a wrong use at the end) to up to 6 timers while the simulated clock advances by drawn amounts, jumps forwards and backwards, and scheduling system calls fail; every reading of every timer is compared with a model; distinct by operation sequence", { "a timer whose total became negative by a backward jump has no meaningful reading and is skipped", "a running timer is not reset" }, "ir/common/timing.c", "clock, scheduling system calls, heap");

// ---------------------------------------------------------------- C15
static void check_log(const std::string &log, const char *what)
{
	std::vector<std::string> st; size_t p = 0, lines = 0;
	while (p < log.size()) {
		size_t e = log.find('\n', p); if (e == std::string::npos) violation("log-unterminated", "%s: the log ends inside a line: '%s'", what, log.substr(p).c_str());
		std::string l = log.substr(p, e - p); p = e + 1; ++lines; size_t s2 = l.find(';', 2);
		if (l.size() < 3 || l[1] != ';' || !strchr("POE", l[0]) || (l[0] != 'O') != (s2 != std::string::npos)) violation("log-malformed", "%s: line %zu is '%s'", what, lines, l.c_str());
		std::string key = l.substr(2, s2 == std::string::npos ? std::string::npos : s2 - 2);
		if (l[0] == 'P') st.push_back(key);
		else if (l[0] == 'O') { if (st.empty() || st.back() != key) violation(strf("log-nesting: %s", key.c_str()).c_str(), "%s: line %zu pops context '%s' but the innermost one is '%s'", what, lines, key.c_str(), st.empty() ? "(none)" : st.back().c_str()); st.pop_back(); }
	}
	if (!st.empty()) violation(strf("log-unbalanced: %s", st.back().c_str()).c_str(), "%s: context '%s' is never left", what, st.back().c_str());
}
static void c15_compile()
{
	Job j; if (!draw_job(j, chance(1, 3), 1 + (int)draw(3), (int)draw(6), true, 3, false)) discard("step budget");
	SubCfg m = draw_machine(); m.clock.step = draw(3); int sf = draw_schedfail(); SchedState init = draw_sched();
	SubOut o = run_sub(m, [&] { sim_sched() = init; g_sched_fail = sf; stat_ev_begin("stat", nullptr); compile_job(j, false); emit_asm(); stat_ev_end(); g_sched_fail = 0; if (!sf && !(sim_sched() == init)) violation("sched-not-restored", "after a compilation with statistics the scheduling state differs"); });
	if (o.died()) discard("unsupported program");
	check_log(o.disk["stat.ev"], "compilation"); probe("compilation_logs"); set_nontrivial(true); set_sample("%s %zu byte log", j.tgt.triple.c_str(), o.disk["stat.ev"].size());
}
static void c15()
{
	if (chance(1, 12)) { c15_compile(); return; }
	SubCfg m = draw_machine(); m.clock.step = 0; int ops = 3 + (int)draw(g_thorough ? 150 : 40);
	SubOut o = run_sub(m, [&] {
		static const char *keys[] = { "a", "be_lv", "bemain_irg", "x.y", "regcls", "time_total" }; static const char *filt[] = { "^be", "a", "[", "irg$|^x", "zzz", "" };
		u64 now = sim_clock_now(); bool on = false; std::string file, expect; std::unique_ptr<regex_t> re; int sess = 0, wf = 0; SchedState &S = sim_sched(), init = draw_sched(); S = init; bool schedTouched = false;
		std::vector<u64> el, st; std::vector<std::string> ctx;
		auto match = [&](const char *k) { return !re || regexec(re.get(), k, 0, nullptr, 0) == 0; };
		auto line = [&](char c, const char *k, const std::string &v, bool hasv) { if (on && match(k)) expect += strf("%c;%s%s%s\n", c, k, hasv ? ";" : "", v.c_str()); };
		auto finish = [&] {
			if (!on) { stat_ev_end(); if (stat_ev_enabled) violation("enabled-without-log", "the log is enabled without a file"); return; }
			stat_ev_end(); on = false; if (re) { regfree(re.get()); re.reset(); }
			std::string got = sim_disk()[file].data;
			if (wf == 0 && got != expect) violation("log-differs", "the log differs from the events: %s", first_diff(expect, got).c_str());
			if (wf == 1 && expect.compare(0, got.size(), got)) violation("log-not-a-prefix", "after a permanent write error the log is no prefix of the events: %s", first_diff(expect, got).c_str());
			if (sim_diskstat().openNow) violation("handle-leak", "the log file is still open after the end"); if (stat_ev_enabled) violation("enabled-after-end", "the log is still enabled after the end");
			sim_diskcfg() = DiskCfg(); probe(wf ? "faulty_logs" : "complete_logs");
		};
		for (int k = 0; k < ops; ++k) {
			const char *key = keys[draw(6)]; int op = (int)draw(10); g_sched_fail = draw_schedfail(); int depth0 = (int)el.size();
			auto pause = [&] { if (!el.empty()) { el.back() += now - st.back(); st.back() = now; } };
			switch (op) {
			case 0: { if (on || (k && sess > 3)) break; DiskCfg d = draw_slow_disk(); wf = 0; switch (draw(6)) { case 1: d.openFail = true; break; case 2: d.writeFailAt = draw(400); wf = 1; break; case 3: d.writeFailAt = draw(400); d.failOnce = true; wf = 2; break; } sim_diskcfg() = d;
				file = strf("log%d.ev", sess); const char *f = chance(1, 2) ? nullptr : filt[draw(6)]; ev("begin log%d filter %s", sess, f ? f : "-"); stat_ev_begin(strf("log%d", sess).c_str(), f); ++sess; on = !d.openFail; expect.clear(); ctx.clear();
				if (d.openFail) sim_diskcfg() = DiskCfg(); if (!!stat_ev_enabled != on) violation("enabled-wrong", "opening the log %s but enabled is %d", on ? "succeeded" : "failed", stat_ev_enabled);
				re.reset(); if (f && *f) { re.reset(new regex_t); if (regcomp(re.get(), f, REG_EXTENDED)) re.reset(); }
				if (!on) { stat_ev_end(); if (re) { regfree(re.get()); re.reset(); } } break; }
			case 1: if (chance(1, 4)) { ev("end"); finish(); } break;
			case 2: { std::string v = strf("v%llu", (unsigned long long)draw(1000)); ev("push %s %s", key, v.c_str()); if (chance(1, 2)) stat_ev_ctx_push_str(key, v.c_str()); else stat_ev_ctx_push_fmt(key, "%s", v.c_str()); line('P', key, v, true); ctx.push_back(key); break; }
			case 3: if (ctx.empty()) break; ev("pop %s", ctx.back().c_str()); stat_ev_ctx_pop(ctx.back().c_str()); line('O', ctx.back().c_str(), "", false); ctx.pop_back(); break;
			case 4: { int v = (int)draw(1ull << 32); ev("int %s %d", key, v); stat_ev_int(key, v); line('E', key, strf("%d", v), true); break; }
			case 5: { u64 v = drawSeed() << draw(3); ev("ull %s", key); stat_ev_ull(key, v); line('E', key, strf("%llu", (unsigned long long)v), true); break; }
			case 6: { double v = (double)(i64)draw(1000000) / (1 + draw(1000)); ev("dbl %s %g", key, v); stat_ev_dbl(key, v); line('E', key, strf("%g", v), true); break; }
			case 7: ev("event %s", key); stat_ev(key); line('E', key, "0.0", true); break;
			case 8: if (el.size() > 100) break; ev("tim_push"); pause(); stat_ev_tim_push(); el.push_back(0); st.push_back(now); break;
			case 9: { if (el.empty()) break; const char *n = chance(1, 3) ? nullptr : key; ev("tim_pop %s", n ? n : "-"); pause(); stat_ev_tim_pop(n); u64 e = el.back(); el.pop_back(); st.pop_back(); if (!st.empty()) st.back() = now; if (n) line('E', n, strf("%llu", (unsigned long long)e), true); break; }
			}
			if (g_sched_fail) schedTouched = true; g_sched_fail = 0; (void)depth0;
			if (el.empty()) { stat_ev_tim_push(); stat_ev_tim_pop(nullptr); if (on && !(S == init)) violation("sched-not-restored", "no time is being measured but the scheduling state is policy %d priority %d affinity %llx instead of %d %d %llx", S.policy, S.prio, (unsigned long long)S.affinity, init.policy, init.prio, (unsigned long long)init.affinity); }
			move_clock(now); note_history(mix64(op));
		}
		g_sched_fail = 0; (void)schedTouched; while (!el.empty()) { stat_ev_tim_pop(nullptr); el.pop_back(); } finish();
	});
	if (o.died()) violation(strf("statev: %s", o.what.c_str()).c_str(), "writing statistics ends the process: %s", o.err.c_str());
	set_nontrivial(true); set_sample("%d operations", ops);
}
REGISTER("C15", c15, 120000, 3000000, "exploration", "one run writes a drawn sequence of statistics events, contexts and nested time measurements to logs on a simulated disk that may fail to open, run full or fail once, with filters, clock jumps and failing scheduling calls, and compares the log and the scheduling state with a model; one run in twelve compiles a program with statistics enabled and checks that its log is well nested; distinct by operation sequence", { "regcomp/regexec of the C library decide the filter in the model, too" }, "ir/stat, instrumented compilation", "disk, clock, scheduling system calls, heap");
