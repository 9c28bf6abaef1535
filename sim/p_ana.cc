// C11 analysis results and graph properties that libfirm claims to be valid equal an independent recomputation, after any history
#include "sem.h"
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
extern "C" {
int irg_has_properties(const ir_graph *irg, ir_graph_properties_t props);
unsigned long shim_arr_len(ir_node **a);
}

typedef std::vector<ir_node *> NV;
static ir_node *skip_proj(ir_node *n) { while (is_Proj(n)) n = get_Proj_pred(n); return n; }
// the control flow operation behind a block predecessor: a Proj of a Tuple stands for the operand of the Tuple
static ir_node *cf_op(ir_node *n)
{
	for (int i = 0; i < 1000 && is_Proj(n) && is_Tuple(get_Proj_pred(n)); ++i) n = get_Tuple_pred(get_Proj_pred(n), (int)get_Proj_num(n));
	return n;
}
static std::string nm(ir_node *n) { return n ? strf("%s %ld", get_irn_opname(n), get_irn_node_nr(n)) : std::string("none"); }

// everything the checks need, computed from the operands only
struct View {
	ir_graph *g; NV nodes; std::unordered_set<ir_node *> in; NV blocks; std::unordered_map<ir_node *, int> bi; int start, end;
	std::vector<std::vector<int>> pred, succ; std::vector<char> fromStart, toEnd; std::vector<char> kept; // kept: block keep-alive
	bool keptPhi = false;
	bool viaTuple = false; // some block is still reached through a Proj of a Tuple: a control flow edge which is about to change
	explicit View(ir_graph *gr) : g(gr)
	{
		NV work; auto push = [&](ir_node *n) { if (n && in.insert(n).second) { nodes.push_back(n); work.push_back(n); } };
		push(get_irg_end(g));
		while (!work.empty()) { ir_node *n = work.back(); work.pop_back(); if (!is_Block(n)) push(get_nodes_block(n)); for (int i = 0, k = get_irn_arity(n); i < k; ++i) push(get_irn_n(n, i)); }
		for (ir_node *n : nodes) if (is_Block(n)) { bi[n] = (int)blocks.size(); blocks.push_back(n); }
		size_t N = blocks.size(); pred.resize(N); succ.resize(N); fromStart.assign(N, 0); toEnd.assign(N, 0); kept.assign(N, 0);
		start = bi.count(get_irg_start_block(g)) ? bi[get_irg_start_block(g)] : -1; end = bi[get_irg_end_block(g)];
		for (size_t b = 0; b < N; ++b) for (int i = 0, k = get_irn_arity(blocks[b]); i < k; ++i) {
			ir_node *p = cf_op(get_irn_n(blocks[b], i)); viaTuple |= p != get_irn_n(blocks[b], i); if (is_Bad(p)) continue; ir_node *pb = is_Block(p) ? p : get_nodes_block(p); if (!bi.count(pb)) continue;
			pred[b].push_back(bi[pb]); succ[bi[pb]].push_back((int)b);
		}
		ir_node *e = get_irg_end(g);
		for (int i = 0, k = get_irn_arity(e); i < k; ++i) { ir_node *ka = get_irn_n(e, i); if (is_Block(ka)) kept[bi[ka]] = 1; else if (is_Phi(ka)) keptPhi = true; }
		auto reach = [](int from, const std::vector<std::vector<int>> &adj, std::vector<char> &r) { if (from < 0) return; std::vector<int> w{ from }; r[from] = 1; while (!w.empty()) { int b = w.back(); w.pop_back(); for (int s : adj[b]) if (!r[s]) { r[s] = 1; w.push_back(s); } } };
		reach(start, succ, fromStart); reach(end, pred, toEnd);
	}
	// dom[a] = set of blocks whose every path from root passes a; plain data flow iteration
	static std::vector<std::vector<char>> doms(int root, const std::vector<std::vector<int>> &pred, const std::vector<char> &live)
	{
		size_t N = pred.size(); std::vector<std::vector<char>> D(N, std::vector<char>(N, 1)); for (size_t i = 0; i < N; ++i) D[root][i] = (int)i == root;
		for (bool ch = true; ch;) { ch = false; for (size_t b = 0; b < N; ++b) { if ((int)b == root || !live[b]) continue;
			std::vector<char> n(N, 1); bool any = false; for (int p : pred[b]) if (live[p]) { any = true; for (size_t i = 0; i < N; ++i) n[i] &= D[p][i]; }
			if (!any) n.assign(N, 0); n[b] = 1; if (n != D[b]) { D[b] = n; ch = true; } } }
		return D; // D[b][a]: a dominates b
	}
	static int idom(int b, const std::vector<std::vector<char>> &D, const std::vector<char> &live)
	{
		int best = -1; size_t N = D.size(), bn = 0; for (size_t a = 0; a < N; ++a) if ((int)a != b && live[a] && D[b][a]) { size_t c = 0; for (size_t i = 0; i < N; ++i) c += D[a][i] && live[i]; if (c > bn) { bn = c; best = (int)a; } }
		return best;
	}
};
static void bad(const char *prop, const char *after, ir_graph *g, const std::string &what)
{
	violation(strf("%s-wrong-after-%s", prop, after).c_str(), "%s is claimed to be valid for %s after %s but is not: %s", prop, get_entity_name(get_irg_entity(g)), after, what.c_str());
}
static void trace_cfg(View &v)
{
	if (!g_trace) return;
	for (ir_node *x : v.blocks) { std::string s; for (int i = 0; i < get_irn_arity(x); ++i) { ir_node *p = get_irn_n(x, i); s += " " + nm(p) + (is_Proj(p) ? " of " + nm(skip_proj(p)) : "") + " in " + nm(is_Bad(p) ? p : get_nodes_block(p)) + ","; } evt("%s%s:%s", nm(x).c_str(), v.kept[v.bi[x]] ? " kept" : "", s.c_str()); }
}
static bool has(ir_graph *g, ir_graph_properties_t p) { return irg_has_properties(g, p) != 0; }

// strongly connected components of a sub graph (iterative Tarjan)
static std::vector<int> sccs(const std::vector<std::vector<int>> &succ, const std::vector<char> &live)
{
	int N = (int)succ.size(), idx = 0, nc = 0; std::vector<int> num(N, -1), low(N, 0), comp(N, -1), st; std::vector<size_t> it(N, 0);
	for (int r = 0; r < N; ++r) if (live[r] && num[r] < 0) {
		std::vector<int> cs{ r }; num[r] = low[r] = idx++; st.push_back(r);
		while (!cs.empty()) {
			int b = cs.back(); if (it[b] < succ[b].size()) { int s = succ[b][it[b]++]; if (!live[s]) continue; if (num[s] < 0) { num[s] = low[s] = idx++; st.push_back(s); cs.push_back(s); } else if (comp[s] < 0) low[b] = std::min(low[b], num[s]); }
			else { if (low[b] == num[b]) { for (;;) { int x = st.back(); st.pop_back(); comp[x] = nc; if (x == b) break; } nc++; } cs.pop_back(); if (!cs.empty()) low[cs.back()] = std::min(low[cs.back()], low[b]); }
		}
	}
	return comp;
}

static void check_dom(View &v, const char *after)
{
	size_t N = v.blocks.size(); if (N > 400 || v.start < 0) return;
	if (has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE)) {
		probe("claimed_dominance");
		auto pred = v.pred; for (size_t b = 0; b < N; ++b) if (v.kept[b] && v.fromStart[b]) pred[v.end].push_back((int)b);
		auto live = v.fromStart; if (!live[v.end]) for (int p : pred[v.end]) live[v.end] |= live[p];
		auto D = View::doms(v.start, pred, live);
		for (size_t b = 0; b < N; ++b) if (live[b]) {
			int want = View::idom((int)b, D, live); ir_node *got = get_Block_idom(v.blocks[b]);
			if (got != (want < 0 ? nullptr : v.blocks[want])) bad("dominance", after, v.g, strf("immediate dominator of %s is %s instead of %s", nm(v.blocks[b]).c_str(), nm(got).c_str(), want < 0 ? "none" : nm(v.blocks[want]).c_str()));
			for (size_t a = 0; a < N; ++a) if (live[a] && (block_dominates(v.blocks[a], v.blocks[b]) != 0) != (D[b][a] != 0)) bad("dominance", after, v.g, strf("block_dominates(%s, %s) is wrong", nm(v.blocks[a]).c_str(), nm(v.blocks[b]).c_str()));
		}
		if (has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS)) {
			probe("claimed_dominance_frontiers");
			for (size_t a = 0; a < N; ++a) if (v.fromStart[a]) {
				std::set<ir_node *> want; for (size_t b = 0; b < N; ++b) if (v.fromStart[b] && (int)b != v.end) { if (D[b][a] && a != b) continue; for (int p : v.pred[b]) if (v.fromStart[p] && D[p][a]) want.insert(v.blocks[b]); }
				ir_node **df = ir_get_dominance_frontier(v.blocks[a]); std::set<ir_node *> got; if (df) for (size_t i = 0; i < shim_arr_len(df); ++i) if (v.bi.count(df[i]) && v.bi[df[i]] != v.end) got.insert(df[i]);
				if (got != want) bad("dominance-frontiers", after, v.g, strf("the frontier of %s has %zu instead of %zu blocks", nm(v.blocks[a]).c_str(), got.size(), want.size()));
			}
		}
	}
	bool endless = false; for (size_t b = 0; b < N; ++b) endless |= !v.toEnd[b];
	if (has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE) && !endless) {
		probe("claimed_postdominance");
		auto D = View::doms(v.end, v.succ, v.toEnd);
		for (size_t b = 0; b < N; ++b) {
			int want = View::idom((int)b, D, v.toEnd); ir_node *got = get_Block_ipostdom(v.blocks[b]);
			if (got != (want < 0 ? nullptr : v.blocks[want])) bad("postdominance", after, v.g, strf("immediate postdominator of %s is %s instead of %s", nm(v.blocks[b]).c_str(), nm(got).c_str(), want < 0 ? "none" : nm(v.blocks[want]).c_str()));
			for (size_t a = 0; a < N; ++a) if ((block_postdominates(v.blocks[a], v.blocks[b]) != 0) != (D[b][a] != 0)) bad("postdominance", after, v.g, strf("block_postdominates(%s, %s) is wrong", nm(v.blocks[a]).c_str(), nm(v.blocks[b]).c_str()));
		}
	}
}
static void check_loops(View &v, const char *after)
{
	if (!has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO)) return;
	if (v.viaTuple) { probe("loopinfo_with_tuples"); return; }
	probe("claimed_loopinfo"); size_t N = v.blocks.size();
	std::vector<char> live(N, 1); auto comp = sccs(v.succ, live);
	std::vector<int> sz(N, 0); for (int c : comp) sz[c]++;
	std::map<ir_loop *, std::vector<int>> member;
	for (size_t b = 0; b < N; ++b) {
		ir_loop *l = get_irn_loop(v.blocks[b]); bool cyc = sz[comp[b]] > 1; for (int s : v.succ[b]) cyc |= s == (int)b;
		if (!l) { bad("loopinfo", after, v.g, nm(v.blocks[b]) + " belongs to no loop"); continue; }
		unsigned d = get_loop_depth(l);
		if (cyc != (d > 0)) trace_cfg(v), bad("loopinfo", after, v.g, strf("%s %s, but its loop depth is %u", nm(v.blocks[b]).c_str(), cyc ? "is in a cycle" : "is in no cycle", d));
		for (ir_loop *o = l; o && get_loop_depth(o) > 0; o = get_loop_outer_loop(o)) { member[o].push_back((int)b); if (get_loop_outer_loop(o) == o) break; }
	}
	for (auto &m : member) {
		std::vector<char> in(N, 0); for (int b : m.second) in[b] = 1; auto c = sccs(v.succ, in);
		for (int b : m.second) if (c[b] != c[m.second[0]]) bad("loopinfo", after, v.g, strf("the blocks of a loop of depth %u are not strongly connected (%s, %s)", get_loop_depth(m.first), nm(v.blocks[b]).c_str(), nm(v.blocks[m.second[0]]).c_str()));
	}
	std::vector<std::vector<int>> fw(N); for (size_t b = 0; b < N; ++b) for (int i = 0, k = get_irn_arity(v.blocks[b]); i < k; ++i) { ir_node *p = get_irn_n(v.blocks[b], i); if (is_Bad(p)) continue; ir_node *pb = is_Block(p) ? p : get_nodes_block(p); if (!is_backedge(v.blocks[b], i)) fw[v.bi[pb]].push_back((int)b); }
	auto c2 = sccs(fw, live); std::vector<int> s2(N, 0); for (int c : c2) s2[c]++;
	for (size_t b = 0; b < N; ++b) { bool cyc = s2[c2[b]] > 1; for (int s : fw[b]) cyc |= s == (int)b; if (cyc) bad("loopinfo", after, v.g, "a cycle through " + nm(v.blocks[b]) + " has no back edge"); }
}
typedef std::pair<ir_node *, int> Use;
static void check_uses(View &v, const char *after)
{
	bool edges = has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES), outs = has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_OUTS); if (!edges && !outs && !has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE)) return;
	std::unordered_map<ir_node *, std::set<Use>> use, kuse; // with and without block operands
	for (ir_node *n : v.nodes) { if (!is_Block(n)) use[get_nodes_block(n)].insert({ n, -1 }); for (int i = 0, k = get_irn_arity(n); i < k; ++i) { use[get_irn_n(n, i)].insert({ n, i }); } }
	if (edges) {
		probe("claimed_out_edges");
		if (!edges_activated(v.g)) bad("out-edges", after, v.g, "out edges are not even active");
		for (ir_node *n : v.nodes) {
			std::set<Use> got; for (const ir_edge_t *e = get_irn_out_edge_first(n); e; e = get_irn_out_edge_next(n, e, EDGE_KIND_NORMAL)) { ir_node *s = get_edge_src_irn(e); if (is_Anchor(s)) continue;
				if (!v.in.count(s)) { probe("edge_from_unused_node"); continue; } if (!got.insert({ s, get_edge_src_pos(e) }).second) bad("out-edges", after, v.g, nm(n) + " has a duplicate edge from " + nm(s)); }
			if (got != use[n]) { Use d{ nullptr, 0 }; bool missing = false; for (auto &u : use[n]) if (!got.count(u)) { d = u; missing = true; } for (auto &u : got) if (!use[n].count(u)) d = u; bad("out-edges", after, v.g, strf("%s: edge from operand %d of %s is %s", nm(n).c_str(), d.second, nm(d.first).c_str(), missing ? "missing" : "stale")); }
			if (is_Block(n)) { std::multiset<ir_node *> g2, w2; for (const ir_edge_t *e = get_block_succ_first(n); e; e = get_irn_out_edge_next(n, e, EDGE_KIND_BLOCK)) if (v.in.count(get_edge_src_irn(e))) g2.insert(get_edge_src_irn(e)); for (int s : v.succ[v.bi[n]]) w2.insert(v.blocks[s]);
				if (g2 != w2) { if (g_trace) { for (ir_node *x : w2) evt("want %s", nm(x).c_str()); for (ir_node *x : g2) evt("got %s", nm(x).c_str()); for (ir_node *x : w2) for (int i = 0; i < get_irn_arity(x); ++i) { ir_node *p = get_irn_n(x, i); evt("%s pred %d %s of %s, block %s", nm(x).c_str(), i, nm(p).c_str(), nm(skip_proj(p)).c_str(), nm(is_Block(p) ? p : get_nodes_block(p)).c_str()); } } bad("out-edges", after, v.g, strf("%s has %zu block edges instead of %zu", nm(n).c_str(), g2.size(), w2.size())); } }
		}
	}
	if (outs) {
		probe("claimed_outs");
		for (ir_node *n : v.nodes) {
			std::set<Use> got; unsigned k = get_irn_n_outs(n); for (unsigned i = 0; i < k; ++i) { int p; ir_node *s = get_irn_out_ex(n, i, &p); if (!v.in.count(s)) { if (!is_Anchor(s)) probe("out_from_unused_node"); continue; } got.insert({ s, p }); }
			std::set<Use> want = use[n]; if (got != want) { Use d{ nullptr, 0 }; bool missing = false; for (auto &u : want) if (!got.count(u)) { d = u; missing = true; } for (auto &u : got) if (!want.count(u)) d = u; bad("outs", after, v.g, strf("%s: out to operand %d of %s is %s", nm(n).c_str(), d.second, nm(d.first).c_str(), missing ? "missing" : "stale")); }
		}
	}
	if (has(v.g, IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE)) {
		probe("claimed_entity_usage");
		for (ir_node *n : v.nodes) if (is_Member(n) && get_Member_ptr(n) == get_irg_frame(v.g)) {
			ir_entity *e = get_Member_entity(n); if (is_method_entity(e)) continue; unsigned flags = get_entity_usage(e), want = 0; std::set<ir_node *> seen; NV w{ n };
			while (!w.empty()) { ir_node *p = w.back(); w.pop_back(); if (!seen.insert(p).second) continue;
				for (auto &u : use[p]) { ir_node *s = u.first;
					if (is_Load(s)) want |= ir_usage_read; else if (is_Store(s)) want |= get_Store_ptr(s) == p && u.second != n_Store_value ? ir_usage_write : ir_usage_address_taken; else if (is_Member(s) || is_Sel(s) || is_Add(s) || is_Sub(s)) w.push_back(s);
					else if (is_Call(s)) { if (u.second > n_Call_max && is_compound_type(get_method_param_type(get_Call_type(s), (size_t)(u.second - n_Call_max - 1)))) want |= ir_usage_read; else want |= ir_usage_address_taken; } else if (is_Phi(s) || is_Mux(s)) want |= ir_usage_address_taken; } }
			if (want & ~flags) bad("entity-usage", after, v.g, strf("%s is used with %x, but only %x is recorded", get_entity_name(e), want, flags));
		}
	}
}
static void check_shape(View &v, const char *after)
{
	if (has(v.g, IR_GRAPH_PROPERTY_NO_BADS)) { probe("claimed_no_bads"); for (ir_node *n : v.nodes) if (is_Bad(n)) bad("no-bads", after, v.g, nm(n)); }
	if (has(v.g, IR_GRAPH_PROPERTY_NO_TUPLES)) { probe("claimed_no_tuples"); for (ir_node *n : v.nodes) if (is_Tuple(n)) bad("no-tuples", after, v.g, nm(n)); }
	if (has(v.g, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE)) { probe("claimed_no_unreachable_code"); for (size_t b = 0; b < v.blocks.size(); ++b) if (!v.fromStart[b] && (int)b != v.end) bad("no-unreachable-code", after, v.g, nm(v.blocks[b])); }
	if (has(v.g, IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES)) { probe("claimed_no_critical_edges"); for (size_t b = 0; b < v.blocks.size(); ++b) if ((int)b != v.end && v.pred[b].size() > 1) for (int i = 0, k = get_irn_arity(v.blocks[b]); i < k; ++i) { ir_node *p = skip_proj(cf_op(get_irn_n(v.blocks[b], i))); if (is_Cond(p) || is_Switch(p)) bad("no-critical-edges", after, v.g, nm(v.blocks[b]) + " reached from " + nm(p)); } }
	int rets = 0; for (ir_node *n : v.nodes) rets += is_Return(n);
	if (has(v.g, IR_GRAPH_PROPERTY_ONE_RETURN)) { probe("claimed_one_return"); if (rets > 1) bad("one-return", after, v.g, strf("%d Returns", rets)); }
}
static void check_claims(const char *after)
{
	for (size_t i = 0; i < get_irp_n_irgs(); ++i) { View v(get_irp_irg(i)); check_shape(v, after); check_dom(v, after); check_loops(v, after); check_uses(v, after); }
}

static const struct { ir_graph_properties_t p; const char *n; } PROPS[] = {
	{ IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES, "no-critical-edges" }, { IR_GRAPH_PROPERTY_NO_BADS, "no-bads" }, { IR_GRAPH_PROPERTY_NO_TUPLES, "no-tuples" }, { IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE, "no-unreachable-code" },
	{ IR_GRAPH_PROPERTY_ONE_RETURN, "one-return" }, { IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE, "dominance" }, { IR_GRAPH_PROPERTY_CONSISTENT_POSTDOMINANCE, "postdominance" }, { IR_GRAPH_PROPERTY_CONSISTENT_DOMINANCE_FRONTIERS, "dominance-frontiers" },
	{ IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES, "out-edges" }, { IR_GRAPH_PROPERTY_CONSISTENT_OUTS, "outs" }, { IR_GRAPH_PROPERTY_CONSISTENT_LOOPINFO, "loopinfo" }, { IR_GRAPH_PROPERTY_CONSISTENT_ENTITY_USAGE, "entity-usage" }, { IR_GRAPH_PROPERTY_MANY_RETURNS, "many-returns" } };
static void c11()
{
	Job j; int scale = 1 + (int)draw(3);
	if (!draw_job(j, chance(1, 3), scale, chance(1, 3) ? 1 : 0, false, g_thorough ? 16 : 10)) discard("step budget");
	SubCfg m = draw_machine();
	std::vector<std::vector<std::pair<int, int>>> req(j.hist.size() + 1); // properties requested before each pass, per graph
	for (auto &r : req) for (int k = chance(2, 3) ? (int)draw(4) : 0; k > 0; --k) r.push_back({ (int)draw(sizeof PROPS / sizeof *PROPS), (int)draw(8) });
	run_sub_ok(m, "analyse", [&] {
		firm_start(j.tgt); build_firm(j.P, j.bc); check_claims("construction");
		auto request = [&](size_t i) { for (auto &r : req[i]) { size_t n = get_irp_n_irgs(); if (!n) continue; ir_graph *g = get_irp_irg((size_t)r.second % n); auto &p = PROPS[r.first]; if (g_trace) evt("assure %s of %s", p.n, get_entity_name(get_irg_entity(g)));
			assure_irg_properties(g, p.p); if (!has(g, p.p)) violation("property-not-assured", "assure_irg_properties left %s unset", p.n); check_claims(strf("assuring-%s", p.n).c_str()); } };
		for (size_t i = 0; i < j.hist.size(); ++i) { request(i); const char *n = pass_name(j.hist[i].pass); if (g_trace) evt("pass %s", n); run_pass(j.hist[i]); check_claims(n); }
		request(j.hist.size()); finish_for_backend(0); check_claims("lowering");
	});
	set_nontrivial(true); set_sample("%s", passes_text(j.hist).c_str());
}
REGISTER("C11", c11, 100000, 1000000, "exploration", "one run builds a generated program on a simulated machine and interleaves a drawn history of optimisation passes with drawn requests for analyses; after the construction and every step each analysis and shape property that a graph claims is recomputed from the operands alone and compared; distinct by hash of the choices", { "postdominance is compared when no block is in an endless loop", "out edges from nodes that became unused are tolerated" }, "libfirm construction, optimisations, analyses", "heap, clock, environment, rand");
