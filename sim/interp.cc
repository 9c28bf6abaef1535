// executes libfirm graphs: the memory operations of a block run in an order the seeded scheduler picks among
// those the dependency edges allow, undefined values and fresh memory are seeded junk, every access is checked
#include "sem.h"
#include <algorithm>
#include <cmath>
#include <unordered_map>

namespace {
struct Fail { IRun::K k; std::string why; };
struct Edge { int blk, pos; };
struct Blk { ir_node *b; std::vector<int> phis, order; int cf = -1; std::map<unsigned, Edge> succ; };
struct Gr {
	ir_graph *irg; std::vector<ir_node *> n; std::unordered_map<ir_node *, int> id; std::vector<Blk> blks; std::unordered_map<ir_node *, int> bid; int start = -1;
	std::vector<int> frameNode;
};
struct Reg { u64 base; std::vector<u8> b; bool ro; };
struct Act { std::vector<u64> v; std::vector<u64> args; std::unordered_map<ir_entity *, u64> frame; std::vector<u64> owned; };

static Mode imode(ir_mode *m);
// programs using the extended mode are exact in double precision: its values are kept as doubles
static bool isExt(ir_mode *m) { return mode_is_float(m) && get_mode_size_bytes(m) > 8; }
static u64 cn(ir_mode *m, u64 v)
{
	if (isExt(m)) return v;
	if (m == get_modeb()) return v & 1;
	unsigned b = get_mode_size_bits(m); if (b >= 64) return v;
	v &= (1ull << b) - 1; if (mode_is_int(m) && mode_is_signed(m) && (v >> (b - 1))) v |= ~0ull << b; return v;
}
static u64 tvbits(ir_tarval *tv)
{
	ir_mode *m = get_tarval_mode(tv); if (m == get_modeb()) return tv == get_tarval_b_true();
	if (isExt(m)) { m = get_modeD(); tv = tarval_convert_to(tv, m); if (get_tarval_mode(tv) != m) throw Fail{ IRun::UNSUPPORTED, "extended constant" }; }
	u64 v = 0; unsigned n = get_mode_size_bytes(m); if (n > 8) throw Fail{ IRun::UNSUPPORTED, "wide constant" };
	for (unsigned i = 0; i < n; ++i) v |= (u64)get_tarval_sub_bits(tv, i) << (8 * i); return cn(m, v);
}
static bool is_aggregate_type(ir_type *t) { return is_compound_type(t) || is_Array_type(t); }
static Mode imode(ir_mode *m) { return isExt(m) ? F64 : mode_of(m); }
struct Interp {
	const Prog &P; std::string prefix; Rng rng; IRun &R; u64 limit; int depth = 0; u64 ext = 0; u64 nextAddr = 0x10000;
	std::map<u64, Reg> mem; std::unordered_map<ir_entity *, u64> eaddr; std::unordered_map<u64, ir_entity *> fn; std::unordered_map<ir_graph *, Gr> gr;
	std::unordered_map<ir_node *, u64> *blockRuns = nullptr; // count the executions of every block
	bool rev; // reverse the ready list instead of random picks
	Interp(const Prog &p, const std::string &pf, u64 seed, IRun &r, u64 lim) : P(p), prefix(pf), rng(mix64(seed)), R(r), limit(lim), rev(seed == 1) {}
	[[noreturn]] void stuck(const std::string &s) { throw Fail{ IRun::STUCK, s }; }
	[[noreturn]] void unsup(const std::string &s) { throw Fail{ IRun::UNSUPPORTED, s }; }
	bool vague = false; u64 und() { vague = true; return rng.next(); } // an undefined value
	u64 alloc(u64 size, u64 align, bool junk) { if (!align || (align & (align - 1))) align = 16; nextAddr = (nextAddr + align - 1) & ~(align - 1); u64 a = nextAddr; nextAddr += size + 64; Reg r; r.base = a; r.ro = false; r.b.resize(size); if (junk) for (auto &c : r.b) c = (u8)rng.next(); mem[a] = std::move(r); return a; }
	Reg *find(u64 a, u64 n) { auto it = mem.upper_bound(a); if (it == mem.begin()) return nullptr; --it; Reg &r = it->second; return a - r.base + n <= r.b.size() && a >= r.base ? &r : nullptr; }
	u64 entAddr(ir_entity *e)
	{
		auto it = eaddr.find(e); if (it != eaddr.end()) return it->second;
		if (is_method_entity(e)) { u64 a = 0x1000 + 16 * fn.size(); fn[a] = e; return eaddr[e] = a; }
		if (is_alias_entity(e)) unsup("alias");
		ir_type *t = get_entity_type(e); u64 a = alloc(get_type_size(t), std::max(1u, get_type_alignment(t)), false); eaddr[e] = a;
		ir_initializer_t *in = get_entity_initializer(e); if (in) init(in, t, a); else if (get_entity_visibility(e) != ir_visibility_external && get_entity_visibility(e) != ir_visibility_local && get_entity_visibility(e) != ir_visibility_private) unsup("entity without initializer");
		return a;
	}
	void put(u64 a, u64 v, unsigned n) { Reg *r = find(a, n); if (!r) stuck("initializer outside its entity"); memcpy(&r->b[a - r->base], &v, n); }
	u64 constVal(ir_node *n)
	{
		if (is_Const(n)) return tvbits(get_Const_tarval(n));
		if (is_Address(n)) return entAddr(get_Address_entity(n));
		if (is_Add(n)) return cn(get_irn_mode(n), constVal(get_Add_left(n)) + constVal(get_Add_right(n)));
		if (is_Sub(n)) return cn(get_irn_mode(n), constVal(get_Sub_left(n)) - constVal(get_Sub_right(n)));
		if (is_Conv(n)) return cn(get_irn_mode(n), constVal(get_Conv_op(n)));
		unsup("constant expression");
	}
	void init(ir_initializer_t *in, ir_type *t, u64 a)
	{
		switch (get_initializer_kind(in)) {
		case IR_INITIALIZER_NULL: return;
		case IR_INITIALIZER_TARVAL: { ir_tarval *tv = get_initializer_tarval_value(in); if (!tarval_is_constant(tv)) return; put(a, tvbits(tv), get_mode_size_bytes(get_tarval_mode(tv))); return; }
		case IR_INITIALIZER_CONST: { ir_node *n = get_initializer_const_value(in); put(a, constVal(n), get_mode_size_bytes(get_irn_mode(n))); return; }
		case IR_INITIALIZER_COMPOUND: {
			size_t n = get_initializer_compound_n_entries(in);
			if (is_Array_type(t)) { ir_type *el = get_array_element_type(t); for (size_t i = 0; i < n; ++i) init(get_initializer_compound_value(in, i), el, a + i * get_type_size(el)); return; }
			if (!is_compound_type(t)) unsup("compound initializer");
			for (size_t i = 0; i < n && i < get_compound_n_members(t); ++i) { ir_entity *m = get_compound_member(t, i); init(get_initializer_compound_value(in, i), get_entity_type(m), a + get_entity_offset(m)); }
			return; }
		}
	}
	Gr &graph(ir_graph *irg)
	{
		auto it = gr.find(irg); if (it != gr.end()) return it->second;
		Gr &g = gr[irg]; g.irg = irg;
		std::vector<ir_node *> st; auto add = [&](ir_node *x) { if (g.id.count(x)) return; g.id[x] = (int)g.n.size(); g.n.push_back(x); st.push_back(x); };
		add(get_irg_end(irg)); add(get_irg_start(irg));
		while (!st.empty()) { ir_node *x = st.back(); st.pop_back(); if (is_Bad(x) || is_Deleted(x)) continue; if (!is_Block(x)) { ir_node *b = get_nodes_block(x); if (is_Block(b)) add(b); } for (int i = 0; i < get_irn_arity(x); ++i) add(get_irn_n(x, i)); }
		for (ir_node *x : g.n) if (is_Block(x)) { g.bid[x] = (int)g.blks.size(); Blk b; b.b = x; g.blks.push_back(b); }
		std::vector<int> blockOf(g.n.size(), -1);
		for (size_t i = 0; i < g.n.size(); ++i) { ir_node *x = g.n[i]; if (is_Block(x) || is_Bad(x) || is_Deleted(x) || is_Anchor(x)) continue; auto f = g.bid.find(get_nodes_block(x)); if (f == g.bid.end()) continue; blockOf[i] = f->second; }
		g.start = g.bid[get_irg_start_block(irg)];
		// control flow edges
		for (size_t b = 0; b < g.blks.size(); ++b) { ir_node *B = g.blks[b].b; for (int i = 0; i < get_Block_n_cfgpreds(B); ++i) {
			ir_node *x = get_Block_cfgpred(B, i); if (is_Bad(x)) continue; unsigned pn = 0; ir_node *c = x; if (is_Tuple(x)) unsup("tuple control flow"); while (is_Id(c)) c = get_Id_pred(c); if (is_Proj(c)) { pn = get_Proj_num(c); c = get_Proj_pred(c); }
			if (is_Return(c)) continue; if (is_Start(c)) unsup("start jump"); auto f = g.bid.find(get_nodes_block(c)); if (f == g.bid.end()) continue; Blk &src = g.blks[f->second];
			if (!is_Jmp(c) && !is_Cond(c) && !is_Switch(c)) { if (is_Raise(c) || is_IJmp(c)) unsup("raise or computed jump"); unsup("exceptional control flow"); }
			src.succ[pn] = Edge{ (int)b, i };
		} }
		// order inside the blocks
		std::vector<std::vector<int>> use(g.n.size()); std::vector<int> need(g.n.size(), 0); std::vector<std::vector<int>> ready(g.blks.size());
		for (size_t i = 0; i < g.n.size(); ++i) {
			int b = blockOf[i]; if (b < 0) continue; ir_node *x = g.n[i];
			if (is_Phi(x)) { if (get_irn_mode(x) != get_modeM() && get_irn_mode(x) != get_modeX()) g.blks[b].phis.push_back((int)i); continue; }
			if (is_End(x)) continue;
			if (is_cfop(x) && !is_Start(x)) { if (is_Jmp(x) || is_Cond(x) || is_Switch(x) || is_Return(x) || is_Raise(x) || is_IJmp(x)) { if (g.blks[b].cf >= 0) stuck(strf("block %ld has two control transfers", get_irn_node_nr(g.blks[b].b))); g.blks[b].cf = (int)i; } }
			for (int k = 0; k < get_irn_arity(x); ++k) { ir_node *p = get_irn_n(x, k); int j = g.id[p]; if (blockOf[j] == b && !is_Phi(p)) { use[j].push_back((int)i); ++need[i]; } }
			if (!need[i]) ready[b].push_back((int)i);
		}
		for (size_t b = 0; b < g.blks.size(); ++b) {
			auto &rd = ready[b]; auto &o = g.blks[b].order;
			while (!rd.empty()) { size_t k = rev ? rd.size() - 1 : rng.below(rd.size()); int i = rd[k]; rd[k] = rd.back(); rd.pop_back(); o.push_back(i); for (int u : use[i]) if (--need[u] == 0) rd.push_back(u); }
		}
		for (size_t i = 0; i < g.n.size(); ++i) if (blockOf[i] >= 0 && need[i] > 0) stuck(strf("dependency cycle through node %ld (%s)", get_irn_node_nr(g.n[i]), get_irn_opname(g.n[i])));
		return g;
	}
	// ---- values
	u64 val(Gr &g, Act &A, ir_node *x) { return A.v[g.id[x]]; }
	static OP opOf(ir_node *x) { return is_Add(x) ? O_ADD : is_Sub(x) ? O_SUB : O_MUL; }
	u64 fconst(ir_mode *m, u64 v) { return canonNaN(imode(m), v); }
	u64 conv(ir_mode *f, ir_mode *t, u64 v)
	{
		if (f == t) return v;
		if (t == get_modeb()) return v != 0;
		bool ff = mode_is_float(f), tf = mode_is_float(t), ub;
		if (!ff && !tf) return cn(t, v);
		Mode a = imode(f), b = imode(t); if (a == M_VOID || b == M_VOID) unsup("mode of conversion");
		u64 r = eval_conv(a, b, v, ub); return ub ? und() & (mbits(b) == 64 ? ~0ull : (1ull << mbits(b)) - 1) : r;
	}
	u64 ld(u64 a, ir_mode *m, bool pinned, ir_node *x)
	{
		unsigned n = get_mode_size_bytes(m); if (n > 8) unsup("wide load"); Reg *r = find(a, n);
		if (!r) { if (pinned) stuck(strf("%s %ld reads %u bytes at %llx outside every object", get_irn_opname(x), get_irn_node_nr(x), n, (unsigned long long)a)); return cn(m, und()); }
		u64 v = 0; memcpy(&v, &r->b[a - r->base], n); return mode_is_float(m) ? v : cn(m, v);
	}
	bool cmp(ir_relation rel, ir_mode *m, u64 a, u64 b)
	{
		int r; if (mode_is_float(m)) { Mode k = imode(m); if (k == M_VOID) unsup("float mode"); return eval_rel((u8)rel, k, a, b); }
		if (mode_is_int(m) && mode_is_signed(m)) r = a == b ? 1 : (i64)a < (i64)b ? 2 : 4; else r = a == b ? 1 : a < b ? 2 : 4;
		return (rel & r) != 0;
	}
	void node(Gr &g, Act &A, int i)
	{
		ir_node *x = g.n[i]; u64 &d = A.v[i]; ir_mode *m = get_irn_mode(x);
		if (++R.steps > limit) throw Fail{ IRun::LIMIT, "step budget" };
		auto V = [&](ir_node *p) { return val(g, A, p); };
		switch (get_irn_opcode(x)) {
		case iro_Const: d = tvbits(get_Const_tarval(x)); return;
		case iro_Address: d = entAddr(get_Address_entity(x)); return;
		case iro_Offset: d = cn(m, (u64)(i64)get_entity_offset(get_Offset_entity(x))); return;
		case iro_Size: d = cn(m, get_type_size(get_Size_type(x))); return;
		case iro_Align: d = cn(m, get_type_alignment(get_Align_type(x))); return;
		case iro_Unknown: case iro_Dummy: case iro_Bad: if (m != get_modeM() && m != get_modeX() && m != get_modeT()) d = mode_is_float(m) ? und() >> (isExt(m) ? 0 : 64 - get_mode_size_bits(m)) : cn(m, und()); return;
		case iro_Add: case iro_Sub: case iro_Mul: {
			u64 a = V(get_irn_n(x, 0)), b = V(get_irn_n(x, 1)); if (mode_is_float(m)) { bool ub; Mode k = imode(m); if (k == M_VOID) unsup("float mode"); d = eval_bin(opOf(x), k, a, b, ub); return; }
			d = cn(m, is_Add(x) ? a + b : is_Sub(x) ? a - b : a * b); return; }
		case iro_Mulh: { u64 a = V(get_irn_n(x, 0)), b = V(get_irn_n(x, 1)); unsigned bt = get_mode_size_bits(m); d = mode_is_signed(m) ? cn(m, (u64)(((__int128)(i64)a * (i64)b) >> bt)) : cn(m, (u64)(((unsigned __int128)a * b) >> bt)); return; }
		case iro_And: d = V(get_irn_n(x, 0)) & V(get_irn_n(x, 1)); return;
		case iro_Or: d = V(get_irn_n(x, 0)) | V(get_irn_n(x, 1)); return;
		case iro_Eor: d = cn(m, V(get_irn_n(x, 0)) ^ V(get_irn_n(x, 1))); return;
		case iro_Not: d = cn(m, ~V(get_Not_op(x))); return;
		case iro_Minus: { u64 a = V(get_Minus_op(x)); if (mode_is_float(m)) { d = fconst(m, a ^ 1ull << (isExt(m) ? 63 : get_mode_size_bits(m) - 1)); return; } d = cn(m, 0 - a); return; }
		case iro_Shl: case iro_Shr: case iro_Shrs: {
			u64 a = V(get_irn_n(x, 0)), s = V(get_irn_n(x, 1)); unsigned md = get_mode_modulo_shift(m), b = get_mode_size_bits(m); if (md) s %= md; if (s >= b) vague = true;
			if (is_Shl(x)) d = s >= b ? 0 : cn(m, a << s);
			else if (is_Shr(x)) { if (b < 64) a &= (1ull << b) - 1; d = s >= b ? 0 : cn(m, a >> s); }
			else { i64 k = b == 64 ? (i64)a : (i64)(a << (64 - b)) >> (64 - b); d = cn(m, (u64)(k >> (s >= b ? b - 1 : s))); }
			return; }
		case iro_Conv: d = conv(get_irn_mode(get_Conv_op(x)), m, V(get_Conv_op(x))); return;
		case iro_Bitcast: { u64 a = V(get_Bitcast_op(x)); unsigned b = get_mode_size_bits(m); if (b < 64) a &= (1ull << b) - 1; d = mode_is_float(m) ? a : cn(m, a); return; }
		case iro_Cmp: d = cmp(get_Cmp_relation(x), get_irn_mode(get_Cmp_left(x)), V(get_Cmp_left(x)), V(get_Cmp_right(x))); return;
		case iro_Mux: d = V(get_Mux_sel(x)) ? V(get_Mux_true(x)) : V(get_Mux_false(x)); return;
		case iro_Confirm: d = V(get_Confirm_value(x)); return;
		case iro_Id: d = V(get_Id_pred(x)); return;
		case iro_Pin: if (m != get_modeM()) d = V(get_Pin_op(x)); return;
		case iro_Div: case iro_Mod: {
			bool dv = is_Div(x); ir_mode *rm = dv ? get_Div_resmode(x) : get_Mod_resmode(x); u64 a = V(dv ? get_Div_left(x) : get_Mod_left(x)), b = V(dv ? get_Div_right(x) : get_Mod_right(x)); Mode k = imode(rm); if (k == M_VOID || k == PTR) unsup("division mode"); bool ub;
			if (mint(k) && b == 0) { if (get_irn_pinned(x)) stuck(strf("%s %ld divides by zero", get_irn_opname(x), get_irn_node_nr(x))); d = cn(rm, und()); return; }
			d = eval_bin(dv ? O_DIV : O_MOD, k, a, b, ub); if (ub) d = cn(rm, und()); return; }
		case iro_Sel: { ir_type *t = get_Sel_type(x); ir_node *ix = get_Sel_index(x); u64 s = V(ix); ir_type *el = get_array_element_type(t); d = cn(m, V(get_Sel_ptr(x)) + s * get_type_size(el)); return; }
		case iro_Member: {
			ir_entity *e = get_Member_entity(x); ir_node *p = get_Member_ptr(x);
			if (is_frame_type(get_entity_owner(e))) { if (p != get_irg_frame(g.irg)) unsup("frame member through a value"); auto f = A.frame.find(e); if (f == A.frame.end()) { if (is_parameter_entity(e)) unsup("parameter entity"); ir_type *t = get_entity_type(e); u64 a = alloc(get_type_size(t), std::max(1u, get_type_alignment(t)), true); A.owned.push_back(a); f = A.frame.emplace(e, a).first; } d = f->second; return; }
			d = cn(m, V(p) + (u64)(i64)get_entity_offset(e)); return; }
		case iro_Load: d = ld(V(get_Load_ptr(x)), get_Load_mode(x), get_irn_pinned(x), x); return;
		case iro_Store: {
			u64 a = V(get_Store_ptr(x)), v = V(get_Store_value(x)); unsigned n = get_mode_size_bytes(get_irn_mode(get_Store_value(x))); if (n > 8) unsup("wide store"); Reg *r = find(a, n);
			if (!r) stuck(strf("Store %ld writes %u bytes at %llx outside every object", get_irn_node_nr(x), n, (unsigned long long)a)); memcpy(&r->b[a - r->base], &v, n); return; }
		case iro_CopyB: { u64 n = get_type_size(get_CopyB_type(x)); Reg *q = find(V(get_CopyB_src(x)), n), *r = find(V(get_CopyB_dst(x)), n); if (!q || !r) stuck("CopyB outside every object"); std::vector<u8> t(q->b.begin() + (V(get_CopyB_src(x)) - q->base), q->b.begin() + (V(get_CopyB_src(x)) - q->base) + n); std::copy(t.begin(), t.end(), r->b.begin() + (V(get_CopyB_dst(x)) - r->base)); return; }
		case iro_Alloc: { u64 n = V(get_Alloc_size(x)); if (n > 1 << 20) stuck("huge Alloc"); d = alloc(n, get_Alloc_alignment(x), true); A.owned.push_back(d); return; }
		case iro_Free: return;
		case iro_Call: call(g, A, i); return;
		case iro_Builtin: {
			ir_builtin_kind k = get_Builtin_kind(x); BI b; bool ub;
			switch (k) { case ir_bk_ffs: b = BI_FFS; break; case ir_bk_clz: b = BI_CLZ; break; case ir_bk_ctz: b = BI_CTZ; break; case ir_bk_popcount: b = BI_POPCOUNT; break; case ir_bk_parity: b = BI_PARITY; break; case ir_bk_bswap: b = BI_BSWAP; break; default: unsup("builtin"); }
			ir_node *p = get_Builtin_param(x, 0); Mode pm = imode(get_irn_mode(p)); if (pm == M_VOID || !mint(pm)) unsup("builtin mode"); u64 r = eval_builtin(b, pm, V(p), ub); if (ub) r = und();
			ir_mode *rm = get_type_mode(get_method_res_type(get_Builtin_type(x), 0)); d = cn(rm, r); return; }
		case iro_Proj: {
			if (m == get_modeM() || m == get_modeX() || m == get_modeT()) return;
			ir_node *p = get_Proj_pred(x); unsigned pn = get_Proj_num(x);
			if (is_Tuple(p)) { d = V(get_Tuple_pred(p, pn)); return; }
			if (is_Start(p)) { d = pn == pn_Start_P_frame_base ? 0xf000000 : 0; return; }
			if (is_Proj(p)) {
				ir_node *q = get_Proj_pred(p);
				if (is_Start(q)) { if (pn >= A.args.size()) stuck("argument Proj without argument"); d = A.args[pn]; d = mode_is_float(m) ? d : cn(m, d); return; }
				if (is_Call(q)) { if (pn) unsup("several results"); d = V(q); return; }
				if (is_Tuple(q)) { ir_node *t = get_Tuple_pred(q, get_Proj_num(p)); while (is_Id(t)) t = get_Id_pred(t); if (is_Tuple(t)) { d = V(get_Tuple_pred(t, pn)); return; } if (is_Proj(t) && is_Call(get_Proj_pred(t))) { d = V(get_Proj_pred(t)); return; } unsup("tuple"); }
				unsup("Proj");
			}
			d = V(p); return; }
		case iro_Start: case iro_NoMem: case iro_Sync: case iro_Tuple: case iro_Jmp: case iro_Cond: case iro_Switch: case iro_Return: case iro_End: case iro_Raise: return;
		default: unsup(get_irn_opname(x));
		}
	}
	void call(Gr &g, Act &A, int i)
	{
		ir_node *x = g.n[i]; u64 p = val(g, A, get_Call_ptr(x)); auto f = fn.find(p); if (f == fn.end()) stuck(strf("Call %ld of a value which is no function", get_irn_node_nr(x)));
		std::vector<u64> a; for (int k = 0; k < get_Call_n_params(x); ++k) a.push_back(val(g, A, get_Call_param(x, k)));
		ir_entity *e = f->second; ir_graph *irg = get_entity_irg(e); std::string nm = get_entity_ld_name(e);
		if (irg) { u64 r = run(irg, a); A.v[i] = r; ir_type *ct = get_Call_type(x); if (get_method_n_ress(ct) && is_aggregate_type(get_method_res_type(ct, 0))) A.owned.push_back(r); return; }
		if (nm == "sim_ext" || nm == "sim_extd") { u64 tag = (u64)(i64)(int)a[0], v = a[1]; if (nm == "sim_extd") v = canonNaN(F64, v); R.t.push_back(tag); R.t.push_back(v); A.v[i] = ext_value(ext, tag, v); return; }
		if (nm == "memcpy" || nm == "memmove") { if (a[2]) { Reg *q = find(a[1], a[2]), *r = find(a[0], a[2]); if (!q || !r) stuck("memcpy outside every object"); std::vector<u8> t(q->b.begin() + (a[1] - q->base), q->b.begin() + (a[1] - q->base) + a[2]); std::copy(t.begin(), t.end(), r->b.begin() + (a[0] - r->base)); } A.v[i] = a[0]; return; }
		if (nm == "memset") { if (a[2]) { Reg *r = find(a[0], a[2]); if (!r) stuck("memset outside every object"); memset(&r->b[a[0] - r->base], (int)a[1], a[2]); } A.v[i] = a[0]; return; }
		unsup("external function " + nm);
	}
	u64 copyOf(u64 p, ir_type *t) { u64 n = get_type_size(t), a = alloc(n, get_type_alignment(t), true); Reg *q = find(p, n), *r = find(a, n); if (!q) stuck("a compound value outside every object"); std::copy(q->b.begin() + (p - q->base), q->b.begin() + (p - q->base) + n, r->b.begin()); return a; }
	u64 run(ir_graph *irg, const std::vector<u64> &args)
	{
		if (++depth > 300) throw Fail{ IRun::LIMIT, "recursion" };
		Gr &g = graph(irg); Act A; A.args = args; A.v.assign(g.n.size(), 0); ir_type *mt = get_entity_type(get_irg_entity(irg)), *ft = get_irg_frame_type(irg);
		for (size_t k = 0; k < args.size() && k < get_method_n_params(mt); ++k) if (is_aggregate_type(get_method_param_type(mt, k))) { u64 a = copyOf(args[k], get_method_param_type(mt, k)); A.owned.push_back(a); A.args[k] = a; for (size_t e = 0; e < get_compound_n_members(ft); ++e) { ir_entity *m = get_compound_member(ft, e); if (is_parameter_entity(m) && get_entity_parameter_number(m) == k) A.frame[m] = a; } }
		bool cret = get_method_n_ress(mt) && is_aggregate_type(get_method_res_type(mt, 0));
		 int b = g.start, from = -1; u64 ret = 0;
		for (;;) {
			Blk &B = g.blks[b]; if (blockRuns) ++(*blockRuns)[B.b];
			if (++R.steps > limit) throw Fail{ IRun::LIMIT, "step budget" };
			if (from >= 0 && !B.phis.empty()) { std::vector<u64> t; for (int i : B.phis) { ir_node *p = get_Phi_pred(g.n[i], from); if (is_Bad(p)) stuck(strf("Phi %ld selects Bad", get_irn_node_nr(g.n[i]))); t.push_back(val(g, A, p)); } for (size_t k = 0; k < t.size(); ++k) A.v[B.phis[k]] = t[k]; }
			for (int i : B.order) node(g, A, i);
			if (B.cf < 0) stuck(strf("control reaches the end of block %ld, which has no jump", get_irn_node_nr(B.b)));
			ir_node *c = g.n[B.cf]; unsigned pn = 0;
			if (is_Return(c)) { if (get_Return_n_ress(c)) ret = val(g, A, get_Return_res(c, 0)); if (cret) ret = copyOf(ret, get_method_res_type(mt, 0)); break; }
			if (is_Cond(c)) pn = val(g, A, get_Cond_selector(c)) ? pn_Cond_true : pn_Cond_false;
			else if (is_Switch(c)) {
				const ir_switch_table *t = get_Switch_table(c); ir_mode *sm = get_irn_mode(get_Switch_selector(c)); u64 v = val(g, A, get_Switch_selector(c)); pn = pn_Switch_default;
				for (size_t k = 0; k < ir_switch_table_get_n_entries(t); ++k) { if (ir_switch_table_get_pn(t, k) == pn_Switch_default) continue; u64 lo = tvbits(ir_switch_table_get_min(t, k)), hi = tvbits(ir_switch_table_get_max(t, k)); if (cmp(ir_relation_greater_equal, sm, v, lo) && cmp(ir_relation_less_equal, sm, v, hi)) { pn = ir_switch_table_get_pn(t, k); break; } }
			} else if (!is_Jmp(c)) unsup("control flow");
			auto e = B.succ.find(pn); if (e == B.succ.end()) stuck(strf("%s %ld takes a way (%u) which leads nowhere", get_irn_opname(c), get_irn_node_nr(c), pn));
			b = e->second.blk; from = e->second.pos;
		}
		for (u64 a : A.owned) mem.erase(a);
		--depth; return ret;
	}
	void all()
	{
		ir_entity *entry = nullptr; std::string en = prefix + strf("f%d", P.entry()); ir_type *gt = get_glob_type(); std::vector<ir_entity *> globs(P.gl.size(), nullptr);
		for (size_t i = 0; i < get_compound_n_members(gt); ++i) { ir_entity *e = get_compound_member(gt, i); std::string n = get_entity_name(e); if (n == en && is_method_entity(e)) entry = e; for (size_t k = 0; k < P.gl.size(); ++k) if (n == prefix + strf("g%zu", k)) globs[k] = e; }
		if (!entry || !get_entity_irg(entry)) stuck("the entry function is gone");
		for (auto &v : P.vecs) { u64 r = run(get_entity_irg(entry), v); R.t.push_back(0x7e7); R.t.push_back(r); depth = 0; }
		for (size_t g = 0; g < P.gl.size(); ++g) if (P.gl[g].external) {
			std::function<bool(int)> flt = [&](int t) { const Type &y = P.types[t]; if (y.k == Type::Scalar) return mflt(y.m) || y.m == PTR; if (y.k == Type::Array) return flt(y.elem); for (int f : y.fields) if (flt(f)) return true; return false; };
			if (flt(P.gl[g].type)) continue; if (!globs[g]) stuck(strf("external variable g%zu is gone", g));
			u64 h = 1469598103934665603ull; u64 a = entAddr(globs[g]); Reg *r = find(a, P.types[P.gl[g].type].size); if (!r) stuck("external variable is too small"); for (u32 i = 0; i < P.types[P.gl[g].type].size; ++i) { h ^= r->b[a - r->base + i]; h *= 1099511628211ull; } R.t.push_back(0x61b); R.t.push_back(h);
		}
	}
};
}
IRun interpret(const Prog &P, const std::string &prefix, u64 seed, u64 limit, IProbe *pr)
{
	IRun R; Interp I(P, prefix, seed, R, limit); std::unordered_map<ir_node *, u64> br; if (pr) I.blockRuns = &br;
	try { I.all(); } catch (Fail &f) { R.k = f.k; R.why = f.why; }
	if (pr) { pr->vague = I.vague; for (auto &k : br) pr->runs[get_irn_node_nr(k.first)] += k.second; for (auto &k : I.eaddr) if (pr->entity == get_entity_name(k.first)) if (Reg *r = I.find(k.second, 0)) pr->bytes = r->b; }
	return R;
}
