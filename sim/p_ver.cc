// C13 fault injection into the program representation: whatever structural rule a graph breaks, verification reports it
#include "sem.h"
#include <functional>
#include <map>
#include <unordered_set>
#include <unordered_map>

typedef std::vector<ir_node *> NV;
static NV reachable(ir_graph *g)
{
	NV r, w; std::unordered_set<ir_node *> in; auto push = [&](ir_node *n) { if (n && in.insert(n).second) { r.push_back(n); w.push_back(n); } };
	push(get_irg_end(g));
	while (!w.empty()) { ir_node *n = w.back(); w.pop_back(); if (!is_Block(n)) push(get_nodes_block(n)); for (int i = 0, k = get_irn_arity(n); i < k; ++i) push(get_irn_n(n, i)); }
	return r;
}
static std::string nm(ir_node *n) { return strf("%s %ld", get_irn_opname(n), get_irn_node_nr(n)); }
// the result of a Tuple is only another name for its operand; verification may remove it first
static bool via_tuple(ir_node *n) { while (is_Proj(n)) n = get_Proj_pred(n); return is_Tuple(n); }
extern "C" void edges_node_deleted(ir_node *) __attribute__((weak)); // internal; the fault is skipped when it is not there
typedef std::function<void()> Undo;
struct Damage { std::string what; Undo undo; };

// the rule for one operand: which modes the documentation of the node allows
struct Rule { enum K { EXACT, REF, INT, UINT, DATA } k; ir_mode *m; };
static bool allowed(const Rule &r, ir_mode *m)
{
	bool data = mode_is_data(m) && m != mode_b;
	switch (r.k) { case Rule::EXACT: return m == r.m; case Rule::REF: return mode_is_reference(m); case Rule::INT: return mode_is_int(m); case Rule::UINT: return mode_is_int(m) && !mode_is_signed(m); default: return data; }
}
static bool operand_rule(ir_node *n, int i, Rule &r)
{
	auto X = [&](ir_mode *m) { r = { Rule::EXACT, m }; return true; }; auto K = [&](Rule::K k) { r = { k, nullptr }; return true; };
	ir_mode *m = get_irn_mode(n);
	switch (get_irn_opcode(n)) {
	case iro_Add: if (mode_is_reference(m)) return X(mode_is_int(get_irn_mode(get_irn_n(n, i))) ? get_reference_offset_mode(m) : m); return X(m);
	case iro_Sub: { ir_mode *l = get_irn_mode(get_Sub_left(n)); if (mode_is_num(m) && mode_is_reference(l)) return i == 1 ? X(l) : false; if (mode_is_reference(m)) return X(i ? get_reference_offset_mode(m) : m); return X(m); }
	case iro_Mul: case iro_Mulh: case iro_And: case iro_Or: case iro_Eor: case iro_Not: case iro_Minus: case iro_Phi: case iro_Confirm: return X(m);
	case iro_Div: return X(i == 0 ? mode_M : get_Div_resmode(n));
	case iro_Mod: return X(i == 0 ? mode_M : get_Mod_resmode(n));
	case iro_Cmp: return X(get_irn_mode(get_irn_n(n, 1 - i)));
	case iro_Shl: case iro_Shr: case iro_Shrs: return i == 0 ? X(m) : K(Rule::UINT);
	case iro_Conv: return K(Rule::DATA);
	case iro_Load: return i == 0 ? X(mode_M) : K(Rule::REF);
	case iro_Store: return i == 0 ? X(mode_M) : K(i == 1 ? Rule::REF : Rule::DATA);
	case iro_CopyB: return i == 0 ? X(mode_M) : K(Rule::REF);
	case iro_Free: return i == 0 ? X(mode_M) : K(Rule::REF);
	case iro_Alloc: return i == 0 ? X(mode_M) : K(Rule::UINT);
	case iro_Sync: return X(mode_M);
	case iro_Mux: return X(i == 0 ? mode_b : m);
	case iro_Sel: return K(i == 0 ? Rule::REF : Rule::INT);
	case iro_Member: return K(Rule::REF);
	case iro_Cond: return X(mode_b);
	case iro_IJmp: return K(Rule::REF);
	case iro_Switch: return K(Rule::INT);
	case iro_Proj: return X(mode_T);
	case iro_Return: { if (i == 0) return X(mode_M); ir_type *t = get_method_res_type(get_entity_type(get_irg_entity(get_irn_irg(n))), i - 1); return is_Primitive_type(t) || is_Pointer_type(t) ? X(get_type_mode(t)) : K(Rule::REF); }
	case iro_Call: { if (i == 0) return X(mode_M); if (i == 1) return K(Rule::REF); ir_type *mt = get_Call_type(n); if ((size_t)i - 2 >= get_method_n_params(mt)) return K(Rule::DATA); ir_type *t = get_method_param_type(mt, i - 2); return is_Primitive_type(t) || is_Pointer_type(t) ? X(get_type_mode(t)) : K(Rule::REF); }
	default: return false;
	}
}
// a node of another mode that may stand anywhere: constants, the initial memory, the start tuple
static ir_node *stranger(ir_graph *g, const Rule &r)
{
	ir_mode *ms[] = { mode_Is, mode_Iu, mode_Ls, mode_Lu, mode_Bs, mode_Hu, mode_F, mode_D, mode_b, mode_P, mode_M, mode_T };
	size_t k = draw(12); for (size_t t = 0; t < 12; ++t) { ir_mode *m = ms[(k + t) % 12]; if (allowed(r, m)) continue;
		return m == mode_M ? new_r_NoMem(g) : m == mode_T ? get_irg_start(g) : m == mode_b ? new_r_Const(g, get_tarval_b_true()) : new_r_Const(g, get_mode_null(m)); }
	return nullptr;
}
static Undo set_in(ir_node *n, const NV &in)
{
	NV old; for (int i = 0, k = get_irn_arity(n); i < k; ++i) old.push_back(get_irn_n(n, i));
	set_irn_in(n, (int)in.size(), in.data()); return [n, old] { set_irn_in(n, (int)old.size(), old.data()); };
}
static NV ins(ir_node *n) { NV v; for (int i = 0, k = get_irn_arity(n); i < k; ++i) v.push_back(get_irn_n(n, i)); return v; }

struct Site { ir_graph *g; NV nodes, blocks; std::unordered_map<ir_node *, int> phis; bool tuples = false;
	explicit Site(ir_graph *gr) : g(gr) { nodes = reachable(g); for (ir_node *n : nodes) { if (is_Block(n)) blocks.push_back(n); if (is_Phi(n)) ++phis[get_nodes_block(n)]; tuples |= is_Tuple(n); } }
	template<class F> ir_node *pick(F f) { NV c; for (ir_node *n : nodes) if (f(n)) c.push_back(n); return c.empty() ? nullptr : c[draw(c.size())]; }
	// first an operation among those present, then one of its nodes: rare operations are hit as often as common ones
	template<class F> ir_node *pickop(F f) { std::map<unsigned, NV> c; for (ir_node *n : nodes) if (f(n)) c[get_irn_opcode(n)].push_back(n); if (c.empty()) return nullptr; auto it = c.begin(); std::advance(it, draw(c.size())); return it->second[draw(it->second.size())]; }
	template<class F> ir_node *pickproj(F f) { std::map<std::pair<unsigned, unsigned>, NV> c; for (ir_node *n : nodes) if (f(n)) { ir_node *p = get_Proj_pred(n); unsigned o = get_irn_opcode(p); c[{ o, is_Proj(p) ? get_irn_opcode(get_Proj_pred(p)) : get_Proj_num(n) & 7 }].push_back(n); } if (c.empty()) return nullptr; auto it = c.begin(); std::advance(it, draw(c.size())); return it->second[draw(it->second.size())]; }
	bool inner(ir_node *b) { return b != get_irg_start_block(g) && b != get_irg_end_block(g); }
	// every path from the start to u passes d, by removing d
	bool dominates(ir_node *d, ir_node *u)
	{
		if (d == u) return true; std::unordered_map<ir_node *, NV> succ; for (ir_node *b : blocks) for (ir_node *p : ins(b)) if (!is_Bad(p)) succ[get_nodes_block(p)].push_back(b);
		std::unordered_set<ir_node *> seen; NV w; auto push = [&](ir_node *b) { if (b != d && seen.insert(b).second) w.push_back(b); }; push(get_irg_start_block(g)); while (!w.empty()) { ir_node *b = w.back(); w.pop_back(); for (ir_node *s : succ[b]) push(s); }
		return !seen.count(u);
	}
	bool live(ir_node *u) { std::unordered_map<ir_node *, NV> succ; for (ir_node *b : blocks) for (ir_node *p : ins(b)) if (!is_Bad(p)) succ[get_nodes_block(p)].push_back(b); std::unordered_set<ir_node *> seen; NV w{ get_irg_start_block(g) }; seen.insert(w[0]); while (!w.empty()) { ir_node *b = w.back(); w.pop_back(); for (ir_node *s : succ[b]) if (seen.insert(s).second) w.push_back(s); } return seen.count(u) != 0; }
};

static const char *const KINDS[] = { "operand-mode", "node-mode", "proj-number", "phi-arity", "placement", "dominance", "return-arity", "call-arity", "jump-used-twice", "two-branches", "missing-branch-target", "unreachable-block", "start-block-inputs", "block-without-inputs", "end-without-return", "keep-alive", "immature-block", "member-entity", "address-entity", "const-value", "switch-table", "array-type", "copy-type", "load-mode", "claimed-property", "block-operand", "bitcast", "no-memory", "forbidden-mode", "phi-loop", "proj-placement", "unreachable-code", "block-of-no-block", "out-edges" };
enum { NKINDS = sizeof KINDS / sizeof *KINDS };

static bool inject(Site &s, int kind, Damage &f)
{
	ir_graph *g = s.g; ir_node *n;
	switch (kind) {
	case 0: { // an operand of a mode its node does not allow
		Rule r; n = s.pickop([&](ir_node *x) { Rule q; return get_irn_arity(x) > 0 && operand_rule(x, 0, q); }); if (!n) return false;
		int i = (int)draw(get_irn_arity(n)); if (!operand_rule(n, i, r)) return false; ir_node *w = stranger(g, r); if (!w) return false;
		ir_node *old = get_irn_n(n, i); set_irn_n(n, i, w); f = { strf("operand %d of %s is %s", i, nm(n).c_str(), nm(w).c_str()), [=] { set_irn_n(n, i, old); } }; return true; }
	case 1: { // a result mode the node cannot have
		n = s.pickop([](ir_node *x) { switch (get_irn_opcode(x)) { case iro_Cmp: case iro_Cond: case iro_Switch: case iro_Return: case iro_Load: case iro_Store: case iro_Call: case iro_CopyB: case iro_Sync: case iro_Const: case iro_Address: case iro_Member: case iro_Sel: case iro_Add: case iro_Mul: case iro_Mulh: case iro_And: case iro_Or: case iro_Eor: case iro_Not: case iro_Minus: case iro_Shl: case iro_Shr: case iro_Shrs: case iro_Conv: case iro_Phi: case iro_Mux: case iro_Div: case iro_Mod: case iro_Free: case iro_Alloc: case iro_Start: case iro_Align: case iro_Offset: case iro_Size: case iro_IJmp: case iro_Bitcast: case iro_Confirm: return true; default: return false; } }); if (!n) return false;
		ir_mode *old = get_irn_mode(n), *w; bool tuple = old == mode_T, fl = false;
		switch (get_irn_opcode(n)) { case iro_Const: case iro_Address: case iro_Member: case iro_Sel: case iro_Phi: case iro_Mux: case iro_Add: case iro_Mul: fl = true; w = old == mode_D ? mode_F : mode_D; break; case iro_Mulh: case iro_And: case iro_Or: case iro_Eor: case iro_Not: case iro_Shl: case iro_Shr: case iro_Shrs: w = mode_F; break; case iro_Minus: case iro_Conv: case iro_Bitcast: w = mode_b; break; case iro_Align: case iro_Offset: case iro_Size: case iro_Confirm: w = old == mode_F ? mode_D : mode_F; break; default: w = tuple ? mode_Is : mode_T; }
		(void)fl; set_irn_mode(n, w); f = { strf("%s has mode %s", nm(n).c_str(), get_mode_name(w)), [=] { set_irn_mode(n, old); } }; return true; }
	case 2: { // a result number or mode its node does not have
		n = s.pickproj([](ir_node *x) { if (!is_Proj(x) || via_tuple(x)) return false; ir_node *p = get_Proj_pred(x); switch (get_irn_opcode(p)) { case iro_Start: case iro_Cond: case iro_Switch: case iro_Call: case iro_Div: case iro_Mod: case iro_Load: case iro_Store: case iro_Alloc: return true; case iro_Proj: return is_Start(get_Proj_pred(p)) || is_Call(get_Proj_pred(p)); default: return false; } }); if (!n) return false;
		if (chance(1, 2)) { unsigned old = get_Proj_num(n); set_Proj_num(n, 70 + (unsigned)draw(100)); f = { strf("%s selects result %u", nm(n).c_str(), get_Proj_num(n)), [=] { set_Proj_num(n, old); } }; return true; }
		ir_mode *old = get_irn_mode(n), *w = old == mode_F ? mode_D : mode_F; set_irn_mode(n, w); f = { strf("%s of %s has mode %s", nm(n).c_str(), nm(get_Proj_pred(n)).c_str(), get_mode_name(w)), [=] { set_irn_mode(n, old); } }; return true; }
	case 3: { n = s.pick([](ir_node *x) { return is_Phi(x) && get_irn_arity(x) >= 1 && !is_Bad(get_nodes_block(x)); }); if (!n) return false; NV v = ins(n); if (v.size() > 1 && chance(1, 2)) v.pop_back(); else v.push_back(v.back()); f.what = strf("%s has %zu operands", nm(n).c_str(), v.size()); f.undo = set_in(n, v); return true; }
	case 4: { n = s.pick([](ir_node *x) { return is_Const(x) || is_Address(x); }); ir_node *b = s.pick([&](ir_node *x) { return is_Block(x) && x != get_irg_start_block(g); }); if (!n || !b) return false; ir_node *old = get_nodes_block(n); set_nodes_block(n, b); f = { strf("%s placed in %s", nm(n).c_str(), nm(b).c_str()), [=] { set_nodes_block(n, old); } }; return true; }
	case 5: { // a definition that does not dominate its use
		if (s.tuples || get_irg_pinned(g) != op_pin_state_pinned) return false;
		NV us; for (ir_node *x : s.nodes) if (!is_Block(x) && !is_End(x) && !is_Proj(x) && get_irn_arity(x)) us.push_back(x); if (us.empty()) return false; n = us[draw(us.size())];
		int i = (int)draw(get_irn_arity(n)); ir_node *old = get_irn_n(n, i); ir_mode *m = get_irn_mode(old); if (!(mode_is_data(m) || m == mode_M)) return false;
		ir_node *ub = get_nodes_block(n); if (is_Phi(n)) { if (i >= get_irn_arity(ub)) return false; ir_node *p = get_irn_n(ub, i); if (is_Bad(p)) return false; ub = get_nodes_block(p); } if (!is_Block(ub) || !s.live(ub)) return false;
		ir_node *d = s.pick([&](ir_node *x) { return !is_Block(x) && x != n && get_irn_mode(x) == m && !is_Bad(x) && is_Block(get_nodes_block(x)) && get_nodes_block(x) != ub; }); if (!d || !s.live(get_nodes_block(d)) || s.dominates(get_nodes_block(d), ub)) return false;
		set_irn_n(n, i, d); f = { strf("operand %d of %s is %s, which does not dominate it", i, nm(n).c_str(), nm(d).c_str()), [=] { set_irn_n(n, i, old); } }; return true; }
	case 6: { n = s.pick([](ir_node *x) { return is_Return(x); }); if (!n) return false; NV v = ins(n); if (v.size() > 1 && chance(1, 2)) v.pop_back(); else v.push_back(new_r_Const(g, get_mode_null(mode_Is))); f.what = strf("%s has %zu results", nm(n).c_str(), v.size() - 1); f.undo = set_in(n, v); return true; }
	case 7: { n = s.pick([](ir_node *x) { return is_Call(x) && !is_method_variadic(get_Call_type(x)); }); if (!n) return false; NV v = ins(n); if (v.size() > 2 && chance(1, 2)) v.pop_back(); else v.push_back(new_r_Const(g, get_mode_null(mode_Is))); f.what = strf("%s has %zu arguments", nm(n).c_str(), v.size() - 2); f.undo = set_in(n, v); return true; }
	case 8: case 9: { // a jump with two targets, or a second jump at the end of a block
		ir_node *c = s.pick([&](ir_node *x) { return is_Block(x) && s.inner(x) && !s.phis.count(x) && get_irn_arity(x) > 0; }); if (!c) return false;
		ir_node *b = s.pick([&](ir_node *x) { if (!is_Block(x) || !get_irn_arity(x) || x == get_irg_end_block(g)) return false; ir_node *p = get_irn_n(x, 0); return !is_Bad(p) && !is_Bad(get_nodes_block(p)) && !(is_Proj(p) && is_Tuple(get_Proj_pred(p))) && !is_IJmp(p); }); if (!b) return false;
		ir_node *x = get_irn_n(b, 0); if (kind == 9) x = new_r_Jmp(get_nodes_block(x)); NV v = ins(c); v.push_back(x); f.what = strf("%s of %s also enters %s", nm(x).c_str(), nm(get_nodes_block(x)).c_str(), nm(c).c_str()); f.undo = set_in(c, v); return true; }
	case 10: { ir_node *b = s.pick([&](ir_node *x) { if (!is_Block(x)) return false; for (ir_node *p : ins(x)) if (is_Proj(p) && (is_Cond(get_Proj_pred(p)) || (is_Switch(get_Proj_pred(p)) && get_Proj_num(p) == pn_Switch_default))) return true; return false; }); if (!b) return false;
		// the branch has to stay reachable through another of its targets
		NV v = ins(b); for (size_t i = 0; i < v.size(); ++i) if (is_Proj(v[i])) { ir_node *br = get_Proj_pred(v[i]); if (!is_Cond(br) && !(is_Switch(br) && get_Proj_num(v[i]) == pn_Switch_default)) continue; ir_node *lost = v[i]; v[i] = new_r_Bad(g, mode_X);
			Undo u = set_in(b, v); bool still = false; for (ir_node *x : reachable(g)) still |= x == br; if (!still) { u(); return false; } f = { strf("%s of %s has no target", nm(lost).c_str(), nm(br).c_str()), u }; return true; } return false; }
	case 11: { n = s.pick([&](ir_node *x) { return !is_Block(x) && !is_End(x) && !is_Proj(x) && get_irn_mode(x) != mode_X && get_irn_mode(x) != mode_T && is_Block(get_nodes_block(x)); }); if (!n) return false; ir_node *x = new_r_Bad(g, mode_X), *b = new_r_Block(g, 1, &x), *old = get_nodes_block(n); set_nodes_block(n, b); f = { strf("%s is in %s, which nothing reaches", nm(n).c_str(), nm(b).c_str()), [=] { set_nodes_block(n, old); } }; return true; }
	case 12: { n = get_irg_start_block(g); f.what = "the start block has a predecessor"; f.undo = set_in(n, { new_r_Bad(g, mode_X) }); return true; }
	case 13: { n = s.pick([&](ir_node *x) { if (!is_Block(x) || !s.inner(x) || s.phis.count(x) || !get_irn_arity(x)) return false; for (ir_node *p : ins(x)) if (!is_Jmp(p)) return false; return true; }); if (!n) return false; Undo u = set_in(n, {}); bool still = false; for (ir_node *x : reachable(g)) still |= x == n; if (!still) { u(); return false; } f = { strf("%s has no inputs", nm(n).c_str()), u }; return true; }
	case 14: { n = get_irg_end_block(g); int k = get_irn_arity(n); if (!k) return false; int i = (int)draw(k); ir_node *old = get_irn_n(n, i); if (!is_Return(old)) return false;
		if (chance(1, 2)) { bool mem = chance(1, 2); ir_node *in[2] = { mem ? new_r_Const(g, get_mode_null(mode_Is)) : get_Return_mem(old), mem ? new_r_Const(g, get_mode_null(mode_P)) : new_r_Const(g, get_mode_null(mode_Lu)) }, *w = new_ir_node(nullptr, g, get_nodes_block(old), op_Raise, mode_X, 2, in); set_irn_n(n, i, w); f = { strf("%s has a wrong %s", nm(w).c_str(), mem ? "memory" : "pointer"), [=] { set_irn_n(n, i, old); } }; return true; }
		set_irn_n(n, i, new_r_Jmp(get_nodes_block(old))); f = { "the end block is reached by a Jmp", [=] { set_irn_n(n, i, old); } }; return true; }
	case 15: { n = s.pick([](ir_node *x) { if (via_tuple(x)) return false; switch (get_irn_opcode(x)) { case iro_Const: case iro_Load: case iro_Store: case iro_Add: case iro_Cmp: case iro_Address: case iro_Return: case iro_Jmp: case iro_Proj: return true; case iro_Phi: return !get_Phi_loop(x); default: return false; } }); if (!n) return false; ir_node *e = get_irg_end(g); NV v = ins(e); v.push_back(n); f.what = strf("%s is kept alive", nm(n).c_str()); f.undo = set_in(e, v); return true; }
	case 16: { n = s.pick([&](ir_node *x) { return is_Block(x); }); set_Block_matured(n, 0); f = { strf("%s is immature", nm(n).c_str()), [=] { set_Block_matured(n, 1); } }; return true; }
	case 17: { n = s.pick([](ir_node *x) { return is_Member(x); }); if (!n) return false; ir_entity *old = get_Member_entity(n), *w = get_irg_entity(g);
		if (chance(1, 3)) { set_Member_entity(n, nullptr); f = { strf("%s has no entity", nm(n).c_str()), [=] { set_Member_entity(n, old); } }; return true; }
		if (get_Member_ptr(n) == get_irg_frame(g) && chance(1, 2)) { w = nullptr; for (ir_node *x : s.nodes) if (is_Member(x) && get_entity_owner(get_Member_entity(x)) != get_irg_frame_type(g)) w = get_Member_entity(x); if (!w) return false; }
		set_Member_entity(n, w); f = { strf("%s selects %s", nm(n).c_str(), get_entity_name(w)), [=] { set_Member_entity(n, old); } }; return true; }
	case 18: { n = s.pick([](ir_node *x) { return is_Address(x); }); ir_node *m = s.pick([&](ir_node *x) { return is_Member(x) && !is_Method_type(get_entity_type(get_Member_entity(x))); }); if (!n || !m) return false; ir_entity *old = get_Address_entity(n), *w = get_Member_entity(m); if (is_segment_type(get_entity_owner(w))) return false; set_Address_entity(n, w); f = { strf("%s is the address of the member %s", nm(n).c_str(), get_entity_name(w)), [=] { set_Address_entity(n, old); } }; return true; }
	case 19: { n = s.pick([](ir_node *x) { return is_Const(x); }); if (!n) return false; ir_tarval *old = get_Const_tarval(n); ir_mode *m = get_irn_mode(n); set_Const_tarval(n, get_mode_null(m == mode_Is ? mode_Iu : mode_Is)); f = { strf("%s has a value of another mode", nm(n).c_str()), [=] { set_Const_tarval(n, old); } }; return true; }
	case 20: { n = s.pick([](ir_node *x) { return is_Switch(x) && ir_switch_table_get_n_entries(get_Switch_table(x)); }); if (!n) return false; ir_switch_table *t = get_Switch_table(n); size_t e = draw(ir_switch_table_get_n_entries(t)); unsigned pn = ir_switch_table_get_pn(t, e); if (!pn) return false; ir_tarval *mi = ir_switch_table_get_min(t, e), *ma = ir_switch_table_get_max(t, e); ir_mode *m = get_tarval_mode(mi);
		switch (draw(3)) { case 0: ir_switch_table_set(t, e, mi, ma, get_Switch_n_outs(n) + (unsigned)draw(3)); f.what = "result number"; break; case 1: ir_switch_table_set(t, e, get_mode_max(m), get_mode_min(m), pn); f.what = "bounds"; break; default: { ir_mode *o = m == mode_Bs ? mode_Hs : mode_Bs; ir_switch_table_set(t, e, get_mode_null(o), get_mode_null(o), pn); f.what = "mode"; } }
		f.what = strf("entry %zu of the table of %s has a wrong %s", e, nm(n).c_str(), f.what.c_str()); f.undo = [=] { ir_switch_table_set(t, e, mi, ma, pn); }; return true; }
	case 21: { n = s.pick([](ir_node *x) { return is_Sel(x); }); if (!n) return false; ir_type *old = get_Sel_type(n); set_Sel_type(n, get_type_for_mode(mode_Is)); f = { strf("%s indexes an Is", nm(n).c_str()), [=] { set_Sel_type(n, old); } }; return true; }
	case 22: { n = s.pick([](ir_node *x) { return is_CopyB(x); }); if (!n) return false; ir_type *old = get_CopyB_type(n); set_CopyB_type(n, get_type_for_mode(mode_Is)); f = { strf("%s copies an Is", nm(n).c_str()), [=] { set_CopyB_type(n, old); } }; return true; }
	case 23: { n = s.pick([](ir_node *x) { return is_Load(x); }); if (!n) return false; ir_mode *old = get_Load_mode(n); bool b = chance(1, 2); set_Load_mode(n, b ? mode_b : mode_M); f = { strf("%s loads %s", nm(n).c_str(), b ? "b" : "M"), [=] { set_Load_mode(n, old); } }; bool res = false; for (ir_node *x : s.nodes) res |= is_Proj(x) && get_Proj_pred(x) == n && get_Proj_num(x) == pn_Load_res; (void)res; return true; }
	case 24: { // a property that does not hold
		int rets = 0, bads = 0, crit = 0; for (ir_node *x : s.nodes) { rets += is_Return(x); bads += is_Bad(x); if (is_Block(x) && get_irn_arity(x) > 1) for (ir_node *p : ins(x)) crit += is_Proj(p) && (is_Cond(get_Proj_pred(p)) || is_Switch(get_Proj_pred(p))); }
		auto claim = [&](ir_graph_properties_t p, const char *w) { add_irg_properties(g, p); f = { strf("%s is claimed", w), [=] { clear_irg_properties(g, p); } }; return true; };
		switch (draw(4)) {
		case 0: return rets > 1 && claim(IR_GRAPH_PROPERTY_ONE_RETURN, "one return");
		case 1: return crit && claim(IR_GRAPH_PROPERTY_NO_CRITICAL_EDGES, "no critical edges");
		case 2: if (bads) return claim(IR_GRAPH_PROPERTY_NO_BADS, "no Bads"); { n = s.pick([&](ir_node *x) { return is_Block(x) && s.inner(x) && !s.phis.count(x); }); if (!n) return false; NV v = ins(n); v.push_back(new_r_Bad(g, mode_X)); Undo u = set_in(n, v); claim(IR_GRAPH_PROPERTY_NO_BADS, "no Bads"); Undo u2 = f.undo; f.undo = [=] { u2(); u(); }; return true; }
		default: { n = s.pick([](ir_node *x) { Rule r; return get_irn_arity(x) > 0 && !is_Proj(x) && operand_rule(x, 0, r) && mode_is_data(get_irn_mode(get_irn_n(x, 0))) && is_Block(get_nodes_block(get_irn_n(x, 0))); }); if (!n) return false; ir_node *o = get_irn_n(n, 0), *b = get_nodes_block(o), *t = new_r_Tuple(b, 1, &o), *p = new_r_Proj(t, get_irn_mode(o), 0); if (p == o || !is_Proj(p) || get_Proj_pred(p) != t) return false; set_irn_n(n, 0, p); claim(IR_GRAPH_PROPERTY_NO_TUPLES, "no Tuples"); Undo u2 = f.undo; f.undo = [=] { u2(); set_irn_n(n, 0, o); }; return true; }
		} }
	case 25: { // a block entered by something that is not a jump
		n = s.pick([&](ir_node *x) { return is_Block(x) && s.inner(x) && !s.phis.count(x) && get_irn_arity(x) > 0; }); if (!n) return false; ir_node *x = s.pick([](ir_node *y) { return is_Const(y) || is_Load(y) || is_Add(y) || is_Address(y) || is_Conv(y); }); if (!x) return false; NV v = ins(n); v.push_back(x); f.what = strf("%s is a predecessor of %s", nm(x).c_str(), nm(n).c_str()); f.undo = set_in(n, v); return true; }
	case 26: { n = s.pick([](ir_node *x) { return is_Bitcast(x); }); if (!n) return false; ir_node *old = get_Bitcast_op(n), *w = chance(1, 2) ? new_r_Const(g, get_mode_null(get_irn_mode(n))) : new_r_Const(g, get_mode_null(get_irn_mode(old) == mode_Hu ? mode_Bs : mode_Hu)); if (get_irn_mode(w) == get_irn_mode(old)) return false; set_irn_n(n, 0, w); f = { strf("%s of %s", nm(n).c_str(), nm(w).c_str()), [=] { set_irn_n(n, 0, old); } }; return true; }
	case 28: { // all modes agree, but the operation does not exist for them
		struct Op { ir_op *op; int n; ir_mode *m; bool shift; }; Op ops[] = { { op_And, 2, mode_F, false }, { op_Or, 2, mode_D, false }, { op_Eor, 2, mode_F, false }, { op_Not, 1, mode_D, false }, { op_Mulh, 2, mode_F, false }, { op_Shl, 2, mode_F, true }, { op_Shr, 2, mode_D, true }, { op_Shrs, 2, mode_F, true }, { op_Mul, 2, mode_P, false }, { op_Minus, 1, mode_P, false }, { op_And, 2, mode_P, false }, { op_Shl, 2, mode_P, true }, { op_Mulh, 2, mode_P, false }, { op_Add, 2, mode_b, false }, { op_Sub, 2, mode_b, false }, { op_Mul, 2, mode_b, false }, { op_Minus, 1, mode_b, false }, { op_Shl, 2, mode_b, true }, { op_Conv, 1, mode_b, false }, { op_Mux, 3, mode_M, false }, { op_Conv, 1, mode_M, false }, { op_Bitcast, 1, mode_Is, false }, { op_Bitcast, 1, mode_D, false } };
		Op o = ops[draw(sizeof ops / sizeof *ops)]; bool direct = o.m == mode_b || o.m == mode_M;
		NV us; for (ir_node *x : s.nodes) { Rule r; if (is_Block(x) || is_Phi(x) || is_Proj(x) || is_End(x) || is_Tuple(x) || is_Bitcast(x)) continue; for (int i = 0, k = get_irn_arity(x); i < k; ++i) { ir_mode *m = get_irn_mode(get_irn_n(x, i)); if (operand_rule(x, i, r) && (direct ? m == o.m : mode_is_int(m))) { us.push_back(x); break; } } } if (us.empty()) return false;
		n = us[draw(us.size())]; int i = 0; Rule r; while (!(operand_rule(n, i, r) && (direct ? get_irn_mode(get_irn_n(n, i)) == o.m : mode_is_int(get_irn_mode(get_irn_n(n, i)))))) ++i;
		ir_node *old = get_irn_n(n, i), *bl = get_irg_start_block(g), *c = o.m == mode_M ? old : new_r_Const(g, o.m == mode_b ? get_tarval_b_true() : get_mode_null(o.m)); if (o.m == mode_M) { bl = get_nodes_block(n); if (!is_Block(bl)) return false; }
		ir_node *in[3] = { c, o.shift ? new_r_Const(g, get_mode_one(mode_Iu)) : c, c }; if (o.op == op_Mux) in[0] = new_r_Const(g, get_tarval_b_true()); ir_node *w = new_ir_node(nullptr, g, bl, o.op, o.m, o.n, in), *x = direct ? w : new_ir_node(nullptr, g, bl, op_Conv, get_irn_mode(old), 1, &w);
		set_irn_n(n, i, x); f = { strf("operand %d of %s depends on a %s of mode %s", i, nm(n).c_str(), get_op_name(o.op), get_mode_name(o.m)), [=] { set_irn_n(n, i, old); } }; return true; }
	case 29: { n = s.pick([](ir_node *x) { return is_Phi(x) && mode_is_data(get_irn_mode(x)) && !get_Phi_loop(x); }); if (!n) return false; set_Phi_loop(n, 1); f = { strf("%s of mode %s is a memory loop", nm(n).c_str(), get_mode_name(get_irn_mode(n))), [=] { set_Phi_loop(n, 0); } }; return true; }
	case 30: { // a result that lives in another block than its operation
		if (get_irg_pinned(g) == op_pin_state_floats) return false; n = s.pickproj([&](ir_node *x) { return is_Proj(x) && get_irn_mode(x) != mode_X && !via_tuple(x) && !is_Start(skip_Proj(x)); }); ir_node *b = s.pick([](ir_node *x) { return is_Block(x); }); if (!n || !b || get_nodes_block(n) == b || get_nodes_block(get_Proj_pred(n)) == b) return false;
		ir_node *old = get_nodes_block(n); set_nodes_block(n, b); f = { strf("%s of %s is in %s", nm(n).c_str(), nm(get_Proj_pred(n)).c_str(), nm(b).c_str()), [=] { set_nodes_block(n, old); } }; return true; }
	case 31: { // a block nothing reaches in a graph that claims to have none
		if (get_irg_pinned(g) != op_pin_state_pinned) return false; n = s.pick([&](ir_node *x) { return is_Block(x) && s.inner(x) && !s.phis.count(x) && get_irn_arity(x) > 0; }); if (!n) return false;
		ir_node *x = new_r_Bad(g, mode_X), *b = new_r_Block(g, 1, &x); NV v = ins(n); v.push_back(new_r_Jmp(b)); f.what = strf("%s is unreachable, which is claimed not to happen", nm(b).c_str()); Undo u = set_in(n, v); add_irg_properties(g, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE); f.undo = [=] { clear_irg_properties(g, IR_GRAPH_PROPERTY_NO_UNREACHABLE_CODE); u(); }; return true; }
	case 32: { // the block of a node is no block
		n = s.pick([](ir_node *x) { return (is_Add(x) || is_Cmp(x) || is_Conv(x) || is_Mux(x) || is_And(x) || is_Shl(x)) && is_Block(get_nodes_block(x)); }); ir_node *b = s.pick([](ir_node *x) { return is_Const(x) || is_Address(x); }); if (!n || !b) return false; ir_node *old = get_nodes_block(n); set_irn_n(n, -1, b); f = { strf("%s is in %s", nm(n).c_str(), nm(b).c_str()), [=] { set_irn_n(n, -1, old); } }; return true; }
	case 33: { // the out edges claimed to be consistent lack those of a node
		if (s.tuples || !edges_node_deleted) return false; edges_deactivate(g); edges_activate(g); n = s.pick([](ir_node *x) { return !is_Block(x) && !is_End(x) && get_irn_arity(x) > 0; }); if (!n) return false;
		edges_node_deleted(n); add_irg_properties(g, IR_GRAPH_PROPERTY_CONSISTENT_OUT_EDGES); f = { strf("the out edges to %s are missing", nm(n).c_str()), [=] { edges_deactivate(g); } }; return true; }
	case 27: { // no memory leaves the graph
		ir_node *e = get_irg_end(g), *eb = get_irg_end_block(g); if (!get_irn_arity(eb)) return false; NV v; for (ir_node *p : ins(eb)) { (void)p; v.push_back(new_r_Bad(g, mode_X)); } Undo u1 = set_in(eb, v), u2 = set_in(e, {}); f = { "no memory reaches the end", [=] { u2(); u1(); } }; return true; }
	default: return false;
	}
}

static void c13()
{
	Job j; int scale = 1 + (int)draw(3);
	if (!draw_job(j, chance(1, 3), scale, chance(1, 3) ? 1 : 0, false, chance(1, 2) ? 6 : 1)) discard("step budget");
	SubCfg m = draw_machine(); bool keep = chance(1, 4); size_t upto = draw(j.hist.size() + 1); bool lower = chance(1, 6), zoo = chance(1, 5); u64 zs = drawSeed();
	struct Try { int kind; u64 seed, graph; }; std::vector<Try> tries(1 + draw(12)); for (auto &t : tries) { t.kind = (int)draw(NKINDS); t.graph = draw(8); t.seed = drawSeed(); }
	SubOut o = run_sub(m, [&] {
		firm_start(j.tgt); build_firm(j.P, j.bc); for (size_t i = 0; i < upto; ++i) run_pass(j.hist[i]);
		if (lower) finish_for_backend(0); else if (zoo) zoo_build(zs);
		sub_put("built");
		for (auto &t : tries) {
			size_t ng = get_irp_n_irgs(); if (!ng) break; ir_graph *g = get_irp_irg(zoo && t.graph & 1 ? ng - 1 : (size_t)t.graph % ng); int kind = t.kind; SeedScope scope(t.seed);
			if (!keep) { edges_deactivate(g); clear_irg_properties(g, (ir_graph_properties_t)~0u); }
			Site s(g); Damage f; if (s.nodes.size() > 3000) continue;
			if (!inject(s, kind, f)) continue;
			if (g_trace) evt("%s: %s in %s", KINDS[kind], f.what.c_str(), get_entity_name(get_irg_entity(g)));
			bool ok = irg_verify(g) != 0; f.undo(); ev("fault %d reported %d", kind, !ok); fault(F_CORRUPT); probe(strf("injected:%s", KINDS[kind]).c_str());
			if (ok) violation(strf("%s-not-reported", KINDS[kind]).c_str(), "verification accepts a graph in which %s", f.what.c_str());
			edges_deactivate(g); clear_irg_properties(g, (ir_graph_properties_t)~0u); // nodes only the fault used are still in the out edges
			if (!irg_verify(g)) violation(strf("%s-not-repairable", KINDS[kind]).c_str(), "verification still rejects the graph after undoing that %s", f.what.c_str());
		}
	});
	if (o.died()) { if (o.out.empty()) discard("the compilation fails before any fault (see C01)"); violation(strf("verify: %s", o.what.c_str()).c_str(), "verification of a faulty graph ends the process: %s", o.err.c_str()); }
	set_nontrivial(true); set_sample("%s", passes_text(j.hist).c_str());
}
REGISTER("C13", c13, 250000, 600000, "exploration", "one run builds a generated program on a simulated machine, applies a drawn history of passes and then injects up to twelve drawn structural faults, each into a drawn node of a drawn graph: irg_verify has to report it, and to accept the graph again when the fault is undone; distinct by hash of the choices", { "faults are built from the documented rule of the node, so that the graph is certainly wrong" }, "libfirm construction, optimisations, verifier", "heap, clock, environment, rand, stderr");
