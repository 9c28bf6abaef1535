// IR feature zoo (every attribute the public interface can set) and an independent
// structural snapshot of the whole program, read through public getters only
#include "sem.h"
#include <deque>

// ---------------------------------------------------------------- zoo
namespace {
struct Zoo {
	std::vector<ir_type *> ty, meth; std::vector<ir_entity *> ent, fn; int n = 0; ir_graph *irg = nullptr; ir_entity *sink = nullptr;
	ident *name(const char *p) { return new_id_from_str(strf(chance(1, 8) ? "%s %d \"q\\\"" : "%s%d", p, n++).c_str()); }
	ir_mode *imode() { ir_mode *m[] = { get_modeIs(), get_modeIu(), get_modeBs(), get_modeBu(), get_modeHs(), get_modeHu(), get_modeLs(), get_modeLu() }; return m[draw(8)]; }
	ir_mode *dmode() { switch (draw(5)) { case 3: return get_modeF(); case 4: return get_modeD(); case 2: return get_modeP(); default: return imode(); } }
	ir_type *type(bool sized = true) { for (;;) { ir_type *t = ty[draw(ty.size())]; if (!sized || get_type_state(t) == layout_fixed) return t; } }
	ir_tarval *tv(ir_mode *m)
	{
		if (mode_is_float(m)) switch (draw(6)) { case 0: return new_tarval_from_double(1.0 + draw(100) / 7.0, m); case 1: return new_tarval_from_double(-0.0, m); case 2: return get_mode_infinite(m); case 3: return tarval_neg(get_mode_infinite(m)); case 4: return get_mode_min(m); default: return get_mode_max(m); }
		if (mode_is_reference(m)) return chance(1, 2) ? get_mode_null(m) : new_tarval_from_long((long)draw(100000), m);
		switch (draw(5)) { case 0: return get_mode_null(m); case 1: return get_mode_all_one(m); case 2: return get_mode_min(m); case 3: return get_mode_max(m); default: return new_tarval_from_long((long)draw(120), m); }
	}
	void types()
	{
		for (ir_mode *m : { get_modeIs(), get_modeBu(), get_modeLu(), get_modeD(), get_modeP() }) ty.push_back(get_type_for_mode(m));
		int k = 2 + (int)draw(6);
		for (int i = 0; i < k; ++i) {
			ir_type *t = nullptr;
			switch (draw(7)) {
			case 0: { ir_type *et = type(); t = new_type_array(is_Method_type(et) ? ty[0] : et, (unsigned)draw(5)); break; }
			case 1: t = new_type_pointer(type(false)); break;
			case 2: { t = new_type_primitive(dmode()); set_type_alignment(t, 1u << draw(5)); break; }
			case 3: { size_t np = draw(4), nr = draw(2); unsigned cc = (unsigned)(draw(2) ? cc_cdecl_set : draw(16) << 24 | 0); unsigned pr = chance(1, 2) ? 0 : (unsigned)draw(1 << 12);
				t = new_type_method(np, nr, chance(1, 3), cc, (mtp_additional_properties)pr); for (size_t q = 0; q < np; ++q) set_method_param_type(t, q, type()); for (size_t q = 0; q < nr; ++q) set_method_res_type(t, q, ty[draw(5)]); meth.push_back(t); ty.push_back(t); continue; }
			case 4: case 5: case 6: {
				bool un = chance(1, 4), cl = !un && chance(1, 6); ident *id = chance(1, 6) && !cl ? nullptr : name("T"); t = un ? new_type_union(id) : cl ? new_type_class(id) : new_type_struct(id);
				unsigned off = 0, al = 1; size_t m = draw(5);
				for (size_t q = 0; q < m; ++q) {
					ir_type *mt = type(); if (is_Method_type(mt)) mt = ty[0]; ir_entity *e = new_entity(t, chance(1, 8) ? nullptr : name("m"), mt); off += (unsigned)draw(9); set_entity_offset(e, (int)(un ? 0 : off)); off += get_type_size(mt);
					if (get_type_mode(mt) && mode_is_int(get_type_mode(mt)) && chance(1, 3)) { set_entity_bitfield_offset(e, (unsigned)draw(8)); set_entity_bitfield_size(e, 1 + (unsigned)draw(7)); }
					if (chance(1, 5)) set_entity_volatility(e, volatility_is_volatile);
					if (chance(1, 5)) set_entity_alignment(e, 1u << draw(5));
					if (chance(1, 8)) set_entity_aligned(e, align_non_aligned);
				}
				al = 1u << draw(5); set_type_size(t, off + (unsigned)draw(9)); set_type_alignment(t, al); set_type_state(t, layout_fixed); break; }
			}
			ty.push_back(t);
		}
	}
	ir_initializer_t *init(ir_type *t, int d)
	{
		if (chance(1, 7)) return get_initializer_null();
		if (is_Array_type(t) && d < 3) { size_t k = get_array_size(t); ir_initializer_t *c = create_initializer_compound(k); for (size_t i = 0; i < k; ++i) set_initializer_compound_value(c, i, init(get_array_element_type(t), d + 1)); return c; }
		if (is_compound_type(t) && d < 3) { size_t k = is_Union_type(t) ? std::min<size_t>(1, get_compound_n_members(t)) : get_compound_n_members(t); ir_initializer_t *c = create_initializer_compound(k); for (size_t i = 0; i < k; ++i) set_initializer_compound_value(c, i, init(get_entity_type(get_compound_member(t, i)), d + 1)); return c; }
		ir_mode *m = get_type_mode(t); if (!m || !mode_is_data(m)) return get_initializer_null();
		ir_graph *cg = get_const_code_irg();
		if (mode_is_reference(m) && chance(2, 3) && !ent.empty()) { ir_node *a = new_r_Address(cg, ent[draw(ent.size())]); if (chance(1, 3)) a = new_r_Add(get_r_cur_block(cg) ? get_r_cur_block(cg) : get_irg_start_block(cg), a, new_r_Const(cg, new_tarval_from_long((long)draw(64), get_reference_offset_mode(m)))); return create_initializer_const(a); }
		if (chance(1, 3)) return create_initializer_const(new_r_Const(cg, tv(m)));
		return create_initializer_tarval(tv(m));
	}
	void attrs(ir_entity *e)
	{
		if (chance(1, 2)) { unsigned l = 0; for (unsigned b : { IR_LINKAGE_CONSTANT, IR_LINKAGE_WEAK, IR_LINKAGE_GARBAGE_COLLECT, IR_LINKAGE_MERGE, IR_LINKAGE_HIDDEN_USER, IR_LINKAGE_NO_CODEGEN, IR_LINKAGE_NO_IDENTITY }) if (chance(1, 4)) l |= b; if (!is_method_entity(e)) l &= ~(unsigned)IR_LINKAGE_NO_CODEGEN; set_entity_linkage(e, (ir_linkage)l); }
		ir_visibility v[] = { ir_visibility_external, ir_visibility_external_private, ir_visibility_external_protected, ir_visibility_local, ir_visibility_private }; set_entity_visibility(e, v[draw(5)]);
		if (chance(1, 4)) set_entity_volatility(e, volatility_is_volatile);
		if (chance(1, 3)) set_entity_ld_ident(e, name("ld"));
		if (chance(1, 4)) set_entity_alignment(e, 1u << draw(7));
	}
	void entities()
	{
		int k = 2 + (int)draw(8); ir_type *seg[] = { get_glob_type(), get_glob_type(), get_glob_type(), get_tls_type() };
		for (int i = 0; i < k; ++i) {
			switch (draw(8)) {
			default: { ir_type *t = type(); if (is_Method_type(t) || !get_type_size(t)) t = ty[0]; ir_entity *e = new_entity(seg[draw(4)], name("v"), t); attrs(e); ent.push_back(e); if (chance(2, 3)) set_entity_initializer(e, init(t, 0)); break; }
			case 6: { if (meth.empty()) break; ir_entity *e = new_entity(get_glob_type(), name("fn"), meth[draw(meth.size())]); attrs(e); if (chance(1, 2)) add_entity_additional_properties(e, (mtp_additional_properties)draw(1 << 12)); ent.push_back(e); fn.push_back(e); break; }
			case 7: { if (ent.empty()) break; ir_entity *x = ent[draw(ent.size())]; if (is_alias_entity(x)) break; ir_entity *e = new_alias_entity(get_entity_owner(x), name("al"), x, get_entity_type(x), chance(1, 2) ? ir_visibility_external : ir_visibility_local); if (chance(1, 3)) set_entity_ld_ident(e, name("ld")); ent.push_back(e); break; }
			}
		}
		for (int i = (int)draw(3); i > 0; --i) add_irp_asm(name(".text\n# toplevel"));
	}
	ir_node *B() { return get_r_cur_block(irg); }
	ir_node *M() { return get_r_store(irg); }
	void use(ir_node *v) { if (get_irn_mode(v) == mode_b()) v = new_r_Conv(B(), new_r_Mux(B(), v, new_r_Const(irg, get_mode_null(get_modeIs())), new_r_Const(irg, get_mode_one(get_modeIs()))), get_modeIs());
		ir_node *s = new_r_Store(B(), M(), new_r_Address(irg, sink), v, get_type_for_mode(get_irn_mode(v)), (ir_cons_flags)(cons_volatile | (chance(1, 4) ? cons_unaligned : 0) | (chance(1, 4) ? cons_floats : 0))); set_r_store(irg, new_r_Proj(s, get_modeM(), pn_Store_M)); }
	ir_mode *mode_b() { static ir_mode *m; if (!m) m = get_tarval_mode(get_tarval_b_true()); return m; }
	ir_node *val(ir_mode *m, int d = 0)
	{
		ir_node *p = get_irg_args(irg);
		if (d > 2 || chance(1, 4)) return new_r_Const(irg, tv(m));
		switch (draw(22)) {
		case 0: return new_r_Unknown(irg, m);
		case 1: return new_r_Conv(B(), val(mode_is_reference(m) ? get_reference_offset_mode(m) : imode(), d + 1), m);
		case 2: { ir_node *l = new_r_Load(B(), M(), val(get_modeP(), d + 1), m, get_type_for_mode(m), (ir_cons_flags)((chance(1, 3) ? cons_volatile : 0) | (chance(1, 3) ? cons_unaligned : 0) | (chance(1, 4) ? cons_floats : 0))); set_r_store(irg, new_r_Proj(l, get_modeM(), pn_Load_M)); return new_r_Proj(l, m, pn_Load_res); }
		case 3: { ir_relation r = (ir_relation)(1 + draw(14)); ir_node *a = val(m, d + 1), *b = val(m, d + 1); return new_r_Mux(B(), new_r_Cmp(B(), a, b, r), val(m, d + 1), val(m, d + 1)); }
		case 4: { ir_node *a = val(m, d + 1), *b = new_r_Const(irg, tv(m)); return new_r_Confirm(B(), a, b, (ir_relation)(1 + draw(mode_is_float(m) ? 14 : 6))); }
		case 5: return new_r_Dummy(irg, m);
		case 6: return new_r_Pin(B(), val(m, d + 1));
		default: break;
		}
		if (mode_is_reference(m)) {
			switch (draw(6)) {
			case 0: if (!ent.empty()) return new_r_Address(irg, ent[draw(ent.size())]); break;
			case 1: { ir_type *t = type(); if (is_compound_type(t) && get_compound_n_members(t)) { ir_node *q = val(m, d + 1); if (q == get_irg_frame(irg)) q = new_r_Proj(p, m, 0); return new_r_Member(B(), q, get_compound_member(t, draw(get_compound_n_members(t)))); } break; }
			case 2: { ir_type *t = type(); if (is_Array_type(t)) return new_r_Sel(B(), val(m, d + 1), val(get_reference_offset_mode(m), d + 1), t); break; }
			case 3: return new_r_Add(B(), val(m, d + 1), val(get_reference_offset_mode(m), d + 1));
			case 4: { ir_node *a = new_r_Alloc(B(), M(), val(get_modeIu(), d + 1), 1u << draw(5)); set_r_store(irg, new_r_Proj(a, get_modeM(), pn_Alloc_M)); return new_r_Proj(a, m, pn_Alloc_res); }
			default: return get_irg_frame(irg);
			}
			return new_r_Proj(p, get_modeP(), 0);
		}
		ir_node *a = val(m, d + 1), *b = val(m, d + 1);
		switch (draw(mode_is_int(m) ? 15 : 6)) {
		case 0: return new_r_Add(B(), a, b); case 1: return new_r_Sub(B(), a, b); case 2: return new_r_Mul(B(), a, b); case 3: return new_r_Minus(B(), a);
		case 4: { ir_node *q = new_r_Div(B(), M(), a, b, (int)draw(2)); if (!is_Div(q)) return a; if (mode_is_int(m) && chance(1, 3)) set_Div_no_remainder(q, 1); set_r_store(irg, new_r_Proj(q, get_modeM(), pn_Div_M)); return new_r_Proj(q, m, pn_Div_res); }
		case 5: { unsigned sz = get_mode_size_bits(m); ir_mode *o = mode_is_float(m) ? (sz == 64 ? get_modeLs() : sz == 32 ? get_modeIu() : nullptr) : sz == 32 ? get_modeF() : sz == 64 ? get_modeD() : nullptr; if (!o) return a; return new_r_Bitcast(B(), val(o, d + 1), m); }
		case 6: return new_r_And(B(), a, b); case 7: return new_r_Or(B(), a, b); case 8: return new_r_Eor(B(), a, b); case 9: return new_r_Not(B(), a);
		case 10: { ir_node *s = val(get_modeIu(), d + 1); switch (draw(3)) { case 0: return new_r_Shl(B(), a, s); case 1: return new_r_Shr(B(), a, s); default: return new_r_Shrs(B(), a, s); } }
		case 11: { ir_node *q = new_r_Mod(B(), M(), a, b, (int)draw(2)); if (!is_Mod(q)) return a; set_r_store(irg, new_r_Proj(q, get_modeM(), pn_Mod_M)); return new_r_Proj(q, m, pn_Mod_res); }
		case 12: switch (draw(3)) { case 0: return new_r_Size(irg, m, type()); case 1: return new_r_Align(irg, m, type()); default: { ir_type *t = type(); if (is_compound_type(t) && get_compound_n_members(t)) return new_r_Offset(irg, m, get_compound_member(t, draw(get_compound_n_members(t)))); return a; } }
		case 13: return new_r_Mulh(B(), a, b);
		default: {
			static const ir_builtin_kind k[] = { ir_bk_ffs, ir_bk_clz, ir_bk_ctz, ir_bk_popcount, ir_bk_parity }; ir_type *mt = new_type_method(1, 1, 0, 0, mtp_no_property); set_method_param_type(mt, 0, get_type_for_mode(m)); set_method_res_type(mt, 0, get_type_for_mode(get_modeIs()));
			ir_node *bi = new_r_Builtin(B(), get_irg_no_mem(irg), 1, &a, k[draw(5)], mt); if (chance(1, 4)) set_irn_pinned(bi, 1); use(new_r_Proj(bi, get_modeIs(), pn_Builtin_max + 1)); return b; }
		}
	}
	void effect()
	{
		switch (draw(8)) {
		case 0: { ir_type *t = type(); if (!is_compound_type(t) && !is_Array_type(t)) break; ir_node *c = new_r_CopyB(B(), M(), val(get_modeP()), val(get_modeP()), t, chance(1, 2) ? cons_volatile : cons_none); set_r_store(irg, c); break; }
		case 1: { if (fn.empty()) break; ir_entity *f = fn[draw(fn.size())]; ir_type *t = get_entity_type(f); std::vector<ir_node *> in; for (size_t i = 0; i < get_method_n_params(t); ++i) { ir_mode *m = get_type_mode(get_method_param_type(t, i)); in.push_back(val(m && mode_is_data(m) ? m : get_modeP())); }
			ir_node *c = new_r_Call(B(), M(), chance(1, 4) ? val(get_modeP()) : new_r_Address(irg, f), (int)in.size(), in.data(), t); if (chance(1, 5)) set_irn_pinned(c, 0); set_r_store(irg, new_r_Proj(c, get_modeM(), pn_Call_M)); break; }
		case 2: { ir_asm_constraint c[3]; memset(c, 0, sizeof c); int k = 0, ni = (int)draw(3); std::vector<ir_node *> in; bool out = chance(1, 2);
			for (int i = 0; i < ni; ++i) { in.push_back(val(get_modeIs())); c[k].in_pos = i; c[k].out_pos = -1; c[k].constraint = new_id_from_str(chance(1, 2) ? "r" : "i"); c[k].mode = get_modeIs(); ++k; }
			if (out) { c[k].in_pos = -1; c[k].out_pos = 0; c[k].constraint = new_id_from_str("=r"); c[k].mode = get_modeIu(); ++k; }
			ident *cl[2] = { new_id_from_str("cc"), new_id_from_str("memory") };
			ir_node *a = new_r_ASM(B(), M(), ni, in.data(), name("# asm \"t\"\n\tnop"), (size_t)k, c, draw(3), cl, chance(1, 3) ? cons_floats : cons_none); set_r_store(irg, new_r_Proj(a, get_modeM(), pn_ASM_M)); if (out) use(new_r_Proj(a, get_modeIu(), pn_ASM_first_out)); break; }
		case 3: { ir_node *f = new_r_Free(B(), M(), val(get_modeP())); set_r_store(irg, f); break; }
		case 4: { ir_type *mt = new_type_method(3, 0, 0, 0, mtp_no_property); set_method_param_type(mt, 0, get_type_for_mode(get_modeP())); set_method_param_type(mt, 1, get_type_for_mode(get_modeIs())); set_method_param_type(mt, 2, get_type_for_mode(get_modeIs()));
			ir_node *in[] = { val(get_modeP()), new_r_Const(irg, tv(get_modeIs())), new_r_Const(irg, tv(get_modeIs())) }; ir_node *b = new_r_Builtin(B(), M(), 3, in, ir_bk_prefetch, mt); set_r_store(irg, new_r_Proj(b, get_modeM(), pn_Builtin_M)); break; }
		case 5: { std::vector<ir_node *> in; int k = 2 + (int)draw(2); for (int i = 0; i < k; ++i) { ir_node *l = new_r_Load(B(), M(), val(get_modeP()), get_modeIs(), get_type_for_mode(get_modeIs()), cons_floats); in.push_back(new_r_Proj(l, get_modeM(), pn_Load_M)); } set_r_store(irg, new_r_Sync(B(), k, in.data())); break; }
		default: use(val(dmode())); break;
		}
	}
	void graph()
	{
		ir_type *mt = new_type_method(1, chance(1, 2), 0, cc_cdecl_set, mtp_no_property); set_method_param_type(mt, 0, get_type_for_mode(get_modeP())); if (get_method_n_ress(mt)) set_method_res_type(mt, 0, get_type_for_mode(get_modeIs()));
		ir_entity *e = new_entity(get_glob_type(), name("zoo"), mt); attrs(e); remove_entity_linkage(e, IR_LINKAGE_NO_CODEGEN); if (chance(1, 2)) add_entity_additional_properties(e, (mtp_additional_properties)draw(1 << 12));
		irg = new_ir_graph(e, 0); ent.push_back(e); fn.push_back(e); if (chance(1, 5)) set_irp_main_irg(irg);
		ir_type *fr = get_irg_frame_type(irg); for (int i = (int)draw(4); i > 0; --i) { ir_type *t = type(); if (is_Method_type(t)) continue; ir_entity *x = new_entity(fr, name("loc"), t); if (chance(1, 2)) set_entity_alignment(x, 16); if (chance(1, 3)) set_entity_volatility(x, volatility_is_volatile); use(new_r_Member(B(), get_irg_frame(irg), x)); }
		if (chance(1, 3)) use(new_r_Member(B(), get_irg_frame(irg), new_parameter_entity(fr, 0, get_type_for_mode(get_modeP()))));
		int k = 1 + (int)draw(8);
		for (int i = 0; i < k; ++i) {
			effect();
			switch (draw(6)) {
			case 0: { // diamond with a Phi
				ir_node *cmp = new_r_Cmp(B(), val(get_modeIs()), val(get_modeIs()), (ir_relation)(1 + draw(6))); int oo = get_optimize(); set_optimize(0); ir_node *c = new_r_Cond(B(), cmp); set_optimize(oo); set_Cond_jmp_pred(c, (cond_jmp_predicate)draw(3)); ir_node *t = new_r_Proj(c, get_modeX(), pn_Cond_true), *f = new_r_Proj(c, get_modeX(), pn_Cond_false); ir_node *m0 = M();
				ir_node *tb = new_r_Block(irg, 1, &t); set_r_cur_block(irg, tb); set_r_store(irg, m0); effect(); ir_node *mt1 = M(), *tv1 = val(get_modeIs()), *tj = new_r_Jmp(B());
				ir_node *fb = new_r_Block(irg, 1, &f); set_r_cur_block(irg, fb); set_r_store(irg, m0); effect(); ir_node *mf = M(), *fv = val(get_modeIs()), *fj = new_r_Jmp(B());
				ir_node *in[] = { tj, fj }; ir_node *j = new_r_Block(irg, 2, in); set_r_cur_block(irg, j); ir_node *mi[] = { mt1, mf }, *vi[] = { tv1, fv }; set_r_store(irg, new_r_Phi(j, 2, mi, get_modeM())); use(new_r_Phi(j, 2, vi, get_modeIs())); break; }
			case 1: { // switch
				ir_mode *m = imode(); size_t nc = 1 + draw(4); ir_switch_table *t = ir_new_switch_table(irg, nc); for (size_t q = 0; q < nc; ++q) { ir_tarval *lo = new_tarval_from_long((long)q * 8, m), *hi = new_tarval_from_long((long)q * 8 + (long)draw(7), m); ir_switch_table_set(t, q, lo, hi, 1 + (unsigned)draw(2)); }
				ir_switch_table_set(t, 0, ir_switch_table_get_min(t, 0), ir_switch_table_get_max(t, 0), 1); bool two = false; for (size_t q = 0; q < nc; ++q) two |= ir_switch_table_get_pn(t, q) == 2;
				unsigned no = two ? 3 : 2; ir_node *sw = new_r_Switch(B(), val(m), no, t); std::vector<ir_node *> in; for (unsigned q = 0; q < no; ++q) in.push_back(new_r_Proj(sw, get_modeX(), q)); ir_node *m0 = M(); set_r_cur_block(irg, new_r_Block(irg, (int)no, in.data())); set_r_store(irg, m0); break; }
			case 2: { // loop
				ir_node *j = new_r_Jmp(B()), *h = new_r_immBlock(irg); add_immBlock_pred(h, j); set_r_cur_block(irg, h); M(); effect(); int oo = get_optimize(); ir_node *lc = val(get_modeIs()); set_optimize(0);
				ir_node *c = new_r_Cond(B(), new_r_Cmp(B(), lc, new_r_Const(irg, tv(get_modeIs())), ir_relation_less)); set_optimize(oo); add_immBlock_pred(h, new_r_Proj(c, get_modeX(), pn_Cond_true)); ir_node *x = new_r_Proj(c, get_modeX(), pn_Cond_false), *m1 = M(); mature_immBlock(h);
				set_r_cur_block(irg, new_r_Block(irg, 1, &x)); set_r_store(irg, m1); if (chance(1, 3)) keep_alive(h); break; }
			case 3: { // label and computed jump
				if (!chance(1, 2)) break;
				ir_node *m0 = M(); ir_node *b = new_r_Block(irg, 0, nullptr); ir_entity *l = create_Block_entity(b); ir_node *ij = new_r_IJmp(B(), new_r_Address(irg, l)); set_irn_in(b, 1, &ij); set_r_cur_block(irg, b); set_r_store(irg, m0); break; }
			default: break;
			}
		}
		ir_node *r = val(get_modeIs()); ir_node *ret = new_r_Return(B(), M(), (int)get_method_n_ress(mt), &r); add_immBlock_pred(get_irg_end_block(irg), ret); mature_immBlock(get_irg_end_block(irg)); set_r_cur_block(irg, nullptr); irg_finalize_cons(irg);
	}
	void run()
	{
		int o = get_optimize(); if (!chance(1, 4)) set_optimize(0);
		types(); sink = new_entity(get_glob_type(), name("sink"), ty[0]); set_entity_volatility(sink, volatility_is_volatile); entities(); for (int i = 1 + (int)draw(2); i > 0; --i) graph();
		set_optimize(o);
	}
};

// ---------------------------------------------------------------- snapshot
struct Snap {
	std::map<ir_type *, int> T; std::map<ir_entity *, int> E; std::vector<ir_type *> tq; std::vector<ir_entity *> eq; std::map<ir_node *, int> N; std::deque<ir_node *> nq; std::string o;
	void kv(const char *k, const std::string &v) { o += k; o += ": "; for (char c : v) { if (c == '\n') o += "\\n"; else o += c; } o += '\n'; }
	void kn(const char *k, long v) { kv(k, strf("%ld", v)); }
	std::string t(ir_type *x) { if (!x) return "T-"; auto p = T.emplace(x, (int)T.size()); if (p.second) tq.push_back(x); return strf("T%d", p.first->second); }
	std::string e(ir_entity *x) { if (!x) return "E-"; auto p = E.emplace(x, (int)E.size()); if (p.second) eq.push_back(x); return strf("E%d", p.first->second); }
	std::string nd(ir_node *x) { if (!x) return "N-"; auto p = N.emplace(x, (int)N.size()); if (p.second) nq.push_back(x); return strf("N%d", p.first->second); }
	std::string md(ir_mode *m) { return m ? get_mode_name(m) : "-"; }
	std::string id(ident *i) { return i ? strf("'%s'", get_id_str(i)) : "-"; }
	std::string tv(ir_tarval *v) { if (!v) return "-"; ir_mode *m = get_tarval_mode(v); std::string s = md(m) + ":"; if (v == get_tarval_b_true()) return "true"; if (v == get_tarval_b_false()) return "false"; if (mode_is_data(m)) { for (unsigned i = get_mode_size_bytes(m); i-- > 0;) s += strf("%02x", get_tarval_sub_bits(v, i)); } else s += "?"; return s; }
	void init(ir_initializer_t *i)
	{
		switch (get_initializer_kind(i)) {
		case IR_INITIALIZER_NULL: kv("init", "null"); break;
		case IR_INITIALIZER_CONST: { kv("init.const", ""); expr(get_initializer_const_value(i)); break; }
		case IR_INITIALIZER_TARVAL: kv("init.tarval", tv(get_initializer_tarval_value(i))); break;
		case IR_INITIALIZER_COMPOUND: { size_t k = get_initializer_compound_n_entries(i); kn("init.entries", (long)k); for (size_t q = 0; q < k; ++q) init(get_initializer_compound_value(i, q)); break; }
		}
	}
	void expr(ir_node *n) { kv("expr", get_op_name(get_irn_op(n)) + std::string(" ") + md(get_irn_mode(n))); attr(n); for (int i = 0; i < get_irn_arity(n); ++i) expr(get_irn_n(n, i)); }
	void type(ir_type *x)
	{
		kv("type", strf("%s %s", t(x).c_str(), get_type_opcode_name(get_type_opcode(x)))); tp_opcode op = get_type_opcode(x); if (op == tpo_unknown || op == tpo_code) return;
		kn("type.size", get_type_size(x)); kn("type.alignment", get_type_alignment(x)); kv("type.state", get_type_state_name(get_type_state(x)));
		if (is_compound_type(x)) { kv("type.ident", id(get_compound_ident(x))); size_t k = get_compound_n_members(x); kn("type.members", (long)k); for (size_t i = 0; i < k; ++i) kv("type.member", e(get_compound_member(x, i))); }
		if (is_Array_type(x)) { kv("array.element", t(get_array_element_type(x))); kn("array.size", get_array_size(x)); }
		if (is_Pointer_type(x)) kv("pointer.to", t(get_pointer_points_to_type(x)));
		if (is_Primitive_type(x) || is_Pointer_type(x)) kv("type.mode", md(get_type_mode(x)));
		if (is_Method_type(x)) { kn("method.callconv", get_method_calling_convention(x)); kn("method.properties", get_method_additional_properties(x)); kn("method.variadic", is_method_variadic(x)); std::string s; for (size_t i = 0; i < get_method_n_params(x); ++i) s += t(get_method_param_type(x, i)) + " "; kv("method.params", s); s = ""; for (size_t i = 0; i < get_method_n_ress(x); ++i) s += t(get_method_res_type(x, i)) + " "; kv("method.results", s); }
	}
	void entity(ir_entity *x)
	{
		if (is_unknown_entity(x)) { kv("entity", "unknown"); return; }
		bool par = is_parameter_entity(x), lab = get_entity_type(x) == get_code_type();
		kv("entity", strf("%s %s%s%s", e(x).c_str(), is_method_entity(x) ? "method" : "", is_alias_entity(x) ? "alias" : "", par ? "parameter" : lab ? "label" : "")); kv("entity.type", t(get_entity_type(x)));
		if (lab) return; // a label is its block
		kv("entity.owner", t(get_entity_owner(x)));
		if (par) kn("entity.parameter_number", (long)get_entity_parameter_number(x));
		else { kv("entity.ident", id(get_entity_ident(x))); if (is_segment_type(get_entity_owner(x))) kv(is_alias_entity(x) ? "alias.ld_ident" : "entity.ld_ident", id(get_entity_ld_ident(x))); }
		kn("entity.visibility", get_entity_visibility(x)); kn("entity.linkage", get_entity_linkage(x)); kn("entity.volatility", get_entity_volatility(x)); kn("entity.alignment", get_entity_alignment(x)); kn("entity.aligned", get_entity_aligned(x));
		if (is_alias_entity(x)) { kv("entity.alias", e(get_entity_alias(x))); return; }
		if (is_compound_type(get_entity_owner(x)) && !is_segment_type(get_entity_owner(x))) { kn("entity.offset", get_entity_offset(x)); kn("entity.bitfield_offset", get_entity_bitfield_offset(x)); kn("entity.bitfield_size", get_entity_bitfield_size(x)); }
		else if (is_method_entity(x)) { kn("entity.properties", get_entity_additional_properties(x)); kn("entity.has_graph", get_entity_irg(x) != nullptr); }
		else if (ir_initializer_t *i = get_entity_initializer(x)) init(i); else kv("init", "none");
	}
	void attr(ir_node *n)
	{
		switch (get_irn_opcode(n)) {
		case iro_Address: kv("Address.entity", e(get_Address_entity(n))); break;
		case iro_Offset: kv("Offset.entity", e(get_Offset_entity(n))); break;
		case iro_Size: kv("Size.type", t(get_Size_type(n))); break;
		case iro_Align: kv("Align.type", t(get_Align_type(n))); break;
		case iro_Const: kv("Const.tarval", tv(get_Const_tarval(n))); break;
		case iro_Member: kv("Member.entity", e(get_Member_entity(n))); break;
		case iro_Sel: kv("Sel.type", t(get_Sel_type(n))); break;
		case iro_Load: kv("Load.mode", md(get_Load_mode(n))); kv("Load.type", t(get_Load_type(n))); kn("Load.volatility", get_Load_volatility(n)); kn("Load.unaligned", get_Load_unaligned(n)); break;
		case iro_Store: kv("Store.type", t(get_Store_type(n))); kn("Store.volatility", get_Store_volatility(n)); kn("Store.unaligned", get_Store_unaligned(n)); break;
		case iro_CopyB: kv("CopyB.type", t(get_CopyB_type(n))); kn("CopyB.volatility", get_CopyB_volatility(n)); break;
		case iro_Call: kv("Call.type", t(get_Call_type(n))); break;
		case iro_Cmp: kn("Cmp.relation", get_Cmp_relation(n)); break;
		case iro_Confirm: kn("Confirm.relation", get_Confirm_relation(n)); break;
		case iro_Cond: kn("Cond.prediction", get_Cond_jmp_pred(n)); break;
		case iro_Div: kv("Div.resmode", md(get_Div_resmode(n))); kn("Div.no_remainder", get_Div_no_remainder(n)); break;
		case iro_Mod: kv("Mod.resmode", md(get_Mod_resmode(n))); break;
		case iro_Alloc: kn("Alloc.alignment", get_Alloc_alignment(n)); break;
		case iro_Proj: kn("Proj.num", get_Proj_num(n)); break;
		case iro_Phi: kn("Phi.loop", get_Phi_loop(n)); break;
		case iro_Builtin: kn("Builtin.kind", get_Builtin_kind(n)); kv("Builtin.type", t(get_Builtin_type(n))); break;
		case iro_Block: kv("Block.entity", e(get_Block_entity(n))); break;
		case iro_Switch: { ir_switch_table *w = get_Switch_table(n); kn("Switch.outs", get_Switch_n_outs(n)); size_t k = ir_switch_table_get_n_entries(w); kn("Switch.entries", (long)k); for (size_t i = 0; i < k; ++i) kv("Switch.entry", strf("%s..%s -> %u", tv(ir_switch_table_get_min(w, i)).c_str(), tv(ir_switch_table_get_max(w, i)).c_str(), (unsigned)ir_switch_table_get_pn(w, i))); break; }
		case iro_ASM: { kv("ASM.text", id(get_ASM_text(n))); size_t k = get_ASM_n_constraints(n); kn("ASM.constraints", (long)k); for (size_t i = 0; i < k; ++i) { ir_asm_constraint *c = get_ASM_constraints(n) + i; kv("ASM.constraint", strf("%d %d %s %s", c->in_pos, c->out_pos, id(c->constraint).c_str(), md(c->mode).c_str())); } k = get_ASM_n_clobbers(n); kn("ASM.clobbers", (long)k); for (size_t i = 0; i < k; ++i) kv("ASM.clobber", id(get_ASM_clobbers(n)[i])); break; }
		default: break;
		}
	}
	void graph(ir_graph *g)
	{
		N.clear(); nq.clear(); kv("graph", e(get_irg_entity(g))); kv("graph.frame_type", t(get_irg_frame_type(g)));
		kv("graph.end", nd(get_irg_end(g))); kv("graph.end_block", nd(get_irg_end_block(g))); kv("graph.start", nd(get_irg_start(g))); kv("graph.start_block", nd(get_irg_start_block(g))); kv("graph.no_mem", nd(get_irg_no_mem(g))); kv("graph.initial_mem", nd(get_irg_initial_mem(g))); kv("graph.frame", nd(get_irg_frame(g))); kv("graph.args", nd(get_irg_args(g)));
		while (!nq.empty()) {
			ir_node *n = nq.front(); nq.pop_front(); std::string in; if (!is_Block(n)) in = nd(get_nodes_block(n)) + " |"; for (int i = 0; i < get_irn_arity(n); ++i) in += " " + nd(get_irn_n(n, i));
			const char *op = get_op_name(get_irn_op(n)); kv("node", strf("%s %s %s", nd(n).c_str(), op, md(get_irn_mode(n)).c_str())); kv("node.inputs", in); if (!is_Block(n)) kn(strf("%s.pinned", op).c_str(), get_irn_pinned(n)); if (is_fragile_op(n)) kn(strf("%s.throws", op).c_str(), ir_throws_exception(n)); attr(n);
		}
	}
	std::string run()
	{
		kv("program.name", irp_prog_name_is_set() ? get_irp_name() : "-"); kv("program.main", get_irp_main_irg() ? e(get_irg_entity(get_irp_main_irg())) : "-"); kv("program.mode_P", md(get_modeP()));
		for (size_t i = 0; i < get_irp_n_asms(); ++i) kv("program.asm", id(get_irp_asm(i)));
		for (int s = IR_SEGMENT_FIRST; s <= IR_SEGMENT_LAST; ++s) kv("program.segment", t(get_segment_type((ir_segment_t)s)));
		for (size_t i = 0; i < get_irp_n_irgs(); ++i) graph(get_irp_irg(i));
		for (size_t a = 0, b = 0; a < tq.size() || b < eq.size();) { if (a < tq.size()) type(tq[a++]); else entity(eq[b++]); }
		return o;
	}
};
}
void zoo_build(u64 seed) { SeedScope s(seed); Zoo z; z.run(); }
std::string ir_snapshot() { Snap s; return s.run(); }
// first difference of two snapshots: its key names what changed
bool snapshot_diff(const std::string &a, const std::string &b, std::string &key, std::string &what)
{
	auto lines = [](const std::string &s) { std::vector<std::string> v; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(p, e - p)); p = e + 1; } return v; };
	auto x = lines(a), y = lines(b);
	for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) {
		std::string p = i < x.size() ? x[i] : "(end)", q = i < y.size() ? y[i] : "(end)"; if (p == q) continue;
		key = p.substr(0, p.find(':')); std::string k2 = q.substr(0, q.find(':')); if (k2 != key) key += "/" + k2;
		std::string head; for (size_t j = i; j-- > 0;) if (x[j].compare(0, 7, "entity:") == 0 || x[j].compare(0, 5, "node:") == 0 || x[j].compare(0, 5, "type:") == 0 || x[j].compare(0, 8, "program.") == 0 || x[j].compare(0, 6, "graph:") == 0) { head = x[j]; break; }
		what = strf("'%s' became '%s' (in %s)", p.c_str(), q.c_str(), head.c_str()); return true;
	}
	return false;
}
