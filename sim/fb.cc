#include "fb.h"
#include <algorithm>

ir_mode *firm_mode(Mode m)
{
	switch (m) { case Bs: return get_modeBs(); case Bu: return get_modeBu(); case Hs: return get_modeHs(); case Hu: return get_modeHu(); case Is: return get_modeIs(); case Iu: return get_modeIu(); case Ls: return get_modeLs(); case Lu: return get_modeLu(); case F32: return get_modeF(); case F64: return get_modeD(); case PTR: return get_modeP(); default: return nullptr; }
}
Mode mode_of(ir_mode *m) { for (int i = 0; i <= PTR; ++i) if (firm_mode((Mode)i) == m) return (Mode)i; return M_VOID; }
static Mode promo(Mode m) { return m == Bs || m == Hs ? Is : m == Bu || m == Hu ? Iu : m; }

namespace {
struct B {
	const Prog &P; BuildCfg C; Rng rng; Built R; std::vector<ir_type *> ty; std::vector<std::vector<ir_entity *>> fields; ir_type *prim[16]; ir_entity *eExt, *eExtD; std::vector<ir_type *> mty; std::vector<ir_entity *> fp;
	ir_graph *irg = nullptr; const Func *f = nullptr; std::vector<ir_entity *> mEnt; std::vector<ir_node *> mPtr; int condDepth = 0, nv = 0;
	std::vector<ir_node *> pendingMature; ir_node *brk = nullptr, *cnt = nullptr; std::vector<std::pair<ir_node *, ir_node *>> rets;
	B(const Prog &p, const BuildCfg &c) : P(p), C(c), rng(mix64(c.seed)) {}
	bool coin(u32 n) { return C.seed && rng.below(n) == 0; }
	ir_node *cur() { return get_r_cur_block(irg); }
	ir_tarval *tv(Mode m, u64 v) { u8 b[16] = { 0 }; memcpy(b, &v, 8); if (m == PTR) return get_mode_null(get_modeP()); return new_tarval_from_bytes(b, firm_mode(m)); }
	ir_node *K(Mode m, u64 v) { return new_r_Const(irg, tv(m, v)); }
	ir_type *pt(Mode m) { if (!prim[m]) { ir_mode *mm = firm_mode(m); prim[m] = m == PTR ? new_type_pointer(new_type_primitive(get_modeIs())) : new_type_primitive(mm); } return prim[m]; }
	void types()
	{
		memset(prim, 0, sizeof prim); fields.resize(P.types.size());
		for (size_t i = 0; i < P.types.size(); ++i) {
			const Type &y = P.types[i];
			if (y.k == Type::Scalar) { ty.push_back(pt(y.m)); continue; }
			ir_type *t;
			if (y.k == Type::Array) { t = new_type_array(ty[y.elem], y.n); set_type_size(t, y.size); set_type_alignment(t, y.align); set_type_state(t, layout_fixed); }
			else {
				ident *id = new_id_from_str(strf("%ss%zu", C.prefix.c_str(), i).c_str()); t = y.k == Type::Union ? new_type_union(id) : new_type_struct(id);
				for (size_t k = 0; k < y.fields.size(); ++k) { ir_entity *e = new_entity(t, new_id_from_str(strf("f%zu", k).c_str()), ty[y.fields[k]]); set_entity_offset(e, y.offs[k]); fields[i].push_back(e); }
				set_type_size(t, y.size); set_type_alignment(t, y.align); set_type_state(t, layout_fixed);
			}
			ty.push_back(t);
		}
	}
	ir_initializer_t *init(int t, const u8 *b)
	{
		const Type &y = P.types[t];
		if (y.k == Type::Scalar) { u64 v = 0; memcpy(&v, b, mbytes(y.m)); return create_initializer_tarval(tv(y.m, v)); }
		if (y.k == Type::Array) { ir_initializer_t *in = create_initializer_compound(y.n); for (int i = 0; i < y.n; ++i) set_initializer_compound_value(in, i, init(y.elem, b + i * P.types[y.elem].size)); return in; }
		ir_initializer_t *in = create_initializer_compound(y.fields.size()); for (size_t i = 0; i < y.fields.size(); ++i) if (i && y.k == Type::Union) set_initializer_compound_value(in, i, get_initializer_null()); else set_initializer_compound_value(in, i, init(y.fields[i], b + y.offs[i])); return in;
	}
	Built run()
	{
		extm = P.exact ? ir_target_float_arithmetic_mode() : nullptr;
		types();
		ir_type *gt = get_glob_type();
		for (size_t i = 0; i < P.gl.size(); ++i) {
			const Global &g = P.gl[i];
			ir_entity *e = new_entity(gt, new_id_from_str(strf("%sg%zu", C.prefix.c_str(), i).c_str()), ty[g.type]);
			set_entity_visibility(e, g.external ? ir_visibility_external : ir_visibility_local);
			if (g.isConst) add_entity_linkage(e, IR_LINKAGE_CONSTANT);
			set_entity_initializer(e, g.zero ? get_initializer_null() : init(g.type, g.init.data()));
			R.gl.push_back(e);
		}
		ir_type *et = new_type_method(2, 1, 0, 0, mtp_no_property); set_method_param_type(et, 0, pt(Is)); set_method_param_type(et, 1, pt(Ls)); set_method_res_type(et, 0, pt(Ls));
		eExt = new_entity(gt, new_id_from_str("sim_ext"), et); set_entity_visibility(eExt, ir_visibility_external);
		eExtD = nullptr;
		if (P.floats) { ir_type *ed = new_type_method(2, 1, 0, 0, mtp_no_property); set_method_param_type(ed, 0, pt(Is)); set_method_param_type(ed, 1, pt(F64)); set_method_res_type(ed, 0, pt(Ls)); eExtD = new_entity(gt, new_id_from_str("sim_extd"), ed); set_entity_visibility(eExtD, ir_visibility_external); }
		for (size_t i = 0; i < P.fn.size(); ++i) {
			const Func &fn = P.fn[i]; ir_type *mt = new_type_method(fn.params.size(), fn.ret != M_VOID || fn.retType >= 0, 0, 0, mtp_no_property);
			for (size_t k = 0; k < fn.params.size(); ++k) if (fn.params[k] < 0) set_method_param_type(mt, k, ty[fn.mems[-1 - fn.params[k]].type]); else { const Var &v = fn.vars[fn.params[k]]; set_method_param_type(mt, k, v.m == PTR ? new_type_pointer(ty[v.elemType]) : pt(promo(v.m))); }
			if (fn.ret != M_VOID) set_method_res_type(mt, 0, pt(fn.ret)); else if (fn.retType >= 0) set_method_res_type(mt, 0, ty[fn.retType]);
			ir_entity *e = new_entity(gt, new_id_from_str(strf("%sf%zu", C.prefix.c_str(), i).c_str()), mt); mty.push_back(mt);
			set_entity_visibility(e, fn.priv ? ir_visibility_local : ir_visibility_external); R.fn.push_back(e);
		}
		fp.assign(P.fn.size(), nullptr);
		for (size_t i = 0; i < P.fn.size(); ++i) func((int)i);
		return R;
	}
	ir_entity *fptr(int i)
	{
		if (fp[i]) return fp[i];
		ir_type *t = new_type_pointer(mty[i]); ir_entity *e = new_entity(get_glob_type(), new_id_from_str(strf("%sfp%d", C.prefix.c_str(), i).c_str()), t);
		set_entity_visibility(e, coin(2) ? ir_visibility_local : ir_visibility_external);
		if (coin(3)) add_entity_linkage(e, IR_LINKAGE_CONSTANT);
		set_entity_initializer(e, create_initializer_const(new_r_Address(get_const_code_irg(), R.fn[i])));
		return fp[i] = e;
	}
	// ---- blocks
	struct Lbl { ir_node *b; int preds = 0; };
	Lbl lbl() { Lbl l; l.b = new_r_immBlock(irg); return l; }
	void pred(Lbl &l, ir_node *x) { add_immBlock_pred(l.b, x); l.preds++; }
	void jump(Lbl &l) { if (cur()) pred(l, new_r_Jmp(cur())); }
	void mature(Lbl &l) { if (C.matureStyle == 1) pendingMature.push_back(l.b); else if (C.matureStyle == 2 && rng.below(2)) pendingMature.push_back(l.b); else mature_immBlock(l.b); }
	void place(Lbl &l, bool allPreds) { if (allPreds) mature(l); set_r_cur_block(irg, l.preds || !allPreds ? l.b : nullptr); if (allPreds && !l.preds) set_r_cur_block(irg, nullptr); }
	void func(int fi)
	{
		f = &P.fn[fi]; nv = (int)f->vars.size(); irg = new_ir_graph(R.fn[fi], nv + 24); set_current_ir_graph(irg); mEnt.clear(); mPtr.clear(); pendingMature.clear(); condDepth = 0; brk = cnt = nullptr;
		ir_node *args = get_irg_args(irg);
		for (size_t k = 0; k < f->params.size(); ++k) { int v = f->params[k]; if (v < 0) continue; Mode m = f->vars[v].m, p = m == PTR ? PTR : promo(m); ir_node *n = new_r_Proj(args, firm_mode(p), k); if (p != m) n = new_r_Conv(cur(), n, firm_mode(m)); set_r_value(irg, v, n); }
		std::vector<bool> isP(nv, false); for (int v : f->params) if (v >= 0) isP[v] = true;
		for (int v = 0; v < nv; ++v) if (!isP[v] && f->vars[v].needInit && f->vars[v].m != PTR) set_r_value(irg, v, K(f->vars[v].m, 0));
		ir_type *ft = get_irg_frame_type(irg);
		for (size_t i = 0; i < f->mems.size(); ++i) {
			int t = f->mems[i].type;
			if (f->mems[i].param >= 0) { mEnt.push_back(new_parameter_entity(ft, f->mems[i].param, ty[t])); mPtr.push_back(nullptr); continue; }
			if (coin(10)) {
				Mode om = C.ptr32 ? Iu : Lu; ir_node *a = new_r_Alloc(cur(), get_r_store(irg), K(om, P.types[t].size), 16); set_r_store(irg, new_r_Proj(a, get_modeM(), pn_Alloc_M)); mPtr.push_back(new_r_Proj(a, get_modeP(), pn_Alloc_res)); mEnt.push_back(nullptr);
			} else { mEnt.push_back(new_entity(ft, new_id_from_str(strf("m%zu", i).c_str()), ty[t])); mPtr.push_back(nullptr); }
			if (f->mems[i].needInit) zero(memPtr((int)i), t);
		}
		body(f->body);
		if (cur()) ret(-1);
		for (ir_node *b : pendingMature) { mature_immBlock(b); }
		ir_node *endb = get_irg_end_block(irg); mature_immBlock(endb);
		irg_finalize_cons(irg);
	}
	ir_node *memPtr(int i) { return mPtr[i] ? mPtr[i] : new_r_Member(cur(), get_irg_frame(irg), mEnt[i]); }
	void zero(ir_node *p, int t)
	{
		const Type &y = P.types[t];
		if (y.k == Type::Scalar) st(p, y.m, K(y.m, 0), ty[t], cons_none);
		else if (y.k == Type::Array) for (int i = 0; i < y.n; ++i) zero(elem(p, t, K(Is, i), Is), y.elem);
		else if (y.k == Type::Union) for (u32 at = 0; at < y.size; ++at) st(at ? new_r_Add(cur(), p, K(offMode(), at)) : p, Bu, K(Bu, 0), pt(Bu), cons_none);
		else {
			u32 at = 0; for (size_t i = 0; i <= y.fields.size(); ++i) { // the padding is copied by CopyB and hence visible
				u32 to = i < y.fields.size() ? y.offs[i] : y.size; for (; at < to; ++at) st(new_r_Add(cur(), p, K(offMode(), at)), Bu, K(Bu, 0), pt(Bu), cons_none);
				if (i < y.fields.size()) { zero(member(p, t, (int)i), y.fields[i]); at = y.offs[i] + P.types[y.fields[i]].size; }
			}
		}
	}
	Mode offMode() { return C.ptr32 ? Is : Ls; }
	ir_node *elem(ir_node *p, int t, ir_node *idx, Mode im)
	{
		if (C.member && !coin(6)) return new_r_Sel(cur(), p, idx, ty[t]);
		return elemRaw(p, P.types[P.types[t].elem].size, idx, im);
	}
	ir_node *elemRaw(ir_node *p, u32 sz, ir_node *idx, Mode im)
	{
		Mode om = offMode(); ir_node *i = im == om ? idx : new_r_Conv(cur(), idx, firm_mode(om));
		if (sz != 1) i = new_r_Mul(cur(), i, K(om, sz));
		return new_r_Add(cur(), p, i);
	}
	ir_node *member(ir_node *p, int t, int k)
	{
		if (C.member && !coin(6)) return new_r_Member(cur(), p, fields[t][k]);
		u32 o = P.types[t].offs[k]; return o ? new_r_Add(cur(), p, K(offMode(), o)) : p;
	}
	ir_node *ld(ir_node *p, Mode m, ir_type *t, ir_cons_flags fl)
	{
		ir_node *l = new_r_Load(cur(), get_r_store(irg), p, firm_mode(m), t, fl); set_r_store(irg, new_r_Proj(l, get_modeM(), pn_Load_M)); return new_r_Proj(l, firm_mode(m), pn_Load_res);
	}
	void st(ir_node *p, Mode m, ir_node *v, ir_type *t, ir_cons_flags fl) { (void)m; ir_node *s = new_r_Store(cur(), get_r_store(irg), p, v, t, fl); set_r_store(irg, new_r_Proj(s, get_modeM(), pn_Store_M)); }
	ir_node *index(int e, int n, Mode &im) { im = P.ex[e].m; ir_node *i = expr(e); if (P.ex[e].rot) i = new_r_And(cur(), i, K(im, n - 1)); return i; }
	ir_node *addr(int li)
	{
		const LVal &l = P.lv[li]; ir_node *p; int t; size_t s0 = 0; Mode im;
		if (l.base == LVal::GLOBAL) { p = new_r_Address(irg, R.gl[l.id]); t = P.gl[l.id].type; }
		else if (l.base == LVal::LOCALMEM) { p = memPtr(l.id); t = f->mems[l.id].type; }
		else { t = f->vars[l.id].elemType; u32 sz = P.types[t].size; ir_node *bp = get_r_value(irg, l.id, get_modeP()); ir_node *i = index(l.path[0].idx, 4, im); p = elemRaw(bp, sz, i, im); s0 = 1; }
		for (size_t s = s0; s < l.path.size(); ++s) {
			const Type &y = P.types[t];
			if (y.k == Type::Array) { ir_node *i = index(l.path[s].idx, y.n, im); p = elem(p, t, i, im); t = y.elem; }
			else { p = member(p, t, l.path[s].field); t = y.fields[l.path[s].field]; }
		}
		if (l.sub > 0) p = new_r_Add(cur(), p, K(offMode(), l.sub));
		return p;
	}
	ir_cons_flags flags(const LVal &l) { return (ir_cons_flags)((l.volat ? cons_volatile : cons_none) | (l.sub >= 0 && (l.sub % mbytes(l.m) || (int)P.types[l.type].align < std::min(mbytes(l.m), C.ptr32 ? 4 : 8)) ? cons_unaligned : cons_none)); }
	ir_type *accType(const LVal &l) { return l.sub >= 0 ? pt(l.m) : ty[l.type]; }
	ir_node *bin(OP o, Mode m, ir_node *a, ir_node *b)
	{
		ir_node *bl = cur();
		switch (o) {
		case O_ADD: return new_r_Add(bl, a, b); case O_SUB: return new_r_Sub(bl, a, b); case O_MUL: return new_r_Mul(bl, a, b); case O_AND: return new_r_And(bl, a, b); case O_OR: return new_r_Or(bl, a, b); case O_EOR: return new_r_Eor(bl, a, b);
		case O_SHL: return new_r_Shl(bl, a, b); case O_SHR: return new_r_Shr(bl, a, b); case O_SHRS: return new_r_Shrs(bl, a, b);
		default: {
			bool div = o == O_DIV; ir_node *mem; bool viaPin = mflt(m) || coin(4);
			mem = viaPin ? new_r_Pin(bl, new_r_NoMem(irg)) : get_r_store(irg);
			ir_node *d = div ? new_r_Div(bl, mem, a, b, viaPin ? 0 : 1) : new_r_Mod(bl, mem, a, b, viaPin ? 0 : 1);
			if (!viaPin) set_r_store(irg, new_r_Proj(d, get_modeM(), div ? (unsigned)pn_Div_M : (unsigned)pn_Mod_M));
			return new_r_Proj(d, firm_mode(m), div ? (unsigned)pn_Div_res : (unsigned)pn_Mod_res); }
		}
	}
	// targets whose floating point unit has one arithmetic mode: operands are converted to it, chains stay in it
	ir_mode *extm = nullptr;
	ir_node *skipToExt(ir_node *a, ir_mode *x) { if (is_Conv(a) && get_irn_mode(get_Conv_op(a)) == x && !coin(3)) return get_Conv_op(a); return new_r_Conv(cur(), a, x); }
	ir_node *binx(OP o, ir_mode *x, ir_node *a, ir_node *b)
	{
		switch (o) { case O_ADD: return new_r_Add(cur(), a, b); case O_SUB: return new_r_Sub(cur(), a, b); case O_MUL: return new_r_Mul(cur(), a, b); default: return new_r_Proj(new_r_Div(cur(), new_r_Pin(cur(), new_r_NoMem(irg)), a, b, 0), x, pn_Div_res); }
	}
	ir_node *conv(ir_node *n, Mode from, Mode to) { return from == to ? n : new_r_Conv(cur(), n, firm_mode(to)); }
	ir_node *expr(int ei)
	{
		const Expr &e = P.ex[ei];
		switch (e.k) {
		case E_CONST: return K(e.m, e.imm);
		case E_VAR: return get_r_value(irg, e.var, firm_mode(e.m));
		case E_LOAD: { ir_node *p = addr(e.lv); const LVal &l = P.lv[e.lv]; return ld(p, e.m, accType(l), flags(l)); }
		case E_ADDR: return addr(e.lv);
		case E_BIN: {
			ir_node *a = expr(e.a), *b = expr(e.b);
			if (e.guard && mflt(e.m)) return a;
			if (mflt(e.m) && extm) { ir_mode *x = extm; Mode q = e.m; a = skipToExt(a, x); b = skipToExt(b, x); ir_node *r = binx(e.op, x, a, b); return new_r_Conv(cur(), r, firm_mode(q)); }
			if (e.op >= O_SHL) { if (e.guard) b = new_r_And(cur(), b, K(P.ex[e.b].m, mbits(e.m) - 1)); if (P.ex[e.b].m != Iu) b = conv(b, P.ex[e.b].m, Iu); if (e.op == O_SHL && e.guard && msigned(e.m)) { Mode u = munsigned(e.m); return conv(bin(O_SHL, u, conv(a, e.m, u), b), u, e.m); } return bin(e.op, e.m, a, b); }
			if ((e.op == O_DIV || e.op == O_MOD) && e.guard && mint(e.m)) b = new_r_Add(cur(), new_r_And(cur(), b, K(e.m, 7)), K(e.m, 2));
			else if (e.guard && mint(e.m) && msigned(e.m)) { Mode u = munsigned(e.m); return conv(bin(e.op, u, conv(a, e.m, u), conv(b, e.m, u)), u, e.m); }
			return bin(e.op, e.m, a, b);
		}
		case E_UN: { ir_node *a = expr(e.a); if (e.op == O_NOT) return new_r_Not(cur(), a); if (mflt(e.m) && extm) return new_r_Conv(cur(), new_r_Minus(cur(), skipToExt(a, extm)), firm_mode(e.m)); if (e.guard && msigned(e.m)) { Mode u = munsigned(e.m); return conv(new_r_Minus(cur(), conv(a, e.m, u)), u, e.m); } return new_r_Minus(cur(), a); }
		case E_CONV: { ir_node *a = expr(e.a); if (e.guard) return K(e.m, conv_guard(e.m)); return conv(a, P.ex[e.a].m, e.m); }
		case E_BITCAST: { ir_node *a = expr(e.a); return new_r_Bitcast(cur(), a, firm_mode(e.m)); }
		case E_MUX: { ir_node *c = condB(e.c); ir_node *a = expr(e.a), *b = expr(e.b); return new_r_Mux(cur(), c, b, a); }
		case E_B2I: { ir_node *c = condB(e.c); return new_r_Mux(cur(), c, K(e.m, 0), K(e.m, 1)); }
		case E_COND: {
			Lbl t = lbl(), n = lbl(), j = lbl(); int slot = nv + condDepth++; if (condDepth > 22) discard("conditional expression nesting");
			condJump(e.c, t, n); ir_mode *m = firm_mode(e.m);
			place(t, true); { ir_node *v = expr(e.a); set_r_value(irg, slot, v); } jump(j);
			place(n, true); { ir_node *v = expr(e.b); set_r_value(irg, slot, v); } jump(j);
			place(j, true); ir_node *r = get_r_value(irg, slot, m); --condDepth; return r;
		}
		case E_CALL: return call(e);
		case E_BUILTIN: {
			ir_node *a = expr(e.a); Mode om = P.ex[e.a].m; if (e.guard) a = new_r_Or(cur(), a, K(om, 1));
			static const ir_builtin_kind k[] = { ir_bk_ffs, ir_bk_clz, ir_bk_ctz, ir_bk_popcount, ir_bk_parity, ir_bk_bswap };
			ir_type *mt = new_type_method(1, 1, 0, 0, mtp_no_property); set_method_param_type(mt, 0, pt(om)); set_method_res_type(mt, 0, pt(e.m));
			ir_node *in[] = { a }; ir_node *bi = new_r_Builtin(cur(), get_irg_no_mem(irg), 1, in, k[e.sub], mt);
			return new_r_Proj(bi, firm_mode(e.m), pn_Builtin_max + 1);
		}
		default: return K(e.m, 0);
		}
	}
	ir_node *call(const Expr &e)
	{
		std::vector<ir_node *> in; const Func &g = P.fn[e.fn];
		for (size_t i = 0; i < e.args.size(); ++i) { ir_node *a = expr(e.args[i]); Mode m = P.ex[e.args[i]].m; if (m != PTR) a = conv(a, m, promo(g.vars[g.params[i]].m)); in.push_back(a); } // a compound value is passed as its address
		ir_node *p;
		if (e.sub) { ir_entity *fe = fptr(e.fn); ir_node *l = new_r_Load(cur(), get_r_store(irg), new_r_Address(irg, fe), get_modeP(), get_entity_type(fe), cons_none); set_r_store(irg, new_r_Proj(l, get_modeM(), pn_Load_M)); p = new_r_Proj(l, get_modeP(), pn_Load_res); }
		else p = new_r_Address(irg, R.fn[e.fn]);
		ir_node *c = new_r_Call(cur(), get_r_store(irg), p, (int)in.size(), in.data(), mty[e.fn]); set_r_store(irg, new_r_Proj(c, get_modeM(), pn_Call_M));
		if (g.retType >= 0) return new_r_Proj(new_r_Proj(c, get_modeT(), pn_Call_T_result), get_modeP(), 0);
		if (g.ret == M_VOID) return nullptr;
		return new_r_Proj(new_r_Proj(c, get_modeT(), pn_Call_T_result), firm_mode(g.ret), 0);
	}
	ir_node *cmp(const Cond &c) { ir_node *a = expr(c.a), *b = expr(c.b); if (mflt(P.ex[c.a].m) && extm) { a = skipToExt(a, extm); b = skipToExt(b, extm); } return new_r_Cmp(cur(), a, b, (ir_relation)(c.rel | (mflt(P.ex[c.a].m) && c.rel == R_NE ? ir_relation_unordered : 0))); }
	ir_node *condB(int ci)
	{
		const Cond &c = P.cd[ci];
		switch (c.k) {
		case C_CMP: return cmp(c);
		case C_NOT: return new_r_Not(cur(), condB(c.a));
		case C_AND: { ir_node *a = condB(c.a), *b = condB(c.b); return new_r_And(cur(), a, b); }
		case C_OR: { ir_node *a = condB(c.a), *b = condB(c.b); return new_r_Or(cur(), a, b); }
		default: return new_r_Const(irg, get_tarval_b_true());
		}
	}
	void condJump(int ci, Lbl &t, Lbl &n)
	{
		const Cond &c = P.cd[ci];
		switch (c.k) {
		case C_NOT: condJump(c.a, n, t); return;
		case C_AND: case C_OR: { Lbl m = lbl(); if (c.k == C_AND) condJump(c.a, m, n); else condJump(c.a, t, m); place(m, true); if (cur()) condJump(c.b, t, n); return; }
		case C_CMP: { ir_node *s = cmp(c); ir_node *cd = new_r_Cond(cur(), s); pred(t, new_r_Proj(cd, get_modeX(), pn_Cond_true)); pred(n, new_r_Proj(cd, get_modeX(), pn_Cond_false)); set_r_cur_block(irg, nullptr); return; }
		default: jump(t); set_r_cur_block(irg, nullptr);
		}
	}
	void ret(int e, int lv = -1)
	{
		ir_node *r;
		if (f->retType >= 0) { ir_node *in[] = { lv >= 0 ? addr(lv) : memPtr(f->retMem) }; r = new_r_Return(cur(), get_r_store(irg), 1, in); } else
		if (f->ret == M_VOID) { if (e >= 0) expr(e); r = new_r_Return(cur(), get_r_store(irg), 0, nullptr); }
		else { ir_node *v = e >= 0 ? expr(e) : K(f->ret, 0); ir_node *in[] = { v }; r = new_r_Return(cur(), get_r_store(irg), 1, in); }
		add_immBlock_pred(get_irg_end_block(irg), r); set_r_cur_block(irg, nullptr);
	}
	void body(const std::vector<int> &b) { for (int s : b) { if (!cur()) return; stmt(s); } }
	Lbl *lb = nullptr, *lc = nullptr;
	void stmt(int si)
	{
		const Stmt &s = P.st[si];
		switch (s.k) {
		case S_ASSIGN: { ir_node *v = expr(s.a); set_r_value(irg, s.var, v); return; }
		case S_STORE: { ir_node *v = expr(s.a); ir_node *p = addr(s.lv); const LVal &l = P.lv[s.lv]; st(p, l.m, v, accType(l), flags(l)); return; }
		case S_TRACE: {
			ir_node *v = expr(s.a); Mode m = P.ex[s.a].m; ir_node *in[2]; in[0] = K(Is, s.step); bool fl = mflt(m); in[1] = conv(v, m, fl ? F64 : Ls); ir_entity *x = fl ? eExtD : eExt;
			ir_node *c = new_r_Call(cur(), get_r_store(irg), new_r_Address(irg, x), 2, in, get_entity_type(x)); set_r_store(irg, new_r_Proj(c, get_modeM(), pn_Call_M)); return; }
		case S_CALL: { ir_node *v = expr(s.a); if (s.lv >= 0) { ir_node *d = addr(s.lv); set_r_store(irg, new_r_CopyB(cur(), get_r_store(irg), d, v, ty[P.fn[P.ex[s.a].fn].retType], cons_none)); } return; }
		case S_BLOCK: body(s.body); return;
		case S_IF: { Lbl t = lbl(), n = lbl(), j = lbl(); condJump(s.c, t, n); place(t, true); if (cur()) body(s.body); jump(j); place(n, true); if (cur()) body(s.els); jump(j); place(j, true); return; }
		case S_FOR: {
			Mode m = f->vars[s.var].m; set_r_value(irg, s.var, expr(s.a)); Lbl *ob = lb, *oc = lc; Lbl end = lbl(), next = lbl(), bdy = lbl(), head = lbl();
			auto test = [&](Lbl &t, Lbl &n) { ir_node *b = expr(s.b); ir_node *i = get_r_value(irg, s.var, firm_mode(m)); ir_node *cd = new_r_Cond(cur(), new_r_Cmp(cur(), i, b, (ir_relation)s.rel)); pred(t, new_r_Proj(cd, get_modeX(), pn_Cond_true)); pred(n, new_r_Proj(cd, get_modeX(), pn_Cond_false)); set_r_cur_block(irg, nullptr); };
			auto inc = [&] { ir_node *i = get_r_value(irg, s.var, firm_mode(m)); i = s.step < 0 && msigned(m) ? new_r_Sub(cur(), i, K(m, (u64)-s.step)) : new_r_Add(cur(), i, K(m, canon(m, (u64)s.step))); set_r_value(irg, s.var, i); };
			lb = &end; lc = &next;
			if (!s.flag) { jump(head); place(head, false); test(bdy, end); place(bdy, true); body(s.body); jump(next); place(next, true); if (cur()) { inc(); jump(head); } mature(head); }
			else { test(bdy, end); place(bdy, false); body(s.body); jump(next); place(next, true); if (cur()) { inc(); test(bdy, end); } mature(bdy); mature(head); }
			lb = ob; lc = oc; place(end, true); return; }
		case S_WHILE: case S_DO: case S_GOTOIN: {
			set_r_value(irg, s.var, K(Is, (u64)s.step)); Lbl *ob = lb, *oc = lc; Lbl head = lbl(), end = lbl(), chk = lbl(), bdy = lbl(), mid = lbl();
			if (s.k == S_GOTOIN) { Lbl go = lbl(), no = lbl(); condJump(s.a, go, no); place(go, true); jump(mid); place(no, true); }
			if (s.k == S_DO) jump(bdy); else jump(head);
			place(head, false); condJump(s.c, chk, end); place(chk, true);
			if (cur()) { ir_node *v = new_r_Sub(cur(), get_r_value(irg, s.var, get_modeIs()), K(Is, 1)); set_r_value(irg, s.var, v); ir_node *cd = new_r_Cond(cur(), new_r_Cmp(cur(), v, K(Is, 0), ir_relation_less)); pred(end, new_r_Proj(cd, get_modeX(), pn_Cond_true)); pred(bdy, new_r_Proj(cd, get_modeX(), pn_Cond_false)); set_r_cur_block(irg, nullptr); }
			place(bdy, true); lb = &end; lc = &head; if (cur()) body(s.body);
			jump(mid); place(mid, true); if (s.k == S_GOTOIN && cur()) body(s.els);
			jump(head); mature(head); lb = ob; lc = oc; place(end, true); return; }
		case S_SWITCH: {
			ir_node *sel = expr(s.a); Mode m = P.ex[s.a].m; size_t n = s.cases.size(); ir_switch_table *t = ir_new_switch_table(irg, n); 
			std::vector<Lbl> L; for (size_t i = 0; i < n; ++i) { L.push_back(lbl()); ir_tarval *lo = tv(m, canon(m, (u64)s.cases[i].first)), *hi = tv(m, canon(m, (u64)s.cases[i].second)); ir_switch_table_set(t, i, lo, hi, i + 1); }
			Lbl end = lbl(), def = lbl(); ir_node *sw = new_r_Switch(cur(), sel, n + 1, t);
			for (size_t i = 0; i < n; ++i) pred(L[i], new_r_Proj(sw, get_modeX(), i + 1));
			pred(def, new_r_Proj(sw, get_modeX(), pn_Switch_default)); set_r_cur_block(irg, nullptr);

			for (size_t i = 0; i < n; ++i) { place(L[i], true); stmt(s.caseBody[i]); if (s.fall[i] && i + 1 < n) jump(L[i + 1]); else if (s.fall[i]) jump(def); else jump(end); }
			place(def, true); if (s.hasDef) stmt(s.b); jump(end); place(end, true); return; }
		case S_BREAK: jump(*lb); set_r_cur_block(irg, nullptr); return;
		case S_CONT: jump(*lc); set_r_cur_block(irg, nullptr); return;
		case S_RET: ret(s.a, s.lv); return;
		case S_COPY: { ir_node *d = addr(s.lv), *q = addr(s.lv2); ir_node *c = new_r_CopyB(cur(), get_r_store(irg), d, q, ty[s.var], cons_none); set_r_store(irg, c); return; }
		default: return;
		}
	}
};
}
Built build_firm(const Prog &P, const BuildCfg &c) { for (auto &f : P.fn) { if (f.retType >= 0) probe("compound_results"); for (int p : f.params) if (p < 0) probe("compound_params"); } B b(P, c); return b.run(); }
