#include "prog.h"
#include <cmath>
#include <algorithm>

const char *const mode_names[] = { "Bs", "Bu", "Hs", "Hu", "Is", "Iu", "Ls", "Lu", "F", "D", "P", "void" };
const char *const op_names[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>u", ">>s", "~", "neg" };
const Mode entry_modes[N_ENTRY_PARAMS] = { Is, Iu, Ls, Lu };

static float asF(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static double asD(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static u64 fromF(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u64 fromD(double f) { u64 x; memcpy(&x, &f, 8); return x; }
u64 canonNaN(Mode m, u64 v)
{
	if (m == F32 && std::isnan(asF(v))) return 0x7fc00000u;
	if (m == F64 && std::isnan(asD(v))) return 0x7ff8000000000000ull;
	return v;
}
u64 ext_value(u64 &state, u64 tag, u64 v)
{
	state = state * 6364136223846793005ull + 1442695040888963407ull + (v ^ (tag << 7));
	return (state >> 11) ^ (v << 3);
}
u64 eval_bin(OP op, Mode m, u64 a, u64 b, bool &ub)
{
	ub = false;
	if (mflt(m)) {
		if (m == F32) { float x = asF(a), y = asF(b), r; switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; default: r = x / y; } return canonNaN(m, fromF(r)); }
		double x = asD(a), y = asD(b), r; switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; default: r = x / y; } return canonNaN(m, fromD(r));
	}
	int bits = mbits(m); bool sg = msigned(m);
	switch (op) {
	case O_ADD: { u64 r = canon(m, a + b); if (sg && (__int128)(i64)a + (i64)b != (__int128)(i64)r) ub = true; return r; }
	case O_SUB: { u64 r = canon(m, a - b); if (sg && (__int128)(i64)a - (i64)b != (__int128)(i64)r) ub = true; return r; }
	case O_MUL: { u64 r = canon(m, a * b); if (sg && (__int128)(i64)a * (i64)b != (__int128)(i64)r) ub = true; return r; }
	case O_DIV: case O_MOD:
		if (b == 0) { ub = true; return 0; }
		if (sg) {
			if ((i64)b == -1) { if (canon(m, 0 - a) == a && a != 0) { ub = true; return 0; } return op == O_DIV ? canon(m, 0 - a) : 0; }
			return canon(m, op == O_DIV ? (u64)((i64)a / (i64)b) : (u64)((i64)a % (i64)b));
		}
		return canon(m, op == O_DIV ? a / b : a % b);
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_EOR: return canon(m, a ^ b);
	case O_SHL: {
		if (b >= (u64)bits) { ub = true; return 0; }
		u64 r = canon(m, a << b);
		if (sg && (((__int128)(i64)a << b) != (__int128)(i64)r || (i64)a < 0)) ub = true;
		return r;
	}
	case O_SHR: if (b >= (u64)bits) { ub = true; return 0; } { u64 x = bits == 64 ? a : a & ((1ull << bits) - 1); return canon(m, x >> b); }
	case O_SHRS: if (b >= (u64)bits) { ub = true; return 0; } return canon(m, (u64)((i64)canon((Mode)(m & ~1), a) >> b));
	default: return 0;
	}
}
bool eval_u64f32_twice; // models the amd64 backend's conversion of 64 bit unsigned values to float by way of double
u64 eval_conv(Mode from, Mode to, u64 v, bool &ub)
{
	ub = false;
	if (mint(from) && mint(to)) return canon(to, v);
	if (mint(from)) {
		if (to == F32 && from == Lu && eval_u64f32_twice) return fromF((float)(double)v);
		if (to == F32) return fromF(msigned(from) ? (float)(i64)v : (float)v);
		return fromD(msigned(from) ? (double)(i64)v : (double)v);
	}
	if (mflt(to)) {
		if (from == to) return v;
		if (to == F64) return canonNaN(F64, fromD((double)asF(v)));
		return canonNaN(F32, fromF((float)asD(v)));
	}
	double d = from == F32 ? asF(v) : asD(v);
	if (!(d == d)) { ub = true; return 0; }
	d = std::trunc(d);
	int b = mbits(to);
	double lo = msigned(to) ? -std::ldexp(1.0, b - 1) : 0, hi = msigned(to) ? std::ldexp(1.0, b - 1) : std::ldexp(1.0, b);
	if (d < lo || d >= hi) { ub = true; return 0; }
	if (d == 0) return 0;
	return msigned(to) ? canon(to, (u64)(i64)d) : canon(to, (u64)d);
}
bool eval_rel(u8 rel, Mode m, u64 a, u64 b)
{
	int r;
	if (m == F32 || m == F64) {
		double x = m == F32 ? asF(a) : asD(a), y = m == F32 ? asF(b) : asD(b);
		r = x == y ? 1 : x < y ? 2 : x > y ? 4 : 8;
	} else if (msigned(m)) r = a == b ? 1 : (i64)a < (i64)b ? 2 : 4;
	else r = a == b ? 1 : a < b ? 2 : 4;
	return (rel & r) != 0;
}
u64 conv_guard(Mode m) { return m == F32 ? fromF(7) : m == F64 ? fromD(7) : canon(m, 7); }
u64 eval_builtin(BI k, Mode m, u64 v, bool &ub)
{
	ub = false; int b = mbits(m); u64 x = b == 64 ? v : v & ((1ull << b) - 1);
	switch (k) {
	case BI_FFS: return x ? __builtin_ctzll(x) + 1 : 0;
	case BI_CLZ: if (!x) { ub = true; return 0; } return __builtin_clzll(x) - (64 - b);
	case BI_CTZ: if (!x) { ub = true; return 0; } return __builtin_ctzll(x);
	case BI_POPCOUNT: return __builtin_popcountll(x);
	case BI_PARITY: return __builtin_parityll(x);
	case BI_BSWAP: return b == 64 ? __builtin_bswap64(x) : b == 32 ? canon(m, __builtin_bswap32((u32)x)) : canon(m, __builtin_bswap16((uint16_t)x));
	}
	return 0;
}

// =============================================================== generator
namespace {
struct Gen {
	Prog &P; GenCfg C; Func *f = nullptr; int fi = 0; int budget = 0; int loopDepth = 0; int nest = 0; std::vector<int> locked; int exprs = 0; bool inSwitch = false;
	std::vector<int> tIntArr, tStruct, tScalar; int t[12];
	Gen(Prog &p, const GenCfg &c) : P(p), C(c) {}
	bool sw(int bit) { return (C.swarm >> bit) & 1; }
	int newE(const Expr &e) { P.ex.push_back(e); return (int)P.ex.size() - 1; }
	int newS(const Stmt &s) { P.st.push_back(s); return (int)P.st.size() - 1; }
	int newL(const LVal &l) { P.lv.push_back(l); return (int)P.lv.size() - 1; }
	int newC(const Cond &c) { P.cd.push_back(c); return (int)P.cd.size() - 1; }
	int scalarT(Mode m) { if (t[m] < 0) { Type y; y.k = Type::Scalar; y.m = m; y.size = m == PTR ? P.ptrBytes : mbytes(m); y.align = y.size; if (P.ptrBytes == 4 && y.align > 4) y.align = 4; P.types.push_back(y); t[m] = (int)P.types.size() - 1; } return t[m]; }
	int arrayT(int elem, int n) { for (size_t i = 0; i < P.types.size(); ++i) if (P.types[i].k == Type::Array && P.types[i].elem == elem && P.types[i].n == n) return (int)i; Type y; y.k = Type::Array; y.elem = elem; y.n = n; y.size = P.types[elem].size * n; y.align = P.types[elem].align; y.depth = P.types[elem].depth + 1; P.types.push_back(y); return (int)P.types.size() - 1; }
	Mode intMode() { static const Mode w[] = { Is, Iu, Ls, Lu }; if (!C.wide) return w[draw(2)]; u64 d = draw(8); return d < 3 ? Is : d < 5 ? Iu : d < 7 ? Ls : Lu; }
	Mode anyIntMode() { u64 d = draw(12); static const Mode w[] = { Is, Is, Is, Iu, Bu, Bs, Hs, Hu, Ls, Lu, Ls, Iu }; Mode m = w[d]; if (!C.wide && m >= Ls) m = (Mode)(m - 2); return m; }
	Mode valMode() { if (C.floats && chance(1, 5)) return chance(1, 3) ? F32 : F64; return intMode(); }
	Mode memMode() { if (C.floats && chance(1, 5)) return chance(1, 3) ? F32 : F64; return anyIntMode(); }
	u64 constVal(Mode m)
	{
		if (mflt(m)) {
			static const double fv[] = { 0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 10.0, -0.0, 1e10, 0.1, 1e-3, 255.0, 65536.0, 1e300, 4294967296.0, -2147483648.0 };
			u64 k = draw(20); int mb = m == F32 ? 23 : 52, eb = m == F32 ? 8 : 11;
			if (k >= 16) { // any value: NaN, infinity, subnormals, the ends of the exponent range, few or many mantissa bits
				u64 e, top = (1ull << eb) - 1, f; switch (draw(5)) { case 0: e = 0; break; case 1: e = 1 + draw(2); break; case 2: e = top - draw(3); break; case 3: e = draw(top); break; default: e = top / 2 - 3 + draw(8); break; }
				switch (draw(4)) { case 0: f = draw(4); break; case 1: f = 1ull << draw(mb); break; case 2: f = (1ull << mb) - 1 - draw(2); break; default: f = drawSeed() & ((1ull << mb) - 1); break; }
				if (e == top) f = chance(1, 2) ? 0 : 1ull << (mb - 1); // infinity or a quiet NaN
				return draw(2) << (mb + eb) | e << mb | f;
			}
			double d = fv[k]; return m == F32 ? fromF((float)d) : fromD(d);
		}
		int b = mbits(m);
		switch (draw(8)) {
		case 0: return canon(m, draw(4));
		case 1: return canon(m, draw(20));
		case 2: return canon(m, ~draw(16));
		case 3: return canon(m, 1ull << draw(b));
		case 4: return canon(m, (1ull << draw(b)) - 1);
		case 5: { static const u64 w[] = { 10, 100, 1000, 7, 255, 127, 128, 256, 0x7fffffff, 0x80000000ull, 0xffff, 0x8000, 12345, 60, 24, 3600 }; return canon(m, w[draw(16)]); }
		case 6: return canon(m, ~(1ull << draw(b)));
		default: return canon(m, drawSeed() >> draw(60));
		}
	}
	int E_const(Mode m, u64 v) { Expr e; e.k = E_CONST; e.m = m; e.imm = mint(m) ? canon(m, v) : v; return newE(e); }
	int E_var(int v) { Expr e; e.k = E_VAR; e.m = f->vars[v].m; e.var = v; return newE(e); }
	int bin(OP o, Mode m, int a, int b) { Expr e; e.k = E_BIN; e.m = m; e.op = o; e.a = a; e.b = b; return newE(e); }
	int conv(Mode m, int a) { if (P.ex[a].m == m) return a; if (C.noLLF && ((mflt(m) && mbits(P.ex[a].m) == 64 && mint(P.ex[a].m)) || (mflt(P.ex[a].m) && mint(m) && mbits(m) == 64))) a = conv(Is, a); Expr e; e.k = E_CONV; e.m = m; e.a = a; return newE(e); }
	std::vector<int> varsOf(bool ptr) { std::vector<int> r; for (size_t i = 0; i < f->vars.size(); ++i) if ((f->vars[i].m == PTR) == ptr) r.push_back((int)i); return r; }
	int leaf(Mode m)
	{
		u64 d = draw(8);
		if (d >= 2 && !f->vars.empty()) {
			std::vector<int> v; for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m == m) v.push_back((int)i);
			if (v.size()) return E_var(v[draw(v.size())]);
			v.clear(); for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m != PTR) v.push_back((int)i);
			if (v.size() && d >= 4) { int e = E_var(v[draw(v.size())]); return conv(m, e); }
		}
		return E_const(m, constVal(m));
	}
	bool intsOnly(int ty) { const Type &y = P.types[ty]; if (y.k == Type::Scalar) return mint(y.m); if (y.k == Type::Array) return intsOnly(y.elem); for (int x : y.fields) if (!intsOnly(x)) return false; return true; }
	// an integer access of any size and alignment inside the aggregate, at or before the byte offset
	void rawAccess(LVal &l, int ty, int off)
	{
		int sz = (int)P.types[ty].size, nb = 1 << draw(C.wide ? 4 : 3); while (nb > sz) nb /= 2;
		off = std::max(0, std::min(off, sz - nb)); if (chance(1, 2)) off &= -nb;
		l.type = ty; l.sub = off; l.m = (Mode)((nb == 1 ? Bs : nb == 2 ? Hs : nb == 4 ? Is : Ls) + (int)draw(2));
	}
	// accesses of different sizes that touch each other inside one aggregate
	void cluster(std::vector<int> &out)
	{
		std::vector<std::pair<int, int>> c;
		for (size_t i = 0; i < P.gl.size(); ++i) if (!P.gl[i].isConst && P.types[P.gl[i].type].k != Type::Scalar) c.push_back({ 0, (int)i });
		for (size_t i = 0; i < f->mems.size(); ++i) if (P.types[f->mems[i].type].k != Type::Scalar) c.push_back({ 1, (int)i });
		for (int v : varsOf(true)) c.push_back({ 2, v });
		if (c.empty()) return;
		auto b = c[draw(c.size())]; LVal l; int ty;
		if (b.first == 0) { l.base = LVal::GLOBAL; ty = P.gl[b.second].type; } else if (b.first == 1) { l.base = LVal::LOCALMEM; ty = f->mems[b.second].type; } else { l.base = LVal::PTRVAR; ty = f->vars[b.second].elemType; l.path.push_back({ -1, indexExpr() }); }
		l.id = b.second;
		while (P.types[ty].k != Type::Scalar && !chance(1, 2)) {
			const Type &y = P.types[ty]; int nt = y.k == Type::Array ? y.elem : -1, fld = -1;
			if (nt < 0) { fld = (int)draw(y.fields.size()); nt = y.fields[fld]; }
			if (P.types[nt].k == Type::Scalar && mbytes(P.types[nt].m) == 1) break;
			l.path.push_back({ fld, fld < 0 ? indexExpr() : -1 }); ty = nt;
		}
		if (!intsOnly(ty)) return;
		int at = (int)draw(P.types[ty].size), n = 3 + (int)draw(4); Mode vm = C.wide && chance(1, 2) ? Lu : Iu; int var = newVar(vm); std::vector<int> got;
		for (int i = 0; i < n; ++i) {
			LVal a = l; rawAccess(a, ty, at + (int)draw(7) - 3);
			if (P.types[ty].k == Type::Union && chance(1, 3)) { const Type &y = P.types[ty]; int fl = (int)draw(y.fields.size()); if (P.types[y.fields[fl]].k == Type::Scalar) { a = l; a.path.push_back({ fl, -1 }); a.type = y.fields[fl]; a.m = P.types[a.type].m; } }
			if (i < 1 || (i + 1 < n && chance(3, 5))) { Stmt s; s.k = S_STORE; Mode m = a.m < Is ? Is : a.m; s.a = conv(a.m, chance(1, 2) ? leaf(m) : E_const(m, drawSeed())); s.lv = newL(a); out.push_back(newS(s)); }
			else { Expr e; e.k = E_LOAD; e.m = a.m; e.lv = newL(a); int v = conv(vm, newE(e)); if (got.size()) v = bin(O_EOR, vm, bin(O_MUL, vm, E_var(var), E_const(vm, 31)), v); assignTo(out, var, v); got.push_back(var); }
		}
		if (got.empty()) return;
		int v = pickAssignable(M_VOID); if (v >= 0 && v != var && chance(1, 2)) assignTo(out, v, conv(f->vars[v].m, E_var(var))); else out.push_back(traceStmt(E_var(var)));
	}
	// an lvalue reaching a scalar of any mode
	bool lval(LVal &l, bool store)
	{
		int ty = -1; bool ok = false;
		for (int tries = 0; tries < 4 && !ok; ++tries) {
			u64 d = draw(10);
			if (d < 4 && !P.gl.empty()) { l.base = LVal::GLOBAL; l.id = (int)draw(P.gl.size()); if (store && P.gl[l.id].isConst) continue; ty = P.gl[l.id].type; ok = true; }
			else if (d < 7 && !f->mems.empty()) { l.base = LVal::LOCALMEM; l.id = (int)draw(f->mems.size()); ty = f->mems[l.id].type; ok = true; }
			else { auto v = varsOf(true); if (v.empty()) continue; l.base = LVal::PTRVAR; l.id = v[draw(v.size())]; int el = f->vars[l.id].elemType; l.path.push_back({ -1, indexExpr() }); ty = el; ok = true; }
		}
		if (!ok) return false;
		while (P.types[ty].k != Type::Scalar) {
			if (sw(11) && intsOnly(ty) && chance(1, 10)) { rawAccess(l, ty, (int)draw(P.types[ty].size)); if (C.volat && chance(1, 25)) l.volat = true; return true; }
			if (P.types[ty].k == Type::Array) { l.path.push_back({ -1, indexExpr() }); ty = P.types[ty].elem; }
			else { int fi = (int)draw(P.types[ty].fields.size()); l.path.push_back({ fi, -1 }); ty = P.types[ty].fields[fi]; }
		}
		l.type = ty; l.m = P.types[ty].m;
		if (sw(0) && mint(l.m) && mbytes(l.m) > 1 && chance(1, 12)) { // partial access
			int nb = 1 << draw(mbytes(l.m) == 8 ? 3 : mbytes(l.m) == 4 ? 2 : 1); int off = (int)draw(mbytes(l.m) / nb) * nb;
			l.sub = off; l.m = nb == 1 ? (chance(1, 2) ? Bs : Bu) : nb == 2 ? (chance(1, 2) ? Hs : Hu) : chance(1, 2) ? Is : Iu;
		}
		if (C.volat && chance(1, 25)) l.volat = true;
		return true;
	}
	int depthNow = 0;
	int indexExpr()
	{
		u64 d = draw(6);
		if (d < 2) return E_const(Is, draw(4));
		if (d < 5) { std::vector<int> v; for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m == Is || f->vars[i].m == Iu) v.push_back((int)i); if (v.size()) { int e = E_var(v[draw(v.size())]); if (chance(1, 3)) e = bin(O_ADD, P.ex[e].m, e, E_const(P.ex[e].m, draw(3))); return e; } return E_const(Is, draw(4)); }
		if (depthNow > 2) return E_const(Is, draw(4));
		return expr(chance(1, 4) ? Iu : Is, 1);
	}
	int ptrExpr(int elemType) // expression yielding a pointer to >= 4 elements
	{
		std::vector<std::pair<int, int>> cand; // kind,id
		for (size_t i = 0; i < P.gl.size(); ++i) if (!P.gl[i].isConst && P.types[P.gl[i].type].k == Type::Array && P.types[P.gl[i].type].elem == elemType) cand.push_back({ 0, (int)i });
		for (size_t i = 0; i < f->mems.size(); ++i) if (P.types[f->mems[i].type].k == Type::Array && P.types[f->mems[i].type].elem == elemType) cand.push_back({ 1, (int)i });
		for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m == PTR && f->vars[i].elemType == elemType) { cand.push_back({ 2, (int)i }); cand.push_back({ 2, (int)i }); }
		if (cand.empty()) return -1;
		auto c = cand[draw(cand.size())];
		if (c.first == 2) return E_var(c.second);
		LVal l; l.base = c.first ? LVal::LOCALMEM : LVal::GLOBAL; l.id = c.second; int at = c.first ? f->mems[c.second].type : P.gl[c.second].type;
		l.path.push_back({ -1, E_const(Is, chance(1, 3) ? draw(P.types[at].n - 3) : 0) });
		l.type = elemType; l.m = PTR;
		if (c.first) f->mems[c.second].escaped = true;
		Expr e; e.k = E_ADDR; e.m = PTR; e.lv = newL(l); return newE(e);
	}
	int callExpr(int depth, bool wantInt)
	{
		std::vector<int> c; for (int i = 0; i < fi; ++i) if (P.fn[i].ret != M_VOID || !wantInt) c.push_back(i);
		if (c.empty()) return -1;
		int g = c[draw(c.size())]; return callTo(g, depth);
	}
	int addrOf(LVal &l) { l.m = PTR; Expr e; e.k = E_ADDR; e.m = PTR; e.lv = newL(l); return newE(e); }
	int retStmt(int e) { Stmt s; s.k = S_RET; s.a = e; if (f->retType >= 0) { s.a = -1; LVal l; if (!lvalStruct(l, f->retType, false)) { l = LVal(); l.base = LVal::LOCALMEM; l.id = f->retMem; l.type = f->retType; } s.lv = newL(l); } return newS(s); }
	int callTo(int g, int depth)
	{
		Expr e; e.k = E_CALL; e.fn = g; e.m = P.fn[g].ret;
		std::vector<int> ar;
		for (size_t k = 0; k < P.fn[g].params.size(); ++k) {
			int pk = P.fn[g].params[k], a;
			if (pk < 0) { LVal l; if (!lvalStruct(l, P.fn[g].mems[-1 - pk].type, false)) return -1; ar.push_back(addrOf(l)); continue; }
			const Var pv = P.fn[g].vars[pk];
			if (pv.m == PTR) { a = ptrExpr(pv.elemType); if (a < 0) return -1; }
			else if (P.fn[g].rec && P.fn[g].depthVar == P.fn[g].params[k]) a = E_const(pv.m, draw(6));
			else a = expr(pv.m, depth > 0 ? depth - 1 : 0);
			ar.push_back(a);
		}
		e.args = ar; e.sub = chance(1, 10); // through a function pointer
		return newE(e);
	}
	int expr(Mode m, int depth)
	{
		struct D { int &d; D(int &x) : d(x) { ++d; } ~D() { --d; } } dd(depthNow);
		if (depth <= 0 || ++exprs > 400) return leaf(m);
		u64 d = draw(40);
		if (mflt(m)) {
			if (d < 8) return leaf(m);
			if (d < 14 && C.mem) { LVal l; if (lval(l, false)) { Expr e; e.k = E_LOAD; e.m = l.m; e.lv = newL(l); return conv(m, newE(e)); } return leaf(m); }
			if (d < 18) return conv(m, expr(chance(1, 2) ? intMode() : m == F32 ? F64 : F32, depth - 1));
			if (d < 22 && sw(9)) { Expr e; e.k = E_BITCAST; e.m = m; e.a = expr(m == F32 ? (chance(1, 2) ? Is : Iu) : (C.wide ? (chance(1, 2) ? Ls : Lu) : Iu), depth - 1); if (mbits(P.ex[e.a].m) == mbits(m)) return newE(e); return conv(m, e.a); }
			if (d < 26 && sw(8)) { Dense dn; dn.m = m; int x = leaf(m), y = leaf(m); int r[3]; for (int &z : r) { u64 q = draw(5); z = q < 2 ? x : q < 3 ? y : E_const(m, constVal(m)); if (q == 4) { Expr e; e.k = E_UN; e.op = O_MINUS; e.m = m; e.a = x; z = newE(e); } } static const OP fo[] = { O_ADD, O_SUB, O_MUL, O_DIV }; OP o1 = fo[draw(4)], o2 = fo[draw(4)]; int z = bin(o1, m, r[0], r[1]); return chance(1, 2) ? z : bin(o2, m, z, r[2]); }
			if (d < 28) { Expr e; e.k = E_UN; e.op = O_MINUS; e.m = m; e.a = expr(m, depth - 1); return newE(e); }
			static const OP o[] = { O_ADD, O_SUB, O_MUL, O_DIV, O_ADD, O_MUL };
			int a = expr(m, depth - 1); OP op = o[draw(6)]; int b = expr(m, depth - 1); return bin(op, m, a, b);
		}
		if (d < 5) return leaf(m);
		if (d < 10 && C.mem) { LVal l; if (lval(l, false)) { Expr e; e.k = E_LOAD; e.m = l.m; e.lv = newL(l); return conv(m, newE(e)); } return leaf(m); }
		if (d < 13) { Mode s = C.floats && chance(1, 5) ? F64 : anyIntMode(); return conv(m, s >= Is ? expr(s, depth - 1) : conv(s, expr(intMode(), depth - 1))); }
		if (d < 15) { Expr e; e.k = E_UN; e.op = chance(1, 2) ? O_NOT : O_MINUS; e.m = m; e.a = expr(m, depth - 1); return newE(e); }
		if (d < 17 && sw(1)) { Expr e; e.k = E_MUX; e.m = m; e.c = cond(depth - 1, true); e.a = expr(m, depth - 1); e.b = expr(m, depth - 1); return newE(e); }
		if (d < 19) { Expr e; e.k = E_B2I; e.m = m; e.c = cond(depth - 1, true); return newE(e); }
		if (d < 20 && C.builtins) { Mode bm = chance(1, 3) && C.wide ? Lu : Iu; Expr e; e.k = E_BUILTIN; e.sub = (u8)draw(6); e.a = expr(bm, depth - 1); e.m = e.sub == BI_BSWAP ? bm : Is; return conv(m, newE(e)); }
		if (d < 22 && C.calls) { int c = callExpr(depth - 1, true); if (c >= 0) return conv(m, c); return leaf(m); }
		if (d < 24 && sw(2)) { Expr e; e.k = E_COND; e.m = m; e.c = cond(depth - 1, false); e.a = expr(m, depth - 1); e.b = expr(m, depth - 1); return newE(e); }
		if (d < 28 && sw(3)) return idiom(m, depth);
		if (d < 31 && sw(8)) { if (chance(1, 6)) { Mode nm = (Mode)draw(4); Dense dn = denseOf(nm); return conv(m, dense(dn, 2)); } Dense dn = denseOf(m); return dense(dn, 1 + (int)draw(3)); }
		if (d < 32 && C.floats && sw(9) && mbits(m) >= 32) return bitsOf(m);
		OP op = (OP)draw(O_SHRS + 1);
		if (mbits(m) == 64 && !C.longdiv && (op == O_DIV || op == O_MOD)) op = O_ADD;
		int a = expr(m, depth - 1);
		if (op >= O_SHL) { int b = chance(2, 3) ? E_const(Iu, draw(mbits(m))) : expr(Iu, depth - 1); return bin(op, m, a, b); }
		int b = chance(1, 3) ? E_const(m, constVal(m)) : expr(m, depth - 1);
		return bin(op, m, a, b);
	}
	// dense algebra: small trees over very few operands, so that operands and constants coincide
	struct Dense { Mode m; std::vector<int> var; std::vector<u64> con; std::vector<int> sh; };
	Dense denseOf(Mode m)
	{
		Dense d; d.m = m; int n = 1 + (int)draw(3);
		for (int i = 0; i < n; ++i) { int l = leaf(m); if (chance(1, 6)) l = bin(O_AND, m, l, E_const(m, chance(1, 2) ? 1 : (1ull << draw(mbits(m))) - 1)); d.var.push_back(l); }
		n = 1 + (int)draw(3); for (int i = 0; i < n; ++i) { u64 c = constVal(m); d.con.push_back(c); if (chance(1, 3)) d.con.push_back(canon(m, chance(1, 2) ? ~c : 0 - c)); }
		n = 1 + (int)draw(2); for (int i = 0; i < n; ++i) d.sh.push_back(chance(1, 4) ? mbits(m) - 1 : (int)draw(mbits(m)));
		return d;
	}
	int denseVar(Dense &d) { const Expr e = P.ex[d.var[draw(d.var.size())]]; return newE(e); } // same value again
	int dense(Dense &d, int depth)
	{
		Mode m = d.m; u64 k = draw(24);
		if (depth <= 0 || k < 3) return denseVar(d);
		if (k == 3) return E_const(m, d.con[draw(d.con.size())]);
		if (k < 6) { Expr e; e.k = E_UN; e.op = k == 4 ? O_NOT : O_MINUS; e.m = m; e.a = dense(d, depth - 1); return newE(e); }
		if (k < 10) { OP op = (OP)(O_SHL + draw(3)); if (op == O_SHRS && m < Is && !msigned(m)) op = O_SHR; int a = dense(d, depth - 1); if (chance(1, 8) && m == Iu) return bin(op, m, a, denseVar(d)); return bin(op, m, a, E_const(Iu, d.sh[draw(d.sh.size())])); }
		if (k == 10) { Expr e; e.k = E_MUX; e.m = m; e.c = denseCond(d, depth - 1); e.a = dense(d, depth - 1); e.b = chance(1, 2) ? E_const(m, chance(1, 2) ? draw(2) : d.con[0]) : dense(d, depth - 1); return newE(e); }
		if (k == 11) { Expr e; e.k = E_B2I; e.m = m; e.c = denseCond(d, depth - 1); return newE(e); }
		static const OP o[] = { O_ADD, O_ADD, O_SUB, O_SUB, O_AND, O_AND, O_AND, O_OR, O_OR, O_EOR, O_EOR, O_MUL };
		OP op = o[draw(12)]; int a = dense(d, depth - 1); int b = chance(1, 3) ? E_const(m, d.con[draw(d.con.size())]) : dense(d, depth - 1);
		return bin(op, m, a, b);
	}
	int denseCond(Dense &d, int depth)
	{
		Cond c; u64 k = draw(10);
		if (depth > 0 && k < 4) { c.k = k == 0 ? C_NOT : k < 3 ? C_AND : C_OR; c.a = denseCond(d, depth - 1); if (c.k != C_NOT) c.b = denseCond(d, depth - 1); return newC(c); }
		c.k = C_CMP; c.a = dense(d, chance(1, 2) ? 0 : depth); c.b = chance(1, 2) ? E_const(d.m, chance(1, 2) ? 0 : d.con[draw(d.con.size())]) : dense(d, chance(1, 2) ? 0 : depth); c.rel = 1 + (u8)draw(6); return newC(c);
	}
	// bit patterns of floating point values; NaNs have no defined pattern
	int bitsOf(Mode m)
	{
		Mode fm = mbits(m) == 32 ? F32 : F64; int x = leaf(fm); if (P.ex[x].k != E_VAR) return E_const(m, constVal(m));
		Cond c; c.k = C_CMP; c.a = x; c.b = E_var(P.ex[x].var); c.rel = R_EQ; Expr b; b.k = E_BITCAST; b.m = m; b.a = E_var(P.ex[x].var); int be = newE(b);
		Expr e; e.k = E_COND; e.m = m; e.c = newC(c); e.a = be; e.b = E_const(m, 1); return newE(e);
	}
	// shapes that optimisations look for
	int idiom(Mode m, int depth)
	{
		Mode um = munsigned(m); int bits = mbits(m);
		int x = leaf(m);
		switch (draw(15)) {
		case 0: { u64 k = 1 + draw(bits - 1); int ux = conv(um, x); return conv(m, bin(O_OR, um, bin(O_SHL, um, ux, E_const(Iu, k)), bin(O_SHR, um, ux, E_const(Iu, bits - k)))); }
		case 1: { Expr e; e.k = E_UN; e.op = O_MINUS; e.m = m; e.a = x; return bin(O_AND, m, x, newE(e)); }
		case 2: return bin(chance(1, 2) ? O_DIV : O_MOD, m, x, E_const(m, 1 + draw(64)));
		case 3: return bin(chance(1, 2) ? O_DIV : O_MOD, m, x, E_const(m, 1ull << draw(bits - 2)));
		case 4: return bin(O_MUL, m, bin(O_AND, m, x, E_const(m, 0xfff)), E_const(m, draw(200)));
		case 5: { int s = bin(O_SHRS, m, x, E_const(Iu, bits - 1)); return bin(O_SUB, m, bin(O_EOR, m, x, s), s); }
		case 6: { Cond c; c.rel = chance(1, 2) ? R_LT : R_GT; int y = leaf(m); c.a = x; c.b = y; Expr e; e.k = E_MUX; e.m = m; e.c = newC(c); e.a = x; e.b = y; return newE(e); }
		case 7: { int sh = (int)draw(bits); return bin(O_AND, m, bin(chance(1, 2) ? O_SHR : O_SHRS, m, x, E_const(Iu, sh)), E_const(m, (1ull << draw(bits)) - 1)); }
		case 8: { u64 c1 = constVal(m), c2 = constVal(m); return bin(O_OR, m, bin(O_AND, m, x, E_const(m, c1)), E_const(m, c2)); }
		case 9: { int k1 = (int)draw(bits), k2 = (int)draw(bits); return bin(chance(1, 2) ? O_SHR : O_SHRS, um, bin(O_SHL, um, conv(um, x), E_const(Iu, k1)), E_const(Iu, k2)) , conv(m, (int)P.ex.size() - 1); }
		case 10: { int y = leaf(m); return bin(O_ADD, m, bin(O_MUL, m, bin(O_AND, m, x, E_const(m, 63)), bin(O_AND, m, y, E_const(m, 31))), bin(O_MUL, m, bin(O_AND, m, x, E_const(m, 63)), E_const(m, draw(9)))); }
		case 11: { u64 c = constVal(m); return bin(O_EOR, m, bin(O_EOR, m, x, E_const(m, c)), E_const(m, chance(1, 2) ? c : constVal(m))); }
		case 12: { Mode s = (Mode)(draw(4)); return conv(m, conv(s, x)); }
		case 13: { Mode ow = bits == 32 ? (C.wide ? Ls : Iu) : Is; return conv(m, bin(O_ADD, ow, conv(ow, x), E_const(ow, draw(9)))); }
		default: { int a = leaf(m), b = leaf(m), c = leaf(m); return bin(O_SUB, um, bin(O_ADD, um, conv(um, a), conv(um, b)), bin(O_ADD, um, conv(um, b), conv(um, c))), conv(m, (int)P.ex.size() - 1); }
		}
	}
	int cond(int depth, bool strict)
	{
		u64 d = draw(12); Cond c;
		if (d < 8 || depth <= 0) {
			c.k = C_CMP;
			if (!strict && chance(1, 16)) { auto v = varsOf(true); if (v.size() > 1) { int a = v[draw(v.size())], b = v[draw(v.size())]; if (f->vars[a].elemType == f->vars[b].elemType) { c.a = E_var(a); c.b = E_var(b); c.rel = chance(1, 2) ? R_EQ : R_NE; return newC(c); } } }
			Mode m = C.floats && chance(1, 6) ? F64 : intMode();
			if (chance(1, 5) && mint(m)) { // masked / ranged tests
				int x = leaf(m); if (chance(1, 2)) { x = bin(O_AND, m, x, E_const(m, chance(1, 2) ? 1ull << draw(mbits(m)) : constVal(m))); c.a = x; c.b = E_const(m, chance(2, 3) ? 0 : constVal(m)); c.rel = chance(1, 2) ? R_EQ : R_NE; }
				else { c.a = bin(O_SUB, munsigned(m), conv(munsigned(m), x), E_const(munsigned(m), draw(10))); c.b = E_const(munsigned(m), draw(20)); c.rel = 1 + (u8)draw(6); }
				return newC(c);
			}
			if (mint(m) && sw(8) && chance(1, 5)) { Dense dn = denseOf(m); return denseCond(dn, 1 + (int)draw(2)); }
			c.a = expr(m, depth); c.b = chance(1, 2) ? E_const(m, constVal(m)) : expr(m, depth - 1);
			c.rel = 1 + (u8)draw(6); return newC(c);
		}
		if (d < 9) { c.k = C_NOT; c.a = cond(depth - 1, strict); return newC(c); }
		c.k = d < 11 ? C_AND : C_OR;
		if (sw(4) && chance(1, 3)) { // range test on one variable
			Mode m = intMode(); int x = leaf(m); Cond p, q; p.a = x; p.b = E_const(m, constVal(m)); p.rel = 1 + (u8)draw(6); q.a = x; q.b = E_const(m, constVal(m)); q.rel = 1 + (u8)draw(6);
			c.a = newC(p); c.b = newC(q); return newC(c);
		}
		c.a = cond(depth - 1, strict); c.b = cond(depth - 1, strict); return newC(c);
	}
	bool assignable(int v) { return std::find(locked.begin(), locked.end(), v) == locked.end(); }
	int pickAssignable(Mode want)
	{
		std::vector<int> v; for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m != PTR && assignable((int)i) && (want == M_VOID || f->vars[i].m == want)) v.push_back((int)i);
		return v.empty() ? -1 : v[draw(v.size())];
	}
	int newVar(Mode m) { Var v; v.m = m; f->vars.push_back(v); return (int)f->vars.size() - 1; }
	int traceStmt(int e) { Stmt s; s.k = S_TRACE; s.a = e; s.step = draw(100); return newS(s); }
	std::vector<int> block(int n) { std::vector<int> r; for (int i = 0; i < n && budget > 0; ++i) stmt(r); return r; }
	void assignTo(std::vector<int> &out, int v, int e) { Stmt s; s.k = S_ASSIGN; s.var = v; s.a = e; out.push_back(newS(s)); }
	void stmt(std::vector<int> &out)
	{
		--budget; exprs = 0; u64 d = draw(40); Stmt s; int depth = 1 + (int)draw(C.exprDepth);
		if (d < 10) { int v = pickAssignable(M_VOID); if (v < 0) return; assignTo(out, v, chance(1, 6) && sw(5) && mint(f->vars[v].m) ? bin(O_ADD, f->vars[v].m, E_var(v), expr(f->vars[v].m, depth - 1)) : expr(f->vars[v].m, depth)); return; }
		if (d < 16 && C.mem) { LVal l; if (!lval(l, true)) return; s.k = S_STORE; s.a = expr(l.m < Is ? Is : l.m, depth); s.a = conv(l.m, s.a); s.lv = newL(l); out.push_back(newS(s)); return; }
		if (d < 19) { s.k = S_TRACE; Mode m = valMode(); s.a = expr(m, depth); s.step = draw(100); out.push_back(newS(s)); return; }
		if (d < 25 && nest < 5) { s.k = S_IF; s.c = cond(2, false); ++nest; s.body = block(1 + (int)draw(3)); if (chance(1, 2)) s.els = block(1 + (int)draw(3)); --nest; out.push_back(newS(s)); return; }
		if (d < 31 && C.loops && loopDepth < 3 && nest < 5) { loop(out); return; }
		if (d < 33 && nest < 5 && sw(6)) { swtch(out); return; }
		if (d < 34) { if (loopDepth) { s.k = S_IF; s.c = cond(1, false); Stmt b; b.k = chance(1, 2) ? S_BREAK : S_CONT; s.body = { newS(b) }; out.push_back(newS(s)); } return; }
		if (d < 35) { s.k = S_IF; s.c = cond(2, false); s.body = { retStmt(f->ret == M_VOID ? -1 : expr(f->ret, depth)) }; out.push_back(newS(s)); return; }
		if (d < 37 && C.calls) { s.k = S_CALL; s.a = callExpr(depth, false); if (s.a >= 0) { int rt = P.fn[P.ex[s.a].fn].retType; LVal l; if (rt >= 0 && chance(4, 5) && lvalStruct(l, rt, true)) s.lv = newL(l); out.push_back(newS(s)); } return; }
		if (d < 38 && C.mem) { copy(out); return; }
		if (d < 39 && C.mem) { auto v = varsOf(true); std::vector<int> w; for (int x : v) if (assignable(x)) w.push_back(x); if (w.empty()) return; int x = w[draw(w.size())]; int e = ptrExpr(f->vars[x].elemType); if (e < 0) return; assignTo(out, x, e); return; }
		pattern(out);
	}
	bool lvalStruct(LVal &l, int ty, bool store)
	{
		std::vector<LVal> c;
		auto consider = [&](LVal::B b, int id, int t0) {
			if (t0 == ty) { LVal x; x.base = b; x.id = id; c.push_back(x); }
			if (P.types[t0].k == Type::Array && P.types[t0].elem == ty) { LVal x; x.base = b; x.id = id; x.path.push_back({ -1, -2 }); c.push_back(x); }
		};
		for (size_t i = 0; i < P.gl.size(); ++i) if (!store || !P.gl[i].isConst) consider(LVal::GLOBAL, (int)i, P.gl[i].type);
		for (size_t i = 0; i < f->mems.size(); ++i) consider(LVal::LOCALMEM, (int)i, f->mems[i].type);
		if (c.empty()) return false;
		l = c[draw(c.size())]; for (auto &s : l.path) if (s.idx == -2) s.idx = indexExpr(); l.type = ty; return true;
	}
	void copy(std::vector<int> &out)
	{
		if (tStruct.empty()) return;
		int ty = tStruct[draw(tStruct.size())]; LVal a, b; if (!lvalStruct(a, ty, true) || !lvalStruct(b, ty, false)) return;
		Stmt s; s.k = S_COPY; s.lv = newL(a); s.lv2 = newL(b); s.var = ty; out.push_back(newS(s));
	}
	void loop(std::vector<int> &out)
	{
		Stmt s; u64 kind = draw(6);
		if (kind < 3) { // counted
			Mode m = C.wide && chance(1, 5) ? Ls : chance(1, 4) ? Iu : Is; int v = newVar(m);
			s.k = S_FOR; s.var = v; i64 lo = (i64)draw(4), n = (i64)draw(chance(1, 5) ? 24 : 9); i64 step = 1 + (i64)draw(chance(1, 3) ? 4 : 1); bool down = chance(1, 4);
			s.rel = down ? (chance(1, 2) ? R_GT : R_GE) : (chance(1, 2) ? R_LT : R_LE); if (step == 1 && chance(1, 4)) s.rel = R_NE;
			if (down && !msigned(m) && s.rel == R_GE) s.rel = R_GT;
			if (down && step > 1 && !msigned(m)) step = 1;
			s.step = down ? -step : step; i64 a = down ? lo + n : lo, b = down ? lo : lo + n; 
			s.a = E_const(m, (u64)a); s.b = E_const(m, (u64)b);
			if (chance(1, 4)) { s.b = bin(O_AND, m, leaf(m), E_const(m, 7)); if (s.rel == R_NE) s.rel = down ? R_GT : R_LT; if (down && !msigned(m)) s.rel = R_GT; if (down) s.a = E_const(m, 9); else s.a = E_const(m, draw(3)); if (down && !msigned(m)) s.step = -1; }
			s.flag = chance(1, 4); // bottom-tested (do-while shape guarded by an if)
			locked.push_back(v); ++loopDepth; ++nest;
			s.body = block(1 + (int)draw(3));
			if (chance(1, 3) && C.mem) arrayOp(s.body, v);
			--nest; --loopDepth; locked.pop_back(); out.push_back(newS(s)); return;
		}
		s.k = kind == 3 ? S_WHILE : kind == 4 ? S_DO : (C.goto_ && sw(7) ? S_GOTOIN : S_WHILE);
		s.c = cond(2, false); s.step = 1 + (i64)draw(10); s.var = newVar(Is); locked.push_back(s.var); ++loopDepth; ++nest;
		s.body = block(1 + (int)draw(3)); if (s.k == S_GOTOIN) { s.els = block(1 + (int)draw(2)); s.a = cond(1, false); }
		--nest; --loopDepth; locked.pop_back(); out.push_back(newS(s));
	}
	// a[i] = f(a[i], b[i]) or sum += a[i]
	void arrayOp(std::vector<int> &body, int v)
	{
		std::vector<LVal> c;
		for (size_t i = 0; i < P.gl.size(); ++i) if (P.types[P.gl[i].type].k == Type::Array && P.types[P.types[P.gl[i].type].elem].k == Type::Scalar) { LVal l; l.base = LVal::GLOBAL; l.id = (int)i; c.push_back(l); }
		for (size_t i = 0; i < f->mems.size(); ++i) if (P.types[f->mems[i].type].k == Type::Array && P.types[P.types[f->mems[i].type].elem].k == Type::Scalar) { LVal l; l.base = LVal::LOCALMEM; l.id = (int)i; c.push_back(l); }
		for (int x : varsOf(true)) { LVal l; l.base = LVal::PTRVAR; l.id = x; c.push_back(l); }
		if (c.empty()) return;
		auto mk = [&](LVal l, bool) { int et = l.base == LVal::GLOBAL ? P.types[P.gl[l.id].type].elem : l.base == LVal::LOCALMEM ? P.types[f->mems[l.id].type].elem : f->vars[l.id].elemType; int ix = E_var(v); if (chance(1, 4)) ix = bin(O_ADD, f->vars[v].m, ix, E_const(f->vars[v].m, 1)); l.path = { { -1, ix } }; l.type = et; l.m = P.types[et].m; return l; };
		LVal src = mk(c[draw(c.size())], false); if (src.m == PTR) return; Expr e; e.k = E_LOAD; e.m = src.m; e.lv = newL(src); int ld = newE(e);
		if (chance(1, 2)) { int acc = pickAssignable(M_VOID); if (acc < 0) return; Mode m = f->vars[acc].m; OP o = mflt(m) ? O_ADD : (OP[]){ O_ADD, O_EOR, O_SUB, O_OR }[draw(4)]; int va = E_var(acc); assignTo(body, acc, bin(o, m, va, conv(m, ld))); return; }
		LVal dst = c[draw(c.size())]; if (dst.base == LVal::GLOBAL && P.gl[dst.id].isConst) return; dst = mk(dst, true); if (dst.m == PTR) return;
		Mode m = mflt(dst.m) ? dst.m : dst.m < Is ? Is : dst.m; int val = bin(O_ADD, m, conv(m, ld), chance(1, 2) ? E_const(m, 1 + draw(5)) : leaf(m));
		Stmt s; s.k = S_STORE; s.a = conv(dst.m, val); s.lv = newL(dst); body.push_back(newS(s));
	}
	void swtch(std::vector<int> &out)
	{
		Stmt s; s.k = S_SWITCH; Mode m = chance(1, 4) ? Iu : Is; int n = 1 + (int)draw(chance(1, 3) ? 9 : 5); i64 base = chance(1, 3) ? (i64)(int)constVal(Is) : (i64)draw(5); if (m == Iu) base &= 0x7fffffff; bool sparse = chance(1, 3);
		int sel = expr(m, 2); if (chance(2, 3)) { sel = bin(O_AND, m, sel, E_const(m, sparse ? 0x3f : 15)); if (base) sel = bin(O_ADD, munsigned(m), conv(munsigned(m), sel), E_const(munsigned(m), (u64)base)), sel = conv(m, sel); }
		s.a = sel; i64 v = base; ++nest; bool old = inSwitch; inSwitch = true; 
		i64 lim = m == Is ? 0x7fffffffll : 0xffffffffll;
		for (int i = 0; i < n; ++i) {
			i64 w = v + (chance(1, 6) ? (i64)draw(4) : 0); if (w > lim) break; s.cases.push_back({ v, w }); v = w + 1 + (sparse ? (i64)draw(30) : (chance(1, 5) ? (i64)draw(3) : 0)); if (v > lim) { }
			Stmt b; b.k = S_BLOCK; b.body = block(1 + (int)draw(2)); s.caseBody.push_back(newS(b)); s.fall.push_back(chance(1, 5));
			if (v > lim) break;
		}
		if (s.cases.empty()) { --nest; inSwitch = old; return; }
		s.hasDef = chance(3, 4); if (s.hasDef) { Stmt b; b.k = S_BLOCK; b.body = block(1); s.b = newS(b); }
		--nest; inSwitch = old; out.push_back(newS(s));
	}
	// multi statement shapes
	void pattern(std::vector<int> &out)
	{
		if (sw(11) && chance(1, 4)) return cluster(out);
		switch (draw(4)) {
		case 0: { // correlated branches (jump threading)
			int v = pickAssignable(Is); if (v < 0) return; Stmt s; s.k = S_IF; s.c = cond(1, false); ++nest; s.body = block(1); s.els = block(1); --nest; assignTo(s.body, v, E_const(Is, draw(3))); assignTo(s.els, v, E_const(Is, draw(3))); out.push_back(newS(s));
			Stmt q; q.k = S_IF; Cond c; c.a = E_var(v); c.b = E_const(Is, draw(3)); c.rel = 1 + (u8)draw(6); q.c = newC(c); ++nest; q.body = block(1); q.els = block(1); --nest; out.push_back(newS(q)); return; }
		case 1: { // store, maybe-aliasing store, load
			LVal a, b; if (!C.mem || !lval(a, true)) return; if (!lval(b, true)) return; a.volat = b.volat = false; Stmt s; s.k = S_STORE; Mode m = a.m < Is ? Is : a.m; s.a = conv(a.m, expr(m, 1)); s.lv = newL(a); out.push_back(newS(s));
			Stmt s2; s2.k = S_STORE; Mode m2 = b.m < Is ? Is : b.m; s2.a = conv(b.m, expr(m2, 1)); s2.lv = newL(b); out.push_back(newS(s2));
			Expr e; e.k = E_LOAD; e.m = a.m; e.lv = s.lv; int v = pickAssignable(M_VOID); if (v < 0) return; assignTo(out, v, conv(f->vars[v].m, newE(e))); return; }
		case 2: { // nested ifs on the same variable
			int v = pickAssignable(M_VOID); if (v < 0 || !mint(f->vars[v].m)) return; Mode m = f->vars[v].m; Stmt s, q; Cond c1, c2; c1.a = E_var(v); c1.b = E_const(m, constVal(m)); c1.rel = 1 + (u8)draw(6); c2.a = E_var(v); c2.b = E_const(m, chance(1, 2) ? P.ex[c1.b].imm + draw(3) - 1 : constVal(m)); c2.rel = 1 + (u8)draw(6);
			s.k = q.k = S_IF; s.c = newC(c1); q.c = newC(c2); ++nest; q.body = block(1); q.els = block(1); --nest; s.body = { newS(q) }; if (chance(1, 2)) { ++nest; s.els = block(1); --nest; } out.push_back(newS(s)); return; }
		default: { // swap / rotate values (phi permutations)
			std::vector<int> v; for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m == Is && assignable((int)i)) v.push_back((int)i); if (v.size() < 2) return;
			int a = v[draw(v.size())], b = v[draw(v.size())]; int tmp = newVar(Is); assignTo(out, tmp, E_var(a)); assignTo(out, a, E_var(b)); assignTo(out, b, E_var(tmp)); return; }
		}
	}
	void types()
	{
		for (int &x : t) x = -1;
		scalarT(Is);
		int n = 1 + (int)draw(3);
		for (int i = 0; i < n; ++i) { int e = scalarT(memMode()); tIntArr.push_back(arrayT(e, 4 << draw(3))); }
		int ns = (int)draw(3);
		for (int i = 0; i < ns; ++i) {
			Type y; y.k = Type::Struct; int nf = 1 + (int)draw(4); u32 off = 0, al = 1;
			for (int j = 0; j < nf; ++j) { int ft = chance(1, 4) ? arrayT(scalarT(memMode()), 4) : (i && chance(1, 5) ? tStruct[0] : scalarT(memMode())); u32 a = P.types[ft].align; off = (off + a - 1) / a * a; y.fields.push_back(ft); y.offs.push_back(off); off += P.types[ft].size; al = std::max(al, a); y.depth = std::max(y.depth, P.types[ft].depth + 1); }
			y.size = (off + al - 1) / al * al; y.align = al; P.types.push_back(y); tStruct.push_back((int)P.types.size() - 1);
		}
		if (sw(11) && chance(1, 3)) {
			Type y; y.k = Type::Union; int nf = 2 + (int)draw(3); u32 sz = 0, al = 1;
			for (int j = 0; j < nf; ++j) { int ft = chance(1, 4) ? arrayT(scalarT(anyIntMode()), 4) : scalarT(anyIntMode()); if (tStruct.size() && chance(1, 4) && intsOnly(tStruct[0])) ft = tStruct[0]; y.fields.push_back(ft); y.offs.push_back(0); sz = std::max(sz, P.types[ft].size); al = std::max(al, P.types[ft].align); y.depth = std::max(y.depth, P.types[ft].depth + 1); }
			y.size = (sz + al - 1) / al * al; y.align = al; P.types.push_back(y); tStruct.push_back((int)P.types.size() - 1);
		}
		for (int s : std::vector<int>(tStruct)) if (chance(1, 3) && P.types[s].depth < 4) { arrayT(s, 4); }
	}
	int memType() { u64 d = draw(4); if (d == 0) return scalarT(memMode()); if (d == 1 && tStruct.size()) { int s = tStruct[draw(tStruct.size())]; if (chance(1, 4)) return arrayT(s, 4); return s; } return tIntArr[draw(tIntArr.size())]; }
	void fillInit(Global &g, int ty, u32 off)
	{
		const Type y = P.types[ty];
		if (y.k == Type::Scalar) { u64 v = constVal(y.m == PTR ? Is : y.m); memcpy(&g.init[off], &v, mbytes(y.m)); }
		else if (y.k == Type::Array) for (int i = 0; i < y.n; ++i) fillInit(g, y.elem, off + i * P.types[y.elem].size);
		else for (size_t i = 0; i < (y.k == Type::Union ? 1 : y.fields.size()); ++i) fillInit(g, y.fields[i], off + y.offs[i]);
	}
	void run()
	{
		P.ptrBytes = C.ptr32 ? 4 : 8; P.floats = C.floats; P.exact = C.exact;
		types();
		int ng = C.mem ? 1 + (int)draw(4) : 0;
		for (int i = 0; i < ng; ++i) { Global g; g.type = memType(); g.init.assign(P.types[g.type].size, 0); g.isConst = chance(1, 5); g.zero = !g.isConst && chance(1, 3); if (!g.zero) fillInit(g, g.type, 0); g.external = !chance(1, 3); P.gl.push_back(g); }
		int nf = 1 + (int)draw(C.maxFuncs);
		P.fn.reserve(nf);
		for (fi = 0; fi < nf; ++fi) {
			P.fn.emplace_back(); f = &P.fn.back(); bool entry = fi == nf - 1; locked.clear(); loopDepth = nest = 0;
			f->ret = entry ? Ls : chance(1, 5) ? M_VOID : valMode();
			if (entry) for (Mode m : entry_modes) f->params.push_back(newVar(m));
			else { int np = (int)draw(chance(1, 6) ? 9 : 4); for (int i = 0; i < np; ++i) { if (C.mem && chance(1, 4) && tIntArr.size()) { int at = tIntArr[draw(tIntArr.size())]; int v = newVar(PTR); f->vars[v].elemType = P.types[at].elem; f->params.push_back(v); } else if (C.mem && sw(10) && tStruct.size() && chance(1, 4)) { MemVar mv; mv.type = tStruct[draw(tStruct.size())]; mv.param = i; f->mems.push_back(mv); f->params.push_back(-(int)f->mems.size()); } else { Mode m = chance(1, 5) ? memMode() : valMode(); f->params.push_back(newVar(m)); } } }
			f->priv = !entry && chance(2, 3);
			if (f->ret == M_VOID && C.mem && sw(10) && tStruct.size() && chance(2, 3)) { MemVar mv; mv.type = f->retType = tStruct[draw(tStruct.size())]; f->retMem = (int)f->mems.size(); f->mems.push_back(mv); }
			f->rec = !entry && chance(1, 5);
			if (f->rec) { f->depthVar = newVar(Is); f->params.push_back(f->depthVar); locked.push_back(f->depthVar); }
			int nv = 1 + (int)draw(4); for (int i = 0; i < nv; ++i) newVar(valMode());
			if (C.mem && chance(1, 2)) { int nm = 1 + (int)draw(2); for (int i = 0; i < nm; ++i) { MemVar mv; mv.type = memType(); f->mems.push_back(mv); } }
			if (C.mem && chance(1, 3) && tIntArr.size()) { int at = tIntArr[draw(tIntArr.size())]; int el = P.types[at].elem; int e = ptrExpr(el); if (e >= 0) { int v = newVar(PTR); f->vars[v].elemType = el; assignTo(f->body, v, e); } }
			budget = entry ? C.stmtBudget : std::max(3, C.stmtBudget / 3);
			int nb = 2 + (int)draw(entry ? 8 : 4);
			if (f->rec) { // base case first
				Stmt s; s.k = S_IF; Cond c; c.a = E_var(f->depthVar); c.b = E_const(Is, 0); c.rel = R_LE; s.c = newC(c); s.body = { retStmt(f->ret == M_VOID ? -1 : leaf(f->ret)) }; f->body.push_back(newS(s));
			}
			{ auto b = block(nb); f->body.insert(f->body.end(), b.begin(), b.end()); }
			if (f->rec) { // recursive call, often in tail position
				Expr e; e.k = E_CALL; e.fn = fi; e.m = f->ret; bool ok = true;
				for (int pv : f->params) { if (pv < 0) { LVal l; if (chance(1, 3) || !lvalStruct(l, f->mems[-1 - pv].type, false)) { l = LVal(); l.base = LVal::LOCALMEM; l.id = -1 - pv; l.type = f->mems[-1 - pv].type; } e.args.push_back(addrOf(l)); } else if (pv == f->depthVar) e.args.push_back(bin(O_SUB, Is, E_var(pv), E_const(Is, 1))); else if (f->vars[pv].m == PTR) e.args.push_back(E_var(pv)); else e.args.push_back(expr(f->vars[pv].m, 1)); }
				int ce = newE(e); if (ok) { if (f->ret == M_VOID) { Stmt s; s.k = S_CALL; s.a = ce; LVal l; if (f->retType >= 0 && lvalStruct(l, f->retType, true)) s.lv = newL(l); f->body.push_back(newS(s)); }
					else { Stmt s; s.k = S_RET; s.a = chance(1, 2) ? ce : bin(mflt(f->ret) ? O_ADD : (OP[]){ O_ADD, O_EOR, O_MUL }[draw(3)], f->ret, ce, leaf(f->ret)); f->body.push_back(newS(s)); } }
			}
			if (entry) { // make the state observable
				for (size_t i = 0; i < f->vars.size(); ++i) if (f->vars[i].m != PTR && chance(1, 2)) f->body.push_back(traceStmt(E_var((int)i)));
				for (size_t i = 0; i < P.gl.size() && C.mem; ++i) if (!P.gl[i].external || chance(1, 3)) { LVal l; l.base = LVal::GLOBAL; l.id = (int)i; int ty = P.gl[i].type; while (P.types[ty].k != Type::Scalar) { if (P.types[ty].k == Type::Array) { l.path.push_back({ -1, E_const(Is, draw(P.types[ty].n)) }); ty = P.types[ty].elem; } else { int q = (int)draw(P.types[ty].fields.size()); l.path.push_back({ q, -1 }); ty = P.types[ty].fields[q]; } } l.type = ty; l.m = P.types[ty].m; Expr e; e.k = E_LOAD; e.m = l.m; e.lv = newL(l); f->body.push_back(traceStmt(newE(e))); }
			}
			exprs = 0;
			f->body.push_back(retStmt(f->ret == M_VOID ? -1 : expr(f->ret, 2)));
		}
		for (int i = 0; i < C.nvecs; ++i) { std::vector<u64> v; for (Mode m : entry_modes) v.push_back(constVal(m)); P.vecs.push_back(v); }
	}
};
}
GenCfg draw_gencfg(bool ptr32, bool floats, int scale)
{
	GenCfg c; c.ptr32 = ptr32; c.floats = floats && chance(1, 3);
	c.maxFuncs = 1 + (int)draw(4); c.stmtBudget = 4 + (int)draw(scale); c.exprDepth = 1 + (int)draw(4); c.nvecs = 1 + (int)draw(5);
	u64 sw = draw(1 << 16);
	c.swarm = ~(u32)(sw >> 4); // 0 = everything enabled
	if (sw & 15) { c.wide = (sw & 15) != 1; c.mem = (sw & 15) != 2; c.loops = (sw & 15) != 3; c.calls = (sw & 15) != 4; }
	return c;
}
void gen_program(Prog &P, const GenCfg &c) { Gen g(P, c); g.run(); }

// =============================================================== evaluator
namespace {
struct Eval {
	Prog &P; Trace &T; bool repaired = false; u64 steps = 0, limit = 0; u64 ext = 0;
	struct Obj { std::vector<u8> b; std::vector<bool> init; bool local; };
	std::vector<Obj> objs; std::vector<int> gObj;
	struct Frame { Func *f; std::vector<u64> v; std::vector<bool> set; std::vector<int> mobj; };
	struct Limit {};
	enum Flow { NORMAL, BRK, CNT, RETURN };
	int depth = 0;
	Eval(Prog &p, Trace &t) : P(p), T(t) {}
	void tick() { if (++steps > limit) throw Limit(); }
	u64 mkptr(int o, u64 off) { return ((u64)(o + 1) << 32) | off; }
	void init_globals()
	{
		objs.clear(); gObj.clear();
		for (auto &g : P.gl) { gObj.push_back((int)objs.size()); Obj o; o.b = g.init; o.init.assign(g.init.size(), true); o.local = false; objs.push_back(o); }
	}
	// returns pointer to the lvalue; may repair indices
	u64 addr(Frame &F, int li)
	{
		LVal &l = P.lv[li]; u64 p; int ty; size_t s0 = 0;
		if (l.base == LVal::GLOBAL) { p = mkptr(gObj[l.id], 0); ty = P.gl[l.id].type; }
		else if (l.base == LVal::LOCALMEM) { p = mkptr(F.mobj[l.id], 0); ty = F.f->mems[l.id].type; }
		else {
			if (!F.set[l.id]) { F.f->vars[l.id].needInit = true; throw Limit(); }
			p = F.v[l.id]; ty = F.f->vars[l.id].elemType;
			u64 i = index(F, l.path[0].idx, 4); p += i * P.types[ty].size; s0 = 1;
		}
		for (size_t s = s0; s < l.path.size(); ++s) {
			const Type &y = P.types[ty];
			if (y.k == Type::Array) { u64 i = index(F, l.path[s].idx, y.n); p += i * P.types[y.elem].size; ty = y.elem; }
			else { p += y.offs[l.path[s].field]; ty = y.fields[l.path[s].field]; }
		}
		if (l.sub >= 0) p += l.sub;
		return p;
	}
	u64 index(Frame &F, int e, int n)
	{
		u64 v = expr(F, e); i64 i = (i64)v;
		if (P.ex[e].rot) return v & (n - 1); // 'rot' = index guarded by a mask
		if (i < 0 || i >= n) { P.ex[e].rot = true; repaired = true; return v & (n - 1); }
		return v;
	}
	u64 load(Frame &F, u64 p, Mode m, int li)
	{
		Obj &o = objs[(p >> 32) - 1]; u32 off = (u32)p; int n = mbytes(m); u64 v = 0;
		if (off + n > o.b.size()) throw Limit();
		for (int i = 0; i < n; ++i) if (!o.init[off + i]) { LVal &l = P.lv[li]; if (l.base == LVal::LOCALMEM) { F.f->mems[l.id].needInit = true; } else { for (auto &fn : P.fn) for (auto &mv : fn.mems) if (mv.escaped) mv.needInit = true; } repaired = true; break; }
		memcpy(&v, &o.b[off], n); return mint(m) ? canon(m, v) : v;
	}
	void store(u64 p, Mode m, u64 v)
	{
		Obj &o = objs[(p >> 32) - 1]; u32 off = (u32)p; int n = mbytes(m);
		if (off + n > o.b.size()) throw Limit();
		memcpy(&o.b[off], &v, n); for (int i = 0; i < n; ++i) o.init[off + i] = true;
	}
	u64 callExt(u64 tag, Mode m, u64 v)
	{
		if (mflt(m)) { if (m == F32) v = fromD(asF(v)); v = canonNaN(F64, v); } 
		T.t.push_back(tag); T.t.push_back(v); return ext_value(ext, tag, v);
	}
	std::vector<u8> rb; // compound result
	void needBytes(Frame &F, u64 q, u32 n, int li) { Obj &B = objs[(q >> 32) - 1]; for (u32 i = 0; i < n; ++i) if (!B.init[(u32)q + i]) { LVal &l = P.lv[li]; if (l.base == LVal::LOCALMEM) F.f->mems[l.id].needInit = true; repaired = true; break; } }
	u64 call(Frame &F, const Expr &e)
	{
		std::vector<u64> a; std::vector<int> args = e.args; int fn = e.fn;
		for (int x : args) a.push_back(expr(F, x));
		for (size_t k = 0; k < args.size(); ++k) if (P.fn[fn].params[k] < 0) needBytes(F, a[k], P.types[P.fn[fn].mems[-1 - P.fn[fn].params[k]].type].size, P.ex[args[k]].lv);
		return invoke(fn, a);
	}
	u64 invoke(int fn, const std::vector<u64> &a)
	{
		tick(); if (++depth > 40) throw Limit();
		Func &f = P.fn[fn]; Frame G; G.f = &f; G.v.assign(f.vars.size(), 0); G.set.assign(f.vars.size(), false);
		for (size_t i = 0; i < f.vars.size(); ++i) if (f.vars[i].needInit) G.set[i] = f.vars[i].m != PTR;
		for (size_t i = 0; i < f.params.size(); ++i) if (f.params[i] >= 0) { G.v[f.params[i]] = a[i]; G.set[f.params[i]] = true; }
		for (size_t i = 0; i < f.mems.size(); ++i) if (f.mems[i].param >= 0 && (a[f.mems[i].param] >> 32) - 1 >= objs.size()) throw Limit();
		size_t base = objs.size();
		for (auto &mv : f.mems) { G.mobj.push_back((int)objs.size()); Obj o; o.b.assign(P.types[mv.type].size, 0); o.init.assign(o.b.size(), mv.needInit); o.local = true; if (mv.param >= 0) { u64 q = a[mv.param]; Obj &S = objs[(q >> 32) - 1]; for (size_t i = 0; i < o.b.size(); ++i) { o.b[i] = S.b[(u32)q + i]; o.init[i] = true; } } objs.push_back(o); }
		u64 rv = 0; Flow fl = body(G, f.body, rv); (void)fl;
		objs.resize(base); --depth; return rv;
	}
	u64 expr(Frame &F, int ei)
	{
		tick(); Expr &e = P.ex[ei]; bool ub;
		switch (e.k) {
		case E_CONST: return e.imm;
		case E_VAR: if (!F.set[e.var]) { F.f->vars[e.var].needInit = true; repaired = true; if (F.f->vars[e.var].m == PTR) throw Limit(); } return F.v[e.var];
		case E_LOAD: { u64 p = addr(F, e.lv); return load(F, p, e.m, e.lv); }
		case E_ADDR: return addr(F, e.lv);
		case E_BIN: {
			u64 a = expr(F, e.a), b = expr(F, P.ex[ei].b); Expr &x = P.ex[ei];
			if (x.op >= O_SHL && x.guard) b &= mbits(x.m) - 1;
			if ((x.op == O_DIV || x.op == O_MOD) && x.guard && mint(x.m)) b = canon(x.m, (b & 7) + 2);
			if (x.guard && mflt(x.m)) return a;
			u64 r = eval_bin(x.op, x.m, a, b, ub);
			if (P.exact && mflt(x.m)) { if (!exactBin(x.op, x.m, a, b)) { repaired = true; x.guard = true; return a; } return r; }
			if (ub) {
				if (x.op == O_SHL && x.guard) return r; // computed unsigned
				if (!x.guard) { repaired = true; x.guard = true; }
				if (x.op >= O_SHL) { b &= mbits(x.m) - 1; r = eval_bin(x.op, x.m, a, b, ub); }
				else if (x.op == O_DIV || x.op == O_MOD) r = eval_bin(x.op, x.m, a, canon(x.m, (b & 7) + 2), ub);
			}
			return r;
		}
		case E_UN: {
			u64 a = expr(F, e.a); Expr &x = P.ex[ei];
			if (mflt(x.m)) return canonNaN(x.m, x.m == F32 ? fromF(-asF(a)) : fromD(-asD(a)));
			if (x.op == O_NOT) return canon(x.m, ~a);
			u64 r = canon(x.m, 0 - a); if (msigned(x.m) && r == a && a != 0 && !x.guard) { x.guard = true; repaired = true; } return r;
		}
		case E_CONV: { u64 a = expr(F, e.a); Expr &x = P.ex[ei]; if (x.guard) return conv_guard(x.m); Mode fm = P.ex[x.a].m; u64 r = eval_conv(fm, x.m, a, ub); if (!ub && P.exact && mflt(x.m)) { bool u2; u64 back = eval_conv(x.m, fm, r, u2); ub = u2 || back != a || (mint(fm) && mbits(fm) == 64 && (i64)a != (i64)(i32_53(a))); } if (ub) { x.guard = true; repaired = true; return conv_guard(x.m); } return r; }
		case E_BITCAST: { u64 a = expr(F, e.a); Expr &x = P.ex[ei]; return mint(x.m) ? canon(x.m, a) : canonNaN(x.m, mbits(x.m) == 32 ? a & 0xffffffffu : a); }
		case E_MUX: { bool c = cond(F, e.c, true); u64 a = expr(F, P.ex[ei].a), b = expr(F, P.ex[ei].b); return c ? a : b; }
		case E_COND: { bool c = cond(F, e.c, false); return expr(F, c ? P.ex[ei].a : P.ex[ei].b); }
		case E_B2I: return cond(F, e.c, true) ? 1 : 0;
		case E_CALL: { Expr x = e; return call(F, x); }
		case E_BUILTIN: { u64 a = expr(F, e.a); Expr &x = P.ex[ei]; Mode om = P.ex[x.a].m; if (x.guard) a |= 1; u64 r = eval_builtin((BI)x.sub, om, a, ub); if (ub) { x.guard = true; repaired = true; r = eval_builtin((BI)x.sub, om, a | 1, ub); } return r; }
		default: return 0;
		}
	}
	bool cond(Frame &F, int ci, bool strict)
	{
		tick(); Cond c = P.cd[ci];
		switch (c.k) {
		case C_CMP: { u64 a = expr(F, c.a), b = expr(F, c.b); return eval_rel(c.rel == R_NE ? (u8)(c.rel | 8) : c.rel, P.ex[c.a].m, a, b); }
		case C_NOT: return !cond(F, c.a, strict);
		case C_AND: { bool a = cond(F, c.a, strict); if (!strict && !a) return false; bool b = cond(F, c.b, strict); return a && b; }
		case C_OR: { bool a = cond(F, c.a, strict); if (!strict && a) return true; bool b = cond(F, c.b, strict); return a || b; }
		default: return true;
		}
	}
	static i64 i32_53(u64 a) { return (i64)a < (1ll << 52) && (i64)a > -(1ll << 52) ? (i64)a : ~(i64)a; }
	// no rounding in the mode's own precision, hence none in a wider one
	template<class T> static bool exactOp(OP op, T x, T y, T tiny)
	{
		volatile T r, e;
		if (!std::isfinite(x) || !std::isfinite(y)) return false;
		switch (op) {
		case O_ADD: case O_SUB: { if (op == O_SUB) y = -y; r = x + y; volatile T bb = r - x; volatile T p = r - bb; p = x - p; volatile T q = y - bb; e = p + q; break; }
		case O_MUL: r = x * y; e = std::fma(x, y, -r); if (r == 0 && x != 0 && y != 0) return false; break;
		default: if (y == 0) return false; r = x / y; e = std::fma(r, y, -x); if (r == 0 && x != 0) return false; break;
		}
		return std::isfinite(r) && e == 0 && (r == 0 || std::fabs(r) > tiny);
	}
	static bool exactBin(OP op, Mode m, u64 a, u64 b) { return m == F32 ? exactOp<float>(op, asF(a), asF(b), 1e-25f) : exactOp<double>(op, asD(a), asD(b), 1e-200); }
	Flow body(Frame &F, const std::vector<int> &b, u64 &rv) { for (int s : b) { Flow f = stmt(F, s, rv); if (f != NORMAL) return f; } return NORMAL; }
	Flow stmt(Frame &F, int si, u64 &rv)
	{
		tick(); Stmt &s = P.st[si]; Flow f;
		switch (s.k) {
		case S_ASSIGN: { u64 v = expr(F, s.a); F.v[s.var] = v; F.set[s.var] = true; return NORMAL; }
		case S_STORE: { u64 v = expr(F, s.a); u64 p = addr(F, s.lv); store(p, P.lv[s.lv].m, v); return NORMAL; }
		case S_TRACE: { u64 v = expr(F, s.a); callExt((u64)s.step, P.ex[s.a].m, v); return NORMAL; }
		case S_CALL: { expr(F, s.a); Stmt &q = P.st[si]; if (q.lv >= 0) { std::vector<u8> r = rb; u64 d = addr(F, q.lv); Obj &A = objs[(d >> 32) - 1]; for (size_t i = 0; i < r.size(); ++i) { A.b[(u32)d + i] = r[i]; A.init[(u32)d + i] = true; } } return NORMAL; }
		case S_IF: return body(F, cond(F, s.c, false) ? s.body : s.els, rv);
		case S_BLOCK: return body(F, s.body, rv);
		case S_FOR: {
			u64 i0 = expr(F, s.a); Mode m = F.f->vars[s.var].m; F.v[s.var] = i0; F.set[s.var] = true; bool ub;
			for (;;) {
				u64 b = expr(F, s.b); if (!eval_rel(s.rel, m, F.v[s.var], b)) break;
				f = body(F, s.body, rv); if (f == RETURN) return f; if (f == BRK) break;
				u64 n = eval_bin(O_ADD, m, F.v[s.var], canon(m, (u64)s.step), ub); if (ub) throw Limit(); F.v[s.var] = n;
			}
			return NORMAL;
		}
		case S_WHILE: case S_DO: case S_GOTOIN: {
			F.v[s.var] = (u64)s.step; F.set[s.var] = true; bool first = true;
			bool mid = s.k == S_GOTOIN && cond(F, s.a, false);
			for (;;) {
				tick();
				if (!(s.k == S_DO && first) && !mid) { if (!cond(F, s.c, false)) break; F.v[s.var]--; if ((i64)F.v[s.var] < 0) { break; } }
				first = false;
				if (!mid) { f = body(F, s.body, rv); if (f == RETURN) return f; if (f == BRK) break; if (f == CNT) continue; }
				mid = false;
				if (s.k == S_GOTOIN) { f = body(F, s.els, rv); if (f == RETURN) return f; if (f == BRK) break; }
			}
			return NORMAL;
		}
		case S_SWITCH: {
			u64 v = expr(F, s.a); int hit = -1; for (size_t i = 0; i < s.cases.size(); ++i) if ((i64)v >= s.cases[i].first && (i64)v <= s.cases[i].second) { hit = (int)i; break; }
			if (hit < 0) return s.hasDef ? stmt(F, s.b, rv) : NORMAL;
			for (size_t i = hit; i < s.caseBody.size(); ++i) { f = stmt(F, s.caseBody[i], rv); if (f != NORMAL) return f; if (!s.fall[i]) break; if (i + 1 == s.caseBody.size() && s.hasDef) return stmt(F, s.b, rv); }
			return NORMAL;
		}
		case S_BREAK: return BRK;
		case S_CONT: return CNT;
		case S_RET: rv = s.a >= 0 ? expr(F, s.a) : 0; if (P.st[si].lv >= 0) { u64 q = addr(F, P.st[si].lv); u32 n = P.types[F.f->retType].size; needBytes(F, q, n, P.st[si].lv); Obj &B = objs[(q >> 32) - 1]; rb.assign(B.b.begin() + (u32)q, B.b.begin() + (u32)q + n); } return RETURN;
		case S_COPY: {
			u64 d = addr(F, s.lv), q = addr(F, s.lv2); u32 n = P.types[s.var].size; Obj &A = objs[(d >> 32) - 1], &B = objs[(q >> 32) - 1];
			for (u32 i = 0; i < n; ++i) if (!B.init[(u32)q + i]) { LVal &l = P.lv[s.lv2]; if (l.base == LVal::LOCALMEM) F.f->mems[l.id].needInit = true; repaired = true; break; }
			std::vector<u8> t(B.b.begin() + (u32)q, B.b.begin() + (u32)q + n); for (u32 i = 0; i < n; ++i) { A.b[(u32)d + i] = t[i]; A.init[(u32)d + i] = true; }
			return NORMAL;
		}
		default: return NORMAL;
		}
	}
};
}
bool eval_program(Prog &P, Trace &T)
{
	for (int round = 0; round < 30; ++round) {
		T.t.clear(); T.steps = 0; Eval E(P, T); E.init_globals(); bool over = false;
		for (size_t i = 0; i < P.vecs.size(); ++i) {
			E.limit = E.steps + 20000;
			try { E.depth = 0; u64 r = E.invoke(P.entry(), P.vecs[i]); T.t.push_back(0x7e7); T.t.push_back(r); }
			catch (Eval::Limit &) { over = true; break; }
		}
		if (over) { if (E.repaired) continue; return false; }
		if (!E.repaired) {
			T.steps = E.steps;
			// final contents of externally visible globals (float-free ones)
			for (size_t g = 0; g < P.gl.size(); ++g) if (P.gl[g].external) {
				std::function<bool(int)> flt = [&](int t) { const Type &y = P.types[t]; if (y.k == Type::Scalar) return mflt(y.m) || y.m == PTR; if (y.k == Type::Array) return flt(y.elem); for (int f : y.fields) if (flt(f)) return true; return false; };
				if (flt(P.gl[g].type)) continue;
				u64 h = 1469598103934665603ull; for (u8 b : E.objs[E.gObj[g]].b) { h ^= b; h *= 1099511628211ull; } T.t.push_back(0x61b); T.t.push_back(h);
			}
			return true;
		}
	}
	return false;
}

// =============================================================== printing
namespace {
struct Pr {
	const Prog &P; std::string o; int ind = 1; const Func *f = nullptr;
	Pr(const Prog &p) : P(p) {}
	std::string L(int li)
	{
		const LVal &l = P.lv[li]; std::string s = l.base == LVal::GLOBAL ? strf("g%d", l.id) : l.base == LVal::LOCALMEM ? strf("m%d", l.id) : strf("v%d", l.id);
		for (auto &p : l.path) s += p.field >= 0 ? strf(".f%d", p.field) : "[" + E(p.idx) + (P.ex[p.idx].rot ? " &guard" : "") + "]";
		if (l.sub >= 0) s += strf("@%d:%s", l.sub, mode_names[l.m]);
		return l.volat ? "volatile(" + s + ")" : s;
	}
	std::string E(int ei)
	{
		const Expr &e = P.ex[ei]; const char *g = e.guard ? "!" : "";
		switch (e.k) {
		case E_CONST: if (mint(e.m)) return strf("%lld", (long long)e.imm) + (e.m == Is ? "" : strf("%s", mode_names[e.m])); return e.m == F32 ? strf("%gF", asF(e.imm)) : strf("%gD", asD(e.imm));
		case E_VAR: return strf("v%d", e.var);
		case E_LOAD: return L(e.lv);
		case E_ADDR: return "&" + L(e.lv);
		case E_BIN: return "(" + E(e.a) + " " + op_names[e.op] + g + "." + mode_names[e.m] + " " + E(e.b) + ")";
		case E_UN: return std::string(op_names[e.op]) + g + "(" + E(e.a) + ")";
		case E_CONV: return strf("(%s%s)", mode_names[e.m], g) + E(e.a);
		case E_BITCAST: return strf("bits<%s>(", mode_names[e.m]) + E(e.a) + ")";
		case E_MUX: return "mux(" + Cn(e.c) + ", " + E(e.a) + ", " + E(e.b) + ")";
		case E_COND: return "(" + Cn(e.c) + " ? " + E(e.a) + " : " + E(e.b) + ")";
		case E_B2I: return "(" + std::string(mode_names[e.m]) + ")(" + Cn(e.c) + ")";
		case E_CALL: { std::string s = strf("%sf%d(", e.sub ? "*" : "", e.fn); for (size_t i = 0; i < e.args.size(); ++i) s += (i ? ", " : "") + E(e.args[i]); return s + ")"; }
		case E_BUILTIN: { static const char *n[] = { "ffs", "clz", "ctz", "popcount", "parity", "bswap" }; return std::string(n[e.sub]) + g + "(" + E(e.a) + ")"; }
		default: return "?";
		}
	}
	std::string Cn(int ci)
	{
		const Cond &c = P.cd[ci]; static const char *r[] = { "F", "==", "<", "<=", ">", ">=", "!=", "T" };
		switch (c.k) { case C_CMP: return E(c.a) + " " + r[c.rel & 7] + " " + E(c.b); case C_AND: return "(" + Cn(c.a) + " && " + Cn(c.b) + ")"; case C_OR: return "(" + Cn(c.a) + " || " + Cn(c.b) + ")"; case C_NOT: return "!(" + Cn(c.a) + ")"; default: return "1"; }
	}
	void ln(const std::string &s) { o += std::string(ind * 2, ' ') + s + "\n"; }
	void B(const std::vector<int> &b) { ++ind; for (int s : b) S(s); --ind; }
	void S(int si)
	{
		const Stmt &s = P.st[si];
		switch (s.k) {
		case S_ASSIGN: ln(strf("v%d = ", s.var) + E(s.a) + ";"); break;
		case S_STORE: ln(L(s.lv) + " = " + E(s.a) + ";"); break;
		case S_TRACE: ln(strf("ext(%lld, ", (long long)s.step) + E(s.a) + ");"); break;
		case S_CALL: ln((s.lv >= 0 ? L(s.lv) + " = " : "") + E(s.a) + ";"); break;
		case S_IF: ln("if (" + Cn(s.c) + ") {"); B(s.body); if (s.els.size()) { ln("} else {"); B(s.els); } ln("}"); break;
		case S_FOR: { static const char *r[] = { "F", "==", "<", "<=", ">", ">=", "!=", "T" }; ln(strf("for%s (v%d = ", s.flag ? "-inv" : "", s.var) + E(s.a) + strf("; v%d %s ", s.var, r[s.rel & 7]) + E(s.b) + strf("; v%d += %lld) {", s.var, (long long)s.step)); B(s.body); ln("}"); break; }
		case S_WHILE: ln(strf("v%d = %lld; while (", s.var, (long long)s.step) + Cn(s.c) + strf(" && --v%d >= 0) {", s.var)); B(s.body); ln("}"); break;
		case S_DO: ln(strf("v%d = %lld; do {", s.var, (long long)s.step)); B(s.body); ln("} while (" + Cn(s.c) + strf(" && --v%d >= 0);", s.var)); break;
		case S_GOTOIN: ln(strf("v%d = %lld; if (", s.var, (long long)s.step) + Cn(s.a) + ") goto mid; while (" + Cn(s.c) + strf(" && --v%d >= 0) {", s.var)); B(s.body); ln("mid:"); B(s.els); ln("}"); break;
		case S_SWITCH: ln("switch (" + E(s.a) + ") {"); for (size_t i = 0; i < s.cases.size(); ++i) { ln(strf("case %lld..%lld:%s", (long long)s.cases[i].first, (long long)s.cases[i].second, s.fall[i] ? " (falls through)" : "")); B(P.st[s.caseBody[i]].body); } if (s.hasDef) { ln("default:"); B(P.st[s.b].body); } ln("}"); break;
		case S_BREAK: ln("break;"); break; case S_CONT: ln("continue;"); break;
		case S_RET: ln("return " + (s.a >= 0 ? E(s.a) : s.lv >= 0 ? L(s.lv) : "") + ";"); break;
		case S_COPY: ln("copyb " + L(s.lv) + " = " + L(s.lv2) + ";"); break;
		case S_BLOCK: B(s.body); break;
		default: break;
		}
	}
	std::string T(int t) { const Type &y = P.types[t]; if (y.k == Type::Scalar) return mode_names[y.m]; if (y.k == Type::Array) return T(y.elem) + strf("[%d]", y.n); std::string s = "{"; for (size_t i = 0; i < y.fields.size(); ++i) s += (i ? "; " : "") + T(y.fields[i]) + strf("@%u", y.offs[i]); return s + "}"; }
	std::string all()
	{
		for (size_t i = 0; i < P.gl.size(); ++i) { o += strf("%s%sglobal g%zu : ", P.gl[i].external ? "" : "private ", P.gl[i].isConst ? "const " : "", i) + T(P.gl[i].type); if (!P.gl[i].zero) { o += " = hex:"; for (size_t k = 0; k < P.gl[i].init.size() && k < 32; ++k) o += strf("%02x", P.gl[i].init[k]); } o += "\n"; }
		for (size_t i = 0; i < P.fn.size(); ++i) { f = &P.fn[i]; o += strf("%s%s f%zu(", f->priv ? "private " : "", f->retType >= 0 ? T(f->retType).c_str() : mode_names[f->ret], i); for (size_t k = 0; k < f->params.size(); ++k) o += f->params[k] < 0 ? (k ? ", " : "") + T(f->mems[-1 - f->params[k]].type) + strf(" m%d", -1 - f->params[k]) : strf("%s%s v%d", k ? ", " : "", mode_names[f->vars[f->params[k]].m], f->params[k]); o += ")\n{\n"; for (size_t k = 0; k < f->mems.size(); ++k) if (f->mems[k].param < 0) ln(strf("m%zu : ", k) + T(f->mems[k].type) + (f->mems[k].needInit ? " = 0" : "")); std::string vs; for (size_t k = 0; k < f->vars.size(); ++k) if (std::find(f->params.begin(), f->params.end(), (int)k) == f->params.end()) vs += strf(" %s v%zu%s", mode_names[f->vars[k].m], k, f->vars[k].needInit ? "=0" : ""); ln("var" + vs); --ind; B(f->body); ++ind; o += "}\n"; }
		for (auto &v : P.vecs) { o += "entry("; for (u64 x : v) o += strf(" %lld", (long long)x); o += " )\n"; }
		return o;
	}
};
}
std::string prog_text(const Prog &P) { Pr p(P); return p.all(); }
u64 prog_hash(const Prog &P) { return fnvs(prog_text(P)); }
