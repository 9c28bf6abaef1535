// MiniC: the simulated client's program.  AST, seeded generator, reference evaluator.
#pragma once
#include "rt.h"

enum Mode : u8 { Bs, Bu, Hs, Hu, Is, Iu, Ls, Lu, F32, F64, PTR, M_VOID, M_COUNT };
extern const char *const mode_names[];
static inline int mbits(Mode m) { switch (m) { case Bs: case Bu: return 8; case Hs: case Hu: return 16; case Is: case Iu: case F32: return 32; default: return 64; } }
static inline int mbytes(Mode m) { return mbits(m) / 8; }
static inline bool msigned(Mode m) { return m == Bs || m == Hs || m == Is || m == Ls; }
static inline bool mint(Mode m) { return m <= Lu; }
static inline bool mflt(Mode m) { return m == F32 || m == F64; }
static inline Mode munsigned(Mode m) { return (Mode)(m | 1); }
// canonical representation of an integer value in mode m: sign/zero extended to 64 bits
static inline u64 canon(Mode m, u64 v)
{
	int b = mbits(m);
	if (b == 64) return v;
	v &= (1ull << b) - 1;
	if (msigned(m) && (v >> (b - 1))) v |= ~0ull << b;
	return v;
}

struct Type { // memory types
	enum K : u8 { Scalar, Array, Struct, Union } k = Scalar;
	Mode m = Is;
	int elem = -1; int n = 0;                 // Array
	std::vector<int> fields; std::vector<u32> offs; // Struct, Union
	u32 size = 0, align = 1;
	int depth = 0;
};

enum EK : u8 { E_CONST, E_VAR, E_LOAD, E_BIN, E_UN, E_CONV, E_MUX, E_CALL, E_ADDR, E_BUILTIN, E_B2I, E_EXT, E_BITCAST, E_COND };
enum OP : u8 { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_EOR, O_SHL, O_SHR, O_SHRS, O_NOT, O_MINUS, O_COUNT };
extern const char *const op_names[];
enum BI : u8 { BI_FFS, BI_CLZ, BI_CTZ, BI_POPCOUNT, BI_PARITY, BI_BSWAP };
enum REL : u8 { R_EQ = 1, R_LT = 2, R_LE = 3, R_GT = 4, R_GE = 5, R_NE = 6 }; // libfirm: EQ=1 LESS=2 GREATER=4 UNORDERED=8
enum CK : u8 { C_CMP, C_AND, C_OR, C_NOT, C_TRUE };

struct Step { int field; int idx; }; // field >= 0, or index expression
struct LVal {
	enum B : u8 { GLOBAL, LOCALMEM, PTRVAR } base = GLOBAL;
	int id = 0;
	std::vector<Step> path;
	int type = -1;   // type reached
	Mode m = Is;     // access mode when scalar
	bool volat = false;
	int sub = -1;    // access of mode m at this byte offset inside the scalar or aggregate reached
};
struct Expr {
	EK k = E_CONST; Mode m = Is; OP op = O_ADD; u8 sub = 0;
	bool guard = false;   // set by the evaluator: make the operation well defined
	bool rot = false;
	int a = -1, b = -1, c = -1; // operands / condition
	u64 imm = 0; int var = -1; int lv = -1; int fn = -1; std::vector<int> args;
};
struct Cond { CK k = C_CMP; u8 rel = R_EQ; int a = -1, b = -1; };
enum SK : u8 { S_ASSIGN, S_STORE, S_IF, S_FOR, S_WHILE, S_DO, S_SWITCH, S_BREAK, S_CONT, S_RET, S_TRACE, S_CALL, S_COPY, S_BLOCK, S_PTR, S_NOP, S_GOTOIN };
struct Stmt {
	SK k = S_NOP; int a = -1, b = -1, c = -1; int var = -1, var2 = -1; int lv = -1, lv2 = -1;
	std::vector<int> body, els; std::vector<std::pair<i64, i64>> cases; std::vector<int> caseBody; std::vector<bool> fall; bool hasDef = true;
	u8 rel = R_LT; i64 step = 1; int fuel = -1; bool flag = false;
};
struct Var { Mode m; int elemType = -1; bool needInit = false; }; // SSA scalar; PTR: points to >=4 elements of elemType
struct MemVar { int type; bool needInit = false; bool escaped = false; int param = -1; }; // param: passed by value in this position
struct Func {
	std::vector<int> params; /* variable, or -1 - memory variable */ Mode ret; int retType = -1, retMem = -1; /* compound result */ std::vector<Var> vars; std::vector<MemVar> mems; std::vector<int> body;
	bool rec = false; int depthVar = -1; bool extVisible = false; bool structParam = false; bool viaPtr = false; bool priv = false;
};
struct Global { int type; std::vector<u8> init; bool isConst = false, external = true, zero = false; };
struct Prog {
	std::vector<Type> types; std::vector<Expr> ex; std::vector<Cond> cd; std::vector<Stmt> st; std::vector<LVal> lv;
	std::vector<Func> fn; std::vector<Global> gl; std::vector<std::vector<u64>> vecs;
	int ptrBytes = 8; bool floats = false; bool exact = false; /* every floating point operation is exact, in any precision of at least the mode's */
	int entry() const { return (int)fn.size() - 1; }
};
struct GenCfg {
	int maxFuncs = 4, stmtBudget = 40, exprDepth = 4, nvecs = 4; bool floats = false, ptr32 = false, calls = true, mem = true, loops = true, wide = true, volat = true, builtins = true, longdiv = true;
	bool goto_ = true, exact = false, noLLF = false;
	u32 swarm = ~0u;
};
GenCfg draw_gencfg(bool ptr32, bool floats, int scale); // swarm configuration
void gen_program(Prog &P, const GenCfg &c);
// reference run.  false: program exceeds its step budget (discard).  May set guard flags.
extern bool eval_u64f32_twice;
struct Trace { std::vector<u64> t; u64 steps = 0; };
bool eval_program(Prog &P, Trace &tr);
// observable end state of external globals
std::string prog_text(const Prog &P);
u64 prog_hash(const Prog &P);
// externals shared by evaluator, interpreter and native runtime
u64 ext_value(u64 &state, u64 tag, u64 v);
u64 eval_bin(OP op, Mode m, u64 a, u64 b, bool &ub);
u64 conv_guard(Mode m);
u64 eval_conv(Mode from, Mode to, u64 v, bool &ub);
bool eval_rel(u8 rel, Mode m, u64 a, u64 b);
u64 eval_builtin(BI b, Mode m, u64 v, bool &ub);
u64 canonNaN(Mode m, u64 v);
enum { N_ENTRY_PARAMS = 4 };
extern const Mode entry_modes[N_ENTRY_PARAMS];
