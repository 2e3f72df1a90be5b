// Hash-consed bit-vector expressions (1..64 bits) with local simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <memory>
#include <unordered_map>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EK : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
	E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_NOT };

struct VarSet { std::vector<u32> v; };	// sorted variable ids, interned
struct Expr {
	EK kind; u8 w; u32 id;
	u64 val;			// constant, variable id, or extract offset
	const Expr *k[3];
	const VarSet *vars;
	mutable u64 stamp = 0, ev = 0;	// evaluation memo
	mutable void *z = nullptr;	// solver term memo
	mutable u64 *tt = nullptr;	// truth table (1-bit expr over one 8-bit variable)
};
typedef const Expr *EP;

struct VarInfo { std::string name; int w; bool undef; };
extern std::vector<VarInfo> g_vars;
extern u64 g_nexpr;

static inline u64 maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, int w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w-1); v &= maskw(w); return (i64)((v ^ m) - m); }

EP mkConst(u64 v, int w);
EP mkVar(const std::string &name, int w, bool undef);
EP mkBin(EK k, EP a, EP b);
EP mkNot(EP a);
EP mkZExt(EP a, int w);
EP mkSExt(EP a, int w);
EP mkExtract(EP a, int off, int w);
EP mkConcat(EP hi, EP lo);
EP mkIte(EP c, EP a, EP b);
EP mkAnd(EP a, EP b);	// booleans
EP mkOr(EP a, EP b);
static inline bool isC(EP e) { return e->kind == E_CONST; }

typedef std::vector<u64> Model;	// by variable id; absent = 0
u64 evalExpr(EP e, const Model &m);
void newEvalStamp();
const u64 *truthTable(EP e);		// e is 1-bit with exactly one 8-bit variable
const VarSet *unionVars(const VarSet *a, const VarSet *b);
std::string exprStr(EP e, int depth = 6);
