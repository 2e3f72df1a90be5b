#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
SolverStats g_ss;
std::string g_dumpDir; u64 g_dumpMax = 0;
static Z3_context C; static Z3_solver S;
static std::vector<Z3_ast> varAst;
static unsigned g_to;

static void eh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
void solverInit(unsigned to) {
	g_to = to;
	Z3_config cfg = Z3_mk_config();
	C = Z3_mk_context(cfg);
	Z3_set_error_handler(C, eh);
	S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
	Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), to);
	Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1);
	Z3_solver_set_params(C, S, p);
}
static Z3_ast tr(EP e);
static Z3_ast bv(EP e) {	// as bit-vector even if 1 bit
	Z3_ast a = tr(e);
	if (e->w == 1) { Z3_sort s = Z3_mk_bv_sort(C, 1); return Z3_mk_ite(C, a, Z3_mk_int(C, 1, s), Z3_mk_int(C, 0, s)); }
	return a;
}
static Z3_ast toBool(Z3_ast a) { return Z3_mk_eq(C, a, Z3_mk_int(C, 1, Z3_mk_bv_sort(C, 1))); }
static Z3_ast tr1(EP e) {
	int w = e->w;
	switch (e->kind) {
	case E_CONST: if (w == 1) return e->val ? Z3_mk_true(C) : Z3_mk_false(C); return Z3_mk_unsigned_int64(C, e->val, Z3_mk_bv_sort(C, (unsigned)w));
	case E_VAR: {
		if (varAst.size() <= e->val) varAst.resize(e->val + 1, nullptr);
		if (!varAst[e->val]) {
			Z3_ast a = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->val), Z3_mk_bv_sort(C, (unsigned)w));
			varAst[e->val] = a;
		}
		return w == 1 ? toBool(varAst[e->val]) : varAst[e->val];
	}
	case E_NOT: return Z3_mk_not(C, tr(e->k[0]));
	case E_AND: if (w == 1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; return Z3_mk_and(C, 2, a); } return Z3_mk_bvand(C, tr(e->k[0]), tr(e->k[1]));
	case E_OR: if (w == 1) { Z3_ast a[2] = {tr(e->k[0]), tr(e->k[1])}; return Z3_mk_or(C, 2, a); } return Z3_mk_bvor(C, tr(e->k[0]), tr(e->k[1]));
	case E_XOR: if (w == 1) return Z3_mk_xor(C, tr(e->k[0]), tr(e->k[1])); return Z3_mk_bvxor(C, tr(e->k[0]), tr(e->k[1]));
	case E_EQ: return Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1]));
	case E_ULT: return Z3_mk_bvult(C, bv(e->k[0]), bv(e->k[1]));
	case E_ULE: return Z3_mk_bvule(C, bv(e->k[0]), bv(e->k[1]));
	case E_SLT: return Z3_mk_bvslt(C, bv(e->k[0]), bv(e->k[1]));
	case E_SLE: return Z3_mk_bvsle(C, bv(e->k[0]), bv(e->k[1]));
	case E_ITE: return Z3_mk_ite(C, tr(e->k[0]), tr(e->k[1]), tr(e->k[2]));
	case E_ZEXT: return Z3_mk_zero_ext(C, (unsigned)(w - e->k[0]->w), bv(e->k[0]));
	case E_SEXT: return Z3_mk_sign_ext(C, (unsigned)(w - e->k[0]->w), bv(e->k[0]));
	case E_EXTRACT: { Z3_ast a = Z3_mk_extract(C, (unsigned)e->val + (unsigned)w - 1, (unsigned)e->val, bv(e->k[0])); return w == 1 ? toBool(a) : a; }
	case E_CONCAT: return Z3_mk_concat(C, bv(e->k[0]), bv(e->k[1]));
	default: break;
	}
	Z3_ast a = bv(e->k[0]), b = bv(e->k[1]), r;
	switch (e->kind) {
	case E_ADD: r = Z3_mk_bvadd(C, a, b); break;
	case E_SUB: r = Z3_mk_bvsub(C, a, b); break;
	case E_MUL: r = Z3_mk_bvmul(C, a, b); break;
	case E_UDIV: r = Z3_mk_bvudiv(C, a, b); break;
	case E_SDIV: r = Z3_mk_bvsdiv(C, a, b); break;
	case E_UREM: r = Z3_mk_bvurem(C, a, b); break;
	case E_SREM: r = Z3_mk_bvsrem(C, a, b); break;
	case E_SHL: r = Z3_mk_bvshl(C, a, b); break;
	case E_LSHR: r = Z3_mk_bvlshr(C, a, b); break;
	case E_ASHR: r = Z3_mk_bvashr(C, a, b); break;
	default: abort();
	}
	return w == 1 ? toBool(r) : r;
}
static Z3_ast tr(EP e) {
	if (e->z) return (Z3_ast)e->z;
	Z3_ast a = tr1(e);
	Z3_inc_ref(C, a);
	e->z = a;
	return a;
}
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<u64, std::vector<std::pair<std::vector<u32>, CacheEnt>>> cache;

SatRes solverCheck(const std::vector<EP> &cs, Model &m) {
	std::vector<u32> key; key.reserve(cs.size());
	for (EP e : cs) key.push_back(e->id);
	std::sort(key.begin(), key.end());
	u64 h = 1469598103934665603ULL;
	for (u32 k : key) h = (h ^ k) * 1099511628211ULL;
	auto &bk = cache[h];
	for (auto &p : bk) if (p.first == key) {
		g_ss.cacheHits++;
		for (auto &v : p.second.vals) { if (m.size() <= v.first) m.resize(v.first + 16, 0); m[v.first] = v.second; }
		return p.second.r;
	}
	auto t0 = std::chrono::steady_clock::now();
	Z3_solver_push(C, S);
	for (EP e : cs) Z3_solver_assert(C, S, tr(e));
	if (!g_dumpDir.empty() && g_ss.queries < g_dumpMax) {
		std::string fn = g_dumpDir + "/q" + std::to_string(g_ss.queries) + ".smt2";
		if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(C, S)); fclose(f); }
	}
	Z3_lbool r = Z3_solver_check(C, S);
	CacheEnt ce; ce.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
	if (r == Z3_L_TRUE) {
		Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
		const VarSet *vs = nullptr;
		for (EP e : cs) vs = vs ? unionVars(vs, e->vars) : e->vars;
		if (vs) for (u32 v : vs->v) {
			if (v >= varAst.size() || !varAst[v]) continue;
			Z3_ast out; uint64_t x = 0;
			if (Z3_model_eval(C, zm, varAst[v], true, &out)) Z3_get_numeral_uint64(C, out, &x);
			ce.vals.push_back({v, x});
			if (m.size() <= v) m.resize(v + 16, 0);
			m[v] = x;
		}
		Z3_model_dec_ref(C, zm);
	}
	Z3_solver_pop(C, S, 1);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
	if (!g_dumpDir.empty() && g_ss.queries < g_dumpMax) {
		std::string fn = g_dumpDir + "/q" + std::to_string(g_ss.queries) + ".res";
		if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "%s\n", ce.r == R_SAT ? "sat" : ce.r == R_UNSAT ? "unsat" : "unknown"); fclose(f); }
	}
	g_ss.queries++;
	if (ce.r == R_SAT) g_ss.sat++; else if (ce.r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
	bk.push_back({key, ce});
	return ce.r;
}
