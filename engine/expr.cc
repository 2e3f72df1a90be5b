#include "expr.h"
#include <algorithm>
#include <map>
#include <cstdlib>
#include <cstdio>

std::vector<VarInfo> g_vars;
u64 g_nexpr = 0;

static std::map<std::vector<u32>, const VarSet *> vsIntern;
static const VarSet *internVars(std::vector<u32> v) {
	auto it = vsIntern.find(v);
	if (it != vsIntern.end()) return it->second;
	auto *s = new VarSet{v};
	vsIntern[v] = s;
	return s;
}
static const VarSet *emptyVS() { static const VarSet *s = internVars({}); return s; }
const VarSet *unionVars(const VarSet *a, const VarSet *b) {
	if (a == b || b->v.empty()) return a;
	if (a->v.empty()) return b;
	static std::unordered_map<u64, const VarSet *> memo;
	const VarSet *x = a < b ? a : b, *y = a < b ? b : a;
	u64 h = ((u64)x >> 3) * 0x9E3779B97F4A7C15ULL ^ (u64)y;
	struct Key { const VarSet *x, *y; };
	static std::unordered_map<u64, std::vector<std::pair<Key, const VarSet *>>> mm;
	auto &bk = mm[h];
	for (auto &p : bk) if (p.first.x == x && p.first.y == y) return p.second;
	std::vector<u32> r;
	std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
	const VarSet *s = internVars(r);
	bk.push_back({{x, y}, s});
	return s;
}

struct HKey { EK k; u8 w; u64 v; EP a, b, c; };
static inline u64 hmix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static std::vector<Expr *> table(1 << 16, nullptr);
static std::vector<std::pair<u64, Expr *>> buckets;	// open addressing
static size_t bcount = 0;
static Expr *intern(EK k, int w, u64 v, EP a, EP b, EP c) {
	if (buckets.empty()) buckets.assign(1 << 16, {0, nullptr});
	u64 h = hmix(hmix(hmix(hmix(hmix(k, w), v), (u64)a), (u64)b), (u64)c);
	size_t m = buckets.size() - 1, i = h & m;
	while (buckets[i].second) {
		Expr *e = buckets[i].second;
		if (buckets[i].first == h && e->kind == k && e->w == w && e->val == v && e->k[0] == a && e->k[1] == b && e->k[2] == c)
			return e;
		i = (i + 1) & m;
	}
	Expr *e = new Expr;
	e->kind = k; e->w = (u8)w; e->val = v; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = (u32)g_nexpr++;
	const VarSet *vs = emptyVS();
	if (k == E_VAR) vs = internVars({(u32)v});
	else { if (a) vs = unionVars(vs, a->vars); if (b) vs = unionVars(vs, b->vars); if (c) vs = unionVars(vs, c->vars); }
	e->vars = vs;
	buckets[i] = {h, e};
	if (++bcount * 2 > buckets.size()) {
		std::vector<std::pair<u64, Expr *>> nb(buckets.size() * 2, {0, nullptr});
		size_t nm = nb.size() - 1;
		for (auto &p : buckets) if (p.second) { size_t j = p.first & nm; while (nb[j].second) j = (j + 1) & nm; nb[j] = p; }
		buckets.swap(nb);
	}
	return e;
}

EP mkConst(u64 v, int w) { return intern(E_CONST, w, v & maskw(w), 0, 0, 0); }
EP mkVar(const std::string &name, int w, bool undef) {
	g_vars.push_back({name, w, undef});
	return intern(E_VAR, w, g_vars.size() - 1, 0, 0, 0);
}

static u64 foldBin(EK k, u64 a, u64 b, int w) {
	u64 m = maskw(w); a &= m; b &= m;
	i64 sa = sextw(a, w), sb = sextw(b, w);
	switch (k) {
	case E_ADD: return (a + b) & m;
	case E_SUB: return (a - b) & m;
	case E_MUL: return (a * b) & m;
	case E_UDIV: return b ? a / b : m;
	case E_UREM: return b ? a % b : a;
	case E_SDIV: if (!b) return sa < 0 ? 1 : m; if (sb == -1) return (0 - a) & m; return (u64)(sa / sb) & m;
	case E_SREM: if (!b) return a; if (sb == -1) return 0; return (u64)(sa % sb) & m;
	case E_AND: return a & b;
	case E_OR: return a | b;
	case E_XOR: return a ^ b;
	case E_SHL: return b >= (u64)w ? 0 : (a << b) & m;
	case E_LSHR: return b >= (u64)w ? 0 : a >> b;
	case E_ASHR: return b >= (u64)w ? (sa < 0 ? m : 0) : (u64)(sa >> b) & m;
	case E_EQ: return a == b;
	case E_ULT: return a < b;
	case E_ULE: return a <= b;
	case E_SLT: return sa < sb;
	case E_SLE: return sa <= sb;
	default: abort();
	}
}
static inline bool isCmp(EK k) { return k >= E_EQ && k <= E_SLE; }
static bool constLeaves(EP e, int d) {
	if (isC(e)) return true;
	if (e->kind == E_ITE && d > 0) return constLeaves(e->k[1], d - 1) && constLeaves(e->k[2], d - 1);
	return false;
}
static bool isCI(EP e) { return e->kind == E_ITE && (isC(e->k[1]) || isC(e->k[2])) ; }

EP mkAnd(EP a, EP b) { return mkBin(E_AND, a, b); }
EP mkOr(EP a, EP b) { return mkBin(E_OR, a, b); }

EP mkNot(EP a) {
	if (a->w != 1) return mkBin(E_XOR, a, mkConst(~0ULL, a->w));
	if (isC(a)) return mkConst(!a->val, 1);
	switch (a->kind) {
	case E_NOT: return a->k[0];
	case E_ULT: return mkBin(E_ULE, a->k[1], a->k[0]);
	case E_ULE: return mkBin(E_ULT, a->k[1], a->k[0]);
	case E_SLT: return mkBin(E_SLE, a->k[1], a->k[0]);
	case E_SLE: return mkBin(E_SLT, a->k[1], a->k[0]);
	default: return intern(E_NOT, 1, 0, a, 0, 0);
	}
}

EP mkBin(EK k, EP a, EP b) {
	int w = a->w;
	if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
	// commutative: constant on the right
	if (k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ) {
		if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
	}
	u64 m = maskw(w);
	switch (k) {
	case E_ADD:
		if (isC(b)) {
			if (b->val == 0) return a;
			if (a->kind == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->val + b->val, w));
		}
		if (a->kind == E_ADD && isC(a->k[1]) && !isC(b)) return mkBin(E_ADD, mkBin(E_ADD, a->k[0], b), a->k[1]);
		if (b->kind == E_ADD && isC(b->k[1]) && !isC(a)) return mkBin(E_ADD, mkBin(E_ADD, a, b->k[0]), b->k[1]);
		break;
	case E_SUB:
		if (a == b) return mkConst(0, w);
		if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->val, w));
		if (a->kind == E_ADD && a->k[0] == b) return a->k[1];
		if (a->kind == E_ADD && a->k[1] == b) return a->k[0];
		break;
	case E_MUL:
		if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a; }
		break;
	case E_UDIV: case E_SDIV:
		if (isC(b) && b->val == 1 && w > 1) return a;
		break;
	case E_AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->val == 0) return b;
			if (b->val == m) return a;
			if (a->kind == E_ZEXT) {
				u64 im = maskw(a->k[0]->w);
				if ((b->val & im) == im) return a;
				return mkZExt(mkBin(E_AND, a->k[0], mkConst(b->val & im, a->k[0]->w)), w);
			}
			// low-bit mask
			if ((b->val & (b->val + 1)) == 0) { int n = __builtin_popcountll(b->val); return mkZExt(mkExtract(a, 0, n), w); }
		}
		if (w == 1) {
			if (a->kind == E_NOT && a->k[0] == b) return mkConst(0, 1);
			if (b->kind == E_NOT && b->k[0] == a) return mkConst(0, 1);
		}
		break;
	case E_OR:
		if (a == b) return a;
		if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; }
		if (w == 1) {
			if (a->kind == E_NOT && a->k[0] == b) return mkConst(1, 1);
			if (b->kind == E_NOT && b->k[0] == a) return mkConst(1, 1);
		}
		break;
	case E_XOR:
		if (a == b) return mkConst(0, w);
		if (isC(b)) {
			if (b->val == 0) return a;
			if (w == 1) return mkNot(a);
		}
		break;
	case E_SHL: case E_LSHR: case E_ASHR:
		if (isC(b)) {
			if (b->val == 0) return a;
			if (b->val >= (u64)w && k != E_ASHR) return mkConst(0, w);
			if (k == E_LSHR) return mkZExt(mkExtract(a, (int)b->val, w - (int)b->val), w);
			if (k == E_SHL) return mkConcat(mkExtract(a, 0, w - (int)b->val), mkConst(0, (int)b->val));
			if (k == E_ASHR && b->val < (u64)w) return mkSExt(mkExtract(a, (int)b->val, w - (int)b->val), w);
		}
		break;
	case E_EQ:
		if (a == b) return mkConst(1, 1);
		if (isC(b)) {
			if (w == 1) return b->val ? a : mkNot(a);
			if (a->kind == E_ZEXT) {
				EP x = a->k[0];
				if (b->val > maskw(x->w)) return mkConst(0, 1);
				return mkBin(E_EQ, x, mkConst(b->val, x->w));
			}
			if (a->kind == E_SEXT) {
				EP x = a->k[0];
				u64 lo = b->val & maskw(x->w);
				if (((u64)sextw(lo, x->w) & m) != b->val) return mkConst(0, 1);
				return mkBin(E_EQ, x, mkConst(lo, x->w));
			}
			if (a->kind == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val - a->k[1]->val, w));
			if (a->kind == E_SUB && b->val == 0) return mkBin(E_EQ, a->k[0], a->k[1]);
			if (a->kind == E_XOR && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
			if (a->kind == E_CONCAT) {
				EP hi = a->k[0], lo = a->k[1];
				return mkAnd(mkBin(E_EQ, hi, mkConst(b->val >> lo->w, hi->w)), mkBin(E_EQ, lo, mkConst(b->val, lo->w)));
			}
			if (isCI(a)) return mkIte(a->k[0], mkBin(E_EQ, a->k[1], b), mkBin(E_EQ, a->k[2], b));
		} else {
			if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
			if (a->kind == E_SEXT && b->kind == E_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
			if (w == 1) {
				if (a->kind == E_NOT && a->k[0] == b) return mkConst(0, 1);
				if (b->kind == E_NOT && b->k[0] == a) return mkConst(0, 1);
			}
		}
		break;
	case E_ULT:
		if (a == b) return mkConst(0, 1);
		if (w == 1) return mkAnd(mkNot(a), b);
		if (isC(b)) {
			if (b->val == 0) return mkConst(0, 1);
			if (b->val == 1) return mkBin(E_EQ, a, mkConst(0, w));
			if (a->kind == E_ZEXT) {
				EP x = a->k[0];
				if (b->val > maskw(x->w)) return mkConst(1, 1);
				return mkBin(E_ULT, x, mkConst(b->val, x->w));
			}
		}
		if (isC(a)) {
			if (a->val == m) return mkConst(0, 1);
			if (a->val == 0) return mkNot(mkBin(E_EQ, b, mkConst(0, w)));
			if (b->kind == E_ZEXT) {
				EP x = b->k[0];
				if (a->val >= maskw(x->w)) return mkConst(0, 1);
				return mkBin(E_ULT, mkConst(a->val, x->w), x);
			}
		}
		if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULT, a->k[0], b->k[0]);
		break;
	case E_ULE:
		if (a == b) return mkConst(1, 1);
		if (w == 1) return mkOr(mkNot(a), b);
		if (isC(a) && a->val == 0) return mkConst(1, 1);
		if (isC(b) && b->val == m) return mkConst(1, 1);
		if (isC(b)) return mkBin(E_ULT, a, mkConst(b->val + 1, w));
		if (isC(a)) return mkBin(E_ULT, mkConst(a->val - 1, w), b);
		if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_ULE, a->k[0], b->k[0]);
		break;
	case E_SLT:
		if (a == b) return mkConst(0, 1);
		if (isC(b) && a->kind == E_ZEXT && a->k[0]->w < w) {
			if (sextw(b->val, w) <= 0) return mkConst(0, 1);
			return mkBin(E_ULT, a, b);
		}
		if (isC(a) && b->kind == E_ZEXT && b->k[0]->w < w) {
			if (sextw(a->val, w) < 0) return mkConst(1, 1);
			return mkBin(E_ULT, a, b);
		}
		if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->k[0]->w < w && b->k[0]->w < w) return mkBin(E_ULT, a, b);
		break;
	case E_SLE:
		if (a == b) return mkConst(1, 1);
		if (isC(b) && b->val == (m >> 1)) return mkConst(1, 1);
		if (isC(a) && a->val == (m >> 1) + 1) return mkConst(1, 1);
		if (isC(b)) return mkBin(E_SLT, a, mkConst(b->val + 1, w));
		if (isC(a)) return mkBin(E_SLT, mkConst(a->val - 1, w), b);
		if (a->kind == E_ZEXT && b->kind == E_ZEXT && a->k[0]->w < w && b->k[0]->w < w) return mkBin(E_ULE, a, b);
		break;
	default: break;
	}
	// push through tables of constants
	if (isC(b) && a->kind == E_ITE && constLeaves(a, 6))
		return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
	if (isC(a) && b->kind == E_ITE && constLeaves(b, 6))
		return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
	return intern(k, isCmp(k) ? 1 : w, 0, a, b, 0);
}

EP mkZExt(EP a, int w) {
	if (a->w == w) return a;
	if (a->w > w) abort();
	if (isC(a)) return mkConst(a->val, w);
	if (a->kind == E_ZEXT) return mkZExt(a->k[0], w);
	if (a->kind == E_ITE && constLeaves(a, 6)) return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
	return intern(E_ZEXT, w, 0, a, 0, 0);
}
EP mkSExt(EP a, int w) {
	if (a->w == w) return a;
	if (isC(a)) return mkConst((u64)sextw(a->val, a->w), w);
	if (a->kind == E_ZEXT && a->k[0]->w < a->w) return mkZExt(a->k[0], w);
	if (a->kind == E_SEXT) return mkSExt(a->k[0], w);
	if (a->kind == E_ITE && constLeaves(a, 6)) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
	return intern(E_SEXT, w, 0, a, 0, 0);
}
EP mkExtract(EP a, int off, int w) {
	if (off == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(a->val >> off, w);
	switch (a->kind) {
	case E_EXTRACT: return mkExtract(a->k[0], (int)a->val + off, w);
	case E_CONCAT: {
		EP hi = a->k[0], lo = a->k[1];
		if (off + w <= lo->w) return mkExtract(lo, off, w);
		if (off >= lo->w) return mkExtract(hi, off - lo->w, w);
		return mkConcat(mkExtract(hi, 0, off + w - lo->w), mkExtract(lo, off, lo->w - off));
	}
	case E_ZEXT: {
		EP x = a->k[0];
		if (off >= x->w) return mkConst(0, w);
		if (off + w <= x->w) return mkExtract(x, off, w);
		return mkZExt(mkExtract(x, off, x->w - off), w);
	}
	case E_SEXT: {
		EP x = a->k[0];
		if (off + w <= x->w) return mkExtract(x, off, w);
		if (off < x->w) return mkSExt(mkExtract(x, off, x->w - off), w);
		break;
	}
	case E_ITE:
		if (constLeaves(a, 6) || isCI(a)) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
		break;
	case E_AND: case E_OR: case E_XOR:
		return mkBin(a->kind, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
	case E_ADD: case E_SUB: case E_MUL:
		if (off == 0) return mkBin(a->kind, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	default: break;
	}
	return intern(E_EXTRACT, w, (u64)off, a, 0, 0);
}
EP mkConcat(EP hi, EP lo) {
	int w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, w);
	if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
	if (hi->kind == E_EXTRACT && lo->kind == E_EXTRACT && hi->k[0] == lo->k[0] && hi->val == lo->val + lo->w)
		return mkExtract(hi->k[0], (int)lo->val, w);
	// hi is the rest of a sign/zero extension of something lo is the low part of
	if (hi->kind == E_CONCAT) {
		EP hl = hi->k[1];
		if (hl->kind == E_EXTRACT && lo->kind == E_EXTRACT && hl->k[0] == lo->k[0] && hl->val == lo->val + lo->w)
			return mkConcat(hi->k[0], mkExtract(hl->k[0], (int)lo->val, hl->w + lo->w));
		if (isC(hl) && isC(lo)) return mkConcat(hi->k[0], mkConst((hl->val << lo->w) | lo->val, hl->w + lo->w));
	}
	if (hi->kind == E_ZEXT && hi->k[0]->w < hi->w) return mkZExt(mkConcat(hi->k[0], lo), w);
	if (hi->kind == E_ITE && lo->kind == E_ITE && hi->k[0] == lo->k[0])
		return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
	if (hi->kind == E_ITE && isC(lo) && constLeaves(hi, 6)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
	if (lo->kind == E_ITE && isC(hi) && constLeaves(lo, 6)) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
	return intern(E_CONCAT, w, 0, hi, lo, 0);
}
EP mkIte(EP c, EP a, EP b) {
	if (isC(c)) return c->val ? a : b;
	if (a == b) return a;
	if (c->kind == E_NOT) return mkIte(c->k[0], b, a);
	if (a->w == 1) {
		if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
		if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
	}
	if (a->kind == E_ITE && a->k[0] == c) a = a->k[1];
	if (b->kind == E_ITE && b->k[0] == c) b = b->k[2];
	if (a == b) return a;
	return intern(E_ITE, a->w, 0, c, a, b);
}

static u64 g_stamp = 1;
void newEvalStamp() { g_stamp++; }
static u64 ev(EP e, const Model &m) {
	if (e->kind == E_CONST) return e->val;
	if (e->kind == E_VAR) return (e->val < m.size() ? m[e->val] : 0) & maskw(e->w);
	if (e->stamp == g_stamp) return e->ev;
	u64 r;
	switch (e->kind) {
	case E_NOT: r = !ev(e->k[0], m); break;
	case E_ZEXT: r = ev(e->k[0], m); break;
	case E_SEXT: r = (u64)sextw(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
	case E_EXTRACT: r = (ev(e->k[0], m) >> e->val) & maskw(e->w); break;
	case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
	case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
	default: r = foldBin(e->kind, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w); break;
	}
	e->stamp = g_stamp; e->ev = r;
	return r;
}
u64 evalExpr(EP e, const Model &m) { g_stamp++; return ev(e, m); }

const u64 *truthTable(EP e) {
	if (e->tt) return e->tt;
	u32 v = e->vars->v[0];
	static Model m;
	if (m.size() <= v) m.resize(v + 64, 0);
	u64 *t = (u64 *)calloc(4, 8);
	for (unsigned i = 0; i < 256; i++) {
		m[v] = i;
		g_stamp++;
		if (ev(e, m)) t[i >> 6] |= 1ULL << (i & 63);
	}
	m[v] = 0;
	e->tt = t;
	return t;
}

std::string exprStr(EP e, int d) {
	static const char *nm[] = {"","","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s"};
	char b[64];
	if (d < 0) return "..";
	switch (e->kind) {
	case E_CONST: snprintf(b, sizeof b, "%llu", (unsigned long long)e->val); return b;
	case E_VAR: return g_vars[e->val].name;
	case E_NOT: return "!(" + exprStr(e->k[0], d-1) + ")";
	case E_ZEXT: return "zx(" + exprStr(e->k[0], d-1) + ")";
	case E_SEXT: return "sx(" + exprStr(e->k[0], d-1) + ")";
	case E_EXTRACT: snprintf(b, sizeof b, "[%d+%d]", (int)e->val, e->w); return exprStr(e->k[0], d-1) + b;
	case E_CONCAT: return "(" + exprStr(e->k[0], d-1) + "." + exprStr(e->k[1], d-1) + ")";
	case E_ITE: return "(" + exprStr(e->k[0], d-1) + "?" + exprStr(e->k[1], d-1) + ":" + exprStr(e->k[2], d-1) + ")";
	default: return "(" + exprStr(e->k[0], d-1) + nm[e->kind] + exprStr(e->k[1], d-1) + ")";
	}
}
