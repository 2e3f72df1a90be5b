// Engine-side models of memory, string, character and formatting primitives.
#include "exec.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>

typedef bool (*BI)(State &, std::vector<Val> &, Val &);
bool memCopy(State &s, u64 did, u64 doff, u64 sid, u64 soff, u64 n);
void freeObj(State &s, u64 id);

static bool cstr(State &s, const Val &p, std::vector<Val> &out, u64 maxn = ~0ULL) {	// bytes before the NUL
	u64 id, off;
	out.clear();
	if (maxn == 0) return true;
	if (!resolve(s, p, 1, id, off, "string read")) return false;
	const Obj *o = s.get(id);
	for (u64 i = off;; i++) {
		if (out.size() >= maxn) return true;
		if (i >= o->size) { violation(s, "memory", "string read past the end of its object"); return false; }
		Val v = loadByte(o, i);
		if (v.e) {
			Dec d = decide(s, mkBin(E_EQ, v.e, mkConst(0, 8)));
			if (d == D_DEAD) return false;
			if (d == D_TRUE) return true;
			o = s.get(id);
		} else if (v.c == 0) return true;
		out.push_back(v);
	}
}
static bool cstrC(State &s, const Val &p, std::string &out) {	// concretised
	std::vector<Val> v;
	if (!cstr(s, p, v)) return false;
	out.clear();
	for (auto &b : v) { u64 c; if (!concretize(s, b, 8, c)) return false; out += (char)c; }
	return true;
}
static u64 newBytes(State &s, const std::vector<Val> &b, bool nul) {
	u64 a = allocObj(s, b.size() + (nul ? 1 : 0), OK_HEAP, false);
	Obj *o = s.getW(a >> OBJSHIFT);
	for (size_t i = 0; i < b.size(); i++) storeByte(o, i, b[i]);
	return a;
}

// ---- harness primitives ----
static std::string occ(State &s, const std::string &n) { int k = s.symCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static EP newSym(State &s, const std::string &name, int w) {
	// the same name on different paths denotes the same input
	static std::map<std::pair<std::string, int>, EP> memo;
	EP &e = memo[{name, w}];
	if (!e) e = mkVar(name, w, false);
	return e;
}
static bool b_symbolic(State &s, std::vector<Val> &a, Val &) {	// (ptr, n, name)
	std::string n; u64 sz, id, off;
	if (!cstrC(s, a[2], n) || !concretize(s, a[1], 64, sz) || !resolve(s, a[0], sz, id, off, "write")) return false;
	n = occ(s, n);
	SymRec r; r.name = n; Obj *o = s.getW(id);
	for (u64 i = 0; i < sz; i++) {
		Val v; v.e = newSym(s, n + "." + std::to_string(i), 8);
		storeByte(o, off + i, v); r.vars.push_back((u32)v.e->val); r.widths.push_back(8);
	}
	s.syms.push_back(r);
	return true;
}
static bool symInt(State &s, const Val &np, int w, Val &ret) {
	std::string n; if (!cstrC(s, np, n)) return false;
	n = occ(s, n);
	ret.e = newSym(s, n, w);
	SymRec r; r.name = n; r.vars.push_back((u32)ret.e->val); r.widths.push_back(w); s.syms.push_back(r);
	return true;
}
static bool b_i64(State &s, std::vector<Val> &a, Val &r) { return symInt(s, a[0], 64, r); }
static bool b_u32(State &s, std::vector<Val> &a, Val &r) { return symInt(s, a[0], 32, r); }
static bool b_u8(State &s, std::vector<Val> &a, Val &r) { Val x; if (!symInt(s, a[0], 8, x)) return false; r = x; return true; }
static bool doAssume(State &s, EP c) {
	if (isC(c)) return c->val != 0;
	if (!evalExpr(c, s.model)) {
		std::vector<EP> cs = s.cons; cs.push_back(c);
		Model m = s.model;
		SatRes r = solverCheck(cs, m);
		if (r != R_SAT) return false;
		s.model = m;
	}
	addCons(s, c);
	return true;
}
static bool b_assume(State &s, std::vector<Val> &a, Val &) {
	EP c = mkNot(mkBin(E_EQ, exprOf(a[0], 32), mkConst(0, 32)));
	return doAssume(s, c);
}
static bool b_range(State &s, std::vector<Val> &a, Val &r) {	// (name, lo, hi) -> int in [lo, hi]
	u64 lo, hi; if (!concretize(s, a[1], 32, lo) || !concretize(s, a[2], 32, hi)) return false;
	Val x;
	i64 l = sextw(lo, 32), h = sextw(hi, 32);
	if (l >= 0 && h <= 255) { if (!symInt(s, a[0], 8, x)) return false; x.e = mkZExt(x.e, 32); }
	else if (!symInt(s, a[0], 32, x)) return false;
	r = x;
	return doAssume(s, mkAnd(mkBin(E_SLE, mkConst(lo, 32), x.e), mkBin(E_SLE, x.e, mkConst(hi, 32))));
}
static bool b_assert(State &s, std::vector<Val> &a, Val &) {	// (cond, id)
	std::string id; if (!cstrC(s, a[1], id)) return false;
	g_asserts[id]++;
	EP c = mkNot(mkBin(E_EQ, exprOf(a[0], 32), mkConst(0, 32)));
	if (isC(c)) {
		if (c->val) return true;
		violation(s, "assert", id);
		return false;
	}
	std::vector<EP> cs = s.cons; cs.push_back(mkNot(c));
	Model m = s.model;
	SatRes r = solverCheck(cs, m);
	if (r == R_UNKNOWN) s.incomplete = true;
	if (r == R_SAT) { Model keep = s.model; s.model = m; violation(s, "assert", id); s.model = keep; }
	return doAssume(s, c);
}
static bool b_reach(State &s, std::vector<Val> &a, Val &) { std::string id; if (!cstrC(s, a[0], id)) return false; g_reach[id]++; s.trace.push_back(id); return true; }
static bool b_log(State &s, std::vector<Val> &a, Val &) { 
	std::vector<Val> v; if (!cstr(s, a[0], v)) return false; std::string id;
	for (auto &b : v) id += b.e ? (char)evalExpr(b.e, s.model) : (char)b.c;
	s.log.push_back(id); if (getenv("VP_TRACE")) fprintf(stderr, "LOG[%llu] %s\n", (unsigned long long)s.id, id.c_str()); return true; }
static bool b_end(State &s, std::vector<Val> &, Val &) { s.ended = true; return false; }
static bool b_param(State &s, std::vector<Val> &a, Val &r) {
	std::string n; if (!cstrC(s, a[0], n)) return false;
	auto it = g_params.find(n);
	if (it != g_params.end()) r.c = (u64)it->second; else r = a[1];
	return true;
}
static bool b_sparam(State &s, std::vector<Val> &a, Val &r) {	// file contents or literal string parameter
	std::string n; if (!cstrC(s, a[0], n)) return false;
	auto it = g_sparams.find(n);
	if (it == g_sparams.end()) { r.c = 0; return true; }
	std::vector<Val> b;
	for (char c : it->second) { Val v; v.c = (u8)c; b.push_back(v); }
	r.c = newBytes(s, b, true);
	return true;
}
static bool b_slurp(State &s, std::vector<Val> &a, Val &r) {	// host file -> bytes (inputs given on the engine's command line only)
	std::string n; u64 id, off; if (!cstrC(s, a[0], n) || !resolve(s, a[1], 8, id, off, "write")) return false;
	FILE *f = fopen(n.c_str(), "rb");
	if (!f) { r.c = 0; return true; }
	std::vector<Val> b; int c; while ((c = fgetc(f)) != EOF) { Val v; v.c = (u8)c; b.push_back(v); }
	fclose(f);
	Obj *o = s.getW(id); for (int i = 0; i < 8; i++) { Val v; v.c = (b.size() >> (8*i)) & 255; storeByte(o, off + (u64)i, v); }
	r.c = newBytes(s, b, true);
	return true;
}
static bool b_dump(State &s, std::vector<Val> &a, Val &) {	// (file, ptr, n): write bytes to a host file (engine validation)
	std::string n; u64 sz, id, off; if (!cstrC(s, a[0], n) || !concretize(s, a[2], 64, sz)) return false;
	FILE *f = fopen(n.c_str(), "wb"); if (!f) return true;
	if (sz && resolve(s, a[1], sz, id, off, "read")) { const Obj *o = s.get(id); for (u64 i = 0; i < sz; i++) { Val v = loadByte(o, off + i); fputc((int)(v.e ? evalExpr(v.e, s.model) : v.c), f); } }
	fclose(f);
	return true;
}
static bool b_live(State &s, std::vector<Val> &, Val &r) { r.c = s.heapLive; return true; }
static bool b_conc(State &s, std::vector<Val> &a, Val &r) { u64 x; if (!concretize(s, a[0], 64, x)) return false; r.c = x; return true; }
static bool b_issym(State &, std::vector<Val> &a, Val &r) { r.c = a[0].e != nullptr; return true; }

// ---- heap ----
static bool b_alloc(State &s, std::vector<Val> &a, Val &r) {
	u64 n; if (!concretize(s, a[0], 64, n)) return false;
	if (n > (1ULL << 28)) { r.c = 0; return true; }
	r.c = allocObj(s, n, OK_HEAP, true); return true;
}
static bool b_zalloc(State &s, std::vector<Val> &a, Val &r) {
	u64 n; if (!concretize(s, a[0], 64, n)) return false;
	if (n > (1ULL << 28)) { r.c = 0; return true; }
	r.c = allocObj(s, n, OK_HEAP, false); return true;
}
static bool b_free(State &s, std::vector<Val> &a, Val &) {
	u64 p; if (!concretize(s, a[0], 64, p)) return false;
	if (!p) return true;
	Obj *o = s.get(p >> OBJSHIFT);
	if (!o) { violation(s, "memory", "free of an invalid pointer"); return false; }
	if (o->freed) { violation(s, "memory", "double free"); return false; }
	if (o->kind != OK_HEAP || p != o->base) { violation(s, "memory", "free of a pointer that was not allocated"); return false; }
	freeObj(s, p >> OBJSHIFT);
	return true;
}
static bool b_realloc(State &s, std::vector<Val> &a, Val &r) {
	u64 p, n; if (!concretize(s, a[0], 64, p) || !concretize(s, a[1], 64, n)) return false;
	if (n > (1ULL << 28)) { r.c = 0; return true; }
	if (!p) { r.c = allocObj(s, n, OK_HEAP, true); return true; }
	Obj *o = s.get(p >> OBJSHIFT);
	if (!o || o->freed || o->kind != OK_HEAP || o->base != p) { violation(s, "memory", "realloc of an invalid pointer"); return false; }
	u64 q = allocObj(s, n, OK_HEAP, true);
	if (!memCopy(s, q >> OBJSHIFT, 0, p >> OBJSHIFT, 0, std::min(n, o->size))) return false;
	freeObj(s, p >> OBJSHIFT);
	r.c = q;
	return true;
}

// ---- mem/str ----
static bool b_memcpy(State &s, std::vector<Val> &a, Val &r) {
	u64 n, di, doff, si, soff; if (!concretize(s, a[2], 64, n)) return false;
	if (n) { if (!resolve(s, a[1], n, si, soff, "read") || !resolve(s, a[0], n, di, doff, "write") || !memCopy(s, di, doff, si, soff, n)) return false; }
	r = a[0]; return true;
}
static bool b_memset(State &s, std::vector<Val> &a, Val &r) {
	u64 n, di, doff; if (!concretize(s, a[2], 64, n)) return false;
	if (n) {
		if (!resolve(s, a[0], n, di, doff, "write")) return false;
		Obj *o = s.getW(di); Val v; setVal(v, mkExtract(exprOf(a[1], 32), 0, 8));
		for (u64 i = 0; i < n; i++) storeByte(o, doff + i, v);
	}
	r = a[0]; return true;
}
static bool b_strlen(State &s, std::vector<Val> &a, Val &r) { std::vector<Val> v; if (!cstr(s, a[0], v)) return false; r.c = v.size(); return true; }
static bool b_strnlen(State &s, std::vector<Val> &a, Val &r) { u64 n; if (!concretize(s, a[1], 64, n)) return false; std::vector<Val> v; if (!cstr(s, a[0], v, n)) return false; r.c = v.size(); return true; }
static EP lowerE(EP x) { return mkIte(mkBin(E_ULT, mkBin(E_ADD, x, mkConst((u64)-'A', x->w)), mkConst(26, x->w)), mkBin(E_ADD, x, mkConst(32, x->w)), x); }
static EP upperE(EP x) { return mkIte(mkBin(E_ULT, mkBin(E_ADD, x, mkConst((u64)-'a', x->w)), mkConst(26, x->w)), mkBin(E_ADD, x, mkConst((u64)-32, x->w)), x); }
static bool compare(State &s, const Val &p, const Val &q, bool nul, bool fold, u64 maxn, Val &r) {
	if (maxn == 0) { r.c = 0; return true; }
	u64 i1, o1, i2, o2;
	if (!resolve(s, p, 1, i1, o1, "string read") || !resolve(s, q, 1, i2, o2, "string read")) return false;
	const Obj *a = s.get(i1), *b = s.get(i2);
	std::vector<std::pair<EP, EP>> parts;	// (condition this position decides, value)
	EP pre = mkConst(1, 1), tail = mkConst(0, 32);
	for (u64 i = 0; i < maxn; i++) {
		if (o1 + i >= a->size || o2 + i >= b->size) {
			if (nul || true) {
				// reaching here must be impossible
				Dec d = decide(s, pre);
				if (d == D_DEAD) return false;
				if (d == D_TRUE) { violation(s, "memory", "comparison reads past the end of an object"); return false; }
				break;
			}
		}
		Val x = loadByte(a, o1 + i), y = loadByte(b, o2 + i);
		if (!x.e && !y.e) {
			int cx = (int)x.c, cy = (int)y.c;
			if (fold) { if (cx >= 'A' && cx <= 'Z') cx += 32; if (cy >= 'A' && cy <= 'Z') cy += 32; }
			if (cx != cy) { tail = mkConst(cx < cy ? ~0ULL : 1, 32); break; }
			if (nul && cx == 0) break;
			continue;
		}
		EP ex = exprOf(x, 8), ey = exprOf(y, 8);
		if (fold) { ex = lowerE(ex); ey = lowerE(ey); }
		EP eq = mkBin(E_EQ, ex, ey);
		EP sign = mkIte(mkBin(E_ULT, ex, ey), mkConst(~0ULL, 32), mkConst(1, 32));
		if (isC(eq) && !eq->val) { tail = sign; break; }
		if (!isC(eq)) { parts.push_back({mkNot(eq), sign}); pre = mkAnd(pre, eq); }
		if (nul) {
			EP z = mkBin(E_EQ, ex, mkConst(0, 8));
			if (isC(ey)) z = mkBin(E_EQ, ey, mkConst(0, 8));
			if (isC(z)) { if (z->val) break; }
			else { parts.push_back({z, mkConst(0, 32)}); pre = mkAnd(pre, mkNot(z)); }
		}
		if (isC(pre) && !pre->val) break;
	}
	EP e = tail;
	for (size_t i = parts.size(); i-- > 0;) e = mkIte(parts[i].first, parts[i].second, e);
	setVal(r, e);
	return true;
}
static bool b_strcmp(State &s, std::vector<Val> &a, Val &r) { return compare(s, a[0], a[1], true, false, ~0ULL, r); }
static bool b_strcasecmp(State &s, std::vector<Val> &a, Val &r) { return compare(s, a[0], a[1], true, true, ~0ULL, r); }
static bool b_strncmp(State &s, std::vector<Val> &a, Val &r) { u64 n; if (!concretize(s, a[2], 64, n)) return false; return compare(s, a[0], a[1], true, false, n, r); }
static bool b_strncasecmp(State &s, std::vector<Val> &a, Val &r) { u64 n; if (!concretize(s, a[2], 64, n)) return false; return compare(s, a[0], a[1], true, true, n, r); }
static bool b_memcmp(State &s, std::vector<Val> &a, Val &r) { u64 n; if (!concretize(s, a[2], 64, n)) return false; return compare(s, a[0], a[1], false, false, n, r); }
static bool findChar(State &s, std::vector<Val> &a, Val &r, bool rev, u64 maxn, bool mem) {
	u64 id, off; EP ch = mkExtract(exprOf(a[1], 32), 0, 8);
	if (maxn == 0) { r.c = 0; return true; }
	if (!resolve(s, a[0], 1, id, off, "string read")) return false;
	const Obj *o = s.get(id); u64 last = 0;
	for (u64 i = off;; i++) {
		if (i - off >= maxn) break;
		if (i >= o->size) { violation(s, "memory", "string read past the end of its object"); return false; }
		EP b = exprOf(loadByte(o, i), 8);
		Dec d = decide(s, mkBin(E_EQ, b, ch));
		if (d == D_DEAD) return false;
		if (d == D_TRUE) { last = o->base + i; if (!rev) break; }
		if (!mem) { d = decide(s, mkBin(E_EQ, b, mkConst(0, 8))); if (d == D_DEAD) return false; if (d == D_TRUE) break; }
		o = s.get(id);
	}
	r.c = last; return true;
}
static bool b_strchr(State &s, std::vector<Val> &a, Val &r) { return findChar(s, a, r, false, ~0ULL, false); }
static bool b_strrchr(State &s, std::vector<Val> &a, Val &r) { return findChar(s, a, r, true, ~0ULL, false); }
static bool b_memchr(State &s, std::vector<Val> &a, Val &r) { u64 n; if (!concretize(s, a[2], 64, n)) return false; return findChar(s, a, r, false, n, true); }

// ---- ctype (C locale) ----
static EP in(EP c, int lo, int hi) { return mkBin(E_ULT, mkBin(E_ADD, c, mkConst((u64)-lo, 32)), mkConst((u64)(hi - lo + 1), 32)); }
static void boolRet(Val &r, EP c) { setVal(r, mkZExt(c, 32)); }
#define CT(nm, ex) static bool nm(State &s, std::vector<Val> &a, Val &r) { EP c = exprOf(a[0], 32); (void)s; boolRet(r, ex); return true; }
CT(b_isdigit, in(c, '0', '9'))
CT(b_isalpha, mkOr(in(c, 'a', 'z'), in(c, 'A', 'Z')))
CT(b_isalnum, mkOr(mkOr(in(c, 'a', 'z'), in(c, 'A', 'Z')), in(c, '0', '9')))
CT(b_isspace, mkOr(mkBin(E_EQ, c, mkConst(' ', 32)), in(c, 9, 13)))
CT(b_isupper, in(c, 'A', 'Z'))
CT(b_islower, in(c, 'a', 'z'))
CT(b_isprint, in(c, 32, 126))
CT(b_iscntrl, mkOr(in(c, 0, 31), mkBin(E_EQ, c, mkConst(127, 32))))
CT(b_ispunct, mkAnd(in(c, 33, 126), mkNot(mkOr(mkOr(in(c, 'a', 'z'), in(c, 'A', 'Z')), in(c, '0', '9')))))
static bool b_tolower(State &, std::vector<Val> &a, Val &r) { setVal(r, lowerE(exprOf(a[0], 32))); return true; }
static bool b_toupper(State &, std::vector<Val> &a, Val &r) { setVal(r, upperE(exprOf(a[0], 32))); return true; }

// ---- numbers ----
// Digits of a Horner value made by our own integer reader, most significant first.
static std::map<EP, std::vector<EP>> readDigits;
// vp_strtoll(str, &endoff, &overflow): base 10
static bool b_strtoll(State &s, std::vector<Val> &a, Val &r) {
	std::vector<Val> v; u64 eid, eoff, oid, ooff;
	if (!cstr(s, a[0], v) || !resolve(s, a[1], 8, eid, eoff, "write") || !resolve(s, a[2], 4, oid, ooff, "write")) return false;
	size_t i = 0; bool neg = false;
	auto is = [&](const Val &b, EP cond, bool &out) { (void)b; Dec d = decide(s, cond); if (d == D_DEAD) return false; out = d == D_TRUE; return true; };
	while (i < v.size()) { EP c = mkZExt(exprOf(v[i], 8), 32); bool t; if (!is(v[i], mkOr(mkBin(E_EQ, c, mkConst(' ', 32)), in(c, 9, 13)), t)) return false; if (!t) break; i++; }
	if (i < v.size()) { EP c = exprOf(v[i], 8); bool t; if (!is(v[i], mkBin(E_EQ, c, mkConst('-', 8)), t)) return false; if (t) { neg = true; i++; } else { if (!is(v[i], mkBin(E_EQ, c, mkConst('+', 8)), t)) return false; if (t) i++; } }
	EP acc = mkConst(0, 64); size_t st = i; int over = 0; std::vector<EP> ds;
	for (; i < v.size(); i++) {
		EP c8 = exprOf(v[i], 8), c = mkZExt(c8, 32); bool t;
		if (!is(v[i], in(c, '0', '9'), t)) return false;
		if (!t) break;
		ds.push_back(c8);
		if (over) continue;
		EP d = mkZExt(mkBin(E_ADD, c8, mkConst((u64)-'0', 8)), 64);
		if (i - st >= 18) {
			u64 lim = neg ? 1ULL << 63 : (1ULL << 63) - 1;
			EP ov = mkOr(mkBin(E_ULT, mkConst(lim / 10, 64), acc), mkAnd(mkBin(E_EQ, acc, mkConst(lim / 10, 64)), mkBin(E_ULT, mkConst(lim % 10, 64), d)));
			if (!is(v[i], ov, t)) return false;
			if (t) { over = neg ? 2 : 1; continue; }
		}
		acc = mkBin(E_ADD, mkBin(E_MUL, acc, mkConst(10, 64)), d);
	}
	u64 end = i == st ? 0 : i;
	Obj *o = s.getW(eid); for (int k = 0; k < 8; k++) { Val b; b.c = (end >> (8*k)) & 255; storeByte(o, eoff + (u64)k, b); }
	o = s.getW(oid); for (int k = 0; k < 4; k++) { Val b; b.c = k ? 0 : (u64)over; storeByte(o, ooff + (u64)k, b); }
	if (over) { r.c = over == 2 ? 1ULL << 63 : (1ULL << 63) - 1; return true; }
	if (!isC(acc)) readDigits[acc] = ds;
	if (neg) acc = mkBin(E_SUB, mkConst(0, 64), acc);
	setVal(r, acc);
	return true;
}
static bool b_strtod(State &s, std::vector<Val> &a, Val &r) {	// vp_strtod(str, &endoff, &erange)
	std::string n; u64 eid, eoff, oid, ooff;
	if (!cstrC(s, a[0], n) || !resolve(s, a[1], 8, eid, eoff, "write") || !resolve(s, a[2], 4, oid, ooff, "write")) return false;
	char *ep; errno = 0; double d = strtod(n.c_str(), &ep); int er = errno == ERANGE; u64 end = (u64)(ep - n.c_str());
	Obj *o = s.getW(eid); for (int k = 0; k < 8; k++) { Val b; b.c = (end >> (8*k)) & 255; storeByte(o, eoff + (u64)k, b); }
	o = s.getW(oid); for (int k = 0; k < 4; k++) { Val b; b.c = k ? 0 : (u64)er; storeByte(o, ooff + (u64)k, b); }
	memcpy(&r.c, &d, 8);
	return true;
}

// ---- formatting ----
static bool fmtDec(State &s, EP v, bool sgn, std::vector<Val> &out, bool &negOut) {	// v: 64-bit
	negOut = false;
	if (sgn) { Dec d = decide(s, mkBin(E_SLT, v, mkConst(0, 64))); if (d == D_DEAD) return false; if (d == D_TRUE) { negOut = true; v = mkBin(E_SUB, mkConst(0, 64), v); } }
	if (isC(v)) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v->val); for (char *p = b; *p; p++) { Val x; x.c = (u8)*p; out.push_back(x); } return true; }
	u64 p10 = 10; int n = 1;
	for (; n < 20; n++, p10 *= 10) {
		Dec d = decide(s, mkBin(E_ULT, v, mkConst(p10, 64))); if (d == D_DEAD) return false;
		if (d == D_TRUE) break;
	}
	// single symbolic byte values: a table is cheaper than fresh digits
	auto rd = readDigits.find(v);
	if (rd != readDigits.end() && rd->second.size() >= (size_t)n) { auto &ds = rd->second; for (size_t i = ds.size() - (size_t)n; i < ds.size(); i++) { Val x; setVal(x, ds[i]); out.push_back(x); } return true; }
	std::vector<EP> ds;
	if (v->vars->v.size() == 1 && g_vars[v->vars->v[0]].w == 8) {
		u64 q = 1; for (int i = 1; i < n; i++) q *= 10;
		for (int i = 0; i < n; i++, q /= 10) {
			EP dig = mkBin(E_UREM, mkBin(E_UDIV, v, mkConst(q, 64)), mkConst(10, 64));
			ds.push_back(mkBin(E_ADD, mkExtract(dig, 0, 8), mkConst('0', 8)));
		}
	} else {
		static std::map<std::pair<EP, int>, std::vector<EP>> memo;
		auto &mm = memo[{v, n}];
		if (mm.empty()) for (int i = 0; i < n; i++) mm.push_back(mkVar("dec", 8, false));
		EP acc = mkConst(0, 64); EP rng = mkConst(1, 1);
		for (auto *d : mm) {
			acc = mkBin(E_ADD, mkBin(E_MUL, acc, mkConst(10, 64)), mkZExt(mkBin(E_ADD, d, mkConst((u64)-'0', 8)), 64));
			rng = mkAnd(rng, mkBin(E_ULT, mkBin(E_ADD, d, mkConst((u64)-'0', 8)), mkConst(10, 8)));
		}
		EP eq = mkBin(E_EQ, acc, v);
		if (!s.known.count(eq)) {
			// fix the model: the digits are determined by the value
			u64 x = evalExpr(v, s.model); std::string t = std::to_string(x);
			for (int i = 0; i < n; i++) { u32 id = (u32)mm[(size_t)i]->val; if (s.model.size() <= id) s.model.resize(id + 16, 0); s.model[id] = (u64)(u8)t[(size_t)i]; }
			addCons(s, rng); addCons(s, eq);
		}
		ds = mm;
	}
	for (auto *d : ds) { Val x; setVal(x, d); out.push_back(x); }
	return true;
}
// vp_format(fmt, va_list *ap, size_t *len) -> new NUL-terminated object
static bool b_format(State &s, std::vector<Val> &a, Val &r) {
	std::string fmt; if (!cstrC(s, a[0], fmt)) return false;
	u64 id, off; if (!resolve(s, a[1], 24, id, off, "read")) return false;
	const Obj *o = s.get(id); u64 area = 0;
	memcpy(&area, &o->d[off + 8], 8);
	auto next = [&](Val &v) -> bool {
		u64 i2, o2; Val p; p.c = area; if (!resolve(s, p, 8, i2, o2, "variadic argument read")) return false;
		const Obj *q = s.get(i2); EP e = nullptr; bool sym = false;
		for (u64 k = 0; k < 8; k++) if (!q->s.empty() && q->s[o2 + k]) sym = true;
		if (!sym) { v.e = nullptr; memcpy(&v.c, &q->d[o2], 8); }
		else { for (u64 k = 0; k < 8; k++) { EP b = exprOf(loadByte(q, o2 + k), 8); e = e ? mkConcat(b, e) : b; } setVal(v, e); }
		area += 8;
		return true;
	};
	std::vector<Val> out;
	auto putc = [&](char c) { Val v; v.c = (u8)c; out.push_back(v); };
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { putc(fmt[i]); continue; }
		size_t st = i++;
		bool left = false, zero = false, plus = false, space = false, alt = false; int width = -1, prec = -1;
		for (;; i++) { if (fmt[i] == '-') left = true; else if (fmt[i] == '0') zero = true; else if (fmt[i] == '+') plus = true; else if (fmt[i] == ' ') space = true; else if (fmt[i] == '#') alt = true; else break; }
		if (fmt[i] == '*') { Val v; u64 x; if (!next(v) || !concretize(s, v, v.e ? v.e->w : 64, x)) return false; width = (int)x; if (width < 0) { left = true; width = -width; } i++; }
		else if (isdigit((u8)fmt[i])) { width = 0; while (isdigit((u8)fmt[i])) width = width * 10 + (fmt[i++] - '0'); }
		if (fmt[i] == '.') { i++; prec = 0; if (fmt[i] == '*') { Val v; u64 x; if (!next(v) || !concretize(s, v, v.e ? v.e->w : 64, x)) return false; prec = (int)x; i++; } else while (isdigit((u8)fmt[i])) prec = prec * 10 + (fmt[i++] - '0'); }
		int lng = 0;
		while (fmt[i] == 'l' || fmt[i] == 'z' || fmt[i] == 'j' || fmt[i] == 't' || fmt[i] == 'h') { if (fmt[i] != 'h') lng++; i++; }
		std::vector<Val> piece; bool neg = false;
		switch (fmt[i]) {
		case '%': putc('%'); continue;
		case 'c': { Val v; if (!next(v)) return false; Val x; setVal(x, mkExtract(exprOf(v, 64), 0, 8)); piece.push_back(x); break; }
		case 's': {
			Val v; if (!next(v)) return false;
			u64 p; if (!concretize(s, v, 64, p)) return false;
			Val pv; pv.c = p;
			if (!p) { violation(s, "memory", "null string passed to a formatted print"); return false; }
			if (!cstr(s, pv, piece, prec >= 0 ? (u64)prec : ~0ULL)) return false;
			break;
		}
		case 'd': case 'i': case 'u': {
			Val v; if (!next(v)) return false;
			bool sg = fmt[i] != 'u'; EP e = exprOf(v, 64);
			if (!lng) { e = mkExtract(e, 0, 32); e = sg ? mkSExt(e, 64) : mkZExt(e, 64); }
			if (!fmtDec(s, e, sg, piece, neg)) return false;
			while (prec >= 0 && (int)piece.size() < prec) { Val z; z.c = '0'; piece.insert(piece.begin(), z); }
			if (neg || plus || space) { Val z; z.c = neg ? '-' : plus ? '+' : ' '; if (zero && !left && width > 0) while ((int)piece.size() + 1 < width) { Val q; q.c = '0'; piece.insert(piece.begin(), q); } piece.insert(piece.begin(), z); }
			break;
		}
		case 'x': case 'X': case 'o': case 'p': {
			Val v; if (!next(v)) return false; u64 x;
			if (v.e && (fmt[i] == 'x' || fmt[i] == 'X') && !alt) {
				EP e = exprOf(v, 64); if (!lng) e = mkZExt(mkExtract(e, 0, 32), 64);
				int n = 1; for (; n < 16; n++) { Dec d = decide(s, mkBin(E_ULT, e, mkConst(1ULL << (4 * n), 64))); if (d == D_DEAD) return false; if (d == D_TRUE) break; }
				for (int k = n; k < prec; k++) { Val z; z.c = '0'; piece.push_back(z); }
				for (int k = n - 1; k >= 0; k--) { EP nib = mkZExt(mkExtract(e, 4 * k, 4), 8); Val z; setVal(z, mkIte(mkBin(E_ULT, nib, mkConst(10, 8)), mkBin(E_ADD, nib, mkConst('0', 8)), mkBin(E_ADD, nib, mkConst((u64)((fmt[i] == 'x' ? 'a' : 'A') - 10), 8)))); piece.push_back(z); }
				break;
			}
			if (!concretize(s, v, 64, x)) return false;
			if (!lng && fmt[i] != 'p') x &= 0xffffffff;
			char b[40]; snprintf(b, sizeof b, fmt[i] == 'x' ? (alt ? "%#llx" : "%llx") : fmt[i] == 'X' ? "%llX" : fmt[i] == 'o' ? "%llo" : "0x%llx", (unsigned long long)x);
			for (char *q = b; *q; q++) { Val z; z.c = (u8)*q; piece.push_back(z); }
			if (fmt[i] != 'p' && !alt) while (prec >= 0 && (int)piece.size() < prec) { Val z; z.c = '0'; piece.insert(piece.begin(), z); }
			break;
		}
		case 'g': case 'f': case 'e': case 'G': case 'E': {
			Val v; if (!next(v)) return false; u64 x; if (!concretize(s, v, 64, x)) return false;
			double d; memcpy(&d, &x, 8); char b[2600], f2[32];
			snprintf(f2, sizeof f2, prec >= 0 ? "%%.%d%c" : "%%%.0d%c", prec >= 0 ? prec : 0, fmt[i]);
			if (prec < 0) snprintf(f2, sizeof f2, "%%%c", fmt[i]);
			snprintf(b, sizeof b, f2, d);
			for (char *q = b; *q; q++) { Val z; z.c = (u8)*q; piece.push_back(z); }
			break;
		}
		default: fprintf(stderr, "format: unsupported directive %s\n", fmt.c_str() + st); exit(3);
		}
		int pad = width - (int)piece.size();
		if (!left) for (int k = 0; k < pad; k++) putc(zero && fmt[i] != 's' && fmt[i] != 'c' ? '0' : ' ');
		out.insert(out.end(), piece.begin(), piece.end());
		if (left) for (int k = 0; k < pad; k++) putc(' ');
	}
	u64 li, lo; if (!resolve(s, a[2], 8, li, lo, "write")) return false;
	Obj *l = s.getW(li); for (int k = 0; k < 8; k++) { Val b; b.c = (out.size() >> (8*k)) & 255; storeByte(l, lo + (u64)k, b); }
	r.c = newBytes(s, out, true);
	return true;
}
// vp_fill(dst, src, n): copy that tolerates overlapping growth; vp_append(buf*, ...) is done in C
static bool b_abort(State &s, std::vector<Val> &, Val &) { violation(s, "abort", "abort() called"); return false; }
static bool b_assertfail(State &s, std::vector<Val> &a, Val &) { std::string e; if (!cstrC(s, a[0], e)) return false; violation(s, "abort", "assertion failed in the code under test: " + e); return false; }
static bool b_fail(State &s, std::vector<Val> &a, Val &) { std::string e; if (!cstrC(s, a[0], e)) return false; g_asserts[e]++; violation(s, "assert", e); return false; }

static const struct { const char *n; BI f; } tab[] = {
	{"vp_symbolic", b_symbolic}, {"vp_i64", b_i64}, {"vp_u32", b_u32}, {"vp_u8", b_u8}, {"vp_range", b_range}, {"vp_assume", b_assume}, {"vp_assert_", b_assert},
	{"vp_reach", b_reach}, {"vp_log", b_log}, {"vp_end", b_end}, {"vp_param", b_param}, {"vp_sparam", b_sparam}, {"vp_slurp", b_slurp}, {"vp_dump", b_dump}, {"vp_live", b_live},
	{"vp_conc", b_conc}, {"vp_is_symbolic", b_issym}, {"vp_fail", b_fail},
	{"vp_alloc", b_alloc}, {"vp_zalloc", b_zalloc}, {"vp_free", b_free}, {"vp_realloc", b_realloc},
	{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_memcmp}, {"strlen", b_strlen}, {"strnlen", b_strnlen},
	{"strcmp", b_strcmp}, {"strcoll", b_strcmp}, {"strcasecmp", b_strcasecmp}, {"strncmp", b_strncmp}, {"strncasecmp", b_strncasecmp}, {"strchr", b_strchr}, {"strrchr", b_strrchr}, {"memchr", b_memchr},
	{"isdigit", b_isdigit}, {"isalpha", b_isalpha}, {"isalnum", b_isalnum}, {"isspace", b_isspace}, {"isupper", b_isupper}, {"islower", b_islower}, {"isprint", b_isprint}, {"iscntrl", b_iscntrl}, {"ispunct", b_ispunct},
	{"tolower", b_tolower}, {"toupper", b_toupper}, {"vp_strtoll", b_strtoll}, {"vp_strtod", b_strtod}, {"vp_format", b_format},
	{"abort", b_abort}, {"__assert_fail", b_assertfail},
};
int builtinByName(const std::string &n) { for (size_t i = 0; i < sizeof tab / sizeof *tab; i++) if (n == tab[i].n) return (int)i; return -1; }
bool callBuiltin(State &s, MInst &, MFunc *f, std::vector<Val> &args, Val &ret, bool &) { return tab[f->builtin].f(s, args, ret); }
