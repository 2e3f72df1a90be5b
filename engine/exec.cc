// Path-forking symbolic executor.
#include "exec.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <unistd.h>

MModule *MM; Limits g_lim; std::vector<Violation> g_viol;
std::map<std::string, i64> g_params; std::map<std::string, std::string> g_sparams;
std::map<std::string, u64> g_reach, g_asserts;
u64 g_nforks = 0, g_domDec = 0;
static u64 g_paths = 0, g_pathsOk = 0, g_instr = 0, g_incomplete = 0, g_nstates = 0, g_maxdepth = 0, g_branches = 0;
static std::vector<State *> work;
static std::set<std::string> violSeen;
static std::set<std::string> unsupSeen;
static std::set<std::string> undefWarn;

State::State(const State &o) : id(++g_nstates), st(o.st), chunks(o.chunks), nextObj(o.nextObj), cons(o.cons), known(o.known), dom(o.dom), ent(o.ent),
	model(o.model), syms(o.syms), symCount(o.symCount), digits(o.digits), instrs(o.instrs), depth(o.depth), heapLive(o.heapLive), incomplete(o.incomplete), log(o.log), trace(o.trace) {
	for (auto *c : chunks) if (c) c->refs++;
}
State::~State() {
	for (auto *c : chunks) if (c && --c->refs == 0) { for (auto *o : c->o) if (o && --o->refs == 0) delete o; delete c; }
}
static Chunk *privChunk(State *s, size_t ci) {
	if (ci >= s->chunks.size()) s->chunks.resize(ci + 1, nullptr);
	Chunk *&c = s->chunks[ci];
	if (!c) { c = new Chunk; memset(c->o, 0, sizeof c->o); return c; }
	if (c->refs > 1) { Chunk *n = new Chunk; memcpy(n->o, c->o, sizeof n->o); for (auto *o : n->o) if (o) o->refs++; c->refs--; c = n; }
	return c;
}
Obj *State::getW(u64 id) {
	Chunk *c = privChunk(this, id >> 8);
	Obj *&o = c->o[id & 255];
	if (!o) return nullptr;
	if (o->refs > 1) { Obj *n = new Obj(*o); n->refs = 1; o->refs--; o = n; }
	return o;
}
void State::put(u64 id, Obj *o) { Chunk *c = privChunk(this, id >> 8); Obj *&p = c->o[id & 255]; if (p && --p->refs == 0) delete p; p = o; }

EP exprOf(const Val &v, int w) { return v.e ? v.e : mkConst(v.c, w); }
void setVal(Val &d, EP e) { if (isC(e)) { d.e = nullptr; d.c = e->val; } else { d.e = e; d.c = 0; } }

static std::string locOf(State &s) {
	if (s.st.empty()) return "?";
	Frame &f = s.st.back(); 
	if (f.pc < 0 || (size_t)f.pc >= f.f->code.size()) return f.f->name;
	MInst &mi = f.f->code[(size_t)f.pc];
	return (mi.file >= 0 ? MM->files[(size_t)mi.file] : f.f->file) + ":" + std::to_string(mi.line) + " (" + f.f->name + ")";
}
static std::string stackOf(State &s) {
	std::string r;
	for (size_t i = s.st.size(); i-- > 0 && r.size() < 800;) {
		Frame &f = s.st[i]; int l = 0;
		if (f.pc >= 0 && (size_t)f.pc < f.f->code.size()) l = f.f->code[(size_t)f.pc].line;
		r += f.f->name + ":" + std::to_string(l) + " < ";
	}
	return r;
}
std::vector<std::pair<std::string, std::string>> inputsOf(const State &s) {
	std::vector<std::pair<std::string, std::string>> out;
	for (auto &r : s.syms) {
		std::string hex; char b[4];
		for (size_t i = 0; i < r.vars.size(); i++) {
			u64 x = r.vars[i] < s.model.size() ? s.model[r.vars[i]] : 0;
			for (int k = 0; k < r.widths[i] / 8; k++) { snprintf(b, sizeof b, "%02x", (unsigned)((x >> (8*k)) & 255)); hex += b; }
		}
		out.push_back({r.name, hex});
	}
	return out;
}
static u64 g_pathAudits = 0, g_auditBad = 0, g_domAudits = 0;
static bool g_noDom = false; static u64 g_domAuditMax = 200;
void violation(State &s, const std::string &kind, const std::string &msg) {
	s.bad = true;
	Violation v; v.kind = kind; v.msg = msg; v.loc = locOf(s); v.stack = stackOf(s); v.path = s.id;
	std::string key = kind + "|" + v.loc + "|" + msg;
	for (auto &l : s.log) key += "|" + l;
	v.log = s.log;
	if (violSeen.count(key)) return;
	violSeen.insert(key);
	// the solver has the last word on whether this path exists, and gives the input that takes it
	if (!s.cons.empty()) {
		Model m = s.model; SatRes r = solverCheck(s.cons, m); g_pathAudits++;
		if (r == R_UNSAT) { g_auditBad++; fprintf(stderr, "ENGINE: path condition of a violation is unsatisfiable (%s)\n", msg.c_str()); return; }
		if (r == R_SAT) s.model = m;
	}
	v.vals = inputsOf(s);
	g_viol.push_back(v);
	fprintf(stderr, "VIOL %s: %s at %s\n   stack %s\n", kind.c_str(), msg.c_str(), v.loc.c_str(), v.stack.c_str());
	for (auto &l : s.log) fprintf(stderr, "   log: %s\n", l.c_str());
	for (auto &p : v.vals) {
		std::string a; for (size_t i = 0; i + 1 < p.second.size(); i += 2) { int c = (int)strtol(p.second.substr(i, 2).c_str(), 0, 16); a += (c >= 32 && c < 127) ? (char)c : '.'; }
		fprintf(stderr, "   %s = %s \"%s\"\n", p.first.c_str(), p.second.c_str(), a.c_str());
	}
}

// ---- constraints ----
static Dom &domOf(State &s, u32 v) { auto it = s.dom.find(v); if (it == s.dom.end()) it = s.dom.insert({v, Dom{~0ULL, ~0ULL, ~0ULL, ~0ULL}}).first; return it->second; }
static bool isEnt(State &s, u32 v) { return v < s.ent.size() && s.ent[v]; }
// 0 false, 1 true, 2 unknown
static int tri(State &s, EP c, int d = 0) {
	if (isC(c)) return (int)c->val;
	if (s.known.count(c)) return 1;
	if (!g_noDom && c->vars->v.size() == 1 && g_vars[c->vars->v[0]].w == 8) {
		const u64 *t = truthTable(c); Dom &m = domOf(s, c->vars->v[0]);
		bool any = false, all = true;
		for (int i = 0; i < 4; i++) { if (t[i] & m[i]) any = true; if (~t[i] & m[i]) all = false; }
		return all ? 1 : any ? 2 : 0;
	}
	if (c->kind == E_NOT) { if (s.known.count(c->k[0])) return 0; int r = d < 40 ? tri(s, c->k[0], d + 1) : 2; return r == 2 ? 2 : !r; }
	EP nc = nullptr;
	if (c->kind >= E_ULT && c->kind <= E_SLE) { nc = mkNot(c); if (s.known.count(nc)) return 0; }
	if (s.known.count(mkNot(c))) return 0;
	if (d > 40) return 2;
	if (c->kind == E_AND) { int a = tri(s, c->k[0], d + 1); if (a == 0) return 0; int b = tri(s, c->k[1], d + 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : 2; }
	if (c->kind == E_OR) { int a = tri(s, c->k[0], d + 1); if (a == 1) return 1; int b = tri(s, c->k[1], d + 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : 2; }
	if (c->kind == E_ITE) { int a = tri(s, c->k[0], d + 1); if (a == 1) return tri(s, c->k[1], d + 1); if (a == 0) return tri(s, c->k[2], d + 1); return 2; }
	return 2;
}
bool addCons(State &s, EP c) {
	if (isC(c)) return c->val != 0;
	if (s.known.count(c)) return true;
	if (c->kind == E_AND) { return addCons(s, c->k[0]) && addCons(s, c->k[1]); }
	if (c->kind == E_NOT && c->k[0]->kind == E_OR) return addCons(s, mkNot(c->k[0]->k[0])) && addCons(s, mkNot(c->k[0]->k[1]));
	s.known.insert(c);
	s.cons.push_back(c);
	auto &v = c->vars->v;
	if (v.size() == 1 && g_vars[v[0]].w == 8) {
		const u64 *t = truthTable(c); Dom &m = domOf(s, v[0]);
		for (int i = 0; i < 4; i++) m[i] &= t[i];
	} else for (u32 x : v) { if (s.ent.size() <= x) s.ent.resize(x + 32, false); s.ent[x] = true; }
	return true;
}
static void slice(State &s, EP c, std::vector<EP> &out) {
	const VarSet *vs = c->vars;
	std::vector<char> used(s.cons.size(), 0);
	bool ch = true;
	auto inter = [](const VarSet *a, const VarSet *b) {
		auto i = a->v.begin(), j = b->v.begin();
		while (i != a->v.end() && j != b->v.end()) { if (*i == *j) return true; if (*i < *j) ++i; else ++j; }
		return false;
	};
	while (ch) {
		ch = false;
		for (size_t i = 0; i < s.cons.size(); i++) if (!used[i] && inter(s.cons[i]->vars, vs)) {
			used[i] = 1; out.push_back(s.cons[i]);
			const VarSet *n = unionVars(vs, s.cons[i]->vars);
			if (n != vs) { vs = n; ch = true; }
		}
	}
	out.push_back(c);
}
static SatRes feasible(State &s, EP c, Model &m) {
	std::vector<EP> cs; slice(s, c, cs);
	return solverCheck(cs, m);
}
static bool undefCheck(State &s, EP c) {
	for (u32 v : c->vars->v) if (g_vars[v].undef) {
		violation(s, "uninit", "decision depends on uninitialised memory");
		return true;
	}
	return false;
}
Dec decide(State &s, EP c) {
	if (isC(c)) return c->val ? D_TRUE : D_FALSE;
	int t = tri(s, c);
	if (t != 2) {
		g_domDec++;
		if (g_domAudits < g_domAuditMax) {	// check the shortcut against the solver
			g_domAudits++; Model m; SatRes r = feasible(s, t ? mkNot(c) : c, m);
			if (r == R_SAT) { g_auditBad++; fprintf(stderr, "ENGINE: shortcut disagrees with the solver\n"); }
		}
		return t ? D_TRUE : D_FALSE;
	}
	g_branches++;
	EP nc = mkNot(c);
	bool side = evalExpr(c, s.model) != 0;
	EP sc = side ? c : nc, oc = side ? nc : c;
	Model om = s.model; SatRes r;
	auto &vv = c->vars->v;
	if (!g_noDom && vv.size() == 1 && g_vars[vv[0]].w == 8 && !isEnt(s, vv[0])) {
		const u64 *tt = truthTable(oc); Dom &m = domOf(s, vv[0]);
		r = R_UNSAT;
		for (int i = 0; i < 4; i++) { u64 x = tt[i] & m[i]; if (x) { if (om.size() <= vv[0]) om.resize(vv[0] + 16, 0); om[vv[0]] = (u64)i * 64 + (u64)__builtin_ctzll(x); r = R_SAT; break; } }
		g_domDec++;
		if (g_domAudits < g_domAuditMax) {
			g_domAudits++; Model m; SatRes q = feasible(s, oc, m);
			if (q != R_UNKNOWN && q != r) { g_auditBad++; fprintf(stderr, "ENGINE: shortcut disagrees with the solver\n"); }
		}
	} else r = feasible(s, oc, om);
	if (r == R_UNKNOWN) { s.incomplete = true; g_incomplete++; }
	if (r == R_SAT) {
		if (undefCheck(s, c)) return D_DEAD;
		g_nforks++;
		State *n = new State(s);
		n->model = om; n->depth++;
		addCons(*n, oc);
		work.push_back(n);
		s.depth++;
	}
	addCons(s, sc);
	return side ? D_TRUE : D_FALSE;
}
bool concretize(State &s, const Val &v, int w, u64 &out) {
	if (!v.e) { out = v.c; return true; }
	out = evalExpr(v.e, s.model);
	Dec d = decide(s, mkBin(E_EQ, v.e, mkConst(out, w)));
	return d == D_TRUE;
}

// ---- memory ----
u64 allocObj(State &s, u64 size, ObjKind k, bool undef) {
	Obj *o = new Obj; u64 id = s.nextObj;
	s.nextObj += 1 + (size >> OBJSHIFT);
	o->base = id << OBJSHIFT; o->size = size; o->kind = k; o->d.assign(size, 0);
	if (undef) o->und.assign(size, 1);
	s.put(id, o);
	if (k == OK_HEAP) s.heapLive++;
	return o->base;
}
static Obj *tomb() { static Obj *t = nullptr; if (!t) { t = new Obj; t->freed = true; } return t; }
void freeObj(State &s, u64 id) {
	Obj *o = s.get(id);
	if (o->kind == OK_HEAP) s.heapLive--;
	tomb()->refs++;
	s.put(id, tomb());
}
Val loadByte(const Obj *o, u64 off) {
	Val v;
	if (!o->s.empty() && o->s[off]) { v.e = o->s[off]; return v; }
	if (!o->und.empty() && o->und[off]) { static u64 n = 0; v.e = mkVar("undef" + std::to_string(n++), 8, true); return v; }
	v.c = o->d[off];
	return v;
}
void storeByte(Obj *o, u64 off, const Val &v) {
	if (v.e) { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = v.e; }
	else { if (!o->s.empty()) o->s[off] = nullptr; o->d[off] = (u8)v.c; }
	if (!o->und.empty()) o->und[off] = 0;
}
static std::string memMsg(State &s, u64 addr, u64 n, const char *what) {
	char b[200]; Obj *o = s.get(addr >> OBJSHIFT);
	if (addr < (1ULL << OBJSHIFT)) snprintf(b, sizeof b, "%s of %llu byte(s) through a null pointer", what, (unsigned long long)n);
	else if (!o) snprintf(b, sizeof b, "%s of %llu byte(s) at an unmapped address", what, (unsigned long long)n);
	else if (o->freed) snprintf(b, sizeof b, "%s of %llu byte(s) after free", what, (unsigned long long)n);
	else snprintf(b, sizeof b, "%s of %llu byte(s) out of bounds", what, (unsigned long long)n);
	return b;
}
static bool okAddr(State &s, u64 addr, u64 n, u64 &id) {
	id = addr >> OBJSHIFT; Obj *o = s.get(id);
	if (!o || o->freed) return false;
	u64 off = addr - o->base;
	return off <= o->size && n <= o->size - off;
}
bool resolve(State &s, const Val &p, u64 n, u64 &id, u64 &off, const char *what) {
	u64 a;
	if (!concretize(s, p, 64, a)) return false;
	if (!okAddr(s, a, n, id)) { violation(s, "memory", memMsg(s, a, n, what)); return false; }
	off = a - s.get(id)->base;
	return true;
}
static bool loadN(State &s, const Val &p, u64 add, int n, int w, Val &out) {
	Val q = p;
	if (q.e) { EP e = mkBin(E_ADD, q.e, mkConst(add, 64)); setVal(q, e); } else q.c += add;
	auto rd = [&](const Obj *o, u64 off, Val &r) {
		bool sym = false;
		if (!o->s.empty()) for (int i = 0; i < n; i++) if (o->s[off + (u64)i]) { sym = true; break; }
		if (!sym && !o->und.empty()) for (int i = 0; i < n; i++) if (o->und[off + (u64)i]) { sym = true; break; }
		if (!sym) { u64 v = 0; memcpy(&v, &o->d[off], (size_t)n); r.e = nullptr; r.c = v & maskw(w); return; }
		EP e = nullptr;
		for (int i = 0; i < n; i++) { Val b = loadByte(o, off + (u64)i); EP x = exprOf(b, 8); e = e ? mkConcat(x, e) : x; }
		if (e->w > w) e = mkExtract(e, 0, w);
		setVal(r, e);
	};
	if (!q.e) {
		u64 id;
		if (!okAddr(s, q.c, (u64)n, id)) { violation(s, "memory", memMsg(s, q.c, (u64)n, "read")); return false; }
		Obj *o = s.get(id);
		rd(o, q.c - o->base, out);
		return true;
	}
	// symbolic address: find the object, fork on leaving it, then a table read
	u64 a = evalExpr(q.e, s.model), id;
	if (!okAddr(s, a, (u64)n, id)) {
		if (undefCheck(s, q.e)) return false;
		violation(s, "memory", memMsg(s, a, (u64)n, "read")); return false; }
	Obj *o = s.get(id);
	EP offE = mkBin(E_SUB, q.e, mkConst(o->base, 64));
	EP inb = mkBin(E_ULE, offE, mkConst(o->size - (u64)n, 64));
	Dec d = decide(s, inb);
	if (d != D_TRUE) return false;
	std::vector<u64> offs;
	if (offE->vars->v.size() == 1 && g_vars[offE->vars->v[0]].w == 8) {
		Dom dm = domOf(s, offE->vars->v[0]); std::set<u64> st; Model m = s.model; u32 v = offE->vars->v[0];
		if (m.size() <= v) m.resize(v + 1, 0);
		for (unsigned i = 0; i < 256; i++) if (dm[i >> 6] >> (i & 63) & 1) { m[v] = i; u64 x = evalExpr(offE, m); if (x <= o->size - (u64)n) st.insert(x); }
		offs.assign(st.begin(), st.end());
	} else {
		EP ex = mkConst(1, 1); Model m = s.model;
		u64 cur = evalExpr(offE, s.model);
		for (;;) {
			offs.push_back(cur);
			ex = mkAnd(ex, mkNot(mkBin(E_EQ, offE, mkConst(cur, 64))));
			if (offs.size() > 300) { s.incomplete = true; g_incomplete++; break; }
			SatRes r = isC(ex) ? (ex->val ? R_SAT : R_UNSAT) : feasible(s, ex, m);
			if (r == R_UNKNOWN) { s.incomplete = true; g_incomplete++; }
			if (r != R_SAT) break;
			cur = evalExpr(offE, m);
		}
	}
	EP e = nullptr;
	for (size_t i = offs.size(); i-- > 0;) {
		Val v; rd(o, offs[i], v); EP x = exprOf(v, w);
		e = e ? mkIte(mkBin(E_EQ, offE, mkConst(offs[i], 64)), x, e) : x;
	}
	setVal(out, e);
	return true;
}
static bool storeN(State &s, const Val &p, u64 add, int n, int w, const Val &v) {
	Val q = p; u64 a;
	if (q.e) { if (!concretize(s, q, 64, a)) return false; } else a = q.c;
	a += add;
	u64 id;
	if (!okAddr(s, a, (u64)n, id)) { violation(s, "memory", memMsg(s, a, (u64)n, "write")); return false; }
	Obj *o = s.getW(id);
	if (o->ro) { violation(s, "memory", "write to constant memory"); return false; }
	u64 off = a - o->base;
	if (!v.e) {
		memcpy(&o->d[off], &v.c, (size_t)n);
		if (!o->s.empty()) for (int i = 0; i < n; i++) o->s[off + (u64)i] = nullptr;
	} else {
		if (o->s.empty()) o->s.assign(o->size, nullptr);
		EP e = v.e;
		if (e->w < n * 8) e = mkZExt(e, n * 8);
		for (int i = 0; i < n; i++) { EP b = mkExtract(e, i * 8, 8); if (isC(b)) { o->s[off + (u64)i] = nullptr; o->d[off + (u64)i] = (u8)b->val; } else o->s[off + (u64)i] = b; }
	}
	if (!o->und.empty()) for (int i = 0; i < n; i++) o->und[off + (u64)i] = 0;
	return true;
}
bool memCopy(State &s, u64 did, u64 doff, u64 sid, u64 soff, u64 n) {
	if (!n) return true;
	Obj *d = s.getW(did); Obj *o = s.get(sid);
	if (d->ro) { violation(s, "memory", "write to constant memory"); return false; }
	if (o->s.empty() && o->und.empty()) {
		memmove(&d->d[doff], &o->d[soff], n);
		if (!d->s.empty()) std::fill(d->s.begin() + (long)doff, d->s.begin() + (long)(doff + n), nullptr);
		if (!d->und.empty()) std::fill(d->und.begin() + (long)doff, d->und.begin() + (long)(doff + n), 0);
		return true;
	}
	std::vector<u8> bd(o->d.begin() + (long)soff, o->d.begin() + (long)(soff + n)), bu(n, 0); std::vector<EP> bs(n, nullptr);
	if (!o->s.empty()) std::copy(o->s.begin() + (long)soff, o->s.begin() + (long)(soff + n), bs.begin());
	if (!o->und.empty()) std::copy(o->und.begin() + (long)soff, o->und.begin() + (long)(soff + n), bu.begin());
	bool anyS = false, anyU = false; for (u64 i = 0; i < n; i++) { if (bs[i]) anyS = true; if (bu[i]) anyU = true; }
	if (anyS && d->s.empty()) d->s.assign(d->size, nullptr);
	if (anyU && d->und.empty()) d->und.assign(d->size, 0);
	for (u64 i = 0; i < n; i++) { d->d[doff+i] = bd[i]; if (!d->s.empty()) d->s[doff+i] = bs[i]; if (!d->und.empty()) d->und[doff+i] = bu[i]; }
	return true;
}

// ---- interpreter ----
static double asD(u64 c, int w) { if (w == 32) { float f; u32 x = (u32)c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fromD(double d, int w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 c; memcpy(&c, &d, 8); return c; }

static inline Val gv(Frame &f, const Opd &o) { if (o.reg >= 0) return f.regs[(size_t)o.reg]; Val v; v.c = o.c; return v; }

static void takeEdge(Frame &f, const Edge &e) {
	size_t n = e.copies.size();
	if (n == 1) f.regs[(size_t)e.copies[0].dst] = gv(f, e.copies[0].src);
	else if (n) {
		Val tmp[64]; std::vector<Val> big; Val *t = tmp;
		if (n > 64) { big.resize(n); t = big.data(); }
		for (size_t i = 0; i < n; i++) t[i] = gv(f, e.copies[i].src);
		for (size_t i = 0; i < n; i++) f.regs[(size_t)e.copies[i].dst] = t[i];
	}
	f.pc = e.target;
}
static u64 binc(int k, u64 a, u64 b, int w) {
	u64 m = maskw(w);
	switch (k) {
	case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
	case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
	case E_SHL: return b >= (u64)w ? 0 : (a << b) & m; case E_LSHR: return b >= (u64)w ? 0 : a >> b;
	case E_ASHR: { i64 x = sextw(a, w); return (u64)(b >= (u64)w ? (x < 0 ? -1 : 0) : x >> b) & m; }
	case E_UDIV: return a / b; case E_UREM: return a % b;
	case E_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
	case E_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (y == -1) return 0; return (u64)(x % y) & m; }
	}
	return 0;
}
static inline u64 cmpc(int k, u64 a, u64 b, int w) {
	switch (k) { case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
	case E_SLT: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w); }
}
static void popFrame(State &s) {
	Frame &f = s.st.back();
	for (u64 id : f.allocas) freeObj(s, id);
	s.st.pop_back();
}
static const char *ubsanName(u64 k) {
	switch (k) { case 0: return "signed addition overflow"; case 1: return "unreachable reached"; case 3: return "division by zero or overflow";
	case 10: return "invalid value load"; case 12: return "signed multiplication overflow"; case 13: return "negation overflow"; case 20: return "shift out of range";
	case 21: return "signed subtraction overflow"; case 22: return "null or misaligned access"; case 18: return "index out of bounds"; case 8: return "unreachable"; case 11: return "missing return"; default: return "undefined behaviour"; }
}

// returns false when the state has ended
static bool step(State &s) {
	Frame *f = &s.st.back();
	MInst &mi = f->f->code[(size_t)f->pc];
	s.instrs++; g_instr++;
	if (f->f->isBlockStart[(size_t)f->pc]) f->f->cov[(size_t)f->pc] = 1;
	switch (mi.op) {
	case M_BIN: {
		Val a = gv(*f, mi.a), b = gv(*f, mi.b); Val &d = f->regs[(size_t)mi.dst];
		if (mi.sub >= E_UDIV && mi.sub <= E_SREM) {
			if (b.e) { Dec z = decide(s, mkBin(E_EQ, b.e, mkConst(0, mi.w))); if (z == D_DEAD) return false; if (z == D_TRUE) { violation(s, "ub", "division by zero"); return false; } }
			else if (b.c == 0) { violation(s, "ub", "division by zero"); return false; }
			f = &s.st.back();
		}
		if (!a.e && !b.e) { d.e = nullptr; d.c = binc(mi.sub, a.c, b.c, mi.w); }
		else setVal(d, mkBin((EK)mi.sub, exprOf(a, mi.w), exprOf(b, mi.w)));
		break;
	}
	case M_ICMP: {
		Val a = gv(*f, mi.a), b = gv(*f, mi.b); Val &d = f->regs[(size_t)mi.dst];
		if (!a.e && !b.e) { d.e = nullptr; d.c = cmpc(mi.sub, a.c, b.c, mi.w2) ^ mi.neg; }
		else { EP e = mkBin((EK)mi.sub, exprOf(a, mi.w2), exprOf(b, mi.w2)); if (mi.neg) e = mkNot(e); setVal(d, e); }
		break;
	}
	case M_SELECT: {
		Val c = gv(*f, mi.a); Val &d = f->regs[(size_t)mi.dst];
		if (!c.e) d = c.c & 1 ? gv(*f, mi.b) : gv(*f, mi.c);
		else { int t = tri(s, c.e); if (t != 2) d = t ? gv(*f, mi.b) : gv(*f, mi.c); else setVal(d, mkIte(c.e, exprOf(gv(*f, mi.b), mi.w), exprOf(gv(*f, mi.c), mi.w))); }
		break;
	}
	case M_ZEXT: { Val a = gv(*f, mi.a); Val &d = f->regs[(size_t)mi.dst]; if (!a.e) { d.e = nullptr; d.c = a.c; } else setVal(d, mkZExt(a.e, mi.w)); break; }
	case M_SEXT: { Val a = gv(*f, mi.a); Val &d = f->regs[(size_t)mi.dst]; if (!a.e) { d.e = nullptr; d.c = (u64)sextw(a.c, mi.w2) & maskw(mi.w); } else setVal(d, mkSExt(a.e, mi.w)); break; }
	case M_TRUNC: { Val a = gv(*f, mi.a); Val &d = f->regs[(size_t)mi.dst]; if (!a.e) { d.e = nullptr; d.c = a.c & maskw(mi.w); } else setVal(d, mkExtract(a.e, 0, mi.w)); break; }
	case M_COPY: f->regs[(size_t)mi.dst] = gv(*f, mi.a); break;
	case M_LOAD: { Val r; if (!loadN(s, gv(*f, mi.a), mi.imm, mi.w2, mi.w, r)) return false; s.st.back().regs[(size_t)mi.dst] = r; break; }
	case M_STORE: { if (!storeN(s, gv(*f, mi.a), mi.imm, mi.w2, mi.w, gv(*f, mi.b))) return false; break; }
	case M_GEP: {
		Val a = gv(*f, mi.a); u64 c = mi.imm; EP e = nullptr;
		for (size_t i = 0; i < mi.idx.size(); i++) {
			Val x = gv(*f, mi.idx[i].first); int w = mi.idxw[i];
			if (!x.e) c += (u64)sextw(x.c, w) * (u64)mi.idx[i].second;
			else { EP y = mkBin(E_MUL, mkSExt(x.e, 64), mkConst((u64)mi.idx[i].second, 64)); e = e ? mkBin(E_ADD, e, y) : y; }
		}
		Val &d = f->regs[(size_t)mi.dst];
		if (!a.e && !e) { d.e = nullptr; d.c = a.c + c; }
		else { EP b = exprOf(a, 64); if (e) b = mkBin(E_ADD, b, e); setVal(d, mkBin(E_ADD, b, mkConst(c, 64))); }
		break;
	}
	case M_ALLOCA: {
		u64 n; if (!concretize(s, gv(*f, mi.a), 64, n)) return false;
		u64 a = allocObj(s, mi.imm * n, OK_STACK, true);
		f = &s.st.back(); f->allocas.push_back(a >> OBJSHIFT);
		Val &d = f->regs[(size_t)mi.dst]; d.e = nullptr; d.c = a;
		break;
	}
	case M_BR: takeEdge(*f, mi.e0); return true;
	case M_CBR: {
		Val c = gv(*f, mi.a); bool t;
		if (!c.e) t = c.c & 1;
		else { Dec d = decide(s, c.e); if (d == D_DEAD) return false; t = d == D_TRUE; }
		takeEdge(s.st.back(), t ? mi.e0 : mi.e1);
		return true;
	}
	case M_SWITCH: {
		Val v = gv(*f, mi.a);
		if (!v.e) {
			for (auto &c : mi.cases) if (c.first == v.c) { takeEdge(*f, c.second); return true; }
			takeEdge(*f, mi.e0); return true;
		}
		// group cases by target, decide each
		std::map<int, EP> byT; std::vector<int> order; EP none = mkConst(1, 1);
		for (auto &c : mi.cases) { EP q = mkBin(E_EQ, v.e, mkConst(c.first, mi.w2)); if (!byT.count(c.second.target)) { order.push_back(c.second.target); byT[c.second.target] = q; } else byT[c.second.target] = mkOr(byT[c.second.target], q); none = mkAnd(none, mkNot(q)); }
		// phi copies differ by case, so decide per case when the target has phis
		bool phis = !mi.e0.copies.empty();
		for (auto &c : mi.cases) if (!c.second.copies.empty()) phis = true;
		if (phis) {
			for (auto &c : mi.cases) { Dec d = decide(s, mkBin(E_EQ, v.e, mkConst(c.first, mi.w2))); if (d == D_DEAD) return false; if (d == D_TRUE) { takeEdge(s.st.back(), c.second); return true; } }
		} else {
			for (int t : order) { if (t == mi.e0.target) continue; Dec d = decide(s, byT[t]); if (d == D_DEAD) return false; if (d == D_TRUE) { s.st.back().pc = t; return true; } }
		}
		takeEdge(s.st.back(), mi.e0);
		return true;
	}
	case M_RET: {
		std::vector<Val> rv; for (auto &o : mi.args) rv.push_back(gv(*f, o));
		int dst = f->retdst;
		popFrame(s);
		if (s.st.empty()) { g_pathsOk++; s.ended = true; return false; }
		Frame &c = s.st.back();
		if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) c.regs[(size_t)dst + i] = rv[i];
		c.pc++;
		return true;
	}
	case M_CALL: {
		MFunc *cf = mi.callee;
		if (!cf) {
			u64 a; if (!concretize(s, gv(*f, mi.a), 64, a)) return false;
			f = &s.st.back();
			u64 i = (a - FUNCBASE) / 16;
			if (a < FUNCBASE || i >= MM->funcs.size()) { violation(s, "memory", "call through an invalid function pointer"); return false; }
			cf = MM->funcs[i];
		}
		std::vector<Val> args; args.reserve(mi.args.size());
		for (auto &o : mi.args) args.push_back(gv(*f, o));
		if (cf->defined) {
			if (s.st.size() > 2000) { violation(s, "stack", "unbounded recursion"); return false; }
			cf->hits++;
			Frame nf; nf.f = cf; nf.pc = 0; nf.retdst = mi.dst; nf.regs.resize((size_t)cf->nslots);
			for (int i = 0; i < cf->nargs && (size_t)i < args.size(); i++) nf.regs[(size_t)cf->argslot[(size_t)i]] = args[(size_t)i];
			if (cf->vararg) for (size_t i = (size_t)cf->nargs; i < args.size(); i++) { nf.varargs.push_back(args[i]); nf.varargw.push_back(mi.argw[i]); }
			s.st.push_back(std::move(nf));
			return true;
		}
		if (cf->builtin < 0) {
			if (unsupSeen.insert(cf->name).second) fprintf(stderr, "unsupported external: %s at %s\n", cf->name.c_str(), locOf(s).c_str());
			g_incomplete++; return false;
		}
		Val ret; bool done = false;
		if (!callBuiltin(s, mi, cf, args, ret, done)) return false;
		f = &s.st.back();
		if (mi.dst >= 0) { if (!ret.e && mi.w) ret.c &= maskw(mi.w); f->regs[(size_t)mi.dst] = ret; }
		break;
	}
	case M_OVF: {
		Val a = gv(*f, mi.a), b = gv(*f, mi.b); int w = mi.w; 
		Val r, o;
		if (!a.e && !b.e) {
			r.c = binc(mi.sub, a.c, b.c, w);
			if (mi.neg) { __int128 x = sextw(a.c, w), y = sextw(b.c, w), z = mi.sub == E_ADD ? x + y : mi.sub == E_SUB ? x - y : x * y; o.c = z != (__int128)sextw(r.c, w); }
			else { unsigned __int128 x = a.c, y = b.c; if (mi.sub == E_SUB) o.c = x < y; else { auto z = mi.sub == E_ADD ? x + y : x * y; o.c = z != (unsigned __int128)r.c; } }
		} else {
			EP x = exprOf(a, w), y = exprOf(b, w), z = mkBin((EK)mi.sub, x, y); setVal(r, z);
			EP zero = mkConst(0, w), ov;
			if (mi.sub == E_ADD && mi.neg) { EP sx = mkBin(E_SLT, x, zero), sy = mkBin(E_SLT, y, zero), sz = mkBin(E_SLT, z, zero); ov = mkAnd(mkBin(E_EQ, sx, sy), mkNot(mkBin(E_EQ, sx, sz))); }
			else if (mi.sub == E_SUB && mi.neg) { EP sx = mkBin(E_SLT, x, zero), sy = mkBin(E_SLT, y, zero), sz = mkBin(E_SLT, z, zero); ov = mkAnd(mkNot(mkBin(E_EQ, sx, sy)), mkNot(mkBin(E_EQ, sx, sz))); }
			else if (mi.sub == E_ADD) ov = mkBin(E_ULT, z, x);
			else if (mi.sub == E_SUB) ov = mkBin(E_ULT, x, y);
			else if (w <= 32) { int W = 2 * w; EP X = mi.neg ? mkSExt(x, W) : mkZExt(x, W), Y = mi.neg ? mkSExt(y, W) : mkZExt(y, W); EP Z = mkBin(E_MUL, X, Y); ov = mkNot(mkBin(E_EQ, Z, mi.neg ? mkSExt(z, W) : mkZExt(z, W))); }
			else {
				// 64-bit multiply by a constant: range check
				EP v = isC(y) ? x : y; u64 k = isC(y) ? y->val : isC(x) ? x->val : 0;
				if (!isC(y) && !isC(x)) { s.incomplete = true; g_incomplete++; ov = mkConst(0, 1); }
				else if (!mi.neg) ov = k ? mkBin(E_ULT, mkConst(~0ULL / k, 64), v) : mkConst(0, 1);
				else { i64 sk = (i64)k; if (sk == 0) ov = mkConst(0, 1); else if (sk == -1) ov = mkBin(E_EQ, v, mkConst(1ULL << 63, 64)); else { i64 lo, hi; if (sk > 0) { hi = INT64_MAX / sk; lo = INT64_MIN / sk; } else { hi = INT64_MIN / sk; lo = INT64_MAX / sk; } ov = mkOr(mkBin(E_SLT, mkConst((u64)hi, 64), v), mkBin(E_SLT, v, mkConst((u64)lo, 64))); } }
			}
			setVal(o, ov);
		}
		f->regs[(size_t)mi.dst] = r; f->regs[(size_t)mi.dst + 1] = o;
		break;
	}
	case M_FBIN: {
		Val a = gv(*f, mi.a), b = gv(*f, mi.b); u64 ca, cb = 0;
		if (mi.sub == FB_NEG && a.e) { EP e = mkBin(E_XOR, a.e, mkConst(1ULL << (mi.w - 1), mi.w)); setVal(s.st.back().regs[(size_t)mi.dst], e); break; }
		if (!concretize(s, a, mi.w, ca) || (mi.sub != FB_NEG && !concretize(s, b, mi.w, cb))) return false;
		double x = asD(ca, mi.w), y = asD(cb, mi.w), z = 0;
		switch (mi.sub) { case FB_ADD: z = x + y; break; case FB_SUB: z = x - y; break; case FB_MUL: z = x * y; break; case FB_DIV: z = x / y; break; case FB_NEG: z = -x; break; default: z = fmod(x, y); }
		Val &d = s.st.back().regs[(size_t)mi.dst]; d.e = nullptr; d.c = fromD(z, mi.w);
		break;
	}
	case M_FCMP: {
		{ Val a = gv(*f, mi.a), b = gv(*f, mi.b);
		  if ((a.e || b.e) && mi.w2 <= 64) {	// comparisons are exact on the bit patterns
			int w = mi.w2, p = mi.sub; EP x = exprOf(a, w), y = exprOf(b, w), sgn = mkConst(1ULL << (w - 1), w), inf = mkConst(w == 64 ? 0x7ff0000000000000ULL : 0x7f800000ULL, w), zero = mkConst(0, w), mask = mkConst(maskw(w) >> 1, w);
			EP ax = mkBin(E_AND, x, mask), ay = mkBin(E_AND, y, mask);
			EP un = mkOr(mkBin(E_ULT, inf, ax), mkBin(E_ULT, inf, ay));
			EP bz = mkAnd(mkBin(E_EQ, ax, zero), mkBin(E_EQ, ay, zero));
			EP eq = mkOr(mkBin(E_EQ, x, y), bz);
			auto key = [&](EP v) { return mkIte(mkBin(E_SLT, v, zero), mkBin(E_XOR, v, mkConst(maskw(w), w)), mkBin(E_XOR, v, sgn)); };
			EP lt = mkAnd(mkNot(bz), mkBin(E_ULT, key(x), key(y))), gt = mkAnd(mkNot(bz), mkBin(E_ULT, key(y), key(x)));
			EP r = mkConst(0, 1);
			if (p & 1) r = mkOr(r, eq);
			if (p & 2) r = mkOr(r, gt);
			if (p & 4) r = mkOr(r, lt);
			r = mkAnd(mkNot(un), r);
			if (p & 8) r = mkOr(r, un);
			setVal(s.st.back().regs[(size_t)mi.dst], r); break;
		  } }
		u64 ca, cb; if (!concretize(s, gv(*f, mi.a), mi.w2, ca) || !concretize(s, gv(*f, mi.b), mi.w2, cb)) return false;
		double x = asD(ca, mi.w2), y = asD(cb, mi.w2); bool un = std::isnan(x) || std::isnan(y); int p = mi.sub;
		// LLVM encoding: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
		bool r = un ? (p & 8) : ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
		Val &d = s.st.back().regs[(size_t)mi.dst]; d.e = nullptr; d.c = r;
		break;
	}
	case M_FCAST: {
		u64 ca; if (!concretize(s, gv(*f, mi.a), mi.w2, ca)) return false;
		Val &d = s.st.back().regs[(size_t)mi.dst]; d.e = nullptr;
		switch (mi.sub) {
		case FC_FPTOSI: { double x = asD(ca, mi.w2); d.c = (u64)(i64)x & maskw(mi.w); break; }
		case FC_FPTOUI: d.c = (u64)asD(ca, mi.w2) & maskw(mi.w); break;
		case FC_SITOFP: d.c = fromD((double)sextw(ca, mi.w2), mi.w); break;
		case FC_UITOFP: d.c = fromD((double)ca, mi.w); break;
		default: d.c = fromD(asD(ca, mi.w2), mi.w);
		}
		break;
	}
	case M_INTRIN: {
		switch (mi.sub) {
		case IN_MEMCPY: {
			u64 n; if (!concretize(s, gv(*f, mi.c), 64, n)) return false;
			if (n) {
				u64 di, doff, si, soff;
				if (!resolve(s, gv(s.st.back(), mi.b), n, si, soff, "read")) return false;
				if (!resolve(s, gv(s.st.back(), mi.a), n, di, doff, "write")) return false;
				if (!memCopy(s, di, doff, si, soff, n)) return false;
			}
			break;
		}
		case IN_MEMSET: {
			u64 n; if (!concretize(s, gv(*f, mi.c), 64, n)) return false;
			if (n) {
				u64 di, doff; if (!resolve(s, gv(s.st.back(), mi.a), n, di, doff, "write")) return false;
				Obj *o = s.getW(di); Val v = gv(s.st.back(), mi.b); if (!v.e) v.c &= 255;
				if (o->ro) { violation(s, "memory", "write to constant memory"); return false; }
				for (u64 i = 0; i < n; i++) storeByte(o, doff + i, v);
			}
			break;
		}
		case IN_UMAX: case IN_UMIN: case IN_SMAX: case IN_SMIN: {
			Val a = gv(*f, mi.a), b = gv(*f, mi.b); EP x = exprOf(a, mi.w), y = exprOf(b, mi.w);
			bool mx = mi.sub == IN_UMAX || mi.sub == IN_SMAX; EK k = mi.sub == IN_UMAX || mi.sub == IN_UMIN ? E_ULT : E_SLT;
			EP lt = mkBin(k, x, y); setVal(f->regs[(size_t)mi.dst], mkIte(lt, mx ? y : x, mx ? x : y));
			break;
		}
		case IN_ABS: { EP x = exprOf(gv(*f, mi.a), mi.w); setVal(f->regs[(size_t)mi.dst], mkIte(mkBin(E_SLT, x, mkConst(0, mi.w)), mkBin(E_SUB, mkConst(0, mi.w), x), x)); break; }
		case IN_USUBSAT: { EP x = exprOf(gv(*f, mi.a), mi.w), y = exprOf(gv(*f, mi.b), mi.w); setVal(f->regs[(size_t)mi.dst], mkIte(mkBin(E_ULT, x, y), mkConst(0, mi.w), mkBin(E_SUB, x, y))); break; }
		case IN_UADDSAT: { EP x = exprOf(gv(*f, mi.a), mi.w), y = exprOf(gv(*f, mi.b), mi.w), z = mkBin(E_ADD, x, y); setVal(f->regs[(size_t)mi.dst], mkIte(mkBin(E_ULT, z, x), mkConst(~0ULL, mi.w), z)); break; }
		case IN_CTPOP: case IN_CTLZ: case IN_CTTZ: case IN_BSWAP: {
			u64 x; if (!concretize(s, gv(*f, mi.a), mi.w, x)) return false;
			Val &d = s.st.back().regs[(size_t)mi.dst]; d.e = nullptr;
			if (mi.sub == IN_CTPOP) d.c = (u64)__builtin_popcountll(x);
			else if (mi.sub == IN_CTLZ) d.c = x ? (u64)(__builtin_clzll(x) - (64 - mi.w)) : mi.w;
			else if (mi.sub == IN_CTTZ) d.c = x ? (u64)__builtin_ctzll(x) : mi.w;
			else d.c = __builtin_bswap64(x) >> (64 - mi.w);
			break;
		}
		case IN_FSHL: case IN_FSHR: {
			u64 n; if (!concretize(s, gv(*f, mi.c), mi.w, n)) return false;
			n %= mi.w; EP x = exprOf(gv(s.st.back(), mi.a), mi.w), y = exprOf(gv(s.st.back(), mi.b), mi.w), r;
			if (mi.sub == IN_FSHL) r = n ? mkBin(E_OR, mkBin(E_SHL, x, mkConst(n, mi.w)), mkBin(E_LSHR, y, mkConst(mi.w - n, mi.w))) : x;
			else r = n ? mkBin(E_OR, mkBin(E_SHL, x, mkConst(mi.w - n, mi.w)), mkBin(E_LSHR, y, mkConst(n, mi.w))) : y;
			setVal(s.st.back().regs[(size_t)mi.dst], r);
			break;
		}
		case IN_FABS: { u64 x; if (!concretize(s, gv(*f, mi.a), mi.w, x)) return false; Val &d = s.st.back().regs[(size_t)mi.dst]; d.e = nullptr; d.c = fromD(fabs(asD(x, mi.w)), mi.w); break; }
		case IN_OBJSIZE: { Val &d = f->regs[(size_t)mi.dst]; d.e = nullptr; d.c = maskw(mi.w); break; }
		case IN_VASTART: {
			size_t n = f->varargs.size();
			u64 a = allocObj(s, n * 8 + 8, OK_STACK, false);
			f = &s.st.back(); f->allocas.push_back(a >> OBJSHIFT);
			Obj *o = s.getW(a >> OBJSHIFT);
			for (size_t i = 0; i < n; i++) {
				EP e = exprOf(f->varargs[i], f->varargw[i]); if (e->w < 64) e = mkZExt(e, 64);
				for (int b = 0; b < 8; b++) { Val v; setVal(v, mkExtract(e, b * 8, 8)); storeByte(o, i * 8 + (u64)b, v); }
			}
			Val ap = gv(*f, mi.a), v;
			v.c = 48; if (!storeN(s, ap, 0, 4, 32, v)) return false;
			v.c = 176; storeN(s, ap, 4, 4, 32, v);
			v.c = a; storeN(s, ap, 8, 8, 64, v);
			v.c = 0; storeN(s, ap, 16, 8, 64, v);
			break;
		}
		case IN_VACOPY: {
			u64 di, doff, si, soff;
			if (!resolve(s, gv(*f, mi.b), 24, si, soff, "read")) return false;
			if (!resolve(s, gv(*f, mi.a), 24, di, doff, "write")) return false;
			if (!memCopy(s, di, doff, si, soff, 24)) return false;
			break;
		}
		case IN_TRAP: violation(s, "ub", mi.imm == 999 ? "trap" : ubsanName(mi.imm)); return false;
		default: break;
		}
		break;
	}
	case M_UNREACH: violation(s, "ub", "unreachable code reached"); return false;
	case M_UNSUP: if (unsupSeen.insert(locOf(s)).second) fprintf(stderr, "unsupported instruction at %s\n", locOf(s).c_str()); g_incomplete++; return false;
	}
	s.st.back().pc++;
	return true;
}

int main(int argc, char **argv) {
	std::string path, out, entry = "harness"; unsigned to = 20000; u64 pathAuditMax = 300, nsamples = 0, seed = 1, nended = 0; std::vector<Sample> samples;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nxt = [&]() { return std::string(argv[++i]); };
		if (a == "-o") out = nxt();
		else if (a == "-e") entry = nxt();
		else if (a == "-t") g_lim.time = atof(nxt().c_str());
		else if (a == "-n") g_lim.maxPaths = strtoull(nxt().c_str(), 0, 10);
		else if (a == "-i") g_lim.maxInstr = strtoull(nxt().c_str(), 0, 10);
		else if (a == "-v") g_lim.maxViol = (unsigned)atoi(nxt().c_str());
		else if (a == "-q") to = (unsigned)atoi(nxt().c_str());
		else if (a == "--nodomain") g_noDom = true;
		else if (a == "--dom-audit") g_domAuditMax = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--path-audit") pathAuditMax = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--samples") nsamples = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10);
		else if (a == "--dump") g_dumpDir = nxt();
		else if (a == "--dump-max") g_dumpMax = strtoull(nxt().c_str(), 0, 10);
		else if (a == "-p") { std::string p = nxt(); auto q = p.find('='); g_params[p.substr(0, q)] = strtoll(p.c_str() + q + 1, 0, 0); g_sparams[p.substr(0, q)] = p.substr(q + 1); }
		else path = a;
	}
	std::string err;
	MM = loadModule(path, err);
	if (!MM) { fprintf(stderr, "load: %s\n", err.c_str()); return 3; }
	solverInit(to);
	for (auto *f : MM->funcs) if (!f->defined) f->builtin = builtinByName(f->name);
	State *s = new State;
	for (auto &g : MM->globals) {
		Obj *o = new Obj; o->base = g.addr; o->size = g.size; o->kind = OK_GLOBAL; o->ro = g.ro; o->d = g.init;
		s->put((u64)g.objid, o);
	}
	s->nextObj = MM->nextObj + 16;
	auto it = MM->byName.find(entry);
	if (it == MM->byName.end() || !it->second->defined) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
	Frame fr; fr.f = it->second; fr.pc = 0; fr.retdst = -1; fr.regs.resize((size_t)it->second->nslots);
	it->second->hits++;
	s->st.push_back(fr);
	work.push_back(s);
	auto t0 = std::chrono::steady_clock::now();
	auto el = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
	bool complete = true;
	while (!work.empty()) {
		State *c = work.back(); work.pop_back();
		u64 k = 0; bool stop = false;
		while (step(*c)) {
			if ((++k & 0xffff) == 0 && el() > g_lim.time) { stop = true; break; }
			if (c->instrs > g_lim.maxInstr) { violation(*c, "hang", "instruction budget of one path exceeded (possible non-termination)"); break; }
		}
		if (c->depth > g_maxdepth) g_maxdepth = c->depth;
		g_paths++;
		if (c->ended && !c->bad) {
			nended++;
			if (!c->cons.empty() && (g_pathAudits < pathAuditMax || (g_paths & 255) == 0)) {
				Model m = c->model; g_pathAudits++;
				if (solverCheck(c->cons, m) == R_UNSAT) { g_auditBad++; fprintf(stderr, "ENGINE: path condition unsatisfiable\n"); }
			}
			if (nsamples) {
				seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
				size_t at = samples.size() < nsamples ? samples.size() : (size_t)((seed >> 33) % nended);
				if (at < nsamples) { Sample x; x.vals = inputsOf(*c); x.trace = c->trace; if (at == samples.size()) samples.push_back(x); else samples[at] = x; }
			}
		}
		delete c;
		if (stop || el() > g_lim.time || g_paths >= g_lim.maxPaths || g_viol.size() >= g_lim.maxViol) { if (!work.empty() || stop) complete = false; break; }
	}
	u64 left = work.size();
	FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
	auto js = [](const std::string &x) { std::string r = "\""; for (unsigned char c : x) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; };
	fprintf(fo, "{\"complete\":%s,\"paths\":%llu,\"paths_returned\":%llu,\"pending\":%llu,\"forks\":%llu,\"branches\":%llu,\"domain_decided\":%llu,\"instructions\":%llu,\"incomplete_events\":%llu,\"max_depth\":%llu,\"wall\":%.3f,\n",
	    complete ? "true" : "false", (unsigned long long)g_paths, (unsigned long long)g_pathsOk, (unsigned long long)left, (unsigned long long)g_nforks, (unsigned long long)g_branches, (unsigned long long)g_domDec, (unsigned long long)g_instr, (unsigned long long)g_incomplete, (unsigned long long)g_maxdepth, el());
	fprintf(fo, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"exprs\":%llu,\n",
	    (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown, (unsigned long long)g_ss.cacheHits, g_ss.time, g_ss.maxTime, (unsigned long long)g_nexpr);
	fprintf(fo, "\"path_audits\":%llu,\"shortcut_audits\":%llu,\"audit_failures\":%llu,\n", (unsigned long long)g_pathAudits, (unsigned long long)g_domAudits, (unsigned long long)g_auditBad);
	fprintf(fo, "\"samples\":["); for (size_t i = 0; i < samples.size(); i++) {
		fprintf(fo, "%s{\"vals\":[", i ? ",\n" : ""); for (size_t j = 0; j < samples[i].vals.size(); j++) fprintf(fo, "%s[%s,%s]", j ? "," : "", js(samples[i].vals[j].first).c_str(), js(samples[i].vals[j].second).c_str());
		fprintf(fo, "],\"trace\":["); for (size_t j = 0; j < samples[i].trace.size(); j++) fprintf(fo, "%s%s", j ? "," : "", js(samples[i].trace[j]).c_str()); fprintf(fo, "]}"); } fprintf(fo, "],\n");
	fprintf(fo, "\"unsupported\":["); { bool first = true; for (auto &u : unsupSeen) { fprintf(fo, "%s%s", first ? "" : ",", js(u).c_str()); first = false; } } fprintf(fo, "],\n");
	fprintf(fo, "\"reach\":{"); { bool first = true; for (auto &p : g_reach) { fprintf(fo, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; } } fprintf(fo, "},\n");
	fprintf(fo, "\"asserts\":{"); { bool first = true; for (auto &p : g_asserts) { fprintf(fo, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; } } fprintf(fo, "},\n");
	fprintf(fo, "\"functions\":{"); { bool first = true; for (auto *f : MM->funcs) if (f->defined && f->hits) {
		int bc = 0; for (u8 x : f->cov) bc += x;
		fprintf(fo, "%s%s:[%s,%llu,%d,%zu]", first ? "" : ",\n", js(f->name).c_str(), js(f->file).c_str(), (unsigned long long)f->hits, bc, f->blockStart.size()); first = false; } } fprintf(fo, "},\n");
	fprintf(fo, "\"violations\":["); { bool first = true; for (auto &v : g_viol) {
		fprintf(fo, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"log\":[%s],\"vals\":[", first ? "" : ",\n", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), js(v.stack).c_str(), [&]() { std::string r; for (auto &l : v.log) r += (r.empty() ? "" : ",") + js(l); return r; }().c_str()); first = false;
		bool ff = true; for (auto &p : v.vals) { fprintf(fo, "%s[%s,%s]", ff ? "" : ",", js(p.first).c_str(), js(p.second).c_str()); ff = false; }
		fprintf(fo, "]}"); } } fprintf(fo, "]}\n");
	if (!out.empty()) fclose(fo);
	_exit(0);
}
