/*
 * Runtime for TypeScript translated by ts2c.js: JavaScript values, and models of better-sqlite3, bcrypt and validator
 * over the statement model of gc.h. Texts may be opaque: of a (symbolic) integer or real, of a blob, or input to validate.
 */
#ifndef JSRT_H
#define JSRT_H
enum jt { TU, TN, TB, TD, TI, TS_, TO, TA, TF, TX, TE };	/* undefined, null, boolean, number, bigint, string, object, array, function, buffer, number that is a (symbolic) integer */
struct jobj_; struct jstr_; struct jin;
typedef struct jv jv; typedef jv (*jfun)(jv th, int n, jv *a);
struct jv { int t; union { int b; double d; struct { int64_t hi; uint64_t lo; } i; struct jstr_ *s; struct jobj_ *o; jfun f; struct gcv *x; } u; };
enum sk { SK_P, SK_I, SK_D, SK_64, SK_IN };
struct jin { int empty, isint, canon, padded, isdec, isemail, isdate, hastrim; int64_t hi; uint64_t lo; double d; int64_t days, len, bytes, elen, ebytes; struct gcv *raw; };
struct jstr_ { int k, trim, norm; size_t n; char *s; jv v; struct gcv *x; struct jin *in; };
struct jprop_ { const char *k; jv v; };
struct jobj_ { int cls; int n, cap; struct jprop_ *p; jv *a; int st, raw, safe; };
#define JUNDEF ((jv){ TU })
#define JNULL ((jv){ TN })
static int jexc; static jv jexcv; static int js_open, js_class;
static jv jbool(int b) { jv v; memset(&v, 0, sizeof v); v.t = TB; v.u.b = b; return v; }
static jv jnum(double d) { jv v; memset(&v, 0, sizeof v); v.t = TD; v.u.d = d; return v; }
static jv jbig(int64_t hi, uint64_t lo) { jv v; memset(&v, 0, sizeof v); v.t = TI; v.u.i.hi = hi; v.u.i.lo = lo; return v; }
static jv jint(int64_t i) { return jbig(i >> 63, (uint64_t)i); }
static jv js_(int k) { jv v; memset(&v, 0, sizeof v); v.t = TS_; v.u.s = calloc(1, sizeof *v.u.s); v.u.s->k = k; return v; }
static jv jstrn(const char *s, size_t n) { jv v = js_(SK_P); v.u.s->n = n; v.u.s->s = malloc(n + 1); memcpy(v.u.s->s, s, n); v.u.s->s[n] = 0; return v; }
static jv jstr(const char *s) { return jstrn(s, strlen(s)); }
static jv jfn(jfun f) { jv v; memset(&v, 0, sizeof v); v.t = TF; v.u.f = f; return v; }
static jv jo_(int t, int cls) { jv v; memset(&v, 0, sizeof v); v.t = t; v.u.o = calloc(1, sizeof *v.u.o); v.u.o->cls = cls; v.u.o->st = -1; return v; }
static jv jobj(int cls) { return jo_(TO, cls); }
static jv jarr(void) { return jo_(TA, -1); }
static void jgrow(struct jobj_ *o, size_t e) { if (o->n == o->cap) { o->cap = o->cap ? 2 * o->cap : 8; if (e == sizeof(jv)) o->a = realloc(o->a, (size_t)o->cap * e); else o->p = realloc(o->p, (size_t)o->cap * e); } }
static void jpush(jv a, jv v) { jgrow(a.u.o, sizeof(jv)); a.u.o->a[a.u.o->n++] = v; }
static void jthrow(jv v) { jexc = 1; jexcv = v; }
static jv jtypeerr(const char *m) { jv e = jobj(-1); (void)m; vp_log(m); jthrow(e); return JUNDEF; }
static jv *jslot(jv o, const char *k) { int i; if (o.t != TO) return NULL; for (i = 0; i < o.u.o->n; i++) if (!strcmp(o.u.o->p[i].k, k)) return &o.u.o->p[i].v; return NULL; }
static void jset(jv o, const char *k, jv v) { jv *p; if (o.t != TO) { if (o.t == TU || o.t == TN) jtypeerr("property of nothing set"); return; } if ((p = jslot(o, k))) { *p = v; return; } jgrow(o.u.o, sizeof(struct jprop_)); o.u.o->p[o.u.o->n].k = k; o.u.o->p[o.u.o->n++].v = v; }
static jv jenum_(int64_t i) { jv v; memset(&v, 0, sizeof v); v.t = TE; v.u.i.lo = (uint64_t)i; return v; }
/* sign of a symbolic integer compared with a concrete number */
static int jcmpe(jv e, jv d, int or) { int64_t i = (int64_t)e.u.i.lo, k; if (d.t == TE) return or ? i <= (int64_t)d.u.i.lo : i < (int64_t)d.u.i.lo; if (d.u.d > 9e18) return 1; if (d.u.d < -9e18 || d.u.d != d.u.d) return 0; k = (int64_t)d.u.d; if ((double)k < d.u.d) return i <= k; if ((double)k > d.u.d) return i < k; return or ? i <= k : i < k; }
static jv jlen_(jv s) { struct jin *in = s.u.s->in; if (s.u.s->k == SK_P) { double n = 0; size_t i; for (i = 0; i < s.u.s->n; i++) n += ((unsigned char)s.u.s->s[i] & 0xc0) != 0x80; return jnum(n); } if (s.u.s->k == SK_IN) { if (s.u.s->trim) return jenum_(in->empty == 1 ? 0 : in->len); return jenum_(s.u.s->norm ? in->elen : in->len); } return jnum(1); }
static jv jget(jv o, const char *k) {
	jv *p;
	if (o.t == TU || o.t == TN) return jtypeerr("property of nothing");
	if (o.t == TA && !strcmp(k, "length")) return jnum(o.u.o->n);
	if (o.t == TS_ && !strcmp(k, "length")) return jlen_(o);
	if (o.t == TX && !strcmp(k, "length")) return jnum((double)o.u.x->n);
	return (p = jslot(o, k)) ? *p : JUNDEF;
}
static jv jindex(jv o, jv k) {
	if (k.t == TS_ && k.u.s->k == SK_P) return jget(o, k.u.s->s);
	if (o.t == TU || o.t == TN) return jtypeerr("element of nothing");
	if (k.t == TD && o.t == TA) { int i = (int)k.u.d; return k.u.d >= 0 && i < o.u.o->n && (double)i == k.u.d ? o.u.o->a[i] : JUNDEF; }
	if (k.t == TD) return JUNDEF;
	vp_fail("unmodelled: index"); return JUNDEF;
}
static int jlen(jv a) { if (a.t != TA) vp_fail("unmodelled: iteration"); return a.u.o->n; }
static jv jat(jv a, int i) { return a.u.o->a[i]; }
static int jcmp(jv a, jv b) { if (a.u.i.hi != b.u.i.hi) return a.u.i.hi < b.u.i.hi ? -1 : 1; return a.u.i.lo == b.u.i.lo ? 0 : a.u.i.lo < b.u.i.lo ? -1 : 1; }
static int jieq(jv a, jv b) { return (a.u.i.hi == b.u.i.hi) & (a.u.i.lo == b.u.i.lo); }
static int jilt(jv a, jv b) { return (a.u.i.hi < b.u.i.hi) | ((a.u.i.hi == b.u.i.hi) & (a.u.i.lo < b.u.i.lo)); }
/* the integer a text in canonical form gives; 0 if it is none */
static int jcanon(const char *s, size_t n, int64_t *hi, uint64_t *lo) {
	size_t i = 0; int neg = 0; uint64_t v = 0, h = 0;
	if (n && s[0] == '-') { neg = 1; i = 1; }
	if (i == n || n > 22) return 0;
	if (s[i] == '0' && (n - i > 1 || neg)) return 0;
	for (; i < n; i++) { uint64_t l; if (s[i] < '0' || s[i] > '9') return 0; l = (v & 0xffffffffu) * 10 + (uint64_t)(s[i] - '0'); { uint64_t m = (v >> 32) * 10 + (l >> 32); v = m << 32 | (l & 0xffffffffu); h = h * 10 + (m >> 32); } }
	if (neg) { v = 0 - v; h = ~h + (v == 0); }
	*hi = (int64_t)h; *lo = v; return 1;
}
static int jseq(jv a, jv b) {
	if (a.t == TE && (b.t == TE || b.t == TD)) return jcmpe(a, b, 1) & !jcmpe(a, b, 0);
	if (b.t == TE && a.t == TD) return jseq(b, a);
	if (a.t != b.t) return 0;
	switch (a.t) {
	case TU: case TN: return 1;
	case TB: return a.u.b == b.u.b;
	case TD: return a.u.d == b.u.d;
	case TI: return jieq(a, b);
	case TS_: {
		struct jstr_ *x = a.u.s, *y = b.u.s; int64_t hi; uint64_t lo;
		if (x == y) return 1;
		if (x->k == SK_P && y->k == SK_P) return x->n == y->n && gc_bytes(x->s, y->s, x->n);
		if (x->k == SK_P) { struct jstr_ *t = x; x = y; y = t; }
		if (x->k == SK_I && y->k == SK_I) return jieq(x->v, y->v);
		if (x->k == SK_I && y->k == SK_P) return jcanon(y->s, y->n, &hi, &lo) && jieq(x->v, jbig(hi, lo));
		if (x->k == SK_IN && y->k == SK_P) { if (y->n == 0) return x->trim ? x->in->empty : x->in->len == 0; return !x->norm && jcanon(y->s, y->n, &hi, &lo) && ((x->in->isint == 1) & (x->in->empty == 0) & (x->in->canon == 1) & (x->trim || x->in->padded == 0) & (x->in->hi == hi) & (x->in->lo == lo)); }
		vp_fail("unmodelled: comparison of texts"); }
	default: return a.u.o == b.u.o;
	}
}
static double jtonum(jv v) { return v.t == TD ? v.u.d : v.t == TB ? (double)v.u.b : v.t == TN ? 0.0 : 0.0 / 0.0; }
static int jtrue(jv v) { switch (v.t) { case TU: case TN: return 0; case TB: return v.u.b; case TD: return v.u.d == v.u.d && v.u.d != 0; case TI: return (v.u.i.hi | (int64_t)v.u.i.lo) != 0; case TS_: return v.u.s->k == SK_P ? v.u.s->n != 0 : v.u.s->k == SK_IN ? (v.u.s->trim ? v.u.s->in->empty == 0 : v.u.s->in->len != 0) : 1; default: return 1; } }
static int jlt(jv a, jv b) { if (a.t == TE && (b.t == TD || b.t == TE)) return jcmpe(a, b, 0); if (b.t == TE && a.t == TD) return !jcmpe(b, a, 1) & (a.u.d == a.u.d); if (a.t == TI && b.t == TI) return jilt(a, b); if (a.t == TD && b.t == TD) return a.u.d < b.u.d; vp_fail("unmodelled: order"); return 0; }
static int jle(jv a, jv b) { if (a.t == TE && (b.t == TD || b.t == TE)) return jcmpe(a, b, 1); if (b.t == TE && a.t == TD) return !jcmpe(b, a, 0) & (a.u.d == a.u.d); if (a.t == TI && b.t == TI) return !jilt(b, a); if (a.t == TD && b.t == TD) return a.u.d <= b.u.d; vp_fail("unmodelled: order"); return 0; }
static jv jnumstr(double d); static jv jtostr(jv v);
static jv jadd(jv a, jv b) {
	if (a.t == TS_ && b.t == TS_ && a.u.s->k == SK_P && b.u.s->k == SK_P) { jv r = js_(SK_P); struct jstr_ *s = r.u.s; s->n = a.u.s->n + b.u.s->n; s->s = malloc(s->n + 1); memcpy(s->s, a.u.s->s, a.u.s->n); memcpy(s->s + a.u.s->n, b.u.s->s, b.u.s->n + 1); return r; }
	if (a.t == TD && b.t == TD) return jnum(a.u.d + b.u.d);
	if (a.t == TS_ && b.t == TD && a.u.s->k == SK_P) return jadd(a, jnumstr(b.u.d));
	if (a.t == TD && b.t == TS_ && b.u.s->k == SK_P) return jadd(jnumstr(a.u.d), b);
	if (a.t == TS_ && (b.t == TU || b.t == TN || b.t == TB)) return jadd(a, jtostr(b));
	if (b.t == TS_ && (a.t == TU || a.t == TN || a.t == TB)) return jadd(jtostr(a), b);
	if (a.t == TI && b.t == TI) { uint64_t l = a.u.i.lo + b.u.i.lo; return jbig((int64_t)((uint64_t)a.u.i.hi + (uint64_t)b.u.i.hi + (l < a.u.i.lo)), l); }
	vp_fail("unmodelled: addition"); return JUNDEF;
}
static jv jneg(jv a) { if (a.t == TD) return jnum(-a.u.d); if (a.t == TI) return jbig((int64_t)(~(uint64_t)a.u.i.hi + (a.u.i.lo == 0)), 0 - a.u.i.lo); vp_fail("unmodelled: negation"); return a; }
static jv jsub(jv a, jv b) { if (a.t == TD && b.t == TD) return jnum(a.u.d - b.u.d); if (a.t == TI && b.t == TI) return jadd(a, jneg(b)); vp_fail("unmodelled: subtraction"); return a; }
static jv jdiv(jv a, jv b) { if (a.t == TO && a.u.o->cls == -5 && b.t == TD) { if (b.u.d == 1000) { jv r = jobj(-6); r.u.o->p = a.u.o->p; return r; } vp_fail("seconds of a time"); } if (a.t == TD && b.t == TD) return jnum(a.u.d / b.u.d); vp_fail("unmodelled: division"); return a; }
static jv jtypeof(jv v) { static const char *const n[] = { "undefined", "object", "boolean", "number", "bigint", "string", "object", "object", "function", "object", "number" }; return jstr(n[v.t]); }
static jv jparse_big(jv s) { int64_t hi; uint64_t lo; if (s.t == TS_ && s.u.s->k == SK_P && jcanon(s.u.s->s, s.u.s->n, &hi, &lo)) return jbig(hi, lo); vp_fail("unmodelled: integer"); return s; }
static jv jcall(jv f, int n, jv *a) { if (f.t != TF) return jtypeerr("call of what is no function"); return f.u.f(JUNDEF, n, a); }
static int jleq(jv a, jv b) { if ((a.t == TU || a.t == TN) && (b.t == TU || b.t == TN)) return 1; if (a.t == b.t || a.t == TU || a.t == TN || b.t == TU || b.t == TN) return jseq(a, b); vp_fail("unmodelled: loose comparison"); return 0; }
static int jin_(jv k, jv o) { if (o.t != TO || k.t != TS_ || k.u.s->k != SK_P) { vp_fail("unmodelled: in"); } return jslot(o, k.u.s->s) != NULL; }
static jv jmul(jv a, jv b) { if (a.t == TD && b.t == TD) return jnum(a.u.d * b.u.d); vp_fail("unmodelled: multiplication"); return a; }
static jv jiter(jv a) { if (a.t == TU || a.t == TN) return jtypeerr("iteration of nothing"); if (a.t != TA) vp_fail("unmodelled: iteration"); return a; }
static jv jnumstr(double d) { char b[40]; int64_t i = (int64_t)d; if (d != d) return jstr("NaN"); if ((double)i != d) vp_fail("unmodelled: text of a fraction"); snprintf(b, sizeof b, "%lld", (long long)i); return jstr(b); }
static jv jregex(const char *s) { jv r = jo_(TO, -8); jset(r, "source", jstr(s)); return r; }
static jv jtostr(jv v) {
	switch (v.t) {
	case TU: return jstr("undefined"); case TN: return jstr("null"); case TB: return jstr(v.u.b ? "true" : "false"); case TS_: return v;
	case TD: return jnumstr(v.u.d);
	case TI: { jv r = js_(SK_I); r.u.s->v = v; return r; }
	default: vp_fail("unmodelled: text of a value"); return v; }
}
/* the position of a text within another */
static int jfind(jv s, size_t at, const char *p, size_t n, size_t *w) { for (; at + n <= s.u.s->n; at++) { size_t k; for (k = 0; k < n && s.u.s->s[at + k] == p[k]; k++) ; if (k == n) { *w = at; return 1; } } return 0; }
static jv jreplace(jv s, const char *p, size_t n, jv to, int all) {
	size_t at = 0, w; jv r = jstrn("", 0);
	if (n == 0 || to.t != TS_ || to.u.s->k != SK_P || strchr(to.u.s->s, '$')) vp_fail("unmodelled: replacement");
	while (jfind(s, at, p, n, &w)) { r = jadd(jadd(r, jstrn(s.u.s->s + at, w - at)), to); at = w + n; if (!all) break; }
	return jadd(r, jstrn(s.u.s->s + at, s.u.s->n - at));
}
static jv jsplit(jv s, jv by) { size_t at = 0, w; jv r = jarr(); if (by.t != TS_ || by.u.s->k != SK_P || by.u.s->n == 0) vp_fail("unmodelled: split"); while (jfind(s, at, by.u.s->s, by.u.s->n, &w)) { jpush(r, jstrn(s.u.s->s + at, w - at)); at = w + by.u.s->n; } jpush(r, jstrn(s.u.s->s + at, s.u.s->n - at)); return r; }
/* a regular expression that is one literal character: that character, and whether for all */
static char jregc(jv v, int *all) { const char *q = jslot(v, "source")->u.s->s + 1; char c = *q++; if (c == '\\') { c = *q++; if (isalnum((unsigned char)c)) vp_fail("unmodelled: regular expression"); } else if (strchr("^$.|?*+()[]{}/", c)) vp_fail("unmodelled: regular expression"); if (*q++ != '/') vp_fail("unmodelled: regular expression"); *all = *q == 'g'; if (*all) q++; if (*q) vp_fail("unmodelled: regular expression"); return c; }
static jv jmethod_class(jv o, int id, const char *m, int n, jv *a, int *found);
enum { DBC = -2, STMTC = -3, DATEC = -4, MSECC = -5, SECC = -6, REC = -8, DATE2C = -9 };
#ifdef JSRT_HOST
static int jnat(jv o, const char *m, int n, jv *a, jv *r);
#else
/* ---- the database ---- */
static char js_dbname[32]; static int js_safe; static char js_tr;
static jv B_new_Database(int n, jv *a) { if (n < 1 || a[0].t != TS_ || a[0].u.s->k != SK_P) vp_fail("opens-its-source"); snprintf(js_dbname, sizeof js_dbname, "%s", a[0].u.s->s); js_open++; js_safe = 0; return jobj(DBC); }
static size_t jparms(int n, jv *a, struct sqlbox_parm *p) {
	size_t k = 0; int i;
	for (i = 0; i < n; i++) {
		jv v = a[i];
		if (v.t == TA) { k += jparms(v.u.o->n, v.u.o->a, p + k); continue; }
		vp_assert(k < MAXC, "bounded-parameters"); memset(&p[k], 0, sizeof p[k]);
		switch (v.t) {
		case TN: p[k].type = SQLBOX_PARM_NULL; break;
		case TD: p[k].type = SQLBOX_PARM_FLOAT; p[k].fparm = v.u.d; p[k].sz = 8; break;
		case TI: vp_assert(v.u.i.hi == (int64_t)v.u.i.lo >> 63, "integer-bound-fits-the-database"); p[k].type = SQLBOX_PARM_INT; p[k].iparm = (int64_t)v.u.i.lo; p[k].sz = 8; break;
		case TX: p[k].type = SQLBOX_PARM_BLOB; p[k].bparm = v.u.x->s; p[k].sz = v.u.x->n; break;
		case TS_:
			if (v.u.s->k == SK_P) { p[k].type = SQLBOX_PARM_STRING; p[k].sparm = v.u.s->s; p[k].sz = v.u.s->n + 1; break; }
			if (v.u.s->k == SK_I) { p[k].type = SQLBOX_PARM_INT; p[k].iparm = (int64_t)v.u.s->v.u.i.lo; p[k].sz = 8; break; }	/* by the affinity of the column */
			/* FALLTHROUGH */
		default: vp_fail("value-can-be-bound");
		}
		k++;
	}
	return k;
}
static jv jcol(struct gcv *v) {
	jv r;
	if (v->isnull) return JNULL;
	switch (v->type) {
	case GI: case GE: vp_assert(js_safe, "integers-read-exactly"); return jint(v->i);
	case GR: return jnum(v->d);
	case GB: memset(&r, 0, sizeof r); r.t = TX; r.u.x = v; return r;
	default: return jstrn(v->s, v->n);
	}
}
static struct gcq *jrun(jv st, int n, jv *a, int sel) {
	struct sqlbox_parm p[MAXC]; size_t k = jparms(n, a, p); struct gcq *q = gc_open((size_t)st.u.o->st, k, p, 0);
	vp_assert(q != NULL && (q->kind == 'S') == sel, "kind-of-statement"); return q;
}
static jv jrow(jv st, struct gcq *q, int r) {
	jv o; int c;
	if (!st.u.o->raw) return jobj(-1);
	o = jarr(); if (q->count) { vp_assert(js_safe, "integers-read-exactly"); jpush(o, jint(q->cnt)); return o; }
	for (c = 0; c < q->ncols; c++) jpush(o, jcol(&q->row[r][c]));
	return o;
}
static jv jnat(jv o, const char *m, int n, jv *a) {
	struct gcq *q; jv r; int i;
	if (o.u.o->cls == DBC) {
		if (!strcmp(m, "defaultSafeIntegers")) { js_safe = n == 0 || jtrue(a[0]); return o; }
		if (!strcmp(m, "prepare") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P) {
			r = jobj(STMTC); for (i = 0; i < (int)gc_nstmts; i++) if (!strcmp(gc_stmts[i], a[0].u.s->s)) break;
			if (i == (int)gc_nstmts) { gc_stmts = realloc(gc_stmts, (gc_nstmts + 1) * sizeof *gc_stmts); gc_stmts[gc_nstmts++] = a[0].u.s->s; }
			r.u.o->st = i; return r;
		}
		if (!strcmp(m, "exec") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P) { static const struct { const char *s; char c; } x[] = { { "BEGIN TRANSACTION IMMEDIATE", 'I' }, { "BEGIN TRANSACTION DEFERRED", 'D' }, { "BEGIN TRANSACTION EXCLUSIVE", 'E' }, { "COMMIT TRANSACTION", 'C' }, { "ROLLBACK TRANSACTION", 'R' } }; for (i = 0; i < 5; i++) if (!strcmp(a[0].u.s->s, x[i].s)) { js_tr = x[i].c; return o; } }
		vp_log(m); vp_fail("unmodelled: method of the database");
	}
	if (!strcmp(m, "raw")) { o.u.o->raw = n == 0 || jtrue(a[0]); return o; }
	if (!strcmp(m, "get")) { q = jrun(o, n, a, 1); if (q->count) return jrow(o, q, 0); return q->nrows ? jrow(o, q, 0) : JUNDEF; }
	if (!strcmp(m, "all") || !strcmp(m, "iterate")) { q = jrun(o, n, a, 1); r = jarr(); if (q->count) jpush(r, jrow(o, q, 0)); else for (i = 0; i < q->nrows; i++) jpush(r, jrow(o, q, i)); return r; }
	if (!strcmp(m, "run")) {
		q = jrun(o, n, a, 0);
		if (gc_want.execrc) { jv e = jobj(-1); jset(e, "code", jstr(gc_want.execrc == 1 ? "SQLITE_CONSTRAINT_UNIQUE" : gc_want.execrc == 2 ? "SQLITE_CONSTRAINT_FOREIGNKEY" : "SQLITE_BUSY")); jthrow(e); return JUNDEF; }
		r = jobj(-1); jset(r, "changes", jnum(1)); vp_assert(js_safe, "integers-read-exactly"); jset(r, "lastInsertRowid", jint(gc_want.lastid)); return r;
	}
	vp_log(m); vp_fail("unmodelled: method of a statement"); return JUNDEF;
}
#endif
static jv jdate_part(jv o, const char *m);
static jv jmethod(jv o, const char *m, int n, jv *a) {
	jv r; int f, i;
	switch (o.t) {
	case TU: case TN: return jtypeerr("method of nothing");
	case TO:
		if (o.u.o->cls >= 0) { r = jmethod_class(o, o.u.o->cls, m, n, a, &f); if (f) return r; }
#ifdef JSRT_HOST
		if (jnat(o, m, n, a, &r)) return r;
#else
		if (o.u.o->cls == DBC || o.u.o->cls == STMTC) return jnat(o, m, n, a);
#endif
		if (o.u.o->cls == DATE2C) return jdate_part(o, m);
		if (o.u.o->cls >= 0 && !strcmp(m, "toString")) vp_fail("unmodelled: text of an object");
		if (o.u.o->cls == DATEC && !strcmp(m, "getTime")) { r = jobj(MSECC); r.u.o->p = o.u.o->p; return r; }
		{ jv *p = jslot(o, m); if (p && p->t == TF) return jcall(*p, n, a); }
		if (!strcmp(m, "toString")) return jstr("[object Object]");
		return jtypeerr("no such method");
	case TI: if (!strcmp(m, "toString") && n == 0) { r = js_(SK_I); r.u.s->v = o; return r; } break;
#ifdef JSRT_HOST
	case TD: if (!strcmp(m, "toString") && n == 0) return jnumstr(o.u.d); return jtypeerr("no such method");
#else
	case TD: if (!strcmp(m, "toString") && n == 0) { r = js_(SK_D); r.u.s->v = o; return r; } return jtypeerr("no such method");
#endif
	case TS_:
		if (!strcmp(m, "toString")) return o;
		if (!strcmp(m, "trim")) {
			if (o.u.s->k == SK_IN) { if (o.u.s->trim) return o; r = js_(SK_IN); *r.u.s = *o.u.s; r.u.s->trim = 1; return r; }
			if (o.u.s->k != SK_P) return o;
			{ size_t b = 0, e = o.u.s->n; while (b < e && isspace((unsigned char)o.u.s->s[b])) b++; while (e > b && isspace((unsigned char)o.u.s->s[e - 1])) e--; return jstrn(o.u.s->s + b, e - b); }
		}
		if (o.u.s->k != SK_P) break;
		if ((!strcmp(m, "replace") || !strcmp(m, "replaceAll")) && n == 2) {
			if (a[0].t == TO && a[0].u.o->cls == REC) { int all; char c = jregc(a[0], &all); if (m[7] && !all) return jtypeerr("replaceAll of one"); return jreplace(o, &c, 1, a[1], all); }
			if (a[0].t == TS_ && a[0].u.s->k == SK_P) return jreplace(o, a[0].u.s->s, a[0].u.s->n, a[1], m[7] != 0);
		}
		if (!strcmp(m, "split") && n == 1) { int all; char c; if (a[0].t == TO && a[0].u.o->cls == REC) { c = jregc(a[0], &all); return jsplit(o, jstrn(&c, 1)); } return jsplit(o, a[0]); }
		if (!strcmp(m, "concat")) { jv x = o; for (i = 0; i < n; i++) x = jadd(x, jtostr(a[i])); return x; }
		if (!strcmp(m, "includes") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P) { size_t w; return jbool(jfind(o, 0, a[0].u.s->s, a[0].u.s->n, &w)); }
		if ((!strcmp(m, "slice") || !strcmp(m, "substring")) && n >= 1 && a[0].t == TD && (n == 1 || a[1].t == TD)) { double z = (double)o.u.s->n, x = a[0].u.d, y = n > 1 ? a[1].u.d : z; if (x < 0) x = m[1] == 'l' && x + z > 0 ? x + z : 0; if (y < 0) y = m[1] == 'l' && y + z > 0 ? y + z : 0; if (x > z) x = z; if (y > z) y = z; if (m[1] == 'u' && x > y) { double w = x; x = y; y = w; } return x < y ? jstrn(o.u.s->s + (size_t)x, (size_t)(y - x)) : jstr(""); }
		if (!strcmp(m, "startsWith") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P) { size_t w; return jbool(jfind(o, 0, a[0].u.s->s, a[0].u.s->n, &w) && w == 0); }
		if (!strcmp(m, "indexOf") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P) { size_t w; return jnum(jfind(o, 0, a[0].u.s->s, a[0].u.s->n, &w) ? (double)w : -1); }
		break;
	case TA:
		if (!strcmp(m, "join")) { jv x = jstrn("", 0); for (i = 0; i < o.u.o->n; i++) { if (i) x = jadd(x, n ? a[0] : jstr(",")); if (o.u.o->a[i].t != TU && o.u.o->a[i].t != TN) x = jadd(x, jtostr(o.u.o->a[i])); } return x; }
		if (!strcmp(m, "concat")) { jv x = jarr(); int k; for (i = 0; i < o.u.o->n; i++) jpush(x, o.u.o->a[i]); for (k = 0; k < n; k++) { if (a[k].t != TA) jpush(x, a[k]); else for (i = 0; i < a[k].u.o->n; i++) jpush(x, a[k].u.o->a[i]); } return x; }
		if (!strcmp(m, "indexOf") && n == 1) { for (i = 0; i < o.u.o->n; i++) if (jseq(o.u.o->a[i], a[0])) return jnum(i); return jnum(-1); }
		if (!strcmp(m, "push")) { for (i = 0; i < n; i++) jpush(o, a[i]); return jnum(o.u.o->n); }
		if (!strcmp(m, "includes") && n == 1) { f = 0; for (i = 0; i < o.u.o->n; i++) f |= jseq(o.u.o->a[i], a[0]); return jbool(f); }
		break;
	case TX: if (!strcmp(m, "toString") && n == 1 && a[0].t == TS_ && a[0].u.s->k == SK_P && !strcmp(a[0].u.s->s, "base64")) { r = js_(SK_64); r.u.s->x = o.u.x; return r; } break;
	default: break;
	}
	vp_log(m); vp_fail("unmodelled: method"); return JUNDEF;
}
/* ---- functions ---- */
static jv B_Object_keys(int n, jv *a) { jv r = jarr(); int i; (void)n; if (a[0].t != TO) { if (a[0].t == TU || a[0].t == TN) return jtypeerr("keys of nothing"); vp_fail("unmodelled: keys"); } for (i = 0; i < a[0].u.o->n; i++) { if (isdigit((unsigned char)a[0].u.o->p[i].k[0])) vp_fail("unmodelled: order of keys which are numbers"); jpush(r, jstr(a[0].u.o->p[i].k)); } return r; }
static jv B_Object_values(int n, jv *a) { jv r = jarr(); int i; for (i = 0; i < a[0].u.o->n; i++) jpush(r, a[0].u.o->p[i].v); return r; }
static jv B_Object_entries(int n, jv *a) { jv r = jarr(); int i; for (i = 0; i < a[0].u.o->n; i++) { jv e = jarr(); jpush(e, jstr(a[0].u.o->p[i].k)); jpush(e, a[0].u.o->p[i].v); jpush(r, e); } return r; }
static jv B_String(int n, jv *a) { return n ? jtostr(a[0]) : jstr(""); }
/* a time, by the milliseconds since the epoch */
static jv B_new_Date(int n, jv *a) { jv r; if (n != 1 || a[0].t != TD) vp_fail("unmodelled: time"); r = jobj(DATE2C); jset(r, "ms", a[0]); return r; }
static jv jdate_part(jv o, const char *m) {
	double ms = jslot(o, "ms")->u.d; int64_t t, days, era, doe, yoe, doy, mp, d, mo, y; char b[64];
	if (!strcmp(m, "getTime") || !strcmp(m, "valueOf")) return jnum(ms);
	if (!(ms >= -8.64e15 && ms <= 8.64e15)) { if (!strcmp(m, "toISOString")) return jtypeerr("invalid time"); return jnum(0.0 / 0.0); }
	t = (int64_t)ms; days = t / 86400000 - (t % 86400000 < 0); days += 719468; era = (days >= 0 ? days : days - 146096) / 146097; doe = days - era * 146097; yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; doy = doe - (365 * yoe + yoe / 4 - yoe / 100); mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; mo = mp < 10 ? mp + 3 : mp - 9; y = yoe + era * 400 + (mo <= 2);
	if (!strcmp(m, "getUTCFullYear")) return jnum((double)y);
	if (!strcmp(m, "getUTCMonth")) return jnum((double)(mo - 1));
	if (!strcmp(m, "getUTCDate")) return jnum((double)d);
	if (!strcmp(m, "toISOString") && t % 86400000 == 0) { snprintf(b, sizeof b, y >= 0 && y <= 9999 ? "%04lld-%02lld-%02lldT00:00:00.000Z" : "%+07lld-%02lld-%02lldT00:00:00.000Z", (long long)y, (long long)mo, (long long)d); return jstr(b); }
	vp_log(m); vp_fail("unmodelled: part of a time"); return JUNDEF;
}
static jv B_BigInt(int n, jv *a) {
	jv v = n ? a[0] : JUNDEF; struct jin *in;
	switch (v.t) {
	case TI: return v;
	case TB: return jint(v.u.b);
	case TD: { int64_t i = (int64_t)v.u.d; if ((double)i != v.u.d) return jtypeerr("BigInt of a fraction"); return jint(i); }
	case TS_:
		if (v.u.s->k == SK_I) return v.u.s->v;
		if (v.u.s->k == SK_P) { int64_t hi; uint64_t lo; if (v.u.s->n == 0) return jint(0); if (jcanon(v.u.s->s, v.u.s->n, &hi, &lo)) return jbig(hi, lo); return jtypeerr("BigInt of a text"); }
		if (v.u.s->k == SK_IN && !v.u.s->norm) { in = v.u.s->in; if (in->empty) return jint(0); if (!in->isint) return jtypeerr("BigInt of a text"); return jbig(in->hi, in->lo); }
		break;
	case TO: if (v.u.o->cls == SECC) { in = (struct jin *)(void *)v.u.o->p; return jint(in->days * 86400); } return jtypeerr("BigInt of an object");
	case TU: case TN: return jtypeerr("BigInt of nothing");
	case TX: case TA: case TF: return jtypeerr("BigInt of an object");
	default: break;
	}
	vp_fail("unmodelled: BigInt"); return JUNDEF;
}
static jv B_BigInt_asIntN(int n, jv *a) { if (n < 2 || a[0].t != TD) vp_fail("unmodelled: asIntN"); if (a[1].t != TI) return jtypeerr("asIntN of no bigint"); if (a[0].u.d != 64) vp_fail("unmodelled: asIntN"); return jint((int64_t)a[1].u.i.lo); }
static jv B_BigInt_asUintN(int n, jv *a) { if (n < 2 || a[0].t != TD) vp_fail("unmodelled: asUintN"); if (a[1].t != TI) return jtypeerr("asUintN of no bigint"); if (a[0].u.d != 64) vp_fail("unmodelled: asUintN"); return jbig(0, a[1].u.i.lo); }
static jv B_parseFloat(int n, jv *a) { if (a[0].t == TO || (a[0].t == TS_ && a[0].u.s->k == SK_P && a[0].u.s->s[0] == '[')) return jnum(0.0 / 0.0); if (a[0].t == TS_ && a[0].u.s->k == SK_IN && !a[0].u.s->norm) return a[0].u.s->in->isdec ? jnum(a[0].u.s->in->d) : jnum(0.0 / 0.0); if (a[0].t == TD) return a[0]; vp_fail("unmodelled: parseFloat"); return JUNDEF; }
static jv B_isNaN(int n, jv *a) { double d = jtonum(a[0]); return jbool(d != d); }
static jv B_Number(int n, jv *a) { if (a[0].t == TD) return a[0]; if (a[0].t == TS_ && a[0].u.s->k == SK_P) { int64_t hi; uint64_t lo; if (jcanon(a[0].u.s->s, a[0].u.s->n, &hi, &lo) && hi == (int64_t)lo >> 63) return jnum((double)(int64_t)lo); vp_fail("unmodelled: number of a text"); } if (a[0].t == TS_ && a[0].u.s->k == SK_IN && a[0].u.s->in->isdec) return jnum(a[0].u.s->in->d); vp_fail("unmodelled: Number"); return JUNDEF; }
static jv B_Object_assign(int n, jv *a) { int i, k; for (i = 1; i < n; i++) if (a[i].t == TO) for (k = 0; k < a[i].u.o->n; k++) jset(a[0], a[i].u.o->p[k].k, a[i].u.o->p[k].v); return a[0]; }
#ifndef JSRT_HOST
static jv B_Buffer_from(int n, jv *a) { jv r; if (a[0].t == TX) return a[0]; if (a[0].t == TS_ && a[0].u.s->k == SK_IN && !a[0].u.s->trim && n == 1) { r = jobj(-1); jset(r, "length", jenum_(a[0].u.s->in->bytes)); jset(r, "#from", a[0]); return r; } if (a[0].t != TS_) return jtypeerr("Buffer.from what is no text"); vp_fail("unmodelled: Buffer.from"); return JUNDEF; }
static jv B_Buffer_byteLength(int n, jv *a) { if (a[0].t == TX) return jnum((double)a[0].u.x->n); if (a[0].t == TO && jslot(a[0], "#from")) return *jslot(a[0], "length"); if (a[0].t != TS_) return jtypeerr("byteLength of no text"); if (a[0].u.s->k == SK_P) return jnum((double)a[0].u.s->n); if (a[0].u.s->k == SK_IN) { if (a[0].u.s->trim && !a[0].u.s->norm) vp_fail("unmodelled: length of trimmed text"); return jenum_(a[0].u.s->norm ? a[0].u.s->in->ebytes : a[0].u.s->in->bytes); } vp_fail("unmodelled: byteLength"); return JUNDEF; }
static jv B_process_abort(int n, jv *a) { gc_leave(1); return JUNDEF; }
static jv B_bcrypt_hashSync(int n, jv *a) { jv r; if (a[0].t != TS_ || a[0].u.s->k != SK_P) return jtypeerr("hash of no text"); vp_assert(n == 2 && a[1].t == TD && a[1].u.d == 11, "rounds-as-configured"); r = jstrn(a[0].u.s->s, a[0].u.s->n + 1); memcpy(r.u.s->s + 1, a[0].u.s->s, a[0].u.s->n); r.u.s->s[0] = '$'; r.u.s->s[r.u.s->n] = 0; return r; }
static jv B_bcrypt_compareSync(int n, jv *a) { if (n < 2 || a[0].t != TS_ || a[1].t != TS_) return jtypeerr("comparison of what is no text"); struct jstr_ *x = a[0].u.s, *y = a[1].u.s; if (x->k != SK_P || y->k != SK_P) vp_fail("unmodelled: compareSync"); return jbool(x->n + 1 == y->n && y->s[0] == '$' && gc_bytes(y->s + 1, x->s, x->n)); }
static struct jin *jinp(jv v, const char *m) { static struct jin none; if (v.t != TS_) { jtypeerr("validator of what is no text"); return NULL; } if (v.u.s->k == SK_P && v.u.s->n && v.u.s->s[0] == '[') return &none; if (v.u.s->k != SK_IN || v.u.s->norm) { vp_log(m); vp_fail("unmodelled: validator"); } return v.u.s->in; }
static int jopt(jv o, const char *k, const char *v) { jv *p = jslot(o, k); return p && p->t == TS_ && p->u.s->k == SK_P && !strcmp(p->u.s->s, v); }
static jv B_validator_isEmail(int n, jv *a) { struct jin *i = jinp(a[0], "isEmail"); if (!i) return JUNDEF; return jbool((i->isemail != 0) & (i->empty == 0) & (a[0].u.s->trim || i->padded == 0)); }
static jv B_validator_normalizeEmail(int n, jv *a) { jv r; struct jin *i = jinp(a[0], "normalizeEmail"); if (!i) return JUNDEF; if (i->isemail != 2) return jbool(0); r = js_(SK_IN); *r.u.s = *a[0].u.s; r.u.s->norm = 1; return r; }
static jv B_validator_isDecimal(int n, jv *a) { struct jin *i = jinp(a[0], "isDecimal"); if (!i) return JUNDEF; if (n > 1) vp_assert(jopt(a[1], "locale", "en-US"), "decimal-point"); return jbool((i->isdec != 0) & (i->empty == 0) & (a[0].u.s->trim || i->padded == 0)); }
static jv B_validator_isDate(int n, jv *a) { struct jin *i = jinp(a[0], "isDate"); jv *p; if (!i) return JUNDEF; vp_assert(n > 1 && jopt(a[1], "format", "YYYY-MM-DD") && (p = jslot(a[1], "strictMode")) && jtrue(*p), "format-of-dates"); return jbool((i->isdate != 0) & (i->empty == 0) & (a[0].u.s->trim || i->padded == 0)); }
static jv B_validator_toDate(int n, jv *a) { jv r; struct jin *i = jinp(a[0], "toDate"); if (!i) return JUNDEF; if (i->isdate != 2) return JNULL; r = jobj(DATEC); r.u.o->p = (struct jprop_ *)(void *)i; return r; }
/* ---- for harnesses ---- */
static int jv_eq(jv v, const struct gcv *g) {
	if (g->isnull) return v.t == TN;
	switch (g->type) {
	case GI: return v.t == TI && jieq(v, jint(g->i));
	case GE: return v.t == TS_ && jseq(v, (jv){ TS_, .u.s = &(struct jstr_){ .k = SK_I, .v = jint(g->i) } });
	case GR: return v.t == TD && gc_bits(v.u.d, g->d);
	case GB: return v.t == TX && v.u.x->n == g->n && gc_bytes(v.u.x->s, g->s, g->n);
	default: return v.t == TS_ && v.u.s->k == SK_P && v.u.s->n == g->n && gc_bytes(v.u.s->s, g->s, g->n);
	}
}
/* as exported: integers as text, blobs as base64 */
static int jv_exp(jv v, const struct gcv *g) {
	if (g->isnull) return v.t == TN;
	switch (g->type) {
	case GI: case GE: return v.t == TS_ && jseq(v, (jv){ TS_, .u.s = &(struct jstr_){ .k = SK_I, .v = jint(g->i) } });
	case GR: return (v.t == TD && gc_bits(v.u.d, g->d)) || (v.t == TS_ && v.u.s->k == SK_D && gc_bits(v.u.s->v.u.d, g->d));
	case GB: return v.t == TS_ && v.u.s->k == SK_64 && v.u.s->x->n == g->n && gc_bytes(v.u.s->x->s, g->s, g->n);
	default: return jv_eq(v, g);
	}
}
/* an argument: what TypeScript passes for a value */
static jv jv_arg(struct gcv *g, int type) {
	jv r;
	if (g->isnull) return JNULL;
	switch (type) {
	case GI: return jint(g->i);
	case GE: r = js_(SK_I); r.u.s->v = jint(g->i); return r;
	case GR: return jnum(g->d);
	case GB: memset(&r, 0, sizeof r); r.t = TX; r.u.x = g; return r;
	default: return jstrn(g->s, g->n);
	}
}
#endif
#endif
