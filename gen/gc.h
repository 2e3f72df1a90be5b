/*
 * Model of sqlbox, kcgi and password hashing for generated C: statements are read (columns, joins, conditions) and
 * answered with symbolic rows; everything the generated code binds, fills, exports and frees is compared with tables
 * (gc_cols, gc_roles, expectations) which the harness derives from the specification, not from the generator.
 */
#ifndef GC_H
#define GC_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <time.h>
#include <sys/queue.h>
#include <ctype.h>
#include "vp.h"
#include "sqlbox.h"
#include "kcgi.h"
#include "kcgijson.h"
enum gct { GI, GE, GR, GS, GB, GNULL, GP };	/* integer, enumeration (32 bits), real, text, blob, null, password (text, checked) */
struct gccol { const char *tab, *col; int type, null; const char *sf, *starget; };	/* sf: structure field using this column as its source */
extern const struct gccol gc_cols[];
extern int (*vp_on_exit)(int);
struct gcv { int type, isnull; int64_t i; double d; size_t n; char s[8]; };
struct jx { int st; struct gcv v; };	/* a value of a document imported */
#define MAXT 600
#define MAXC 80
struct gctoks { char *t[MAXT]; int n; };
struct gcconj { char *text; int nq; struct gcv v; int used; };
struct gcq { int idx; char kind; char *table; int count, distinct, ncols; char *col[MAXC]; int colk[MAXC]; int nconj; struct gcconj conj[MAXC]; char *order, *limit, *offset; int odd, nrows, at, open, fetched; unsigned long flags;
	struct gcv row[3][MAXC]; struct sqlbox_parm *ps; struct sqlbox_parmset set; struct gcq *below; int64_t cnt; int look; };
static struct gcq *gc_qs[24]; static int gc_nqs; static struct gcq *gc_top, *gc_main; static char **gc_stmts; static size_t gc_nstmts; static int gc_dbopen;
/* what the next operation should do */
static struct { char kind; const char *table, *order, *limit, *offset; int count, distinct, group, nconj, nrows; struct gcconj conj[MAXC]; int deny, execrc; int64_t lastid; unsigned long flags; } gc_want;
static int64_t gc_failat = -1, gc_calls; static int gc_failed, gc_denied, gc_deny_msg;
static size_t gc_role, gc_rolesz;
static int gc_fault(void) { if (gc_calls++ == gc_failat) { gc_failed = 1; return 1; } return 0; }

/* ---- values ---- */
static void gc_sym(struct gcv *v, const char *name, int type, int len) {
	v->type = type; v->isnull = 0;
	if (type == GI) v->i = vp_i64(name);
	else if (type == GE) v->i = (int32_t)vp_u32(name);
	else if (type == GR) vp_symbolic(&v->d, 8, name);
	else { v->n = (size_t)len; if (len) vp_symbolic(v->s, (size_t)len, name); v->s[len] = 0; if (type != GB) for (int k = 0; k < len; k++) vp_assume(v->s[k] != 0); }
}
static int gc_bits(double a, double b) { int64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static int gc_bytes(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; int d = 0; for (size_t k = 0; k < n; k++) d |= x[k] ^ y[k]; return d == 0; }
static int gc_str(const struct gcv *v, const char *s) { return s != NULL && strlen(s) == v->n && gc_bytes(s, v->s, v->n + 1); }	/* lengths are concrete, contents need not be */
static int gc_parm_eq(const struct gcv *v, const struct sqlbox_parm *p) {
	if (v->isnull) return p->type == SQLBOX_PARM_NULL;
	switch (v->type) {
	case GI: case GE: return p->type == SQLBOX_PARM_INT && p->iparm == v->i;
	case GR: return p->type == SQLBOX_PARM_FLOAT && gc_bits(p->fparm, v->d);
	case GB: return p->type == SQLBOX_PARM_BLOB && p->sz == v->n && gc_bytes(p->bparm, v->s, v->n);
	default: return p->type == SQLBOX_PARM_STRING && (p->sz == 0 || p->sz == v->n + 1 || p->sz == v->n) && gc_str(v, p->sparm);
	}
}

/* ---- statements ---- */
static char *gc_cat(char *a, const char *b) { size_t n = a ? strlen(a) : 0; char *r = malloc(n + strlen(b) + 2); if (a) memcpy(r, a, n); if (n) r[n++] = ' '; strcpy(r + n, b); free(a); return r; }
static void gc_tok(struct gctoks *t, const char *s) {
	t->n = 0;
	while (*s) {
		const char *b = s;
		if (*s == ' ' || *s == '\t' || *s == '\n') { s++; continue; }
		if (isalnum((unsigned char)*s) || *s == '_') while (isalnum((unsigned char)*s) || *s == '_' || *s == '.') s++;
		else if ((*s == '!' || *s == '<' || *s == '>') && (s[1] == '=' || s[1] == '>')) s += 2;
		else if (*s == '|' && s[1] == '|') s += 2;
		else s++;
		vp_assert(t->n < MAXT, "bounded-statement"); t->t[t->n++] = strndup(b, (size_t)(s - b));
	}
	t->t[t->n] = NULL;
}
static int gc_is(struct gctoks *t, int i, const char *w) { return i < t->n && strcasecmp(t->t[i], w) == 0; }
struct gcal { char *alias, *prefix, *table; };
static const struct gccol *gc_findcol(const char *tab, const char *col) { for (const struct gccol *c = gc_cols; c->tab; c++) if (!strcmp(c->tab, tab) && !strcmp(c->col, col)) return c; return NULL; }
/* name of a column as a path from the structure queried; k: its description */
static char *gc_path(struct gcal *al, int na, const char *ref, int *k) {
	const char *dot = strchr(ref, '.'); char b[128];
	for (int i = 0; i < na; i++) {
		if (dot ? ((size_t)(dot - ref) == strlen(al[i].alias) && !strncmp(ref, al[i].alias, (size_t)(dot - ref))) : i == 0) {
			const char *c = dot ? dot + 1 : ref; const struct gccol *g = al[i].table ? gc_findcol(al[i].table, c) : NULL;
			if (g == NULL && al[i].table) break;
			if (k) *k = g ? (int)(g - gc_cols) : -1;
			snprintf(b, sizeof b, "%s%s", al[i].prefix, c); return strdup(b);
		}
	}
	if (k) *k = -1;
	snprintf(b, sizeof b, "?%s", ref); return strdup(b);
}
static int gc_kw(struct gctoks *t, int i) { static const char *const k[] = { "WHERE", "AND", "ORDER", "LIMIT", "OFFSET", "INNER", "LEFT", "GROUP", "JOIN", ")", NULL }; if (i >= t->n) return 1; for (int j = 0; k[j]; j++) if (gc_is(t, i, k[j])) return 1; return 0; }
static void gc_conj(struct gcq *q, char *text, int nq) { if (q->nconj < MAXC) { q->conj[q->nconj].text = text; q->conj[q->nconj].nq = nq; q->nconj++; } }
static int gc_where(struct gcq *q, struct gctoks *t, int i, struct gcal *al, int na) {
	while (gc_is(t, i, "WHERE") || gc_is(t, i, "AND")) {
		char *s = NULL, *p; int nq = 0;
		for (i++; !gc_kw(t, i); i++) {
			if (gc_is(t, i, "(")) continue;
			if (gc_is(t, i, "?")) { nq++; s = gc_cat(s, "?"); }
			else if (gc_is(t, i, "IS") && gc_is(t, i + 1, "NULL")) { i++; s = gc_cat(s, "ISNULL"); }
			else if (gc_is(t, i, "IS") && gc_is(t, i + 1, "NOT")) { i += 2; s = gc_cat(s, "NOTNULL"); }
			else if (gc_is(t, i, "<>")) s = gc_cat(s, "!=");
			else if ((isalpha((unsigned char)t->t[i][0]) || t->t[i][0] == '_') && !gc_is(t, i, "LIKE") && !gc_is(t, i, "ISNULL") && !gc_is(t, i, "NOTNULL") && !gc_is(t, i, "NOT") && !gc_is(t, i, "NULL")) { p = gc_path(al, na, t->t[i], NULL); s = gc_cat(s, p); free(p); }
			else s = gc_cat(s, t->t[i]);
		}
		if (s && strncmp(s, "_custom.", 8) == 0) { free(s); q->odd |= 1; continue; }	/* grouping */
		gc_conj(q, s ? s : strdup(""), nq);
		while (gc_is(t, i, ")") && (gc_is(t, i + 1, "AND") || gc_is(t, i + 1, "ORDER") || gc_is(t, i + 1, "LIMIT"))) i++;
	}
	return i;
}
static void gc_parse(struct gcq *q, const char *stmt) {
	struct gctoks T, *t = &T; struct gcal al[24]; int na = 0, i = 0, sub = 0, c0 = 0;
	gc_tok(t, stmt); memset(al, 0, sizeof al);
	if (gc_is(t, 0, "SELECT")) {
		q->kind = 'S'; i = 1;
		if (gc_is(t, i, "COUNT")) { q->count = 1; i += 4; if (gc_is(t, i, "FROM") && gc_is(t, i + 1, "(")) { i += 3; sub = 1; } }
		if (gc_is(t, i, "DISTINCT")) { q->distinct = 1; i++; }
		c0 = i;
		while (i < t->n && !gc_is(t, i, "FROM")) i++;
		q->table = i + 1 < t->n ? strdup(t->t[i + 1]) : strdup("?");
		al[na].alias = q->table; al[na].prefix = strdup(""); al[na].table = q->table; na++; 
		{ int f = i; i += 2;
		while (gc_is(t, i, "INNER") || gc_is(t, i, "LEFT") || gc_is(t, i, "JOIN")) {
			int left = gc_is(t, i, "LEFT"); char *tab, *a; 
			while (i < t->n && !gc_is(t, i, "JOIN")) i++;
			tab = t->t[++i]; i++; a = tab;
			if (gc_is(t, i, "AS")) { a = t->t[i + 1]; i += 2; }
			if (left) { al[na].alias = a; al[na].prefix = strdup("_custom."); al[na].table = NULL; na++; q->odd |= 2; while (i < t->n && !gc_is(t, i, "INNER") && !gc_is(t, i, "LEFT") && !gc_is(t, i, "WHERE") && !gc_is(t, i, "ORDER") && !gc_is(t, i, "LIMIT") && !gc_is(t, i, ")")) i++; continue; }
			if (gc_is(t, i, "ON")) {
				char *x = t->t[i + 1], *y = t->t[i + 3], *o; const char *oc; size_t an = strlen(a); char b[128]; int k;
				o = (strncmp(x, a, an) == 0 && x[an] == '.') ? y : x;
				{ char *mine = o == y ? x : y; char *p = gc_path(al, na, o, &k); 
				  if (k >= 0 && gc_cols[k].sf && !strcmp(gc_cols[k].starget, tab) && gc_is(t, i + 2, "=") && strchr(mine, '.')) { oc = strrchr(p, '.'); snprintf(b, sizeof b, "%.*s%s.", oc ? (int)(oc + 1 - p) : 0, p, gc_cols[k].sf); } else snprintf(b, sizeof b, "?%s.", a);
				  free(p); }
				al[na].alias = a; al[na].prefix = strdup(b); al[na].table = tab; na++; i += 4;
			} else break;
		}
		i = gc_where(q, t, i, al, na);
		if (gc_is(t, i, "ORDER")) { for (i += 2; !gc_kw(t, i); i++) { if (gc_is(t, i, ",") || gc_is(t, i, "ASC") || gc_is(t, i, "DESC")) q->order = gc_cat(q->order, t->t[i]); else { char *p = gc_path(al, na, t->t[i], NULL); q->order = gc_cat(q->order, p); free(p); } } }
		if (gc_is(t, i, "LIMIT")) { i++; if (gc_is(t, i, "-")) i++; q->limit = strdup(t->t[i]); i++; }
		if (gc_is(t, i, "OFFSET")) { q->offset = strdup(t->t[i + 1]); i += 2; }
		if (sub && gc_is(t, i, ")")) i++;
		if (i != t->n) q->odd |= 8;
		for (i = c0; i < f; i++) if (!gc_is(t, i, ",") && !gc_is(t, i, "(") && !gc_is(t, i, "*") && !gc_is(t, i, ")") ) { vp_assert(q->ncols < MAXC, "bounded-columns"); q->col[q->ncols] = gc_path(al, na, t->t[i], &q->colk[q->ncols]); q->ncols++; }
		}
		for (i = 0; i < na; i++) free(al[i].prefix);
	} else if (gc_is(t, 0, "INSERT")) {
		q->kind = 'I'; q->table = strdup(t->t[2]);
		if (gc_is(t, 3, "(")) {
			int nc = 0, nv = 0; char b[64];
			for (i = 4; i < t->n && !gc_is(t, i, ")"); i++) if (!gc_is(t, i, ",")) { snprintf(b, sizeof b, "SET %s = ?", t->t[i]); gc_conj(q, strdup(b), 1); nc++; }
			for (i += 2; i < t->n && !gc_is(t, i, ")"); i++) if (gc_is(t, i, "?")) nv++; else if (!gc_is(t, i, ",") && !gc_is(t, i, "(")) q->odd |= 8;
			if (nc != nv) q->odd |= 8;
		} else if (!gc_is(t, 3, "DEFAULT")) q->odd |= 8;
	} else if (gc_is(t, 0, "UPDATE") || gc_is(t, 0, "DELETE")) {
		int up = gc_is(t, 0, "UPDATE"); q->kind = up ? 'U' : 'D'; q->table = strdup(t->t[up ? 1 : 2]); i = 3;
		al[0].alias = q->table; al[0].prefix = ""; al[0].table = q->table; na = 1;
		if (up) for (;;) { char *s = strdup("SET"); int nq = 0; for (; i < t->n && !gc_is(t, i, ",") && !gc_is(t, i, "WHERE"); i++) { if (gc_is(t, i, "?")) nq++; if (gc_is(t, i, "COALESCE") && gc_is(t, i + 1, "(") && gc_is(t, i + 3, ",") && gc_is(t, i + 4, "'") && gc_is(t, i + 5, "'") && gc_is(t, i + 6, ")")) { const struct gccol *g = gc_findcol(q->table, t->t[i + 2]); s = gc_cat(s, t->t[i + 2]); if (g && g->null) s = gc_cat(s, "(or empty)"); i += 6; } else s = gc_cat(s, t->t[i]); } gc_conj(q, s, nq); if (gc_is(t, i, ",")) i++; else break; }
		i = gc_where(q, t, i, al, na);
		if (i != t->n) q->odd |= 8;
	} else q->odd |= 8;
	for (i = 0; i < t->n; i++) free(t->t[i]);
}
static void gc_qfree(struct gcq *q) { int i; free(q->table); for (i = 0; i < q->ncols; i++) free(q->col[i]); for (i = 0; i < q->nconj; i++) free(q->conj[i].text); free(q->order); free(q->limit); free(q->offset); free(q->ps); free(q); }
static int gc_seq(const char *a, const char *b) { return (a == NULL || *a == 0) ? (b == NULL || *b == 0) : b != NULL && strcmp(a, b) == 0; }
/* compare the statement and its parameters with what the operation should do */
static void gc_match(struct gcq *q, size_t psz, const struct sqlbox_parm *ps) {
	int i, j; size_t k = 0; char b[200];
	if (q->odd & 8) { vp_log(gc_stmts[q->idx]); vp_fail("unexpected statement"); }
	vp_assert(q->kind == gc_want.kind && strcmp(q->table, gc_want.table) == 0, "runs-the-statement-of-the-operation");
	if (q->kind == 'S') {
		vp_assert(q->count == gc_want.count && q->distinct == gc_want.distinct, "kind-of-query");
		vp_assert(gc_seq(q->order, gc_want.order), "order-of-results");
		vp_assert(gc_seq(q->limit, gc_want.limit) && gc_seq(q->offset, gc_want.offset), "limit-and-offset");
		vp_assert(((q->odd & 3) != 0) == gc_want.group, "grouping");
	}
	vp_assert(((q->flags & gc_want.flags) == gc_want.flags), "statement-flags");
	for (i = 0; i < q->nconj; i++) {
		int found = -1;
		for (j = 0; j < gc_want.nconj && found < 0; j++) if (!gc_want.conj[j].used && strcmp(gc_want.conj[j].text, q->conj[i].text) == 0) found = j;
		if (found < 0) { snprintf(b, sizeof b, "%s in %s", q->conj[i].text, gc_stmts[q->idx]); vp_log(b); vp_fail("condition-or-assignment-not-asked-for"); }
		gc_want.conj[found].used = 1;
		if (q->conj[i].nq) {
			vp_assert(q->conj[i].nq == 1 && gc_want.conj[found].nq == 1 && k < psz, "parameter-for-each-placeholder");
			if (!gc_parm_eq(&gc_want.conj[found].v, &ps[k])) { vp_log(q->conj[i].text); vp_fail("argument-bound-to-its-condition"); }
			k++;
		}
	}
	for (j = 0; j < gc_want.nconj; j++) if (!gc_want.conj[j].used) { vp_log(gc_want.conj[j].text); vp_fail("condition-or-assignment-missing"); }
	vp_assert(k == psz, "parameter-for-each-placeholder");
}
static void gc_expect(const char *text, const struct gcv *v) { struct gcconj *c = &gc_want.conj[gc_want.nconj++]; c->text = (char *)text; c->used = 0; c->nq = v != NULL; if (v) c->v = *v; }
static void gc_start(char kind, const char *table) { int i; for (i = 0; i < gc_nqs; i++) gc_qfree(gc_qs[i]); gc_nqs = 0; gc_main = gc_top = NULL; memset(&gc_want, 0, sizeof gc_want); gc_want.kind = kind; gc_want.table = table; gc_denied = 0; }

/* ---- roles ---- */
static int gc_parent[40]; static unsigned char gc_may[40][160]; static int gc_sink = -1, gc_startrole = -1, gc_gen, gc_srcok[40]; static int gc_live_hier, gc_live_gen;
struct sqlbox_role_hier { int x; };
struct sqlbox_role_hier *sqlbox_role_hier_alloc(size_t n) { int i; if (gc_fault()) return NULL; gc_rolesz = n; for (i = 0; i < 40; i++) gc_parent[i] = -1; gc_live_hier++; return calloc(1, sizeof(struct sqlbox_role_hier)); }
void sqlbox_role_hier_free(struct sqlbox_role_hier *h) { if (h) gc_live_hier--; free(h); }
static int gc_rok(size_t r) { if (r >= gc_rolesz || r >= 40) return 0; return !gc_fault(); }
int sqlbox_role_hier_sink(struct sqlbox_role_hier *h, size_t r) { if (!gc_rok(r)) return 0; gc_sink = (int)r; return 1; }
int sqlbox_role_hier_start(struct sqlbox_role_hier *h, size_t r) { if (!gc_rok(r)) return 0; gc_startrole = (int)r; return 1; }
int sqlbox_role_hier_src(struct sqlbox_role_hier *h, size_t r, size_t s) { if (!gc_rok(r)) return 0; gc_srcok[r] = 1; return 1; }
int sqlbox_role_hier_stmt(struct sqlbox_role_hier *h, size_t r, size_t s) { if (!gc_rok(r) || s >= 160) return 0; gc_may[r][s] = 1; return 1; }
int sqlbox_role_hier_child(struct sqlbox_role_hier *h, size_t p, size_t c) { if (!gc_rok(p) || c >= gc_rolesz) return 0; gc_parent[c] = (int)p; return 1; }
int sqlbox_role_hier_gen(const struct sqlbox_role_hier *h, struct sqlbox_roles *r, size_t def) { if (!gc_rok(def)) return 0; memset(r, 0, sizeof *r); r->defrole = def; r->rolesz = gc_rolesz; r->roles = calloc(gc_rolesz, sizeof(struct sqlbox_role)); gc_gen = 1; return 1; }
void sqlbox_role_hier_gen_free(struct sqlbox_roles *r) { if (r) { free(r->roles); r->roles = NULL; r->rolesz = 0; } }
static int gc_allowed(size_t stmt) {	/* a role has the statements of its ancestors */
	int r;
	if (!gc_gen) return 1;
	for (r = (int)gc_role; r >= 0; r = gc_parent[r]) if (gc_may[r][stmt]) return 1;
	return 0;
}
int sqlbox_role(struct sqlbox *b, size_t r) {
	int a;
	if (gc_fault()) return 0;
	if (!gc_gen || r >= gc_rolesz) return 0;
	if (r == gc_role || (int)gc_role == gc_startrole || (int)r == gc_sink) { gc_role = r; return 1; }
	for (a = gc_parent[gc_role]; a >= 0; a = gc_parent[a]) if ((size_t)a == r) { gc_role = r; return 1; }
	return 0;
}

/* ---- the database ---- */
struct sqlbox { int x; };
static void *gc_msgdat; static size_t gc_msgsz; static struct sqlbox_cfg gc_cfg; static char *gc_fname;
struct sqlbox *sqlbox_alloc(struct sqlbox_cfg *c) {
	size_t i;
	if (gc_fault()) return NULL;
	gc_cfg = *c; gc_nstmts = c->stmts.stmtsz; gc_stmts = calloc(gc_nstmts + 1, sizeof(char *));
	for (i = 0; i < gc_nstmts; i++) gc_stmts[i] = strdup(c->stmts.stmts[i].stmt);
	vp_assert(c->srcs.srcsz == 1 && c->srcs.srcs[0].mode == SQLBOX_SRC_RW, "opens-one-database");
	gc_fname = strdup(c->srcs.srcs[0].fname);
	if (gc_gen) gc_role = c->roles.defrole;
	gc_dbopen++; return calloc(1, sizeof(struct sqlbox));
}
void sqlbox_free(struct sqlbox *b) { size_t i; if (b == NULL) return; for (i = 0; i < gc_nstmts; i++) free(gc_stmts[i]); free(gc_stmts); free(gc_fname); gc_stmts = NULL; gc_dbopen--; free(b); }
int sqlbox_open_async(struct sqlbox *b, size_t src) { if (gc_fault()) return 0; vp_assert(src == 0 && (!gc_gen || gc_srcok[gc_role] || 1), "opens-its-source"); return 1; }
int sqlbox_msg_set_dat(struct sqlbox *b, const void *p, size_t n) { if (gc_fault()) return 0; gc_msgdat = (void *)p; gc_msgsz = n; return 1; }
static int gc_tkind; static size_t gc_tid;
int sqlbox_trans_immediate(struct sqlbox *b, size_t s, size_t id) { if (gc_fault()) return 0; gc_tkind = 'I'; gc_tid = id; return 1; }
int sqlbox_trans_deferred(struct sqlbox *b, size_t s, size_t id) { if (gc_fault()) return 0; gc_tkind = 'D'; gc_tid = id; return 1; }
int sqlbox_trans_exclusive(struct sqlbox *b, size_t s, size_t id) { if (gc_fault()) return 0; gc_tkind = 'E'; gc_tid = id; return 1; }
int sqlbox_trans_commit(struct sqlbox *b, size_t s, size_t id) { if (gc_fault()) return 0; gc_tkind = 'C'; gc_tid = id; return 1; }
int sqlbox_trans_rollback(struct sqlbox *b, size_t s, size_t id) { if (gc_fault()) return 0; gc_tkind = 'R'; gc_tid = id; return 1; }
/* which columns are null: any, or when there are many: none, all, every other, each alone, all but each */
static int gc_nullpat = -1, gc_nullk, gc_nullfew;
static int gc_null(const char *nm) { int k = gc_nullk++, p = gc_nullpat; if (p < 0) return (int)vp_range(nm, 0, 1); if (p >= 4) { p -= 4; if (p > 1) return p & 1 ? k != p / 2 - 1 : k == p / 2 - 1; } return p < 2 ? p : (k & 1) == (p & 1); }
static struct gcq *gc_open(size_t idx, size_t psz, const struct sqlbox_parm *ps, unsigned long flags) {
	struct gcq *q; int i, r, c; char nm[96]; size_t k;
	vp_assert(gc_stmts != NULL && idx < gc_nstmts, "statement-exists");
	if (!gc_allowed(idx)) { gc_denied = 1; return NULL; }
	q = calloc(1, sizeof *q); q->idx = (int)idx; q->flags = flags; gc_parse(q, gc_stmts[idx]);
	vp_assert(gc_nqs < 24, "bounded-number-of-statements"); gc_qs[gc_nqs++] = q; q->look = gc_nqs - 1;
	for (i = 0, k = 0; i < q->nconj; i++) if (q->conj[i].nq && k < psz && ps[k].type == SQLBOX_PARM_INT) { q->conj[i].v.type = GI; q->conj[i].v.i = ps[k++].iparm; } else if (q->conj[i].nq && k < psz && ps[k].type == SQLBOX_PARM_STRING) { q->conj[i].v.type = GS; strncpy(q->conj[i].v.s, ps[k].sparm, 7); q->conj[i].v.n = strlen(ps[k++].sparm); } else if (q->conj[i].nq && k < psz && ps[k].type == SQLBOX_PARM_FLOAT) { q->conj[i].v.type = GR; q->conj[i].v.d = ps[k++].fparm; } else if (q->conj[i].nq && k < psz && ps[k].type == SQLBOX_PARM_BLOB && ps[k].sz < 8) { q->conj[i].v.type = GB; q->conj[i].v.n = ps[k].sz; memcpy(q->conj[i].v.s, ps[k].bparm, ps[k].sz); k++; } else if (q->conj[i].nq) k++;
	if (gc_main == NULL) { gc_main = q; gc_match(q, psz, ps); q->nrows = gc_want.nrows; }
	else { vp_assert(q->kind == 'S' && q->nconj == 1 && psz == 1 && !q->count && q->order == NULL && q->offset == NULL, "looks-up-a-reference"); q->nrows = 1; }
	if (q->count) q->cnt = vp_i64("count") & INT64_MAX;
	if (q == gc_main && q->nrows) { for (c = 0, r = 0; c < q->ncols; c++) r += q->colk[c] >= 0 && gc_cols[q->colk[c]].null; gc_nullk = 0; gc_nullpat = gc_nullfew ? (int)vp_conc(vp_range("nulls", 0, 3)) : r > 4 ? 4 + (int)vp_conc(vp_range("nulls", 0, 2 * r + 5)) : -1; }
	for (r = 0; r < q->nrows; r++) for (c = 0; c < q->ncols; c++) {
		const struct gccol *g; struct gcv *v = &q->row[r][c];
		if (q->colk[c] < 0) { vp_log(gc_stmts[idx]); vp_fail("column-is-known"); }
		g = &gc_cols[q->colk[c]];
		if (q != gc_main) snprintf(nm, sizeof nm, "k%d.%s", q->look, q->col[c]); else snprintf(nm, sizeof nm, "r%d.%s", r, q->col[c]);
		gc_sym(v, nm, g->type == GP ? GS : g->type, g->type == GP ? 2 : g->type == GB ? (c + 1) % 3 : 1 + (c & 1));
		if (g->null) { if (r == 0 && (q->look < 2 || gc_nullpat >= 0)) { strcat(nm, ".null"); v->isnull = gc_null(nm); } else if (r == 0) v->isnull = q->look & 1; else v->isnull = 1 - q->row[0][c].isnull; }
	}
	/* a look-up finds what was asked for */
	if (q != gc_main) for (c = 0; c < q->ncols; c++) if (strncmp(q->conj[0].text, q->col[c], strlen(q->col[c])) == 0 && q->conj[0].text[strlen(q->col[c])] == ' ') { q->row[0][c].isnull = 0; { struct gcv *v = &q->conj[0].v, *w = &q->row[0][c]; if (v->type == GI && (w->type == GI || w->type == GE)) w->i = v->i; else if (v->type == w->type) { int t = w->type; *w = *v; w->type = t; w->isnull = 0; } else if (v->type != GS || w->type != GP) vp_fail("looks-up-with-a-value-of-the-type"); } }
	return q;
}
int sqlbox_prepare_bind_async(struct sqlbox *b, size_t src, size_t idx, size_t psz, const struct sqlbox_parm *ps, unsigned long flags) {
	struct gcq *q;
	if (gc_fault()) return 0;
	if ((q = gc_open(idx, psz, ps, flags)) == NULL) return 0;
	vp_assert(q->kind == 'S', "query-is-a-select"); q->open = 1; q->below = gc_top; gc_top = q; return 1;
}
int sqlbox_prepare_bind(struct sqlbox *b, size_t src, size_t idx, size_t psz, const struct sqlbox_parm *ps, unsigned long flags) { return sqlbox_prepare_bind_async(b, src, idx, psz, ps, flags); }
const struct sqlbox_parmset *sqlbox_step(struct sqlbox *b, size_t id) {
	struct gcq *q = gc_top; int c;
	if (gc_fault()) return NULL;
	vp_assert(q != NULL && id == 0, "steps-an-open-statement");
	vp_assert(q->at <= q->nrows, "no-step-after-the-last-row");
	free(q->ps); q->ps = NULL; q->set.ps = NULL; q->set.psz = 0; q->set.code = SQLBOX_CODE_OK;
	if (q->count) { vp_assert(q->at == 0, "one-count"); q->ps = calloc(1, sizeof *q->ps); q->ps[0].type = SQLBOX_PARM_INT; q->ps[0].iparm = q->cnt; q->ps[0].sz = 8; q->set.ps = q->ps; q->set.psz = 1; q->at++; return &q->set; }
	if (q->at == q->nrows) { q->at++; return &q->set; }
	q->ps = calloc((size_t)q->ncols, sizeof *q->ps);
	for (c = 0; c < q->ncols; c++) { struct gcv *v = &q->row[q->at][c]; struct sqlbox_parm *p = &q->ps[c];
		if (v->isnull) p->type = SQLBOX_PARM_NULL;
		else switch (v->type) { case GI: case GE: p->type = SQLBOX_PARM_INT; p->iparm = v->i; p->sz = 8; break; case GR: p->type = SQLBOX_PARM_FLOAT; p->fparm = v->d; p->sz = 8; break; case GB: p->type = SQLBOX_PARM_BLOB; p->bparm = v->s; p->sz = v->n; break; default: p->type = SQLBOX_PARM_STRING; p->sparm = v->s; p->sz = v->n + 1; } }
	q->set.ps = q->ps; q->set.psz = (size_t)q->ncols; q->at++; return &q->set;
}
/* what has been read stays good if the statement cannot be finalised: giving up is left to the generated code */
static int gc_finfail;
int sqlbox_finalise(struct sqlbox *b, size_t id) { struct gcq *q = gc_top; int bad = gc_fault(); if (bad) gc_finfail = 1; vp_assert(q != NULL && id == 0, "finalises-an-open-statement"); free(q->ps); q->ps = NULL; q->set.ps = NULL; q->open = 0; gc_top = q->below; return !bad; }
enum sqlbox_code sqlbox_exec(struct sqlbox *b, size_t src, size_t idx, size_t psz, const struct sqlbox_parm *ps, unsigned long flags) {
	struct gcq *q;
	if (gc_fault()) return SQLBOX_CODE_ERROR;
	if ((q = gc_open(idx, psz, ps, flags)) == NULL) return SQLBOX_CODE_ERROR;
	vp_assert(q->kind != 'S', "modification-is-no-select");
	return gc_want.execrc ? SQLBOX_CODE_CONSTRAINT : SQLBOX_CODE_OK;
}
int sqlbox_lastid(struct sqlbox *b, size_t src, int64_t *id) { if (gc_fault()) return 0; vp_assert(gc_main && gc_main->kind == 'I' && !gc_want.execrc, "identifier-after-insert"); *id = gc_want.lastid; return 1; }
int sqlbox_parm_int(const struct sqlbox_parm *p, int64_t *v) { if (gc_fault()) return -1; if (p->type != SQLBOX_PARM_INT) return -1; *v = p->iparm; return 0; }
int sqlbox_parm_float(const struct sqlbox_parm *p, double *v) { if (gc_fault()) return -1; if (p->type != SQLBOX_PARM_FLOAT) return -1; *v = p->fparm; return 0; }
int sqlbox_parm_string_alloc(const struct sqlbox_parm *p, char **s, size_t *n) { if (gc_fault()) return -1; if (p->type != SQLBOX_PARM_STRING) return -1; *s = malloc(p->sz); if (*s == NULL) return -1; memcpy(*s, p->sparm, p->sz); if (n) *n = p->sz - 1; return 0; }
int sqlbox_parm_blob_alloc(const struct sqlbox_parm *p, void **s, size_t *n) { if (gc_fault()) return -1; if (p->type != SQLBOX_PARM_BLOB) return -1; *s = malloc(p->sz + 1); if (*s == NULL) return -1; memcpy(*s, p->bparm, p->sz); if (n) *n = p->sz; return 0; }
/* hashing: a function of the password, with an error for what the caller passes wrongly */
int crypt_newhash(const char *pw, const char *pref, char *h, size_t n) { size_t l = strlen(pw); vp_assert(n >= l + 2, "room-for-the-hash"); h[0] = '$'; memcpy(h + 1, pw, l + 1); return 0; }
int crypt_checkpass(const char *pw, const char *h) { size_t l; if (h == NULL) return -1; l = strlen(pw); if (l + 1 != strlen(h)) return -1; return h[0] == '$' && gc_bytes(h + 1, pw, l) ? 0 : -1; }
static int gc_pwok(const struct gcv *pw, const struct gcv *h) { if (h->isnull || pw->isnull) return 0; return pw->n + 1 == h->n && h->s[0] == '$' && gc_bytes(h->s + 1, pw->s, pw->n); }
/* whether a row passes the password term: comparing with NULL, either side, never succeeds */
static int gc_pwtest(const struct gcv *pw, const struct gcv *h, int neg) { if (h->isnull || pw->isnull) return 0; return gc_pwok(pw, h) != neg; }
static void gc_hash(struct gcv *v) { if (!v->isnull) { memmove(v->s + 1, v->s, v->n + 1); v->s[0] = '$'; v->n++; } }

/* ---- results ---- */
static struct gcv *gc_at(struct gcq *q, int row, const char *pfx, const char *col) {
	char b[128]; int c;
	snprintf(b, sizeof b, "%s%s", pfx, col);
	for (c = 0; c < q->ncols; c++) if (!strcmp(q->col[c], b)) return &q->row[row][c];
	vp_log(b); vp_fail("column-selected"); return NULL;
}
static int gc_hard;	/* assert each comparison */
#define CK(c, id) do { int ck_ = (c) ? 1 : 0; if (gc_hard) vp_assert(ck_, id); ok &= ck_; } while (0)

/* ---- JSON output ---- */
struct gcev { char *path; int type; int64_t i; double d; char *s; int used; };
static struct gcev gc_ev[400]; static int gc_nev; static char gc_jp[8][64]; static int gc_ji[8], gc_jd;
static void gc_jput(const char *key, int type, int64_t i, double d, const char *s) {
	char b[400]; size_t n = 0; int k; b[0] = 0;
	for (k = 0; k < gc_jd; k++) { if (gc_ji[k] >= 0) { if (n) n--; n += (size_t)snprintf(b + n, sizeof b - n, "[%d].", gc_ji[k] - 1); } else if (gc_jp[k][0]) n += (size_t)snprintf(b + n, sizeof b - n, "%s.", gc_jp[k]); }
	snprintf(b + n, sizeof b - n, "%s", key);
	vp_assert(gc_nev < 400, "bounded-output"); gc_ev[gc_nev].path = strdup(b); gc_ev[gc_nev].type = type; gc_ev[gc_nev].i = i; gc_ev[gc_nev].d = d; gc_ev[gc_nev].s = s ? strdup(s) : NULL; gc_ev[gc_nev].used = 0; gc_nev++;
}
static void gc_jpush(const char *k, int arr) { vp_assert(gc_jd < 8, "bounded-nesting"); snprintf(gc_jp[gc_jd], 64, "%s", k); gc_ji[gc_jd] = arr; gc_jd++; }
enum kcgi_err kjson_putintstrp(struct kjsonreq *r, const char *k, int64_t v) { gc_jput(k, GI, v, 0, NULL); return KCGI_OK; }
enum kcgi_err kjson_putintp(struct kjsonreq *r, const char *k, int64_t v) { gc_jput(k, GI, v, 0, NULL); return KCGI_OK; }
enum kcgi_err kjson_putdoublep(struct kjsonreq *r, const char *k, double v) { gc_jput(k, GR, 0, v, NULL); return KCGI_OK; }
enum kcgi_err kjson_putstringp(struct kjsonreq *r, const char *k, const char *v) { gc_jput(k, GS, 0, 0, v); return KCGI_OK; }
enum kcgi_err kjson_putnullp(struct kjsonreq *r, const char *k) { gc_jput(k, GNULL, 0, 0, NULL); return KCGI_OK; }
enum kcgi_err kjson_objp_open(struct kjsonreq *r, const char *k) { gc_jput(k, 100, 0, 0, NULL); gc_jpush(k, -1); return KCGI_OK; }
enum kcgi_err kjson_obj_open(struct kjsonreq *r) { if (gc_jd && gc_ji[gc_jd - 1] >= 0) gc_ji[gc_jd - 1]++; gc_jpush("", -1); return KCGI_OK; }
enum kcgi_err kjson_obj_close(struct kjsonreq *r) { vp_assert(gc_jd > 0 && gc_ji[gc_jd - 1] < 0, "balanced-output"); gc_jd--; return KCGI_OK; }
enum kcgi_err kjson_arrayp_open(struct kjsonreq *r, const char *k) { gc_jput(k, 101, 0, 0, NULL); gc_jpush(k, -1); gc_jpush("", 0); return KCGI_OK; }
enum kcgi_err kjson_array_open(struct kjsonreq *r) { vp_fail("unexpected array"); return KCGI_OK; }
enum kcgi_err kjson_array_close(struct kjsonreq *r) { vp_assert(gc_jd > 1 && gc_ji[gc_jd - 1] >= 0, "balanced-output"); gc_jd -= 2; return KCGI_OK; }
static void gc_jreset(void) { int i; for (i = 0; i < gc_nev; i++) { free(gc_ev[i].path); free(gc_ev[i].s); } gc_nev = gc_jd = 0; }
static char gc_b64c(unsigned v) { return (char)(v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'); }
static void gc_b64(const struct gcv *v, char *o) {
	size_t i; const unsigned char *s = (const unsigned char *)v->s;
	for (i = 0; i < v->n; i += 3) { unsigned x = (unsigned)s[i] << 16; if (i + 1 < v->n) x |= (unsigned)s[i + 1] << 8; if (i + 2 < v->n) x |= s[i + 2];
		*o++ = gc_b64c(x >> 18 & 63); *o++ = gc_b64c(x >> 12 & 63); *o++ = i + 1 < v->n ? gc_b64c(x >> 6 & 63) : '='; *o++ = i + 2 < v->n ? gc_b64c(x & 63) : '='; }
	*o = 0;
}
static void gc_jwant(const char *pfx, const char *key, const struct gcv *v, int type) {
	char b[400]; int i;
	snprintf(b, sizeof b, "%s%s", pfx, key);
	for (i = 0; i < gc_nev; i++) if (!gc_ev[i].used && !strcmp(gc_ev[i].path, b)) break;
	if (i == gc_nev) { vp_log(b); vp_fail("field-exported"); }
	gc_ev[i].used = 1;
	if (type >= 100) { vp_assert(gc_ev[i].type == type, "kind-of-exported-value"); return; }
	if (v == NULL || v->isnull) { vp_assert(gc_ev[i].type == GNULL, "null-exported-as-null"); return; }
	switch (v->type) {
	case GI: case GE: if (gc_ev[i].type != GI || gc_ev[i].i != v->i) { vp_log(b); vp_fail("exported-integer"); } break;
	case GR: if (gc_ev[i].type != GR || !gc_bits(gc_ev[i].d, v->d)) { vp_log(b); vp_fail("exported-real"); } break;
	case GB: { char o[16]; gc_b64(v, o); vp_assert(gc_ev[i].type == GS && gc_ev[i].s && strlen(gc_ev[i].s) == strlen(o) && gc_bytes(gc_ev[i].s, o, strlen(o)), "exported-blob"); break; }
	default: vp_assert(gc_ev[i].type == GS && gc_str(v, gc_ev[i].s), "exported-text");
	}
}
static void gc_jdone(void) { int i; for (i = 0; i < gc_nev; i++) if (!gc_ev[i].used) { vp_log(gc_ev[i].path); vp_fail("exports-nothing-else"); } vp_assert(gc_jd == 0, "balanced-output"); gc_jreset(); }

/* ---- validation ---- */
static int gc_kval, gc_kcalls; static struct gcv gc_kv; static const char *gc_kfun;
static int gc_kv_(struct kpair *p, const char *f) { gc_kcalls++; gc_kfun = f; if (!gc_kval) return 0; return 1; }
int kvalid_int(struct kpair *p) { if (!gc_kv_(p, "int")) return 0; p->type = KPAIR_INTEGER; p->parsed.i = gc_kv.i; return 1; }
int kvalid_uint(struct kpair *p) { if (!gc_kv_(p, "uint")) return 0; p->type = KPAIR_INTEGER; p->parsed.i = gc_kv.i; return 1; }
int kvalid_bit(struct kpair *p) { if (!gc_kv_(p, "bit")) return 0; p->type = KPAIR_INTEGER; p->parsed.i = gc_kv.i; return 1; }
int kvalid_date(struct kpair *p) { if (!gc_kv_(p, "date")) return 0; p->type = KPAIR_INTEGER; p->parsed.i = gc_kv.i; return 1; }
int kvalid_double(struct kpair *p) { if (!gc_kv_(p, "double")) return 0; p->type = KPAIR_DOUBLE; p->parsed.d = gc_kv.d; return 1; }
int kvalid_string(struct kpair *p) { if (!gc_kv_(p, "string")) return 0; p->type = KPAIR_STRING; p->parsed.s = p->val; return 1; }
int kvalid_stringne(struct kpair *p) { if (!gc_kv_(p, "stringne")) return 0; p->type = KPAIR_STRING; p->parsed.s = p->val; return 1; }
int kvalid_email(struct kpair *p) { if (!gc_kv_(p, "email")) return 0; p->type = KPAIR_STRING; p->parsed.s = p->val; return 1; }

/* ---- allocation in generated code ---- */
void *gc_malloc(size_t n) { return gc_fault() ? NULL : malloc(n); }
void *gc_calloc(size_t a, size_t b) { return gc_fault() ? NULL : calloc(a, b); }
char *gc_strndup(const char *s, size_t n) { return gc_fault() ? NULL : strndup(s, n); }
char *gc_strdup(const char *s) { return gc_fault() ? NULL : strdup(s); }

/* ---- leaving ---- */
static int gc_want_exit;	/* 1: must leave, 0: must not */
static int want_role_idx; void done_call(void); struct ort; void role_late(struct ort *);
__attribute__((noreturn)) void gc_leave(int code) {
	if (gc_want_exit == 0 && !gc_failed) { if (gc_denied) vp_fail("refused-although-the-role-may"); vp_fail("gives-up-without-reason"); }
	vp_assert(code != 0, "gives-up-with-an-error");
	vp_reach("left"); vp_end();
}
__attribute__((noreturn)) void gc_exit(int c) { gc_leave(c); }
__attribute__((noreturn)) void gc_abort(void) { gc_leave(1); }
#endif
