/* Statements as they stand in generated source code, read back and compared with the operations they are for. */
#ifndef STMTS_H
#define STMTS_H
#include "sqlm.h"
enum { L_C, L_JS, L_RUST };
static const char *s_find(const char *h, const char *n) { return strstr(h, n); }
/* the columns that the generated macro or function of this structure lists for an alias */
static void cols_of(struct tx *o, const char *src, int lang, const char *sn, const char *alias) {
	char pat[256]; const char *p; int d = 0;
	snprintf(pat, sizeof pat, lang == L_C ? "#define DB_SCHEMA_%s(_x)" : lang == L_JS ? "function ort_schema_%s(v: string): string" : "fn stmt_%s(v: &str) -> String", sn);
	p = s_find(src, pat); vp_assert(p != NULL, "column-list-of-structure-defined"); p += strlen(pat);
	if (lang == L_C) {
		for (; *p; p++) {
			if (*p == '\n') { if (p[-1] == '\\') continue; break; }
			if (p[0] == '#' && p[1] == '_' && p[2] == 'x') { tx_s(o, alias); p += 2; }
			else if (*p == '"') { for (p++; *p != '"'; p++) tx_c(o, *p); }
		}
		return;
	}
	for (; *p && (*p != '}' || d); p++) {
		if (lang == L_JS && *p == 'v' && !isid((unsigned char)p[-1]) && !isid((unsigned char)p[1])) tx_s(o, alias);
		else if (*p == (lang == L_JS ? '\'' : '"')) { int q = *p; for (p++; *p != q; p++) if (lang == L_RUST && p[0] == '{' && p[1] == '}') { tx_s(o, alias); p++; } else tx_c(o, *p); }
	}
}
/* one string expression, up to a comma or a brace; NULL where there is none */
static const char *expr_of(struct tx *o, const char *p, const char *src, int lang) {
	int any = 0, q = lang == L_JS ? '\'' : '"';
	tx_init(o);
	for (;;) {
		while (SQL_WS(*p) || *p == '+' || *p == '&') p++;
		if (p[0] == '/' && p[1] == '*') { p = s_find(p, "*/"); if (!p) return NULL; p += 2; continue; }
		if (*p == q) { for (p++; *p != q; p++) { if (p[0] == '\\' && (p[1] == '\'' || p[1] == '"' || p[1] == '\\')) p++; else if (*p == 0 || *p == '\n' || *p == '\\') { vp_fail("statement-literal-well-formed"); vp_end(); } tx_c(o, *p); } p++; any = 1; continue; }
		if (!strncmp(p, "String::new()", 13)) { p += 13; continue; }
		if (*p == ',' || *p == ';' || *p == '}' || *p == ']') break;
		{
			char sn[64], al[64]; size_t n = 0; const char *pre = lang == L_C ? "DB_SCHEMA_" : lang == L_JS ? "ort_schema_" : "stmt_";
			if (strncmp(p, pre, strlen(pre))) { vp_log("unexpected text in statement"); vp_fail("statement-well-formed"); vp_end(); }
			for (p += strlen(pre); isid((unsigned char)*p); p++) { sn[n++] = *p; if (n > 60) abort(); }
			sn[n] = 0; n = 0; vp_assert(*p == '(', "statement-well-formed"); p++; if (lang != L_C) { vp_assert(*p == q, "statement-well-formed"); p++; }
			for (; isid((unsigned char)*p); p++) { al[n++] = *p; if (n > 60) abort(); }
			al[n] = 0; if (lang != L_C) { vp_assert(*p == q, "statement-well-formed"); p++; } vp_assert(*p == ')', "statement-well-formed"); p++;
			cols_of(o, src, lang, sn, al); any = 1;
		}
	}
	return any ? p : NULL;
}
/* ---- the statements ---- */
static struct schema *noschema;
static void lx(struct slex *l, const struct tx *t) { if (!noschema) noschema = s_new(); memset(l, 0, sizeof *l); l->p = t->b; l->e = t->b + t->n; l->db = noschema; sl_next(l); }
static void q_col(struct slex *l, const char *tab, const char *col, const char *id) { char *a = sl_name(l), *b; sl_c(l, '.'); b = sl_name(l); vp_assert(seq(a, tab) && seq(b, col), id); }
static const struct alias *alias_of(const struct strct *o, const char *name) { const struct alias *a; TAILQ_FOREACH(a, &o->aq, entries) if (!strcmp(a->name, name)) return a; vp_fail("alias-exists"); vp_end(); }
static char *path(const char *pre, const char *n) { char *r; if (asprintf(&r, "%s%s%s", pre ? pre : "", pre ? "." : "", n) < 0) abort(); return r; }
/* columns of a structure and of those nested in it, in the sequence they are read */
static void q_cols(struct slex *l, const struct strct *orig, const struct strct *p, const char *pn, int *first) {
	const struct field *f; const char *tab = pn ? alias_of(orig, pn)->alias : p->name;
	TAILQ_FOREACH(f, &p->fq, entries) if (f->type != FTYPE_STRUCT) { if (!*first) sl_c(l, ','); *first = 0; q_col(l, tab, f->name, "columns-of-the-structure"); }
	TAILQ_FOREACH(f, &p->fq, entries) if (f->type == FTYPE_STRUCT && !(f->ref->source->flags & FIELD_NULL)) q_cols(l, orig, f->ref->target->parent, path(pn, f->name), first);
}
struct join { const char *tab, *as, *tcol, *ptab, *pcol; int seen; };
static struct join jn[64]; static int njn;
static void joins(const struct strct *orig, const struct strct *p, const char *pn) {
	const struct field *f;
	TAILQ_FOREACH(f, &p->fq, entries) if (f->type == FTYPE_STRUCT && !(f->ref->source->flags & FIELD_NULL)) {
		char *n = path(pn, f->name); struct join *j = &jn[njn++]; if (njn > 64) abort();
		j->tab = f->ref->target->parent->name; j->as = alias_of(orig, n)->alias; j->tcol = f->ref->target->name; j->ptab = pn ? alias_of(orig, pn)->alias : p->name; j->pcol = f->ref->source->name; j->seen = 0;
		joins(orig, f->ref->target->parent, n);
	}
}
static int isjoin(const struct join *j, const char *t, const char *as, const char *a, const char *b, const char *c, const char *d) {
	return seq(j->tab, t) && seq(j->as, as) && ((seq(a, j->as) && seq(b, j->tcol) && seq(c, j->ptab) && seq(d, j->pcol)) || (seq(c, j->as) && seq(d, j->tcol) && seq(a, j->ptab) && seq(b, j->pcol)));
}
static void q_joins(struct slex *l, const struct strct *p) {
	int i, k; njn = 0; joins(p, p, NULL);
	for (k = 0; sl_is(l, "INNER"); k++) {
		char *t, *as, *a, *b, *c, *d;
		sl_next(l); sl_w(l, "JOIN"); t = sl_name(l); sl_w(l, "AS"); as = sl_name(l); sl_w(l, "ON"); a = sl_name(l); sl_c(l, '.'); b = sl_name(l); sl_c(l, '='); c = sl_name(l); sl_c(l, '.'); d = sl_name(l);
		for (i = 0; i < njn; i++) if (!jn[i].seen && isjoin(&jn[i], t, as, a, b, c, d)) break;
		vp_assert(i < njn, "joins-are-of-nested-structures"); jn[i].seen = 1;
		if (!seq(jn[i].ptab, p->name)) { int m, ok = 0; for (m = 0; m < njn; m++) if (jn[m].seen && m != i && seq(jn[m].as, jn[i].ptab)) ok = 1; vp_assert(ok, "joined-structure-is-introduced-first"); }
	}
	vp_assert(k == njn, "all-nested-structures-are-joined");
}
static void q_op(struct slex *l, enum optype o) {	/* operator and placeholder */
	switch (o) {
	case OPTYPE_ISNULL: if (sl_try(l, "IS")) sl_w(l, "NULL"); else sl_w(l, "ISNULL"); return;
	case OPTYPE_NOTNULL: if (sl_try(l, "IS")) { sl_w(l, "NOT"); sl_w(l, "NULL"); } else if (sl_try(l, "NOT")) sl_w(l, "NULL"); else sl_w(l, "NOTNULL"); return;
	case OPTYPE_EQUAL: case OPTYPE_STREQ: sl_c(l, '='); if (l->kind == '=') sl_next(l); break;
	case OPTYPE_NEQUAL: case OPTYPE_STRNEQ: if (l->kind == '<') { sl_next(l); sl_c(l, '>'); } else { sl_c(l, '!'); sl_c(l, '='); } break;
	case OPTYPE_GE: sl_c(l, '>'); sl_c(l, '='); break;
	case OPTYPE_GT: sl_c(l, '>'); break;
	case OPTYPE_LE: sl_c(l, '<'); sl_c(l, '='); break;
	case OPTYPE_LT: sl_c(l, '<'); break;
	case OPTYPE_LIKE: sl_w(l, "LIKE"); break;
	case OPTYPE_AND: sl_c(l, '&'); break;
	case OPTYPE_OR: sl_c(l, '|'); break;
	default: abort();
	}
	sl_c(l, '?');
}
static int64_t q_num(struct slex *l) { struct sdef d; if (l->kind != 'n') sl_bad(l, "number"); memset(&d, 0, sizeof d); sl_num(l->s, &d); vp_assert(d.kind == 1, "row-limit-is-integer"); sl_next(l); return d.i; }
/* verified after retrieval, not within the statement */
static int postponed(const struct sent *s) { return s->field->type == FTYPE_PASSWORD && (s->op == OPTYPE_EQUAL || s->op == OPTYPE_NEQUAL); }
static void q_search(const struct tx *t, const struct strct *p, const struct search *s) {
	struct slex lb, *l = &lb; int first = 1, paren = 0; const struct sent *se; const struct ord *o; int64_t lim = 0, off = 0;
	lx(l, t); sl_w(l, "SELECT");
	if (s->type == STYPE_COUNT) {
		sl_w(l, "COUNT"); sl_c(l, '('); sl_c(l, '*'); sl_c(l, ')'); sl_w(l, "FROM");
		if (s->dst) { sl_c(l, '('); paren = 1; sl_w(l, "SELECT"); }
	}
	if (s->type != STYPE_COUNT || s->dst) {
		if (s->dst) sl_w(l, "DISTINCT");
		if (s->dst && strcmp(s->dst->fname, ".")) q_cols(l, p, s->dst->strct, s->dst->fname, &first); else q_cols(l, p, p, NULL, &first);
		sl_w(l, "FROM");
	}
	vp_assert(seq(sl_name(l), p->name), "selects-from-its-structure");
	q_joins(l, p);
	if (s->group) {
		const char *g = s->group->alias ? s->group->alias->alias : s->group->field->parent->name, *a = s->aggr->alias ? s->aggr->alias->alias : s->aggr->field->parent->name; char *cu;
		sl_w(l, "LEFT"); (void)sl_try(l, "OUTER"); sl_w(l, "JOIN"); vp_assert(seq(sl_name(l), s->group->field->parent->name), "grouping-within-the-same-table"); sl_w(l, "AS"); cu = sl_name(l); sl_w(l, "ON");
		q_col(l, g, s->group->field->name, "grouped-column"); sl_c(l, '='); q_col(l, cu, s->group->field->name, "grouped-column"); sl_w(l, "AND");
		q_col(l, a, s->aggr->field->name, "collapsing-column"); sl_c(l, s->aggr->op == AGGR_MAXROW ? '<' : '>'); q_col(l, cu, s->aggr->field->name, "collapsing-column");
		sl_w(l, "WHERE"); q_col(l, cu, s->group->field->name, "only-the-greatest-or-least"); q_op(l, OPTYPE_ISNULL); first = 0;
	} else first = 1;
	TAILQ_FOREACH(se, &s->sntq, entries) {
		if (postponed(se)) continue;
		sl_w(l, first ? "WHERE" : "AND"); first = 0;
		q_col(l, se->alias ? se->alias->alias : p->name, se->field->name, "term-of-its-field"); q_op(l, se->op);
	}
	first = 1;
	TAILQ_FOREACH(o, &s->ordq, entries) {
		if (first) { sl_w(l, "ORDER"); sl_w(l, "BY"); } else sl_c(l, ',');
		first = 0; q_col(l, o->alias ? o->alias->alias : p->name, o->field->name, "ordered-by-its-field");
		if (o->op == ORDTYPE_DESC) sl_w(l, "DESC"); else (void)sl_try(l, "ASC");
	}
	if (sl_try(l, "LIMIT")) { lim = q_num(l); if (sl_try(l, "OFFSET")) off = q_num(l); }
	if (s->type != STYPE_SEARCH || lim) vp_assert(s->limit > 0 ? lim == s->limit : (lim < 0 || (lim == 0 && off == 0) || (s->type == STYPE_SEARCH && lim == 1)), "row-limit");
	vp_assert(off == s->offset, "row-offset");
	if (paren) sl_c(l, ')');
	vp_assert(l->kind == 0, "nothing-else-in-the-statement");
}
static void q_unique(const struct tx *t, const struct strct *p, const struct field *f) {
	struct slex lb, *l = &lb; int first = 1;
	lx(l, t); sl_w(l, "SELECT"); q_cols(l, p, p, NULL, &first); sl_w(l, "FROM"); vp_assert(seq(sl_name(l), p->name), "selects-from-its-structure"); q_joins(l, p);
	sl_w(l, "WHERE"); q_col(l, p->name, f->name, "looked-up-by-its-field"); q_op(l, OPTYPE_EQUAL); vp_assert(l->kind == 0, "nothing-else-in-the-statement");
}
static void q_insert(const struct tx *t, const struct strct *p) {
	struct slex lb, *l = &lb; const struct field *f; int n = 0, i;
	lx(l, t); sl_w(l, "INSERT"); sl_w(l, "INTO"); vp_assert(seq(sl_name(l), p->name), "inserts-into-its-structure");
	TAILQ_FOREACH(f, &p->fq, entries) if (f->type != FTYPE_STRUCT && !(f->flags & FIELD_ROWID)) { sl_c(l, n ? ',' : '('); n++; vp_assert(seq(sl_name(l), f->name), "inserted-column"); }
	if (n == 0) { sl_w(l, "DEFAULT"); sl_w(l, "VALUES"); }
	else { sl_c(l, ')'); sl_w(l, "VALUES"); for (i = 0; i < n; i++) { sl_c(l, i ? ',' : '('); sl_c(l, '?'); } sl_c(l, ')'); }
	vp_assert(l->kind == 0, "nothing-else-in-the-statement");
}
static void q_update(const struct tx *t, const struct strct *p, const struct update *u) {
	struct slex lb, *l = &lb; const struct uref *r; int n = 0;
	lx(l, t);
	if (u->type == UP_MODIFY) {
		sl_w(l, "UPDATE"); vp_assert(seq(sl_name(l), p->name), "updates-its-structure"); sl_w(l, "SET");
		TAILQ_FOREACH(r, &u->mrq, entries) {
			if (n++) sl_c(l, ',');
			vp_assert(seq(sl_name(l), r->field->name), "modified-column"); sl_c(l, '=');
			if (r->mod == MODTYPE_INC || r->mod == MODTYPE_DEC) { vp_assert(seq(sl_name(l), r->field->name), "modified-from-itself"); sl_c(l, r->mod == MODTYPE_INC ? '+' : '-'); }
			else if (r->mod == MODTYPE_CONCAT) {
				if (sl_is(l, "COALESCE")) { sl_next(l); sl_c(l, '('); vp_assert(seq(sl_name(l), r->field->name), "modified-from-itself"); sl_c(l, ','); if (l->kind != 's' || *l->s) sl_bad(l, "''"); sl_next(l); sl_c(l, ')'); }
				else { vp_assert(!(r->field->flags & FIELD_NULL), "concatenation-to-null"); vp_assert(seq(sl_name(l), r->field->name), "modified-from-itself"); }
				sl_c(l, '|'); sl_c(l, '|');
			}
			sl_c(l, '?');
		}
		vp_assert(n > 0, "update-modifies-something");
	} else { sl_w(l, "DELETE"); sl_w(l, "FROM"); vp_assert(seq(sl_name(l), p->name), "deletes-from-its-structure"); }
	n = 0;
	TAILQ_FOREACH(r, &u->crq, entries) { sl_w(l, n++ ? "AND" : "WHERE"); vp_assert(seq(sl_name(l), r->field->name), "constraining-column"); q_op(l, r->op); }
	vp_assert(l->kind == 0, "nothing-else-in-the-statement");
}
/* every statement of this source is the right one, in the sequence in which they are enumerated */
static void stmts_check(const struct config *c, const char *src, int lang) {
	const struct strct *p; const struct field *f; const struct search *s; const struct update *u; struct tx t; const char *q, *e; int n = 0, m = 0, any = 0;
	TAILQ_FOREACH(p, &c->sq, entries) { TAILQ_FOREACH(f, &p->fq, entries) if (f->flags & (FIELD_ROWID | FIELD_UNIQUE)) any = 1; if (p->ins || !TAILQ_EMPTY(&p->sq) || !TAILQ_EMPTY(&p->uq) || !TAILQ_EMPTY(&p->dq)) any = 1; }
	e = s_find(src, lang == L_C ? "enum\tstmt {" : lang == L_JS ? "enum ortstmt" : "enum Ortstmt");
	q = s_find(src, lang == L_C ? "stmts[STMT__MAX] = {" : lang == L_JS ? "ortstmts: readonly string[] =" : "match self");
	if (lang == L_C) q = q ? q + strlen("stmts[STMT__MAX] = {") : NULL; else if (lang == L_JS) q = q ? s_find(q, "=") + 1 : NULL;
	if (lang == L_JS && q) q = s_find(q, "[") + 1;
	if (lang == L_RUST) { q = s_find(src, "Ortstmt::"); }
	vp_assert(q != NULL || (lang == L_RUST && !any), "statements-present"); vp_assert(e != NULL, "statement-identifiers-present");
	for (e = s_find(e, "{") + 1; *e && *e != '}'; e++) if (*e == ',') m++;
	if (!q) return;
#define NEXT do { if (lang == L_RUST) { q = s_find(q, "s = "); vp_assert(q != NULL, "statement-present"); q += 4; } q = expr_of(&t, q, src, lang); vp_assert(q != NULL, "statement-present"); if (*q == ',') q++; n++; } while (0)
	TAILQ_FOREACH(p, &c->sq, entries) {
		TAILQ_FOREACH(f, &p->fq, entries) if (f->flags & (FIELD_ROWID | FIELD_UNIQUE)) { NEXT; q_unique(&t, p, f); }
		TAILQ_FOREACH(s, &p->sq, entries) { NEXT; q_search(&t, p, s); }
		if (p->ins) { NEXT; q_insert(&t, p); }
		TAILQ_FOREACH(u, &p->uq, entries) { NEXT; q_update(&t, p, u); }
		TAILQ_FOREACH(u, &p->dq, entries) { NEXT; q_update(&t, p, u); }
	}
	if (lang != L_RUST) vp_assert(expr_of(&t, q, src, lang) == NULL, "no-other-statements");
	vp_assert(m == n + (lang == L_C && 0), "an-identifier-per-statement");
}
#endif
