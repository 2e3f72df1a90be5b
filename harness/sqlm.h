/* A reader of the SQL dialect that is generated, and the schema it describes. */
#ifndef SQLM_H
#define SQLM_H
struct sdef { int kind; int64_t i; double d; char *s; };	/* 0 none, 1 integer, 2 real, 3 text */
struct scol { char *name; int type, notnull, pk; struct sdef def; int dead; };	/* type: 0 INTEGER 1 REAL 2 BLOB 3 TEXT */
struct sfk { char *col, *tab, *tcol; int del, up; };
struct sidx { char *name, *tab; char *cols[8]; int n; };
struct stab { char *name; struct scol c[64]; int nc; struct sfk f[32]; int nf; };
struct schema { struct stab *t[32]; int nt; struct sidx *x[64]; int nx; int fkon; char *notes[32]; int nn; };
struct slex { const char *p, *e; int kind; char *s; double d; struct schema *db; };	/* kind: 0 end, 'i' word, 'n' number, 's' text, else punctuation */
#define SQL_WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\n' || (c) == '\r' || (c) == '\f')
static int isid(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9') || c >= 128; }
static char *dupn(const char *p, size_t n) { char *r = calloc(1, n + 1); memcpy(r, p, n); return r; }
static void sl_next(struct slex *l) {
	const char *b;
	for (;;) {
		while (l->p < l->e && SQL_WS(*l->p)) l->p++;
		if (l->p + 1 < l->e && l->p[0] == '-' && l->p[1] == '-') {
			for (b = l->p; l->p < l->e && *l->p != '\n'; l->p++) ;
			if (l->p - b > 15 && !memcmp(b, "-- ALTER TABLE ", 15) && l->db->nn < 32) l->db->notes[l->db->nn++] = dupn(b + 15, (size_t)(l->p - b - 15));
			continue;
		}
		break;
	}
	l->s = NULL;
	if (l->p >= l->e) { l->kind = 0; return; }
	b = l->p;
	if ((*b >= '0' && *b <= '9') || ((*b == '-' || *b == '.') && l->p + 1 < l->e && b[1] >= '0' && b[1] <= '9')) {
		l->p++;
		while (l->p < l->e && ((*l->p >= '0' && *l->p <= '9') || *l->p == '.' || *l->p == 'e' || *l->p == 'E' || ((*l->p == '-' || *l->p == '+') && (l->p[-1] == 'e' || l->p[-1] == 'E')))) l->p++;
		l->kind = 'n'; l->s = dupn(b, (size_t)(l->p - b)); return;
	}
	if (isid((unsigned char)*b)) { while (l->p < l->e && isid((unsigned char)*l->p)) l->p++; l->kind = 'i'; l->s = dupn(b, (size_t)(l->p - b)); return; }
	if (*b == '\'') {
		char *q = calloc(1, (size_t)(l->e - b) + 1); size_t n = 0;
		for (l->p++; l->p < l->e; l->p++) { if (*l->p == '\'') { if (l->p + 1 < l->e && l->p[1] == '\'') l->p++; else break; } q[n++] = *l->p; }
		vp_assert(l->p < l->e, "sql-text-literal-ends"); l->p++; l->kind = 's'; l->s = q; return;
	}
	l->kind = (unsigned char)*l->p++;
}
static int sl_is(struct slex *l, const char *w) { return l->kind == 'i' && !strcasecmp(l->s, w); }
static void sl_bad(struct slex *l, const char *w) { vp_log(w); if (l->s) vp_log(l->s); vp_fail("sql-well-formed"); vp_end(); }
static void sl_w(struct slex *l, const char *w) { if (!sl_is(l, w)) sl_bad(l, w); sl_next(l); }
static void sl_c(struct slex *l, int c) { static char b[2]; b[0] = (char)c; if (l->kind != c) sl_bad(l, b); sl_next(l); }
static char *sl_name(struct slex *l) { char *s; if (l->kind != 'i') sl_bad(l, "name"); s = l->s; l->s = NULL; sl_next(l); return s; }
static int sl_try(struct slex *l, const char *w) { if (!sl_is(l, w)) return 0; sl_next(l); return 1; }
static int sl_act(struct slex *l) {
	if (sl_try(l, "NO")) { sl_w(l, "ACTION"); return 0; }
	if (sl_try(l, "RESTRICT")) return 1;
	if (sl_try(l, "CASCADE")) return 3;
	sl_w(l, "SET"); if (sl_try(l, "NULL")) return 2; sl_w(l, "DEFAULT"); return 4;
}
static void sl_num(const char *s, struct sdef *d) {
	const char *p = s; int neg = 0; uint64_t v = 0;
	if (*p == '-') { neg = 1; p++; }
	for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + (uint64_t)(*p - '0');
	if (*p == 0) { d->kind = 1; d->i = neg ? (int64_t)(0 - v) : (int64_t)v; return; }
	d->kind = 2; d->d = strtod(s, NULL);
}
static struct stab *s_tab(struct schema *d, const char *n) { int i; for (i = 0; i < d->nt; i++) if (seq(d->t[i]->name, n)) return d->t[i]; return NULL; }
static struct scol *s_col(struct stab *t, const char *n) { int i; for (i = 0; i < t->nc; i++) if (seq(t->c[i].name, n)) return &t->c[i]; return NULL; }
static struct sidx *s_idx(struct schema *d, const char *n) { int i; for (i = 0; i < d->nx; i++) if (seq(d->x[i]->name, n)) return d->x[i]; return NULL; }
static void sl_refs(struct slex *l, struct stab *t, char *col) {
	struct sfk *f = &t->f[t->nf++]; if (t->nf > 32) abort();
	f->col = col; f->tab = sl_name(l); sl_c(l, '('); f->tcol = sl_name(l); sl_c(l, ')');
	while (sl_try(l, "ON")) { if (sl_try(l, "DELETE")) f->del = sl_act(l); else { sl_w(l, "UPDATE"); f->up = sl_act(l); } }
}
static void sl_coldef(struct slex *l, struct stab *t, int alter) {
	struct scol *c; char *n = sl_name(l);
	vp_assert(s_col(t, n) == NULL, "sql-columns-distinct"); if (t->nc >= 64) abort();
	c = &t->c[t->nc++]; c->name = n;
	if (sl_try(l, "INTEGER")) c->type = 0; else if (sl_try(l, "REAL")) c->type = 1; else if (sl_try(l, "BLOB")) c->type = 2; else { sl_w(l, "TEXT"); c->type = 3; }
	for (;;) {
		if (sl_try(l, "PRIMARY")) { sl_w(l, "KEY"); c->pk = 1; }
		else if (sl_try(l, "NOT")) { sl_w(l, "NULL"); c->notnull = 1; }
		else if (sl_try(l, "DEFAULT")) {
			int paren = l->kind == '('; if (paren) sl_next(l);
			if (l->kind == 's') { c->def.kind = 3; c->def.s = l->s; } else if (l->kind == 'n') sl_num(l->s, &c->def); else sl_bad(l, "default");
			sl_next(l); if (paren) sl_c(l, ')');
		} else if (alter && sl_try(l, "REFERENCES")) sl_refs(l, t, c->name);
		else break;
	}
}
static void sl_stmt(struct slex *l) {
	struct schema *d = l->db; struct stab *t; struct sidx *x; char *n; int i;
	if (sl_try(l, "PRAGMA")) { sl_w(l, "foreign_keys"); sl_c(l, '='); sl_w(l, "ON"); d->fkon = 1; }
	else if (sl_try(l, "CREATE")) {
		vp_assert(d->fkon, "foreign-keys-enabled-first");
		if (sl_try(l, "TABLE")) {
			n = sl_name(l); vp_assert(s_tab(d, n) == NULL, "sql-tables-distinct"); if (d->nt >= 32) abort();
			t = d->t[d->nt++] = calloc(1, sizeof *t); t->name = n; sl_c(l, '(');
			for (i = 0;; i = 1) {
				if (sl_try(l, "FOREIGN")) { char *c; sl_w(l, "KEY"); sl_c(l, '('); c = sl_name(l); sl_c(l, ')'); sl_w(l, "REFERENCES"); sl_refs(l, t, c); vp_assert(s_col(t, c) != NULL, "foreign-key-column-exists"); i = 2; }
				else { if (t->nf) sl_bad(l, "column after constraint"); sl_coldef(l, t, 0); }
				if (l->kind != ',') break;
				sl_next(l);
			}
			sl_c(l, ')');
		} else {
			sl_w(l, "UNIQUE"); sl_w(l, "INDEX"); if (d->nx >= 64) abort(); x = calloc(1, sizeof *x); x->name = sl_name(l); vp_assert(s_idx(d, x->name) == NULL, "sql-index-names-distinct");
			sl_w(l, "ON"); x->tab = sl_name(l); t = s_tab(d, x->tab); vp_assert(t != NULL, "index-table-exists"); sl_c(l, '(');
			do { if (l->kind == ',') sl_next(l); if (x->n >= 8) abort(); x->cols[x->n] = sl_name(l); vp_assert(s_col(t, x->cols[x->n]) != NULL, "index-column-exists"); x->n++; } while (l->kind == ',');
			sl_c(l, ')'); d->x[d->nx++] = x;
		}
	} else if (sl_try(l, "ALTER")) {
		vp_assert(d->fkon, "foreign-keys-enabled-first");
		sl_w(l, "TABLE"); n = sl_name(l); t = s_tab(d, n); vp_assert(t != NULL, "altered-table-exists"); sl_w(l, "ADD"); (void)sl_try(l, "COLUMN"); sl_coldef(l, t, 1);
	} else {
		vp_assert(d->fkon, "foreign-keys-enabled-first");
		sl_w(l, "DROP");
		if (sl_try(l, "INDEX")) { n = sl_name(l); x = s_idx(d, n); vp_assert(x != NULL, "dropped-index-exists"); for (i = 0; d->x[i] != x; i++) ; d->x[i] = d->x[--d->nx]; }
		else {
			int j; sl_w(l, "TABLE"); n = sl_name(l); t = s_tab(d, n); vp_assert(t != NULL, "dropped-table-exists");
			for (i = 0; d->t[i] != t; i++) ;
			d->t[i] = d->t[--d->nt]; for (j = 0; j < d->nx; ) if (seq(d->x[j]->tab, n)) d->x[j] = d->x[--d->nx]; else j++;
		}
	}
	sl_c(l, ';');
}
/* run these statements on the database */
static void s_run(struct schema *d, const char *sql, size_t n) {
	struct slex l; memset(&l, 0, sizeof l); l.p = sql; l.e = sql + n; l.db = d; d->fkon = 0;
	sl_next(&l); while (l.kind) sl_stmt(&l);
}
static struct schema *s_new(void) { return calloc(1, sizeof(struct schema)); }
/* the column, key and index this field calls for */
static const int s_types[] = { 0, 0, 0, 0, 1, 2, 3, 3, 3, -1, 0, 0 };	/* in order of enum ftype */
static char *unescaped(const char *s) { char *r = calloc(1, strlen(s) + 1); size_t n = 0; for (; *s; s++) { if (*s == '\\' && s[1] == '"') continue; r[n++] = *s; } return r; }
static void col_is(struct scol *c, const struct field *f) {
	vp_assert(c->type == s_types[f->type], "column-type");
	vp_assert(!!c->pk == !!(f->flags & FIELD_ROWID), "primary-key-iff-rowid");
	vp_assert(!!c->notnull == !(f->flags & (FIELD_ROWID | FIELD_NULL)), "not-null-iff-not-null");
	vp_assert((c->def.kind != 0) == !!(f->flags & FIELD_HASDEF), "default-iff-given");
	if (c->def.kind) switch (f->type) {
	case FTYPE_REAL: vp_assert(c->def.kind != 3 && (c->def.kind == 2 ? c->def.d : (double)c->def.i) == f->def.decimal, "default-real"); break;
	case FTYPE_TEXT: case FTYPE_EMAIL: { char *u = unescaped(f->def.string); vp_assert(c->def.kind == 3 && seq(c->def.s, u), "default-text"); free(u); break; }
	case FTYPE_ENUM: vp_assert(c->def.kind == 1 && c->def.i == f->def.eitem->value, "default-item"); break;
	default: vp_assert(c->def.kind == 1 && c->def.i == f->def.integer, "default-integer"); break;
	}
}
/* the database is exactly the one this configuration describes; old, if given: columns dropped since then may remain */
static void db_is(struct schema *d, const struct config *c, const struct config *old, int inorder) {
	const struct strct *s; const struct field *f; const struct unique *u; const struct nref *r; int nt = 0, nx = 0, i, j; struct stab *t; struct sidx *x; char nm[512];
	TAILQ_FOREACH(s, &c->sq, entries) {
		int nc = 0, nf = 0; const struct strct *os = NULL; nt++;
		t = s_tab(d, s->name); vp_assert(t != NULL, "a-table-per-structure");
		TAILQ_FOREACH(f, &s->fq, entries) {
			struct scol *col; struct sfk *k = NULL; int n = 0;
			if (f->type == FTYPE_STRUCT) { vp_assert(s_col(t, f->name) == NULL, "no-column-for-nested-structures"); continue; }
			col = s_col(t, f->name); vp_assert(col != NULL, "a-column-per-field");
			if (inorder) vp_assert(col == &t->c[nc], "columns-in-order");
			nc++; col_is(col, f);
			for (i = 0; i < t->nf; i++) if (seq(t->f[i].col, f->name)) { k = &t->f[i]; n++; }
			vp_assert(n == (f->ref != NULL), "foreign-key-iff-reference");
			if (f->ref) { nf++; vp_assert(seq(k->tab, f->ref->target->parent->name) && seq(k->tcol, f->ref->target->name), "foreign-key-target"); vp_assert(k->del == (int)f->actdel, "on-delete-action"); vp_assert(k->up == (int)f->actup, "on-update-action"); vp_assert(s_tab(d, k->tab) != NULL, "foreign-key-table-exists"); }
			if (f->flags & FIELD_UNIQUE) { nx++; snprintf(nm, sizeof nm, "unique_%s__%s", s->name, f->name); x = s_idx(d, nm); vp_assert(x != NULL, "an-index-per-unique-field"); vp_assert(seq(x->tab, s->name) && x->n == 1 && seq(x->cols[0], f->name), "index-of-unique-field"); }
		}
		if (old) os = find_strct(old, s->name);
		if (os) TAILQ_FOREACH(f, &os->fq, entries) if (f->type != FTYPE_STRUCT && !find_field(s, f->name)) {
			int noted = 0; char *w; vp_assert(s_col(t, f->name) != NULL, "dropped-columns-remain"); nc++;
			for (i = 0; i < t->nf; i++) if (seq(t->f[i].col, f->name)) nf++;
			if (asprintf(&w, "%s DROP COLUMN %s;", s->name, f->name) < 0) abort();
			for (i = 0; i < d->nn; i++) if (seq(d->notes[i], w)) noted = 1;
			vp_assert(noted, "dropped-columns-are-noted"); free(w);
		}
		vp_assert(t->nc == nc, "no-other-columns"); vp_assert(t->nf == nf, "no-other-foreign-keys");
		TAILQ_FOREACH(u, &s->nq, entries) {
			char *ns[8]; int n = 0, k; nx++;
			TAILQ_FOREACH(r, &u->nq, entries) { if (n >= 8) abort(); for (k = n++; k > 0 && strcmp(ns[k - 1], r->field->name) > 0; k--) ns[k] = ns[k - 1]; ns[k] = r->field->name; }
			snprintf(nm, sizeof nm, "unique_%s__", s->name); for (k = 0; k < n; k++) snprintf(nm + strlen(nm), 64, "%s%s", k ? "_" : "", ns[k]);
			x = s_idx(d, nm); vp_assert(x != NULL, "an-index-per-unique-statement"); vp_assert(seq(x->tab, s->name) && x->n == n, "index-of-unique-statement");
			for (k = 0; k < n; k++) { for (j = 0; j < x->n; j++) if (seq(x->cols[j], ns[k])) break; vp_assert(j < x->n, "index-covers-its-fields"); }
		}
	}
	vp_assert(d->nt == nt, "no-other-tables"); vp_assert(d->nx == nx, "no-other-indexes");
}
#endif
