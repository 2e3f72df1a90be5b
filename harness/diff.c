/* Differences of two configurations against an independent account of them. */
#include "common.h"
#include "slots.h"
static struct diffq *dq; static const struct config *A, *B; static int nexp;
static struct { enum difftype t; const void *f, *i; } ex[400]; static int text;
/* the entry of this type for these objects is there, once */
static int lastcnt;
static void want(enum difftype t, const void *f, const void *i) {
	const struct diff *d; int n = 0;
	if (text) { vp_assert(nexp < 400, "room"); ex[nexp].t = t; ex[nexp].f = f; ex[nexp].i = i; nexp++; return; }
	TAILQ_FOREACH(d, dq, entries) if (d->type == t && (f == NULL ? (const void *)d->strct == i : i == NULL ? (const void *)d->strct == f : ((const void *)d->strct_pair.from == f && (const void *)d->strct_pair.into == i))) n++;
	if (t == DIFF_MOD_UPDATE_PARAMS) { vp_assert(n == 1 || n == 2, "difference-reported"); nexp += n; return; }
	vp_assert(n == 1, "difference-reported-once"); nexp++; lastcnt = n;
}
#define LEAF(cond, t) do { if (cond) { want(t, a, b); mod = 1; } } while (0)
static int docne(const char *a, const char *b) { return !seq(a, b); }
static int labne(const struct labelq *a, const struct labelq *b) { return !eq_labels(A, a, B, b, 0); }
static int mapne(const struct rolemap *a, const struct rolemap *b) { return !eq_rolemap(a, b); }
static int ci(const char *a, const char *b) { return strcasecmp(a, b) == 0; }
static int vin(const struct field *f, const struct fvalid *v, const struct fvalidq *q) { const struct fvalid *w; int n = 0; TAILQ_FOREACH(w, q, entries) n += eq_valid(f, v, w); return n; }
static int valne(const struct field *a, const struct field *b) {
	const struct fvalid *v; int n = 0, m = 0;
	TAILQ_FOREACH(v, &a->fvq, entries) n++;
	TAILQ_FOREACH(v, &b->fvq, entries) m++;
	if (n != m || (n && a->type != b->type)) return 1;
	TAILQ_FOREACH(v, &a->fvq, entries) if (!vin(a, v, &b->fvq)) return 1;
	TAILQ_FOREACH(v, &b->fvq, entries) if (!vin(a, v, &a->fvq)) return 1;
	return 0;
}
static int defne(const struct field *a, const struct field *b) {
	if (!(a->flags & FIELD_HASDEF) || !(b->flags & FIELD_HASDEF) || a->type != b->type) return 0;
	switch (a->type) { case FTYPE_REAL: return a->def.decimal != b->def.decimal; case FTYPE_TEXT: case FTYPE_EMAIL: return !seq(a->def.string, b->def.string); case FTYPE_ENUM: return !ci(a->def.eitem->name, b->def.eitem->name) || !ci(a->def.eitem->parent->name, b->def.eitem->parent->name); default: return a->def.integer != b->def.integer; }
}
static int refne(const struct ref *a, const struct ref *b) { if (!a || !b) return a != b; return !ci(a->source->name, b->source->name) || !ci(a->target->name, b->target->name) || !ci(a->target->parent->name, b->target->parent->name); }
static int d_field(const struct field *a, const struct field *b) {
	int mod = 0;
	LEAF(mapne(a->rolemap, b->rolemap), DIFF_MOD_FIELD_ROLEMAP); LEAF(a->type != b->type, DIFF_MOD_FIELD_TYPE); LEAF(a->actdel != b->actdel || a->actup != b->actup, DIFF_MOD_FIELD_ACTIONS); LEAF(a->flags != b->flags, DIFF_MOD_FIELD_FLAGS);
	LEAF(a->bitf && b->bitf && !ci(a->bitf->name, b->bitf->name), DIFF_MOD_FIELD_BITF); LEAF(a->enm && b->enm && !ci(a->enm->name, b->enm->name), DIFF_MOD_FIELD_ENM);
	LEAF(defne(a, b), DIFF_MOD_FIELD_DEF); LEAF(refne(a->ref, b->ref), DIFF_MOD_FIELD_REFERENCE); LEAF(valne(a, b), DIFF_MOD_FIELD_VALIDS); LEAF(docne(a->doc, b->doc), DIFF_MOD_FIELD_COMMENT);
	want(mod ? DIFF_MOD_FIELD : DIFF_SAME_FIELD, a, b);
	return mod;
}
static int d_eitem(const struct eitem *a, const struct eitem *b) { int mod = 0; LEAF(a->value != b->value, DIFF_MOD_EITEM_VALUE); LEAF(docne(a->doc, b->doc), DIFF_MOD_EITEM_COMMENT); LEAF(labne(&a->labels, &b->labels), DIFF_MOD_EITEM_LABELS); want(mod ? DIFF_MOD_EITEM : DIFF_SAME_EITEM, a, b); return mod; }
static int d_bitidx(const struct bitidx *a, const struct bitidx *b) { int mod = 0; LEAF(a->value != b->value, DIFF_MOD_BITIDX_VALUE); LEAF(docne(a->doc, b->doc), DIFF_MOD_BITIDX_COMMENT); LEAF(labne(&a->labels, &b->labels), DIFF_MOD_BITIDX_LABELS); want(mod ? DIFF_MOD_BITIDX : DIFF_SAME_BITIDX, a, b); return mod; }
/* objects with names: those in both by FN, the others added or removed */
#define NAMED(T, qa, qb, FN, ADD, DEL) do { const struct T *x_, *y_; \
	TAILQ_FOREACH(x_, qa, entries) { TAILQ_FOREACH(y_, qb, entries) if (ci(x_->name, y_->name)) break; if (y_) { if (FN(x_, y_)) mod = 1; } else { want(DEL, x_, NULL); mod = 1; } } \
	TAILQ_FOREACH(y_, qb, entries) { TAILQ_FOREACH(x_, qa, entries) if (ci(x_->name, y_->name)) break; if (!x_) { want(ADD, NULL, y_); mod = 1; } } } while (0)
static int d_enm(const struct enm *a, const struct enm *b) { int mod = 0; NAMED(eitem, &a->eq, &b->eq, d_eitem, DIFF_ADD_EITEM, DIFF_DEL_EITEM); LEAF(docne(a->doc, b->doc), DIFF_MOD_ENM_COMMENT); LEAF(labne(&a->labels_null, &b->labels_null), DIFF_MOD_ENM_LABELS); want(mod ? DIFF_MOD_ENM : DIFF_SAME_ENM, a, b); return mod; }
static int d_bitf(const struct bitf *a, const struct bitf *b) { int mod = 0; NAMED(bitidx, &a->bq, &b->bq, d_bitidx, DIFF_ADD_BITIDX, DIFF_DEL_BITIDX); LEAF(docne(a->doc, b->doc), DIFF_MOD_BITF_COMMENT); LEAF(labne(&a->labels_null, &b->labels_null) || labne(&a->labels_unset, &b->labels_unset), DIFF_MOD_BITF_LABELS); want(mod ? DIFF_MOD_BITF : DIFF_SAME_BITF, a, b); return mod; }
static int sentne(const struct sentq *a, const struct sentq *b) { const struct sent *x = TAILQ_FIRST(a), *y = TAILQ_FIRST(b); for (; x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (x->op != y->op || !ci(x->fname, y->fname)) return 1; return x || y; }
static int ordne(const struct ordq *a, const struct ordq *b) { const struct ord *x = TAILQ_FIRST(a), *y = TAILQ_FIRST(b); for (; x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (x->op != y->op || !ci(x->fname, y->fname)) return 1; return x || y; }
static int aggne(const struct aggr *a, const struct aggr *b) { if (!a || !b) return a != b; return a->op != b->op || !ci(a->fname, b->fname); }
static int grpne(const struct group *a, const struct group *b) { if (!a || !b) return a != b; return !ci(a->fname, b->fname); }
static int dstne(const struct dstnct *a, const struct dstnct *b) { if (!a || !b) return a != b; return !ci(a->fname, b->fname); }
static int urefne(const struct urefq *a, const struct urefq *b) { const struct uref *x = TAILQ_FIRST(a), *y = TAILQ_FIRST(b); for (; x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (x->op != y->op || x->mod != y->mod || !ci(x->field->name, y->field->name)) return 1; return x || y; }
static int searchne(const struct search *a, const struct search *b) { return a->type != b->type || sentne(&a->sntq, &b->sntq) || ordne(&a->ordq, &b->ordq) || aggne(a->aggr, b->aggr) || grpne(a->group, b->group) || dstne(a->dst, b->dst) || docne(a->doc, b->doc) || a->limit != b->limit || a->offset != b->offset || mapne(a->rolemap, b->rolemap); }
static int updne(const struct update *a, const struct update *b) { return urefne(&a->mrq, &b->mrq) || urefne(&a->crq, &b->crq) || docne(a->doc, b->doc) || mapne(a->rolemap, b->rolemap) || a->flags != b->flags; }
static int d_search(const struct search *a, const struct search *b) {
	int mod = 0;
	if (a->name) {
		LEAF(sentne(&a->sntq, &b->sntq), DIFF_MOD_SEARCH_PARAMS); LEAF(ordne(&a->ordq, &b->ordq), DIFF_MOD_SEARCH_ORDER); LEAF(aggne(a->aggr, b->aggr), DIFF_MOD_SEARCH_AGGR); LEAF(grpne(a->group, b->group), DIFF_MOD_SEARCH_GROUP); LEAF(dstne(a->dst, b->dst), DIFF_MOD_SEARCH_DISTINCT);
		LEAF(docne(a->doc, b->doc), DIFF_MOD_SEARCH_COMMENT); LEAF(a->limit != b->limit, DIFF_MOD_SEARCH_LIMIT); LEAF(a->offset != b->offset, DIFF_MOD_SEARCH_OFFSET); LEAF(mapne(a->rolemap, b->rolemap), DIFF_MOD_SEARCH_ROLEMAP);
	}
	want(mod ? DIFF_MOD_SEARCH : DIFF_SAME_SEARCH, a, b); return mod;
}
static int d_update(const struct update *a, const struct update *b) {
	int mod = 0;
	if (a->name) { LEAF(urefne(&a->mrq, &b->mrq) || urefne(&a->crq, &b->crq), DIFF_MOD_UPDATE_PARAMS); LEAF(docne(a->doc, b->doc), DIFF_MOD_UPDATE_COMMENT); LEAF(mapne(a->rolemap, b->rolemap), DIFF_MOD_UPDATE_ROLEMAP); LEAF(a->flags != b->flags, DIFF_MOD_UPDATE_FLAGS); }
	want(mod ? DIFF_MOD_UPDATE : DIFF_SAME_UPDATE, a, b); return mod;
}
static int schm(const struct search *x, const struct search *y) { return x->type == y->type && (x->name ? y->name && ci(x->name, y->name) : !y->name && !searchne(x, y)); }
static int upm(const struct update *x, const struct update *y) { return x->name ? y->name && ci(x->name, y->name) : !y->name && !updne(x, y); }
#define MATCHED(T, qa, qb, MATCH, FN, ADD, DEL) do { const struct T *x_, *y_; \
	TAILQ_FOREACH(x_, qa, entries) { TAILQ_FOREACH(y_, qb, entries) if (MATCH(x_, y_)) break; if (y_) { if (FN(x_, y_)) mod = 1; } else { want(DEL, x_, NULL); mod = 1; } } \
	TAILQ_FOREACH(y_, qb, entries) { TAILQ_FOREACH(x_, qa, entries) if (MATCH(x_, y_)) break; if (!x_) { want(ADD, NULL, y_); mod = 1; } } } while (0)
static int uqsub(const struct unique *a, const struct unique *b) { const struct nref *x, *y; TAILQ_FOREACH(x, &a->nq, entries) { TAILQ_FOREACH(y, &b->nq, entries) if (ci(x->field->name, y->field->name)) break; if (!y) return 0; } return 1; }
static int uqm(const struct unique *a, const struct unique *b) { return uqsub(a, b) && uqsub(b, a); }
static int uqsame(const struct unique *a, const struct unique *b) { (void)a; (void)b; return 0; }
static int d_strct(const struct strct *a, const struct strct *b) {
	int mod = 0; const struct field *x, *y;
	MATCHED(search, &a->sq, &b->sq, schm, d_search, DIFF_ADD_SEARCH, DIFF_DEL_SEARCH); MATCHED(update, &a->uq, &b->uq, upm, d_update, DIFF_ADD_UPDATE, DIFF_DEL_UPDATE); MATCHED(update, &a->dq, &b->dq, upm, d_update, DIFF_ADD_UPDATE, DIFF_DEL_UPDATE);
	if (a->ins && b->ins) {
		int m = 0;
		if (mapne(a->ins->rolemap, b->ins->rolemap)) { want(DIFF_MOD_INSERT_ROLEMAP, a, b); m = 1; }
		for (x = TAILQ_FIRST(&a->fq), y = TAILQ_FIRST(&b->fq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (!ci(x->name, y->name)) break;
		if (x || y) { want(DIFF_MOD_INSERT_PARAMS, a, b); m = 1; }
		want(m ? DIFF_MOD_INSERT : DIFF_SAME_INSERT, a, b); mod |= m;
	} else if (a->ins) { want(DIFF_DEL_INSERT, a, NULL); mod = 1; } else if (b->ins) { want(DIFF_ADD_INSERT, NULL, b); mod = 1; }
	NAMED(field, &a->fq, &b->fq, d_field, DIFF_ADD_FIELD, DIFF_DEL_FIELD); MATCHED(unique, &a->nq, &b->nq, uqm, uqsame, DIFF_ADD_UNIQUE, DIFF_DEL_UNIQUE);
	LEAF(docne(a->doc, b->doc), DIFF_MOD_STRCT_COMMENT);
	want(mod ? DIFF_MOD_STRCT : DIFF_SAME_STRCT, a, b); return mod;
}
static int subne(const struct role *a, const struct role *b) { const struct role *x, *y; int n = 0, m = 0; TAILQ_FOREACH(x, &a->subrq, entries) { n++; TAILQ_FOREACH(y, &b->subrq, entries) if (ci(x->name, y->name)) m++; } TAILQ_FOREACH(y, &b->subrq, entries) n--; if (n) return 1; TAILQ_FOREACH(x, &a->subrq, entries) m--; return m != 0; }
static int d_roles(void) {
	int mod = 0, any = 0; const struct role *a, *b, *fa = TAILQ_FIRST(&A->arq), *fb = TAILQ_FIRST(&B->arq);
	if (!fa && !fb) return 0;
	if (!fa) { want(DIFF_ADD_ROLES, NULL, fb); return 1; }
	if (!fb) { want(DIFF_DEL_ROLES, fa, NULL); return 1; }
	TAILQ_FOREACH(a, &A->arq, allentries) {
		TAILQ_FOREACH(b, &B->arq, allentries) if (ci(a->name, b->name)) break;
		if (!b) { want(DIFF_DEL_ROLE, a, NULL); any = 1; continue; }
		if (!a->parent) continue;
		mod = 0; LEAF(!ci(a->parent->name, b->parent->name), DIFF_MOD_ROLE_PARENT); LEAF(docne(a->doc, b->doc), DIFF_MOD_ROLE_COMMENT); LEAF(subne(a, b), DIFF_MOD_ROLE_CHILDREN);
		want(mod ? DIFF_MOD_ROLE : DIFF_SAME_ROLE, a, b); any |= mod;
	}
	TAILQ_FOREACH(b, &B->arq, allentries) { TAILQ_FOREACH(a, &A->arq, allentries) if (ci(a->name, b->name)) break; if (!a) { want(DIFF_ADD_ROLE, NULL, b); any = 1; } }
	want(any ? DIFF_MOD_ROLES : DIFF_SAME_ROLES, fa, fb); return any;
}
/* ---- the text: one line for each change, below the line of the object it is of ---- */
enum noun { N_STRCT, N_FIELD, N_SEARCH, N_UPDATE, N_UNIQUE, N_INSERT, N_ENM, N_EITEM, N_BITF, N_BITIDX, N_ROLES, N_ROLE };
static const char *const nouns[] = { "strct", "field", "search", "update", "unique", "insert", "enm", "eitem", "bitf", "bitidx", "roles", "role" };
static const struct pos *posn(enum noun n, const void *o) {
	switch (n) { case N_STRCT: return &((const struct strct *)o)->pos; case N_FIELD: return &((const struct field *)o)->pos; case N_SEARCH: return &((const struct search *)o)->pos; case N_UPDATE: return &((const struct update *)o)->pos; case N_UNIQUE: return &((const struct unique *)o)->pos; case N_INSERT: return &((const struct strct *)o)->ins->pos;
	case N_ENM: return &((const struct enm *)o)->pos; case N_EITEM: return &((const struct eitem *)o)->pos; case N_BITF: return &((const struct bitf *)o)->pos; case N_BITIDX: return &((const struct bitidx *)o)->pos; default: return &((const struct role *)o)->pos; }
}
static const void *upof(enum noun n, const void *o) {	/* what it is in */
	switch (n) { case N_FIELD: return ((const struct field *)o)->parent; case N_SEARCH: return ((const struct search *)o)->parent; case N_UPDATE: return ((const struct update *)o)->parent; case N_UNIQUE: return ((const struct unique *)o)->parent; case N_INSERT: return o; case N_EITEM: return ((const struct eitem *)o)->parent; case N_BITIDX: return ((const struct bitidx *)o)->parent; default: return NULL; }
}
static const struct { enum difftype t; enum noun n; char k; const char *w; } form[] = {
#define ADM(T, N) { DIFF_ADD_##T, N_##N, '+', NULL }, { DIFF_DEL_##T, N_##N, '-', NULL }, { DIFF_MOD_##T, N_##N, '@', NULL }, { DIFF_SAME_##T, N_##N, ' ', NULL }
	ADM(STRCT, STRCT), ADM(FIELD, FIELD), ADM(SEARCH, SEARCH), ADM(UPDATE, UPDATE), ADM(INSERT, INSERT), ADM(ENM, ENM), ADM(EITEM, EITEM), ADM(BITF, BITF), ADM(BITIDX, BITIDX), ADM(ROLES, ROLES), ADM(ROLE, ROLE), { DIFF_ADD_UNIQUE, N_UNIQUE, '+', NULL }, { DIFF_DEL_UNIQUE, N_UNIQUE, '-', NULL },
#define M(N, W, S) { DIFF_MOD_##N##_##W, N_##N, '!', S }
	M(BITF, COMMENT, "comment"), M(BITF, LABELS, "labels"), M(BITIDX, COMMENT, "comment"), M(BITIDX, LABELS, "labels"), M(BITIDX, VALUE, "value"), M(EITEM, COMMENT, "comment"), M(EITEM, LABELS, "labels"), M(EITEM, VALUE, "value"), M(ENM, COMMENT, "comment"), M(ENM, LABELS, "labels"),
	M(FIELD, ACTIONS, "actions"), M(FIELD, BITF, "bitf"), M(FIELD, COMMENT, "comment"), M(FIELD, DEF, "def"), M(FIELD, ENM, "enum"), M(FIELD, FLAGS, "flags"), M(FIELD, REFERENCE, "ref"), M(FIELD, ROLEMAP, "rolemap"), M(FIELD, TYPE, "type"), M(FIELD, VALIDS, "valids"), M(INSERT, PARAMS, "params"), M(INSERT, ROLEMAP, "rolemap"),
	M(ROLE, CHILDREN, "children"), M(ROLE, COMMENT, "comment"), M(ROLE, PARENT, "parent"), M(SEARCH, AGGR, "aggr"), M(SEARCH, COMMENT, "comment"), M(SEARCH, DISTINCT, "distinct"), M(SEARCH, GROUP, "group"), M(SEARCH, LIMIT, "limit"), M(SEARCH, OFFSET, "offset"), M(SEARCH, ORDER, "order"), M(SEARCH, PARAMS, "params"), M(SEARCH, ROLEMAP, "rolemap"), M(STRCT, COMMENT, "comment"),
	M(UPDATE, COMMENT, "comment"), M(UPDATE, FLAGS, "flags"), M(UPDATE, PARAMS, "params"), M(UPDATE, ROLEMAP, "rolemap") };
static int formof(enum difftype t) { for (int i = 0; i < (int)NEL(form); i++) if (form[i].t == t) return i; vp_fail("known-type"); return 0; }
static void where(struct tx *t, const struct pos *p) { char b[64]; snprintf(b, sizeof b, "%zu:%zu", p->line, p->column); tx_s(t, p->fname); tx_s(t, ":"); tx_s(t, b); }
static void line(struct tx *t, int e, char k) {
	int f = formof(ex[e].t); enum noun n = form[f].n; char c[2] = { k, 0 };
	t->n = 0; t->b[0] = 0;
	if (k == '@') tx_s(t, "@@ "); else if (k == ' ') tx_s(t, "  "); else { tx_s(t, c); tx_s(t, " "); }
	tx_s(t, nouns[n]); tx_s(t, " ");
	if (form[f].w && k == '!') { tx_s(t, form[f].w); tx_s(t, " "); }
	if (ex[e].f && ex[e].i) { where(t, posn(n, ex[e].f)); tx_s(t, " -> "); where(t, posn(n, ex[e].i)); } else where(t, posn(n, ex[e].f ? ex[e].f : ex[e].i));
	if (k == '@') tx_s(t, " @@");
	t->b[t->n] = 0;
}
static int outer(enum noun n) { return n == N_STRCT || n == N_ENM || n == N_BITF || n == N_ROLES; }
static enum noun outof(enum noun n) { return n == N_EITEM || n == N_ENM ? N_ENM : n == N_BITIDX || n == N_BITF ? N_BITF : n == N_ROLE || n == N_ROLES ? N_ROLES : N_STRCT; }
static const char *const heads[] = { "@@ strcts @@", "@@ enumerations @@", "@@ bitfields @@", "@@ roles @@" };
static char *ln[600]; static int lused[600], ltop[600], lsub[600], nln;
static void check_text(int mod) {
	static struct tx t; static const char *const from[] = { "old" }, *const into[] = { "new", "newer" }; FILE *f = vp_out(); size_t m; char *b, *p; int e, i, k, n = 0, names = (int)vp_param("names", 0), sec[4] = { 0 }, top = -1, sub = -1;
	tx_init(&t);
	vp_assert(names ? ort_write_diff_file(f, dq, into, 2, from, 1) : ort_write_diff_file(f, dq, NULL, 0, NULL, 0), "written");
	b = vp_out_buf(f, &m); p = calloc(1, m + 1); memcpy(p, b, m); fclose(f); b = p;
	for (nln = 0; *p; ) { vp_assert(nln < 600, "room"); ln[nln] = p; lused[nln++] = 0; while (*p && *p != '\n') p++; vp_assert(*p == '\n', "whole-lines"); *p++ = 0; }
	n = names ? 3 : 2;
	vp_assert(nln >= n && strcmp(ln[0], names ? "--- old" : "--- <stdin>") == 0 && strcmp(ln[1], names ? "+++ new" : "+++ <stdin>") == 0 && (!names || strcmp(ln[2], "+++ newer") == 0), "names-first");
	if (!mod) { vp_assert(nln == n, "nothing-for-equals"); free(b); return; }
	for (i = n; i < nln; i++) { ltop[i] = top; lsub[i] = sub; if (strncmp(ln[i], "@@ ", 3)) continue; for (k = 0; k < 4; k++) if (strcmp(ln[i], heads[k]) == 0) { vp_assert(!sec[k]++, "one-section-of-each"); lused[i] = 1; top = sub = -1; break; }
		if (k < 4) continue;
		for (k = 0; k < 12; k++) { size_t l = strlen(nouns[k]); if (strncmp(ln[i] + 3, nouns[k], l) == 0 && ln[i][3 + l] == ' ') { if (outer((enum noun)k)) { top = i; sub = -1; } else sub = i; } } }
	for (e = 0; e < nexp; e++) {
		int fm = formof(ex[e].t), o; enum noun nn = form[fm].n; char kd = form[fm].k; const void *up;
		line(&t, e, kd);
		for (i = n, k = -1; i < nln; i++) if (strcmp(ln[i], t.b) == 0) { if (k >= 0 && ex[e].t == DIFF_MOD_UPDATE_PARAMS) { lused[i] = 1; continue; } if (k >= 0) vp_log(t.b); vp_assert(k < 0, "change-listed-once"); k = i; lused[i] = 1; }
		if (kd == ' ') continue;
		if (k < 0) vp_log(t.b);
		vp_assert(k >= 0, "change-listed");
		if (outer(nn)) { if (kd != '!') continue; up = NULL; }
		/* below the line of what it is of */
		if (kd == '!') { struct tx u; int w; tx_init(&u); line(&u, e, '@'); w = outer(nn) ? ltop[k] : lsub[k]; if (!(w >= 0 && strcmp(ln[w], u.b) == 0)) vp_log(t.b); vp_assert(w >= 0 && strcmp(ln[w], u.b) == 0, "change-is-below-its-object"); continue; }
		for (o = 0; o < nexp; o++) { int fo = formof(ex[o].t); if (form[fo].k != '@' || form[fo].n != outof(nn)) continue; if (nn == N_ROLE || (ex[e].f && upof(nn, ex[e].f) == ex[o].f) || (ex[e].i && upof(nn, ex[e].i) == ex[o].i)) break; }
		vp_assert(o < nexp, "object-of-change"); line(&t, o, '@');
		if (!(ltop[k] >= 0 && strcmp(ln[ltop[k]], t.b) == 0)) vp_log(t.b);
		vp_assert(ltop[k] >= 0 && strcmp(ln[ltop[k]], t.b) == 0, "change-is-below-its-object");
	}
	for (i = n; i < nln; i++) { if (!lused[i]) vp_log(ln[i]); vp_assert(lused[i], "nothing-else-is-listed"); }
	free(b);
}
static int account(const struct config *from, const struct config *into) {	/* non-zero if they differ */
	int mod = 0, got = 0; const struct diff *d;
	A = from; B = into; nexp = 0; dq = ort_diff(from, into); vp_assert(dq != NULL, "differences-computed");
	NAMED(enm, &A->eq, &B->eq, d_enm, DIFF_ADD_ENM, DIFF_DEL_ENM); NAMED(bitf, &A->bq, &B->bq, d_bitf, DIFF_ADD_BITF, DIFF_DEL_BITF); NAMED(strct, &A->sq, &B->sq, d_strct, DIFF_ADD_STRCT, DIFF_DEL_STRCT);
	if (d_roles()) mod = 1;
	TAILQ_FOREACH(d, dq, entries) got++;
	if (text) check_text(mod); else vp_assert(got == nexp, "nothing-else-is-reported");
	if (!text) { FILE *f = vp_out(); int rc = ort_write_diff_file(f, dq, NULL, 0, NULL, 0); (void)rc; fclose(f); }
	ort_diffq_free(dq);
	return mod;
}
int harness(void) {
	int a[NEL(slots)] = { 0 }, b[NEL(slots)] = { 0 }, s1 = (int)vp_param("slot", 0), s2 = (int)vp_param("other", -1), from = (int)vp_param("from", 0), to = (int)vp_param("to", 999), n = altn(s1), x, y; struct tx ta, tb; struct config *ca, *cb;
	if (to > n - 1) to = n - 1;
	text = (int)vp_param("text", 0);
	a[s1] = vp_param("a0", 0) ? 0 : pickc("a", from, to); b[s1] = pickc("b", 0, n - 1);
	if (s2 >= 0) { int full = (int)vp_param("full", 0); a[s2] = full ? pickc("c", 0, altn(s2) - 1) : (int)vp_param("c", 0); b[s2] = pickc("d", 0, altn(s2) - 1); }
	if (s1 == 6 || s1 == 4) a[10] = b[10] = s2 == 10 ? a[10] : 1;	/* so that roles come into play */
	for (x = 0; x < 2; x++) { int *p = x ? b : a; if (p[10] && (p[9] == 1 || p[9] == 9)) return 0; }
	render(&ta, a); render(&tb, b);
	ca = parse_buf(ta.b, ta.n); cb = parse_buf(tb.b, tb.n);
	if (ca == NULL || cb == NULL) { vp_log(ta.b); vp_log(tb.b); vp_reach("rejected"); return 0; }
	x = account(ca, cb); y = account(cb, ca);
	vp_assert(x == y, "differences-both-ways-or-neither");
	vp_assert(!x || !eq_cfg(ca, cb, EQ_ANYORDER | EQ_NOALIAS), "no-difference-between-equals");
	ort_config_free(ca); ort_config_free(cb); vp_reach(x ? "differ" : "equal");
	return 0;
}
