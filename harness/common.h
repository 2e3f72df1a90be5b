/* Shared by all harnesses: text templates, parsing, and model comparison over ort's public structures. */
#ifndef COMMON_H
#define COMMON_H
#include "config.h"
#include <sys/types.h>
#if HAVE_SYS_QUEUE
# include <sys/queue.h>
#endif
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ort.h"
#include "vp.h"
#pragma GCC diagnostic ignored "-Wunused-function"
#define NEL(a) (sizeof(a) / sizeof((a)[0]))

/* ---- text templates ---- */
struct tx { char *b; size_t n, cap; };
static void tx_init(struct tx *t) { t->cap = 16384; t->b = calloc(1, t->cap); t->n = 0; }
static void tx_free(struct tx *t) { free(t->b); t->b = NULL; }
static void tx_need(struct tx *t, size_t k) {
	while (t->n + k + 1 > t->cap) { char *q = calloc(1, t->cap * 2); memcpy(q, t->b, t->n); free(t->b); t->b = q; t->cap *= 2; }
}
static void tx_mem(struct tx *t, const char *s, size_t n) { tx_need(t, n); memcpy(t->b + t->n, s, n); t->n += n; t->b[t->n] = 0; }
static void tx_s(struct tx *t, const char *s) { tx_mem(t, s, strlen(s)); }
static void tx_c(struct tx *t, char c) { tx_mem(t, &c, 1); }
static void tx_f(struct tx *t, const char *fmt, ...) { va_list ap; char *p = NULL; va_start(ap, fmt); if (vasprintf(&p, fmt, ap) < 0) abort(); va_end(ap); tx_s(t, p); free(p); }
/* n symbolic bytes, any value */
static char *tx_sym(struct tx *t, const char *name, size_t n) { char *p; tx_need(t, n); p = t->b + t->n; vp_symbolic(p, n, name); t->n += n; t->b[t->n] = 0; return p; }
/* a symbolic choice among words: the text holds the chosen word (blank padded), the index is returned */
#define PICKW 64
static int tx_pick(struct tx *t, const char *name, const char *const *w, int nw) {
	static char tabs[64][PICKW]; char *tab = calloc((size_t)nw, PICKW); size_t W = 1, i; int k, idx; char buf[PICKW]; (void)tabs;
	for (k = 0; k < nw; k++) { size_t l = strlen(w[k]); if (l >= PICKW) abort(); if (l > W) W = l; }
	for (k = 0; k < nw; k++) { memset(tab + k * PICKW, ' ', PICKW); memcpy(tab + k * PICKW, w[k], strlen(w[k])); }
	idx = vp_range(name, 0, nw - 1);
	for (i = 0; i < W; i++) buf[i] = tab[(size_t)idx * PICKW + i];
	tx_mem(t, buf, W); tx_c(t, ' ');
	/* the table stays allocated: the text refers to it symbolically in no way, so it can go */
	free(tab);
	return idx;
}
/* concrete choice: one path per value */
static int pickc(const char *name, int lo, int hi) { return (int)vp_conc(vp_range(name, lo, hi)); }
/* n symbolic characters, each within [lo,hi] */
static void tx_rng(struct tx *t, const char *name, size_t n, int lo, int hi) {
	size_t i, at = t->n; tx_sym(t, name, n);
	for (i = 0; i < n; i++) vp_assume((unsigned char)t->b[at + i] >= lo && (unsigned char)t->b[at + i] <= hi);
}

/* A template: ~9 digit, ~a lower-case letter, ~A letter of any case, ~x letter or digit, ~c string character
 * (anything but NUL, quote and backslash), ~* any byte, ~- a minus sign or a blank, ~~ itself; all symbolic. */
static int tx_cnt;
static void tx_tpl(struct tx *t, const char *s) {
	char nm[24]; unsigned char c;
	for (; *s; s++) {
		if (*s != '~') { tx_c(t, *s); continue; }
		s++;
		if (*s == '~') { tx_c(t, '~'); continue; }
		snprintf(nm, sizeof nm, "%c%d", *s == '*' ? 'b' : *s == '-' ? 'm' : *s, tx_cnt++);
		c = *(unsigned char *)tx_sym(t, nm, 1);
		switch (*s) {
		case '9': vp_assume(c >= '0' && c <= '9'); break;
		case 'a': vp_assume(c >= 'a' && c <= 'z'); break;
		case 'A': vp_assume((c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z')); break;
		case 'x': vp_assume((c >= 'a' && c <= 'z') | (c >= '0' && c <= '9')); break;
		case 'c': vp_assume((c != 0) & (c != '"') & (c != '\\')); break;
		case '-': vp_assume((c == '-') | (c == ' ')); break;
		case '*': break;
		default: abort();
		}
	}
}

/* ---- running the parser ---- */
static struct config *lastcfg;	/* also set when rejected, so that messages can be read */
static int parse_into(struct config *cfg, const char *b, size_t n, const char *fn) {
	FILE *f = vp_in(fn, b, n); int rc = ort_parse_file(cfg, f, fn); fclose(f); return rc;
}
static struct config *parse_buf(const char *b, size_t n) {
	struct config *cfg = ort_config_alloc();
	if (cfg == NULL) return NULL;
	if (parse_into(cfg, b, n, "in.ort") && ort_parse_close(cfg)) return cfg;
	lastcfg = cfg;
	return NULL;
}
static int has_error(const struct config *c) {
	const struct msg *m; TAILQ_FOREACH(m, &c->mq, entries) if (m->type != MSGTYPE_WARN) return 1; return 0;
}
static void drop_last(void) { ort_config_free(lastcfg); lastcfg = NULL; }
/* accepted or rejected; a rejection must come with an error message */
static struct config *parse_checked(const char *b, size_t n) {
	struct config *c = parse_buf(b, n);
	if (c == NULL) vp_assert(has_error(lastcfg), "rejection-has-message");
	return c;
}
static struct config *parse_tx(struct tx *t) { return parse_checked(t->b, t->n); }
static struct config *must_parse(const char *b, size_t n, const char *id) {
	struct config *c = parse_buf(b, n);
	if (c == NULL) { struct msg *m; TAILQ_FOREACH(m, &lastcfg->mq, entries) if (m->buf) vp_log(m->buf); vp_log(b); vp_fail(id); }
	return c;
}
/* write in canonical form; NULL when refused */
static char *write_cfg(const struct config *c, size_t *n) {
	FILE *f = vp_out(); char *r, *b; size_t m;
	if (!ort_write_file(f, c)) { fclose(f); return NULL; }
	b = vp_out_buf(f, &m); r = calloc(1, m + 1); memcpy(r, b, m); if (n) *n = m;
	fclose(f); return r;
}

/* ---- comparing models; does not fork where bytes are symbolic ---- */
static const char *eqwhy;
static int no(const char *w) { eqwhy = w; return 0; }
static int seq(const char *a, const char *b) {	/* NULL equals NULL only */
	size_t i, n; int d = 0;
	if (a == NULL || b == NULL) return a == b;
	n = strlen(a); if (n != strlen(b)) return 0;
	for (i = 0; i < n; i++) d |= a[i] ^ b[i];
	return d == 0;
}
#define EQ_POS		1	/* positions too */
#define EQ_ANYORDER	2	/* objects in any order */
#define EQ_NODOC	4
#define EQ_LWS		8	/* labels up to runs of blanks */
#define EQ_NOALIAS	16	/* whatever aliases were assigned */
#define EQ_ANONFIRST	32	/* operations without a name before those with one */
static int noalias;
/* equal up to runs of white space */
static int wseq(const char *a, const char *b) {
#define WS(c) ((c) == ' ' || ((c) >= 9 && (c) <= 13))
	for (;;) {
		if (WS(*a) || WS(*b)) { if (!(WS(*a) && WS(*b))) return 0; while (WS(*a)) a++; while (WS(*b)) b++; continue; }
		if (*a != *b) return 0;
		if (!*a) return 1;
		a++; b++;
	}
}
#define Q(c, w) do { if (!(c)) return no(w); } while (0)
static int eq_pos(const struct pos *a, const struct pos *b, int fl) { return !(fl & EQ_POS) || (a->line == b->line && a->column == b->column && seq(a->fname, b->fname)); }
static int eq_doc(const char *a, const char *b, int fl) { return (fl & EQ_NODOC) || seq(a, b); }
static const char *lang_of(const struct config *c, size_t l) { return l < c->langsz ? c->langs[l] : NULL; }
static int eq_labels(const struct config *ca, const struct labelq *a, const struct config *cb, const struct labelq *b, int fl) {
	const struct label *x, *y; size_t n = 0, m = 0;
	TAILQ_FOREACH(x, a, entries) n++;
	TAILQ_FOREACH(x, b, entries) m++;
	Q(n == m, "label count");
	TAILQ_FOREACH(x, a, entries) {
		TAILQ_FOREACH(y, b, entries) if (seq(lang_of(ca, x->lang), lang_of(cb, y->lang))) break;
		Q(y != NULL, "label language"); Q((fl & EQ_LWS) ? wseq(x->label, y->label) : seq(x->label, y->label), "label text"); Q(eq_pos(&x->pos, &y->pos, fl), "label position");
	}
	return 1;
}
static int rrefs_subset(const struct rolemap *a, const struct rolemap *b) {
	const struct rref *x, *y;
	TAILQ_FOREACH(x, &a->rq, entries) { TAILQ_FOREACH(y, &b->rq, entries) if (seq(x->role->name, y->role->name)) break; if (y == NULL) return 0; }
	return 1;
}
static int eq_rolemap(const struct rolemap *a, const struct rolemap *b) {
	if (a == NULL || b == NULL) { Q(a == b, "rolemap presence"); return 1; }
	Q(rrefs_subset(a, b) && rrefs_subset(b, a), "rolemap roles");
	return 1;
}
static int eq_ref(const struct ref *a, const struct ref *b) {
	if (a == NULL || b == NULL) { Q(a == b, "reference presence"); return 1; }
	Q(seq(a->target->name, b->target->name) && seq(a->target->parent->name, b->target->parent->name), "reference target");
	Q(seq(a->source->name, b->source->name), "reference source");
	Q(seq(a->parent->name, b->parent->name), "reference parent");
	return 1;
}
static int eq_valid(const struct field *f, const struct fvalid *x, const struct fvalid *y) {
	Q(x->type == y->type, "limit operator");
	if (f->type == FTYPE_REAL) Q(x->d.value.decimal == y->d.value.decimal, "limit real value");
	else Q(x->d.value.integer == y->d.value.integer, "limit value");
	return 1;
}
static int eq_field(const struct field *a, const struct field *b, int fl) {
	const struct fvalid *x, *y;
	Q(seq(a->name, b->name), "field name"); Q(eq_doc(a->doc, b->doc, fl), "field comment"); Q(eq_pos(&a->pos, &b->pos, fl), "field position");
	Q(a->type == b->type, "field type"); Q(a->flags == b->flags, "field flags"); Q(a->actdel == b->actdel, "field actdel"); Q(a->actup == b->actup, "field actup");
	Q((a->enm == NULL) == (b->enm == NULL) && (a->enm == NULL || seq(a->enm->name, b->enm->name)), "field enumeration");
	Q((a->bitf == NULL) == (b->bitf == NULL) && (a->bitf == NULL || seq(a->bitf->name, b->bitf->name)), "field bitfield");
	if (!eq_ref(a->ref, b->ref) || !eq_rolemap(a->rolemap, b->rolemap)) return 0;
	if (a->flags & FIELD_HASDEF) switch (a->type) {
	case FTYPE_REAL: Q(a->def.decimal == b->def.decimal, "default real"); break;
	case FTYPE_TEXT: case FTYPE_EMAIL: Q(seq(a->def.string, b->def.string), "default text"); break;
	case FTYPE_ENUM: Q(seq(a->def.eitem->name, b->def.eitem->name), "default item"); break;
	default: Q(a->def.integer == b->def.integer, "default integer"); break;
	}
	for (x = TAILQ_FIRST(&a->fvq), y = TAILQ_FIRST(&b->fvq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (!eq_valid(a, x, y)) return 0;
	Q(x == NULL && y == NULL, "limit count");
	return 1;
}
static int eq_fname(const struct field *a, const struct field *b) { if (a == NULL || b == NULL) return a == b; return seq(a->name, b->name) && seq(a->parent->name, b->parent->name); }
static int eq_chain(struct field *const *a, size_t na, struct field *const *b, size_t nb) {
	size_t i; Q(na == nb, "chain length"); for (i = 0; i < na; i++) Q(eq_fname(a[i], b[i]), "chain"); return 1;
}
static int eq_alias(const struct alias *a, const struct alias *b) { if (a == NULL || b == NULL) return a == b; return seq(a->name, b->name) && (noalias || seq(a->alias, b->alias)); }
static int eq_search(const struct search *a, const struct search *b, int fl) {
	const struct sent *x, *y; const struct ord *o, *p;
	Q(a->type == b->type, "query type"); Q(seq(a->name, b->name), "query name"); Q(eq_doc(a->doc, b->doc, fl), "query comment"); Q(eq_pos(&a->pos, &b->pos, fl), "query position");
	Q(a->limit == b->limit, "query limit"); Q(a->offset == b->offset, "query offset"); Q(a->flags == b->flags, "query flags");
	if (!eq_rolemap(a->rolemap, b->rolemap)) return 0;
	for (x = TAILQ_FIRST(&a->sntq), y = TAILQ_FIRST(&b->sntq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) {
		Q(x->op == y->op, "term operator"); Q(seq(x->fname, y->fname), "term name"); Q(seq(x->name, y->name), "term prefix"); Q(seq(x->uname, y->uname), "term uname"); Q(eq_fname(x->field, y->field), "term field");
		if (!eq_chain(x->chain, x->chainsz, y->chain, y->chainsz)) return 0;
		Q(eq_alias(x->alias, y->alias), "term alias"); Q(eq_pos(&x->pos, &y->pos, fl), "term position");
	}
	Q(x == NULL && y == NULL, "term count");
	for (o = TAILQ_FIRST(&a->ordq), p = TAILQ_FIRST(&b->ordq); o && p; o = TAILQ_NEXT(o, entries), p = TAILQ_NEXT(p, entries)) {
		Q(o->op == p->op, "order direction"); Q(seq(o->fname, p->fname), "order name"); Q(eq_fname(o->field, p->field), "order field"); Q(eq_alias(o->alias, p->alias), "order alias");
	}
	Q(o == NULL && p == NULL, "order count");
	Q((a->aggr == NULL) == (b->aggr == NULL), "aggregate presence");
	if (a->aggr) { Q(a->aggr->op == b->aggr->op, "aggregate type"); Q(seq(a->aggr->fname, b->aggr->fname), "aggregate name"); Q(eq_fname(a->aggr->field, b->aggr->field), "aggregate field"); Q(eq_alias(a->aggr->alias, b->aggr->alias), "aggregate alias"); }
	Q((a->group == NULL) == (b->group == NULL), "group presence");
	if (a->group) { Q(seq(a->group->fname, b->group->fname), "group name"); Q(eq_fname(a->group->field, b->group->field), "group field"); Q(eq_alias(a->group->alias, b->group->alias), "group alias"); }
	Q((a->dst == NULL) == (b->dst == NULL), "distinct presence");
	if (a->dst) { Q(seq(a->dst->fname, b->dst->fname), "distinct name"); Q(seq(a->dst->strct->name, b->dst->strct->name), "distinct structure"); }
	return 1;
}
static int eq_urefs(const struct urefq *a, const struct urefq *b) {
	const struct uref *x, *y;
	for (x = TAILQ_FIRST(a), y = TAILQ_FIRST(b); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) {
		Q(x->op == y->op, "update operator"); Q(x->mod == y->mod, "update modifier"); Q(eq_fname(x->field, y->field), "update field");
	}
	Q(x == NULL && y == NULL, "update term count");
	return 1;
}
static int eq_update(const struct update *a, const struct update *b, int fl) {
	Q(a->type == b->type, "update type"); Q(seq(a->name, b->name), "update name"); Q(eq_doc(a->doc, b->doc, fl), "update comment"); Q(a->flags == b->flags, "update flags"); Q(eq_pos(&a->pos, &b->pos, fl), "update position");
	return eq_rolemap(a->rolemap, b->rolemap) && eq_urefs(&a->mrq, &b->mrq) && eq_urefs(&a->crq, &b->crq);
}
/* the operation after one, of those there are: in order, or first those without a name */
#define OP_NEXT(T) static const struct T *T##_next(const struct T##q *h, const struct T *x, int fl) { int nm; \
	if (!(fl & EQ_ANONFIRST)) return x ? TAILQ_NEXT(x, entries) : TAILQ_FIRST(h); \
	nm = x && x->name; x = x ? TAILQ_NEXT(x, entries) : TAILQ_FIRST(h); \
	for (;;) { for (; x; x = TAILQ_NEXT(x, entries)) if (!!x->name == nm) return x; if (nm) return NULL; nm = 1; x = TAILQ_FIRST(h); } }
OP_NEXT(search)
OP_NEXT(update)
static int eq_updates(const struct updateq *a, const struct updateq *b, int fl) {
	const struct update *x, *y;
	for (x = update_next(a, NULL, fl), y = update_next(b, NULL, fl); x && y; x = update_next(a, x, fl), y = update_next(b, y, fl)) if (!eq_update(x, y, fl)) return 0;
	Q(x == NULL && y == NULL, "update count");
	return 1;
}
static int eq_unique(const struct unique *a, const struct unique *b) {
	const struct nref *x, *y;
	for (x = TAILQ_FIRST(&a->nq), y = TAILQ_FIRST(&b->nq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) Q(eq_fname(x->field, y->field), "unique field");
	Q(x == NULL && y == NULL, "unique field count");
	return 1;
}
static int eq_strct(const struct strct *a, const struct strct *b, int fl) {
	const struct field *x, *y; const struct search *s, *t; const struct unique *u, *v; const struct alias *p, *q; const struct rolemap *r, *rr; size_t n, m;
	Q(seq(a->name, b->name), "structure name"); Q(eq_doc(a->doc, b->doc, fl), "structure comment"); Q(eq_pos(&a->pos, &b->pos, fl), "structure position");
	Q(a->flags == b->flags, "structure flags"); Q(eq_fname(a->rowid, b->rowid), "structure rowid");
	for (x = TAILQ_FIRST(&a->fq), y = TAILQ_FIRST(&b->fq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) if (!eq_field(x, y, fl)) return 0;
	Q(x == NULL && y == NULL, "field count");
	for (s = search_next(&a->sq, NULL, fl), t = search_next(&b->sq, NULL, fl); s && t; s = search_next(&a->sq, s, fl), t = search_next(&b->sq, t, fl)) if (!eq_search(s, t, fl)) return 0;
	Q(s == NULL && t == NULL, "query count");
	for (p = TAILQ_FIRST(&a->aq), q = TAILQ_FIRST(&b->aq); p && q; p = TAILQ_NEXT(p, entries), q = TAILQ_NEXT(q, entries)) Q(eq_alias(p, q), "alias");
	Q(p == NULL && q == NULL, "alias count");
	if (!eq_updates(&a->uq, &b->uq, fl) || !eq_updates(&a->dq, &b->dq, fl)) return 0;
	for (u = TAILQ_FIRST(&a->nq), v = TAILQ_FIRST(&b->nq); u && v; u = TAILQ_NEXT(u, entries), v = TAILQ_NEXT(v, entries)) if (!eq_unique(u, v)) return 0;
	Q(u == NULL && v == NULL, "unique count");
	Q((a->ins == NULL) == (b->ins == NULL), "insert presence");
	if (a->ins && !eq_rolemap(a->ins->rolemap, b->ins->rolemap)) return 0;
	n = m = 0; TAILQ_FOREACH(r, &a->rq, entries) if (!TAILQ_EMPTY(&r->rq)) n++;
	TAILQ_FOREACH(rr, &b->rq, entries) if (!TAILQ_EMPTY(&rr->rq)) m++;
	(void)n; (void)m;
	return 1;
}
static int eq_role(const struct role *a, const struct role *b, int fl) {
	const struct role *x, *y; size_t n = 0, m = 0;
	Q(seq(a->name, b->name), "role name"); Q(eq_doc(a->doc, b->doc, fl), "role comment"); Q((a->parent == NULL) == (b->parent == NULL) && (a->parent == NULL || seq(a->parent->name, b->parent->name)), "role parent"); Q(eq_pos(&a->pos, &b->pos, fl), "role position");
	TAILQ_FOREACH(x, &a->subrq, entries) n++;
	TAILQ_FOREACH(y, &b->subrq, entries) m++;
	Q(n == m, "sub-role count");
	TAILQ_FOREACH(x, &a->subrq, entries) { TAILQ_FOREACH(y, &b->subrq, entries) if (seq(x->name, y->name)) break; Q(y != NULL, "sub-role"); if (!eq_role(x, y, fl)) return 0; }
	return 1;
}
static int eq_enm(const struct config *ca, const struct enm *a, const struct config *cb, const struct enm *b, int fl) {
	const struct eitem *x, *y;
	Q(seq(a->name, b->name), "enumeration name"); Q(eq_doc(a->doc, b->doc, fl), "enumeration comment"); Q(eq_pos(&a->pos, &b->pos, fl), "enumeration position");
	if (!eq_labels(ca, &a->labels_null, cb, &b->labels_null, fl)) return 0;
	for (x = TAILQ_FIRST(&a->eq), y = TAILQ_FIRST(&b->eq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) {
		Q(seq(x->name, y->name), "item name"); Q(eq_doc(x->doc, y->doc, fl), "item comment"); Q(x->value == y->value, "item value"); Q(eq_pos(&x->pos, &y->pos, fl), "item position");
		if (!eq_labels(ca, &x->labels, cb, &y->labels, fl)) return 0;
	}
	Q(x == NULL && y == NULL, "item count");
	return 1;
}
static int eq_bitf(const struct config *ca, const struct bitf *a, const struct config *cb, const struct bitf *b, int fl) {
	const struct bitidx *x, *y;
	Q(seq(a->name, b->name), "bitfield name"); Q(eq_doc(a->doc, b->doc, fl), "bitfield comment"); Q(eq_pos(&a->pos, &b->pos, fl), "bitfield position");
	if (!eq_labels(ca, &a->labels_null, cb, &b->labels_null, fl) || !eq_labels(ca, &a->labels_unset, cb, &b->labels_unset, fl)) return 0;
	for (x = TAILQ_FIRST(&a->bq), y = TAILQ_FIRST(&b->bq); x && y; x = TAILQ_NEXT(x, entries), y = TAILQ_NEXT(y, entries)) {
		Q(seq(x->name, y->name), "bit name"); Q(eq_doc(x->doc, y->doc, fl), "bit comment"); Q(x->value == y->value, "bit value"); Q(eq_pos(&x->pos, &y->pos, fl), "bit position");
		if (!eq_labels(ca, &x->labels, cb, &y->labels, fl)) return 0;
	}
	Q(x == NULL && y == NULL, "bit count");
	return 1;
}
/* walk two queues of objects in step, or by name */
#define EQ_OBJS(T, head, EQFN, what) do { const struct T *x_, *y_; size_t n_ = 0, m_ = 0; \
	TAILQ_FOREACH(x_, &a->head, entries) n_++; TAILQ_FOREACH(x_, &b->head, entries) m_++; Q(n_ == m_, what " count"); \
	y_ = TAILQ_FIRST(&b->head); \
	TAILQ_FOREACH(x_, &a->head, entries) { \
		if (fl & EQ_ANYORDER) TAILQ_FOREACH(y_, &b->head, entries) if (seq(x_->name, y_->name)) break; \
		Q(y_ != NULL, what); if (!(EQFN)) return 0; \
		if (!(fl & EQ_ANYORDER)) y_ = TAILQ_NEXT(y_, entries); } } while (0)
static int eq_cfg(const struct config *a, const struct config *b, int fl) {
	noalias = !!(fl & EQ_NOALIAS);
	EQ_OBJS(strct, sq, eq_strct(x_, y_, fl), "structure");
	EQ_OBJS(enm, eq, eq_enm(a, x_, b, y_, fl), "enumeration");
	EQ_OBJS(bitf, bq, eq_bitf(a, x_, b, y_, fl), "bitfield");
	EQ_OBJS(role, rq, eq_role(x_, y_, fl), "role");
	return 1;
}
#define ASSERT_EQ_CFG(a, b, fl, id) do { int eq_ = eq_cfg(a, b, fl); if (!eq_ && eqwhy) vp_log(eqwhy); vp_assert(eq_, id); } while (0)

/* ---- look-ups ---- */
#define FIND(T, head, nm, var) do { TAILQ_FOREACH(var, head, entries) if (var->name && !strcmp(var->name, nm)) break; } while (0)
static struct strct *find_strct(const struct config *c, const char *n) { struct strct *s; FIND(strct, &c->sq, n, s); return s; }
static struct enm *find_enm(const struct config *c, const char *n) { struct enm *s; FIND(enm, &c->eq, n, s); return s; }
static struct bitf *find_bitf(const struct config *c, const char *n) { struct bitf *s; FIND(bitf, &c->bq, n, s); return s; }
static struct field *find_field(const struct strct *c, const char *n) { struct field *s; FIND(field, &c->fq, n, s); return s; }
static struct search *find_search(const struct strct *c, const char *n) { struct search *s; FIND(search, &c->sq, n, s); return s; }
static struct update *find_update(const struct updateq *q, const char *n) { struct update *s; FIND(update, q, n, s); return s; }
static struct role *find_role(const struct config *c, const char *n) { struct role *s; TAILQ_FOREACH(s, &c->arq, allentries) if (!strcmp(s->name, n)) break; return s; }
#endif
