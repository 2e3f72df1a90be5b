/* The JSON of a configuration, read back by a reader of RFC 8259, against the configuration. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
#include "slots.h"
#include "jsonm.h"
static struct config *C;
/* text of the configuration as it is meant: quotes lose their backslash */
static void j_pos(struct jv *o, const struct pos *p) { struct jv *v = j_get(o, "pos"); j_text(v, "fname", p->fname); j_num(v, "line", (int64_t)p->line); j_num(v, "column", (int64_t)p->column); j_done(v); }
static void j_labels(struct jv *o, const char *k, const struct labelq *q) {
	struct jv *v = j_get(o, k), *x; const struct label *l;
	vp_assert(v->t == 'o', "labels-are-an-object");
	TAILQ_FOREACH(l, q, entries) { const char *lang = C->langs[l->lang][0] ? C->langs[l->lang] : "_default"; x = j_get(v, lang); j_str(x, "lang", lang); j_pos(x, &l->pos); j_text(x, "value", l->label); j_done(x); }
	j_done(v);
}
static void j_roles(struct jv *o, const char *k, const struct rolemap *m) { struct jv *v = j_arr(o, k), *x = v->first; const struct rref *r; if (m) TAILQ_FOREACH(r, &m->rq, entries) { vp_assert(x && x->t == 's' && strcmp(x->s, r->role->name) == 0, "roles-are-the-same"); x = x->next; } vp_assert(x == NULL, "no-other-roles"); }
static void j_chain(struct jv *o, struct field **c, size_t n, const char *fn, const struct strct *p) {
	struct jv *v = j_arr(o, "chain"), *x = v->first; size_t i; char b[256]; const char *e;
	for (i = 0; i < n; i++) { snprintf(b, sizeof b, "%s.%s", c[i]->parent->name, c[i]->name); vp_assert(x && x->t == 's' && strcmp(x->s, b) == 0, "chain-is-the-same"); x = x->next; }
	vp_assert(x == NULL, "chain-ends");
	/* The chain follows the path as written: each part names a field of the structure reached so far. */
	if (strcmp(fn, ".") == 0) { vp_assert(n == 0, "empty-path-has-no-chain"); return; }
	for (i = 0; *fn; i++) {
		e = strchr(fn, '.'); if (e == NULL) e = fn + strlen(fn);
		vp_assert(i < n, "chain-covers-the-path");
		vp_assert(c[i]->parent == p && strlen(c[i]->name) == (size_t)(e - fn) && strncasecmp(c[i]->name, fn, e - fn) == 0, "chain-follows-the-path");
		fn = e; if (*fn) { fn++; vp_assert(c[i]->type == FTYPE_STRUCT && c[i]->ref, "chain-descends-into-structures"); p = c[i]->ref->target->parent; }
	}
	vp_assert(i == n, "chain-is-the-path");
}
static void j_fptr(struct jv *o, const char *k, const struct field *f) { struct jv *v = j_get(o, k); j_str(v, "strct", f->parent->name); j_str(v, "field", f->name); j_done(v); }
static void j_real(const char *s, double d) { char *e; double g = strtod(s, &e); vp_assert(*s && *e == 0 && g == d, "number-is-exact"); }
static void j_int(const char *s, int64_t want) { char b[32]; snprintf(b, sizeof b, "%lld", (long long)want); if (strcmp(s, b)) { vp_log(s); vp_log(b); } vp_assert(strcmp(s, b) == 0, "number-is-exact"); }
static const char *j_gets(struct jv *o, const char *k) { struct jv *v = j_get(o, k); vp_assert(v->t == 's', "is-a-string"); return v->s; }
static const char *const tys[] = { "bit", "date", "epoch", "int", "real", "blob", "text", "password", "email", "struct", "enum", "bitfield" };
static const char *const acts[] = { "none", "restrict", "nullify", "cascade", "default" }, *const vts[] = { "ge", "le", "gt", "lt", "eq" };
static const char *const ops[] = { "eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull" }, *const mods[] = { "concat", "dec", "inc", "set", "strset" }, *const sts[] = { "count", "search", "list", "iterate" };
static void field(struct jv *o, const struct field *f) {
	struct jv *v, *x; const struct fvalid *w; unsigned got = 0;
	j_str(o, "name", f->name); j_str(o, "parent", f->parent->name); j_pos(o, &f->pos); j_doc(o, f->doc); j_str(o, "type", tys[f->type]); j_str(o, "actdel", acts[f->actdel]); j_str(o, "actup", acts[f->actup]);
	for (x = j_arr(o, "flags")->first; x; x = x->next) { unsigned b; vp_assert(x->t == 's', "is-a-string"); b = !strcmp(x->s, "rowid") ? FIELD_ROWID : !strcmp(x->s, "unique") ? FIELD_UNIQUE : !strcmp(x->s, "null") ? FIELD_NULL : !strcmp(x->s, "noexport") ? FIELD_NOEXPORT : 0; vp_assert(b && !(got & b), "known-flag-once"); got |= b; }
	vp_assert(got == (f->flags & (FIELD_ROWID | FIELD_UNIQUE | FIELD_NULL | FIELD_NOEXPORT)), "flags-are-the-same");
	if (f->enm) j_str(o, "enm", f->enm->name);
	if (f->bitf) j_str(o, "bitf", f->bitf->name);
	if (f->ref) { v = j_get(o, "ref"); j_fptr(v, "target", f->ref->target); j_fptr(v, "source", f->ref->source); j_done(v); }
	if (!(f->flags & FIELD_HASDEF)) j_null(o, "def");
	else switch (f->type) { case FTYPE_REAL: j_real(j_gets(o, "def"), f->def.decimal); break; case FTYPE_TEXT: case FTYPE_EMAIL: j_text(o, "def", f->def.string); break; case FTYPE_ENUM: j_str(o, "def", f->def.eitem->name); break; default: j_int(j_gets(o, "def"), f->def.integer); }
	j_roles(o, "rolemap", f->rolemap);
	x = j_arr(o, "fvq")->first;
	TAILQ_FOREACH(w, &f->fvq, entries) {
		vp_assert(x != NULL, "limit-listed"); j_str(x, "type", vts[w->type]);
		switch (f->type) { case FTYPE_REAL: j_real(j_gets(x, "limit"), w->d.value.decimal); break; case FTYPE_TEXT: case FTYPE_EMAIL: case FTYPE_BLOB: case FTYPE_PASSWORD: j_int(j_gets(x, "limit"), (int64_t)w->d.value.len); break; default: j_int(j_gets(x, "limit"), w->d.value.integer); }
		j_done(x); x = x->next;
	}
	vp_assert(x == NULL, "no-other-limits"); j_done(o);
}
static void search(struct jv *o, const struct search *s) {
	struct jv *x; const struct sent *e; const struct ord *d;
	if (s->name) j_str(o, "name", s->name); else j_null(o, "name");
	j_str(o, "parent", s->parent->name); j_pos(o, &s->pos); j_doc(o, s->doc); j_roles(o, "rolemap", s->rolemap); j_int(j_gets(o, "limit"), s->limit); j_int(j_gets(o, "offset"), s->offset); j_str(o, "type", sts[s->type]);
	x = j_arr(o, "sntq")->first;
	TAILQ_FOREACH(e, &s->sntq, entries) { vp_assert(x != NULL, "term-listed"); j_pos(x, &e->pos); j_chain(x, e->chain, e->chainsz, e->fname, s->parent); j_str(x, "fname", e->fname); j_str(x, "uname", e->uname); j_fptr(x, "field", e->field); j_str(x, "op", ops[e->op]); j_done(x); x = x->next; }
	vp_assert(x == NULL, "no-other-terms"); x = j_arr(o, "ordq")->first;
	TAILQ_FOREACH(d, &s->ordq, entries) { vp_assert(x != NULL, "order-listed"); j_pos(x, &d->pos); j_chain(x, d->chain, d->chainsz, d->fname, s->parent); j_str(x, "fname", d->fname); j_str(x, "op", d->op == ORDTYPE_DESC ? "desc" : "asc"); j_done(x); x = x->next; }
	vp_assert(x == NULL, "no-other-order");
	if (s->aggr) { x = j_get(o, "aggr"); j_pos(x, &s->aggr->pos); j_chain(x, s->aggr->chain, s->aggr->chainsz, s->aggr->fname, s->parent); j_str(x, "fname", s->aggr->fname); j_str(x, "op", s->aggr->op == AGGR_MAXROW ? "maxrow" : "minrow"); j_done(x); } else j_null(o, "aggr");
	if (s->group) { x = j_get(o, "group"); j_pos(x, &s->group->pos); j_chain(x, s->group->chain, s->group->chainsz, s->group->fname, s->parent); j_str(x, "fname", s->group->fname); j_done(x); } else j_null(o, "group");
	if (s->dst) { x = j_get(o, "dst"); j_pos(x, &s->dst->pos); j_chain(x, s->dst->chain, s->dst->chainsz, s->dst->fname, s->parent); j_str(x, "fname", s->dst->fname); j_str(x, "strct", s->dst->strct->name); j_done(x); } else j_null(o, "dst");
	j_done(o);
}
static void urefs(struct jv *o, const char *k, const struct urefq *q) { struct jv *x = j_arr(o, k)->first; const struct uref *u; TAILQ_FOREACH(u, q, entries) { vp_assert(x != NULL, "reference-listed"); j_pos(x, &u->pos); j_str(x, "field", u->field->name); j_str(x, "op", ops[u->op]); j_str(x, "mod", mods[u->mod]); j_done(x); x = x->next; } vp_assert(x == NULL, "no-other-references"); }
static void update(struct jv *o, const struct update *u) {
	struct jv *x;
	if (u->name) j_str(o, "name", u->name); else j_null(o, "name");
	j_str(o, "parent", u->parent->name); j_pos(o, &u->pos); j_doc(o, u->doc); j_str(o, "type", u->type == UP_MODIFY ? "update" : "delete"); urefs(o, "mrq", &u->mrq); urefs(o, "crq", &u->crq);
	x = j_arr(o, "flags")->first; if (u->flags & UPDATE_ALL) { vp_assert(x && x->t == 's' && !strcmp(x->s, "all"), "flag-listed"); x = x->next; } vp_assert(x == NULL, "no-other-flags");
	j_roles(o, "rolemap", u->rolemap); j_done(o);
}
/* objects of a queue: those with names by name, the others in order */
#define CLASS(T, q, key, FN) do { const struct T *q_; struct jv *cl = j_get(o, key), *nm = j_get(cl, "named"), *an = j_arr(cl, "anon")->first; vp_assert(nm->t == 'o', "named-is-an-object"); \
	TAILQ_FOREACH(q_, q, entries) if (q_->name) FN(j_get(nm, q_->name), q_); else { vp_assert(an != NULL, "listed"); FN(an, q_); an = an->next; } \
	vp_assert(an == NULL, "no-others"); j_done(nm); j_done(cl); } while (0)
static void strct(struct jv *o, const struct strct *s) {
	static const char *const mts[] = { "all", "count", "delete", "insert", "iterate", "list", "search", "update", "noexport" };
	struct jv *v, *x, *y; const struct field *f; const struct unique *n; const struct nref *r; const struct rolemap *m; const char *nm;
	j_str(o, "name", s->name); j_pos(o, &s->pos); j_doc(o, s->doc);
	v = j_get(o, "fq"); vp_assert(v->t == 'o', "fields-are-an-object"); TAILQ_FOREACH(f, &s->fq, entries) field(j_get(v, f->name), f); j_done(v);
	if (s->ins) { v = j_get(o, "insert"); j_pos(v, &s->ins->pos); j_roles(v, "rolemap", s->ins->rolemap); j_done(v); } else j_null(o, "insert");
	CLASS(search, &s->sq, "sq", search); CLASS(update, &s->uq, "uq", update); CLASS(update, &s->dq, "dq", update);
	x = j_arr(o, "nq")->first;
	TAILQ_FOREACH(n, &s->nq, entries) { vp_assert(x != NULL, "unique-listed"); j_pos(x, &n->pos); y = j_arr(x, "nq")->first; TAILQ_FOREACH(r, &n->nq, entries) { vp_assert(y && y->t == 's' && !strcmp(y->s, r->field->name), "unique-field-listed"); y = y->next; } vp_assert(y == NULL, "no-other-unique-fields"); j_done(x); x = x->next; }
	vp_assert(x == NULL, "no-other-unique"); x = j_arr(o, "rq")->first;
	TAILQ_FOREACH(m, &s->rq, entries) {
		vp_assert(x != NULL, "role-map-listed"); j_str(x, "type", mts[m->type]); j_roles(x, "rq", m);
		nm = m->type == ROLEMAP_ALL || m->type == ROLEMAP_INSERT ? NULL : m->type == ROLEMAP_NOEXPORT ? (m->f ? m->f->name : NULL) : m->type == ROLEMAP_UPDATE || m->type == ROLEMAP_DELETE ? m->u->name : m->s->name;
		if (nm) j_str(x, "name", nm); else j_null(x, "name");
		j_done(x); x = x->next;
	}
	vp_assert(x == NULL, "no-other-role-maps"); j_done(o);
}
static void check(struct config *c) {
	struct ort_lang_json ja; FILE *f; size_t n; char *b, *s; struct jv *top, *o, *v, *x, *w; int frag = (int)vp_param("frag", 0); const struct role *r, *sr; const struct enm *e; const struct eitem *ei; const struct bitf *bf; const struct bitidx *bi; const struct strct *st;
	memset(&ja, 0, sizeof ja); if (frag) ja.flags = ORT_LANG_JSON_FRAGMENT;
	C = c; TAILQ_FOREACH(bf, &c->bq, entries) TAILQ_FOREACH(bi, &bf->bq, entries) ((struct bitidx *)(uintptr_t)bi)->value = vp_conc(bi->value);
	f = vp_out(); vp_assert(ort_lang_json(&ja, c, f), "json-written"); b = vp_out_buf(f, &n); s = calloc(1, n + 3); memcpy(s + frag, b, n); if (frag) { s[0] = '{'; s[n + 1] = '}'; n += 2; } fclose(f);
	top = j_read(s, n); vp_assert(top->t == 'o', "is-an-object"); o = j_get(top, "config"); j_done(top); vp_assert(o->t == 'o', "is-an-object");
	if (TAILQ_EMPTY(&c->arq)) j_null(o, "rq");
	else { v = j_get(o, "rq"); TAILQ_FOREACH(r, &c->arq, allentries) { x = j_get(v, r->name); j_str(x, "name", r->name); if (r->parent) j_str(x, "parent", r->parent->name); else j_null(x, "parent"); j_pos(x, &r->pos); j_doc(x, r->doc); w = j_arr(x, "subrq")->first; TAILQ_FOREACH(sr, &r->subrq, entries) { vp_assert(w && w->t == 's' && !strcmp(w->s, sr->name), "child-listed"); w = w->next; } vp_assert(w == NULL, "no-other-children"); j_done(x); } j_done(v); }
	v = j_get(o, "eq"); TAILQ_FOREACH(e, &c->eq, entries) { x = j_get(v, e->name); j_str(x, "name", e->name); j_pos(x, &e->pos); j_doc(x, e->doc); j_labels(x, "labelsNull", &e->labels_null); w = j_get(x, "eq"); TAILQ_FOREACH(ei, &e->eq, entries) { struct jv *y = j_get(w, ei->name); j_str(y, "name", ei->name); j_str(y, "parent", e->name); j_pos(y, &ei->pos); j_doc(y, ei->doc); j_labels(y, "labels", &ei->labels); if (ei->flags & EITEM_AUTO) j_null(y, "value"); else j_int(j_gets(y, "value"), ei->value); j_done(y); } j_done(w); j_done(x); } j_done(v);
	v = j_get(o, "bq"); TAILQ_FOREACH(bf, &c->bq, entries) { x = j_get(v, bf->name); j_str(x, "name", bf->name); j_pos(x, &bf->pos); j_doc(x, bf->doc); j_labels(x, "labelsNull", &bf->labels_null); j_labels(x, "labelsUnset", &bf->labels_unset); w = j_get(x, "bq"); TAILQ_FOREACH(bi, &bf->bq, entries) { struct jv *y = j_get(w, bi->name); char mk[32]; j_str(y, "name", bi->name); j_str(y, "parent", bf->name); j_pos(y, &bi->pos); j_doc(y, bi->doc); j_labels(y, "labels", &bi->labels); j_int(j_gets(y, "value"), bi->value); snprintf(mk, sizeof mk, "%llu", 1ULL << bi->value); j_str(y, "mask", mk); j_done(y); } j_done(w); j_done(x); } j_done(v);
	v = j_get(o, "sq"); TAILQ_FOREACH(st, &c->sq, entries) strct(j_get(v, st->name), st); j_done(v);
	j_done(o); free(s);
}
#include "jsonin.h"
int harness(void) {
	struct config *c = json_input();
	if (c == NULL) { vp_reach("rejected"); return 0; }
	check(c); ort_config_free(c); vp_reach("accepted");
	return 0;
}
