/* Updates of the database schema: refused exactly when incompatible, otherwise they lead to the new schema. */
#include "common.h"
#include "gens.h"
#include "sqlm.h"
#include "slots.h"
static int rncmp(const char *a, const char *b) { return strcasecmp(a, b) != 0; }
/* why the new configuration does not follow from the old: 1 things dropped, 2 things changed */
static int incompatible(const struct config *a, const struct config *b) {
	int r = 0; const struct enm *e; const struct eitem *i; const struct bitf *m; const struct bitidx *k; const struct strct *s; const struct field *f;
	TAILQ_FOREACH(e, &a->eq, entries) { const struct enm *o = find_enm(b, e->name); if (!o) { r |= 1; continue; } TAILQ_FOREACH(i, &e->eq, entries) { const struct eitem *j; FIND(eitem, &o->eq, i->name, j); if (!j) r |= 1; else if (j->value != i->value) r |= 2; } }
	TAILQ_FOREACH(m, &a->bq, entries) { const struct bitf *o = find_bitf(b, m->name); if (!o) { r |= 1; continue; } TAILQ_FOREACH(k, &m->bq, entries) { const struct bitidx *j; FIND(bitidx, &o->bq, k->name, j); if (!j) r |= 1; else if (j->value != k->value) r |= 2; } }
	TAILQ_FOREACH(s, &a->sq, entries) {
		const struct strct *o = find_strct(b, s->name); if (!o) { r |= 1; continue; }
		TAILQ_FOREACH(f, &s->fq, entries) {
			const struct field *g = find_field(o, f->name);
			if (!g) { if (f->type != FTYPE_STRUCT) r |= 1; continue; }
			if (f->type != g->type || (f->enm && rncmp(f->enm->name, g->enm->name)) || (f->bitf && rncmp(f->bitf->name, g->bitf->name))) { r |= 2; continue; }
			if ((f->flags ^ g->flags) & (FIELD_ROWID | FIELD_NULL)) r |= 2;
			if (f->type == FTYPE_STRUCT) continue;
			if (!f->ref != !g->ref || (f->ref && (rncmp(f->ref->target->name, g->ref->target->name) || rncmp(f->ref->target->parent->name, g->ref->target->parent->name)))) r |= 2;
			if (f->actdel != g->actdel || f->actup != g->actup) r |= 2;
		}
	}
	return r;
}
/* SQLite cannot add primary keys: what is printed then is not stated */
static int adds_rowid(const struct config *a, const struct config *b) {
	const struct strct *s, *o; const struct field *f;
	TAILQ_FOREACH(s, &b->sq, entries) if ((o = find_strct(a, s->name))) TAILQ_FOREACH(f, &s->fq, entries) if ((f->flags & FIELD_ROWID) && !find_field(o, f->name)) return 1;
	return 0;
}
/* the default of a column that is not new stays what it was: nothing is stated about it */
static int only_defaults(const struct config *a, const struct config *b) {
	const struct strct *s, *o; const struct field *f, *g;
	TAILQ_FOREACH(s, &b->sq, entries) if ((o = find_strct(a, s->name))) TAILQ_FOREACH(f, &s->fq, entries) if ((g = find_field(o, f->name)) && f->type == g->type) {
		if ((f->flags ^ g->flags) & FIELD_HASDEF) return 1;
		if (!(f->flags & FIELD_HASDEF)) continue;
		switch (f->type) { case FTYPE_REAL: if (f->def.decimal != g->def.decimal) return 1; break; case FTYPE_TEXT: case FTYPE_EMAIL: if (!seq(f->def.string, g->def.string)) return 1; break; case FTYPE_ENUM: if (f->def.eitem->value != g->def.eitem->value) return 1; break; default: if (f->def.integer != g->def.integer) return 1; }
	}
	return 0;
}
static void check(const struct config *a, const struct config *b, int destruct) {
	struct diffq *q = ort_diff(a, b); FILE *f = vp_out(); struct msgq mq = TAILQ_HEAD_INITIALIZER(mq); struct ort_lang_sql sq; int rc, why = incompatible(a, b), want; char *s, *base; size_t n, m; struct schema *d;
	if (adds_rowid(a, b)) { fclose(f); ort_diffq_free(q); vp_reach("unstated"); return; }
	memset(&sq, 0, sizeof sq);
	rc = ort_lang_diff_sql(&sq, q, destruct, f, &mq);
	want = why & 2 ? 0 : why & 1 ? destruct : 1;
	vp_assert(rc == want, "refused-iff-incompatible");
	vp_assert((rc == 0) == !TAILQ_EMPTY(&mq), "a-message-iff-refused");
	s = vp_out_buf(f, &n);
	if (rc == 0) vp_assert(n == 0, "nothing-written-when-refused");
	else {
		d = s_new(); base = gen_str(G_SQL, a, &m); s_run(d, base, m); s_run(d, s, n);
		if (!only_defaults(a, b)) db_is(d, b, destruct ? a : NULL, 0);
		if (!destruct) { vp_assert(d->nn == 0, "nothing-dropped"); }
		free(base);
	}
	vp_reach(rc ? "accepted" : "rejected");
	ort_msgq_free(&mq); fclose(f); ort_diffq_free(q);
}
/* column variants: what a field may be in one configuration */
static const char *const fv[] = { "", "field f int;", "field f int null;", "field f int unique;", "field f int unique null;", "field f int default ~9~9;", "field f int noexport;", "field f:p.id int;", "field f:p.alt int;", "field f:p.id int actdel cascade;", "field f:p.id int actup nullify null;", "field f:p.id int unique;", "field f epoch;", "field f date default 2001-02-03;", "field f bit default 1;", "field f text;", "field f text default \"~c'~c\";", "field f text default \"\\\"~c\" unique;", "field f email default \"a@b\";", "field f password;", "field f real default ~9.5;", "field f real;", "field f blob;", "field f enum ena default b;", "field f enum enb;", "field f bits bia default 1;", "field f bits bib;", "field f struct r1;", "field f struct r2;", "field f:w.id int;", "field f int limit ge 3 comment \"x\ny\n\";", NULL };
static const char *const tv[] = { "", "struct t { field id int rowid; };", "struct t { field id int rowid; field a int; field b text unique; unique a, b; comment \"x\n\"; };", "struct t { field id int rowid; field b text; field a int unique; };", "struct t { field id int rowid; field a:p.id int actdel cascade; field s struct a; unique id, a; };", "struct t { field a int; unique a, b; field b int; };", "struct t { field id int rowid; field a:q.rid int; };", NULL };
static const char *const uv[] = { "", "unique a, b;", "unique b, c;", "unique c, b, a;", "unique a, c; unique c, b;", "field g int; unique a, g;", "field g int unique; unique g, b; unique a, b;", "field g:t.id int unique;", NULL };
static const char *const ev[] = { "enum x { item a 1; item b 2; };", "enum x { item b 2; item a 1; };", "enum x { item a 1; };", "enum x { item a 1; item b 3; };", "enum x { item a 1; item b 2; item c 3; };", "enum x { item c 1; item b 2; };", "", "bits x { item a 1; item b 2; };", "bits x { item b 2; item a 1; };", "bits x { item a 1; };", "bits x { item a 1; item b 3; };", "bits x { item a 1; item b 2; item c 3; };", "enum y { item a 1; item b 2; };", NULL };
static const char *const *const places[] = { fv, tv, uv, ev };
static int cnt(const char *const *v) { int n = 0; while (v[n]) n++; return n; }
static void rend(struct tx *t, const int *p) {
	tx_init(t); tx_s(t, "enum ena { item a; item b -3; }; enum enb { item a; }; bits bia { item x 0; }; bits bib { item y 0; }; struct w { field id int rowid; }; struct p { field id int rowid; field alt int unique; }; ");
	tx_s(t, places[3][p[3]]); tx_s(t, "struct q { field rid int rowid; field a int; field b int; field c int; field r1:p.id int; field r2:w.id int; field sp struct r1; ");
	tx_tpl(t, places[0][p[0]]); tx_s(t, places[2][p[2]]); tx_s(t, "};"); tx_s(t, places[1][p[1]]);
}
int harness(void) {
	char *mode = vp_sparam("mode"); struct config *c[2]; struct tx t[2]; int i, d = (int)vp_param("d", 0);
	if (!strcmp(mode, "slots")) {
		int a[NEL(slots)] = { 0 }, b[NEL(slots)] = { 0 }, s = (int)vp_param("slot", 0);
		a[s] = pickc("a", 0, altn(s) - 1); b[s] = pickc("b", 0, altn(s) - 1); render(&t[0], a); render(&t[1], b);
	} else {
		int p[2][NEL(places)] = { { 0 } }, s1 = (int)vp_param("place", 0), s2 = (int)vp_param("other", -1);
		for (i = 0; i < 2; i++) { p[i][s1] = i == 0 && vp_param("a0", -1) >= 0 ? (int)vp_param("a0", -1) : pickc(i ? "b" : "a", 0, cnt(places[s1]) - 1); if (s2 >= 0) p[i][s2] = pickc(i ? "d" : "c", 0, cnt(places[s2]) - 1); rend(&t[i], p[i]); }
	}
	for (i = 0; i < 2; i++) { c[i] = parse_tx(&t[i]); if (c[i] == NULL) { vp_reach("invalid"); return 0; } }
	check(c[0], c[1], d);
	ort_config_free(c[0]); ort_config_free(c[1]);
	return 0;
}
