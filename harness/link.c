/* Linking: references, enumerations, bitfields, default items, nested structures. */
#include "common.h"
static const char *const ftypes[] = { "int", "text", "real", "epoch", "blob", "email", "bit", "date", "password", "enum en", "bits bi" };
static const char *const fattr[] = { "", "unique", "null unique", "null" };
#define TYPES "enum en { item a; }; bits bi { item a 0; }; "
static int indexof(const struct config *c, const struct strct *s) { const struct strct *x; int i = 0; TAILQ_FOREACH(x, &c->sq, entries) { if (x == s) return i; i++; } return -1; }
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c;
	tx_init(&t);
	if (!strcmp(mode, "ref")) {	/* a reference is to a rowid or unique field of the same type */
		static const char *const tgt[] = { "id", "u", "N", "no", "s" }; static const char *const ts[] = { "p", "P", "zz", "en" }; static const char *const src[] = { "int", "text", "real", "epoch", "blob", "email", "bit", "date", "password", "enum en", "bits bi", "" };
		int ut, ua, nt, g, s, x, ok, want; struct field *f;
		tx_s(&t, TYPES "struct p { field id int rowid; field u "); ut = tx_pick(&t, "ut", ftypes, 11); ua = tx_pick(&t, "ua", fattr, 4);
		tx_s(&t, "; field n "); nt = tx_pick(&t, "nt", ftypes, 3);
		tx_s(&t, "; field s struct q; field q:q.id int; }; struct q { field id int rowid; }; struct r { field id int rowid; field x: "); x = tx_pick(&t, "ts", ts, 4); tx_s(&t, "."); g = tx_pick(&t, "tg", tgt, 5); tx_s(&t, " "); s = tx_pick(&t, "st", src, 12); tx_s(&t, "; };");
		c = parse_tx(&t);
		(void)nt;
		vp_assume(!((ut == 8) & ((ua == 1) | (ua == 2))));	/* passwords are never unique */
		/* with no type given it is an integer */
		if (s == 11) s = 0;
		want = g == 0 ? 0 : ut;
		ok = (x < 2) & ((g == 0) | ((g == 1) & ((ua == 1) | (ua == 2)))) & (s == want);
		vp_assert((c != NULL) == (ok != 0), "reference-accepted-iff-target-is-unique-and-of-same-type");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		f = find_field(find_strct(c, "r"), "x");
		vp_assert(f->ref != NULL && f->ref->target == find_field(find_strct(c, "p"), tgt[g == 0 ? 0 : 1]) && f->ref->source == f, "reference-linked"); vp_reach("accepted");
	} else if (!strcmp(mode, "type")) {	/* named types and default items exist */
		static const char *const kw[] = { "enum", "bits", "bitfield" }, *const nmv[] = { "e1", "E2", "b1", "s1", "zz" }, *const it[] = { "", "default aa", "default BB", "default cc", "default xx" };
		int k, n, d, ok; struct field *f;
		tx_s(&t, "struct s1 { field id int rowid; field f "); k = tx_pick(&t, "kw", kw, 3); tx_s(&t, " "); n = tx_pick(&t, "n", nmv, 5); tx_s(&t, " "); d = tx_pick(&t, "d", it, 5);
		tx_s(&t, "; }; enum e1 { item aa; item bb 4; }; enum e2 { item cc 7; item aa 9; }; bits b1 { item xx 0; };");
		c = parse_tx(&t);
		ok = k == 0 ? (n == 0 && d != 3 && d != 4) || (n == 1 && d != 2 && d != 4) : n == 2 && d == 0;
		vp_assert((c != NULL) == ok, "named-type-accepted-iff-it-exists-and-has-the-item");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		f = find_field(find_strct(c, "s1"), "f");
		if (k) vp_assert(f->type == FTYPE_BITFIELD && f->bitf == find_bitf(c, "b1"), "bitfield-linked");
		else {
			vp_assert(f->type == FTYPE_ENUM && f->enm == find_enm(c, n ? "e2" : "e1"), "enumeration-linked");
			vp_assert(!!(f->flags & FIELD_HASDEF) == (d != 0), "default-presence");
			if (d) vp_assert(f->def.eitem->parent == f->enm && !strcmp(f->def.eitem->name, d == 1 ? "aa" : d == 2 ? "bb" : "cc"), "default-item-linked");
		}
		vp_reach("accepted");
	} else if (!strcmp(mode, "source")) {	/* a nested structure's source is a reference in the same structure */
		static const char *const src[] = { "id", "r", "R2", "t", "s", "s2", "no", "nn" }; int k, ok; struct field *f;
		tx_s(&t, "struct p { field id int rowid; field q int unique; }; struct q { field s struct "); k = tx_pick(&t, "k", src, 8); tx_s(&t, "; field id int rowid; field r:p.id int; field r2:p.q int; field s2 struct r; field t text; field nn:p.id int null; };");
		c = parse_tx(&t);
		ok = (k == 1) | (k == 2) | (k == 7);
		vp_assert((c != NULL) == ok, "nested-structure-accepted-iff-source-is-a-reference");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		f = find_field(find_strct(c, "q"), "s");
		vp_assert(f->type == FTYPE_STRUCT && f->ref->source == find_field(find_strct(c, "q"), k == 1 ? "r" : k == 2 ? "r2" : "nn"), "source-linked");
		vp_assert(f->ref->target == find_field(find_strct(c, "p"), k == 2 ? "q" : "id"), "target-linked");
		vp_assert(!!(find_strct(c, "q")->flags & STRCT_HAS_NULLREFS) == (k == 7), "null-reference-known"); vp_reach("accepted");
	} else if (!strcmp(mode, "graph")) {	/* any graph of nested structures: accepted iff acyclic, ordered so that what is contained comes first */
		int n = (int)vp_param("n", 3), e = (int)vp_param("e", 2), i, j, k, to[5][3], nl[5], reach_[5][5], cyc = 0; char nm[8]; static const char *const nn[] = { "sa", "sb", "sc", "sd", "se" };
		const struct alias *a; const struct strct *s, *s2; const struct alias *b; const struct field *f;
		memset(reach_, 0, sizeof reach_);
		for (i = 0; i < n; i++) {
			tx_f(&t, "struct %s { field id int rowid; ", nn[i]);
			nl[i] = 0;
			for (j = 0; j < e; j++) {
				snprintf(nm, sizeof nm, "t%d%d", i, j); to[i][j] = pickc(nm, -1, n - 1);
				if (to[i][j] < 0) continue;
				tx_f(&t, "field r%d:%s.id int%s; field s%d struct r%d; ", j, nn[to[i][j]], "", j, j);
				reach_[i][to[i][j]] = 1;
			}
			tx_s(&t, "}; ");
		}
		for (k = 0; k < n; k++) for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (reach_[i][k] && reach_[k][j]) reach_[i][j] = 1;
		for (i = 0; i < n; i++) cyc |= reach_[i][i];
		c = parse_tx(&t);
		vp_assert((c != NULL) == !cyc, "nesting-accepted-iff-not-recursive");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j && reach_[i][j])
			vp_assert(indexof(c, find_strct(c, nn[j])) < indexof(c, find_strct(c, nn[i])), "contained-structures-come-first");
		/* one alias for each path of nested structures, no two the same */
		TAILQ_FOREACH(s, &c->sq, entries) {
			size_t want = 0, have = 0;
			TAILQ_FOREACH(f, &s->fq, entries) if (f->type == FTYPE_STRUCT) { want++; TAILQ_FOREACH(a, &f->ref->target->parent->aq, entries) want++; }
			TAILQ_FOREACH(a, &s->aq, entries) {
				have++;
				TAILQ_FOREACH(s2, &c->sq, entries) TAILQ_FOREACH(b, &s2->aq, entries) if (a != b) { vp_assert(strcmp(a->alias, b->alias) != 0, "aliases-differ"); if (s == s2) vp_assert(strcmp(a->name, b->name) != 0, "alias-names-differ"); }
			}
			vp_assert(have == want, "one-alias-per-path");
		}
		vp_reach("accepted");
	} else if (!strcmp(mode, "action")) {	/* actions are for references, and need null or a default where they use them */
		static const char *const kw[] = { "actup", "actdel" }, *const act[] = { "none", "restrict", "nullify", "cascade", "default", "zap" }, *const at[] = { "", "null", "default 1", "null default 2" }, *const hd[] = { "f:p.id int", "f int" };
		int h, k, a, x, ok, before; struct field *f;
		tx_s(&t, "struct p { field id int rowid; }; struct q { field id int rowid; field "); h = tx_pick(&t, "h", hd, 2); tx_s(&t, " "); before = pickc("before", 0, 1);
		if (before) { x = tx_pick(&t, "x", at, 4); tx_s(&t, " "); k = tx_pick(&t, "k", kw, 2); tx_s(&t, " "); a = tx_pick(&t, "a", act, 6); }
		else { k = tx_pick(&t, "k", kw, 2); tx_s(&t, " "); a = tx_pick(&t, "a", act, 6); tx_s(&t, " "); x = tx_pick(&t, "x", at, 4); }
		tx_s(&t, "; };");
		c = parse_tx(&t);
		ok = a != 5 && (a == 0 || h == 0) && (a != 2 || (x & 1)) && (a != 4 || x);
		if (a == 0 && h == 1) return 0;	/* no action on no reference: either */
		vp_assert((c != NULL) == ok, "action-accepted-iff-applicable");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		f = find_field(find_strct(c, "q"), "f");
		vp_assert((int)(k ? f->actdel : f->actup) == a && (int)(k ? f->actup : f->actdel) == 0, "action-kept"); vp_reach("accepted");
	} else if (!strcmp(mode, "attr")) {	/* defaults and limits fit the type */
		static const char *const ty[] = { "int", "text", "real", "epoch", "blob", "email", "bit", "date", "password", "enum en", "bits bi", "struct r" };
		static const char *const at[] = { "default 1", "default 1.5", "default \"x\"", "default 2001-02-03", "default a", "limit ge 1", "limit lt 2.5", "limit eq -1", "limit ge a" };
		int k, a, ok;
		tx_s(&t, TYPES "struct p { field id int rowid; }; struct q { field id int rowid; field r:p.id int; field f "); k = tx_pick(&t, "ty", ty, 12); tx_s(&t, " "); a = tx_pick(&t, "at", at, 9); tx_s(&t, "; };");
		c = parse_tx(&t);
		switch (a) {
		case 0: ok = k == 0 || k == 3 || k == 6 || k == 10; if (k == 2) return 0; break;	/* integers for reals: either */
		case 1: ok = k == 2; break;
		case 2: ok = k == 1 || k == 5; break;
		case 3: ok = k == 7; break;
		case 4: ok = k == 9; break;
		case 5: ok = k != 9 && k != 10 && k != 11; if (k == 10) return 0; break;	/* documentation and code differ for bits */
		case 6: ok = k == 2; break;
		case 7: ok = k == 0 || k == 2 || k == 3 || k == 6 || k == 7; if (k == 10) return 0; break;
		default: ok = 0;
		}
		vp_assert((c != NULL) == ok, "attribute-accepted-iff-it-fits-the-type"); vp_reach(c ? "accepted" : "rejected");
	}
	return 0;
}
