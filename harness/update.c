/* Updates, deletes, inserts, multi-field uniqueness: what is accepted and what it means. */
#include "common.h"
enum { INT, TEXT, REAL, EPOCH, BLOB, EMAIL, BIT, DATE, PASS, ENM, BITS, STRCT, NOFIELD };
static const char *const fn[] = { "fint", "fText", "freal", "fepoch", "fblob", "femail", "fbit", "fdate", "fpass", "fenum", "fbits", "n", "nope", "nint", "npass", "id", "pr" };
static const char *const low[] = { "fint", "ftext", "freal", "fepoch", "fblob", "femail", "fbit", "fdate", "fpass", "fenum", "fbits", "n", "nope", "nint", "npass", "id", "pr" };
static int ftype(int f) { return f < 13 ? f : f == 14 ? PASS : INT; }
#define PRE "enum en { item a; }; bits bi { item a 0; }; struct p { field id int rowid; field only int; }; struct q { field id int rowid; field fint int; field ftext text; field freal real; field fepoch epoch; field fblob blob; field femail email; " \
	"field fbit bit; field fdate date; field fpass password; field fenum enum en; field fbits bits bi; field nint int null; field npass password null; field pr:p.id int; field n struct pr; "
#define NPLAIN 14	/* fields that an update of everything changes */
static const char *const ops[] = { "", "eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull" };
static const enum optype opt[] = { OPTYPE_EQUAL, OPTYPE_EQUAL, OPTYPE_GE, OPTYPE_GT, OPTYPE_LE, OPTYPE_LT, OPTYPE_NEQUAL, OPTYPE_LIKE, OPTYPE_AND, OPTYPE_OR, OPTYPE_STREQ, OPTYPE_STRNEQ, OPTYPE_ISNULL, OPTYPE_NOTNULL };
static const char *const mods[] = { "", "set", "strset", "inc", "dec", "concat" };
static const enum modtype modt[] = { MODTYPE_SET, MODTYPE_SET, MODTYPE_STRSET, MODTYPE_INC, MODTYPE_DEC, MODTYPE_CONCAT };
static int consok(int ty, int o) {	/* may this field constrain with this operator */
	if (ty >= STRCT) return 0;
	if (ty == PASS && o >= 12) return 1;
	if (ty == PASS) return opt[o] == OPTYPE_STREQ || opt[o] == OPTYPE_STRNEQ;
	if ((opt[o] == OPTYPE_AND || opt[o] == OPTYPE_OR) && ty != BIT && ty != BITS && ty != INT) return 0;
	if (opt[o] == OPTYPE_LIKE && ty != TEXT && ty != EMAIL) return 0;
	return 1;
}
static int modok(int ty, int m) {
	if (ty >= STRCT) return 0;
	if (modt[m] == MODTYPE_CONCAT) return ty == TEXT || ty == BLOB || ty == EMAIL;
	if (modt[m] == MODTYPE_INC || modt[m] == MODTYPE_DEC) return ty != TEXT && ty != BLOB && ty != EMAIL && ty != PASS;
	return 1;
}
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; struct update *u; struct uref *r; struct strct *q; char nm[8]; int i;
	tx_init(&t); tx_s(&t, PRE);
	if (!strcmp(mode, "one")) {	/* one field of each sort with every operator and modifier */
		int del = (int)vp_param("del", 0), f = -1, m = 0, g, o, ok;
		if (del) { tx_s(&t, "delete "); } else { tx_s(&t, "update "); f = tx_pick(&t, "f", fn, NEL(fn)); m = tx_pick(&t, "m", mods, NEL(mods)); tx_s(&t, ": "); }
		if (del) { g = tx_pick(&t, "g", fn, NEL(fn)); o = tx_pick(&t, "o", ops, NEL(ops)); }
		else if (vp_param("mod", 0)) { g = 15; o = 0; tx_s(&t, "id "); }
		else { g = tx_pick(&t, "g", fn, NEL(fn)); o = tx_pick(&t, "o", ops, NEL(ops)); vp_assume((f == 0) & (m <= 1)); }
		tx_s(&t, ": name nm; };");
		c = parse_tx(&t);
		ok = consok(ftype(g), o) && (del || modok(ftype(f), m));
		if (f == 15) return 0;	/* changing the row identifier: not stated */
		vp_assert((c != NULL) == (ok != 0), "accepted-iff-operators-fit-the-types");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		q = find_strct(c, "q"); u = TAILQ_FIRST(del ? &q->dq : &q->uq);
		vp_assert(u->type == (del ? UP_DELETE : UP_MODIFY) && seq(u->name, "nm") && !(u->flags & UPDATE_ALL) && u->parent == q, "kind-and-name");
		r = TAILQ_FIRST(&u->crq); vp_assert(r != NULL && r->field == find_field(q, low[g]) && r->op == opt[o] && !TAILQ_NEXT(r, entries), "constraint");
		r = TAILQ_FIRST(&u->mrq);
		if (del) vp_assert(r == NULL, "nothing-modified");
		else vp_assert(r != NULL && r->field == find_field(q, low[f]) && r->mod == modt[m] && !TAILQ_NEXT(r, entries), "modifier");
		vp_reach("accepted");
	} else if (!strcmp(mode, "shape")) {	/* any number of fields on either side, in sequence */
		int nm_ = pickc("nm", 0, 3), nc = pickc("nc", 0, 3), a[3], b[3], o[3], m[3], del = pickc("del", 0, 1), name = pickc("name", 0, 2); static const int pool[] = { 0, 1, 3, 15 };
		if (del) nm_ = 0;
		tx_s(&t, del ? "delete " : "update ");
		for (i = 0; i < nm_; i++) { snprintf(nm, sizeof nm, "a%d", i); a[i] = pool[pickc(nm, 0, 2)]; m[i] = i == 0 && (a[i] == 0 || a[i] == 3) ? 3 : 0; tx_f(&t, "%s%s %s", i ? ", " : "", fn[a[i]], mods[m[i]]); }
		if (!del && (nc || name)) tx_s(&t, " : ");
		for (i = 0; i < nc; i++) { snprintf(nm, sizeof nm, "b%d", i); b[i] = pool[pickc(nm, 0, 3)]; o[i] = i + 1; tx_f(&t, "%s%s %s", i ? ", " : "", fn[b[i]], ops[o[i]]); }
		if (name) tx_s(&t, name == 1 ? " : name nm comment \"x\"" : " : comment \"x\" name nm");
		tx_s(&t, "; };");
		c = parse_tx(&t); vp_assert(c != NULL, "operation-accepted");
		q = find_strct(c, "q"); u = TAILQ_FIRST(del ? &q->dq : &q->uq); vp_assert(u != NULL, "operation-present");
		vp_assert(name ? seq(u->name, "nm") && seq(u->doc, "x") : u->name == NULL && u->doc == NULL, "name-and-comment-kept");
		i = 0; TAILQ_FOREACH(r, &u->crq, entries) { vp_assert(i < nc && r->field == find_field(q, low[b[i]]) && r->op == opt[o[i]], "constraints-in-sequence"); i++; }
		vp_assert(i == nc, "constraints-in-sequence");
		i = 0;
		if (!del && nm_ == 0) {
			struct field *f = TAILQ_FIRST(&q->fq);
			vp_assert(u->flags & UPDATE_ALL, "update-of-everything");
			TAILQ_FOREACH(r, &u->mrq, entries) {
				while (f && (f->type == FTYPE_STRUCT || (f->flags & FIELD_ROWID))) f = TAILQ_NEXT(f, entries);
				vp_assert(r->field == f && r->mod == MODTYPE_SET, "all-fields-are-set"); f = TAILQ_NEXT(f, entries); i++;
			}
			vp_assert(i == NPLAIN, "all-fields-are-set");
		} else {
			vp_assert(!(u->flags & UPDATE_ALL), "update-of-some");
			TAILQ_FOREACH(r, &u->mrq, entries) { vp_assert(i < nm_ && r->field == find_field(q, low[a[i]]) && r->mod == modt[m[i]], "modifiers-in-sequence"); i++; }
			vp_assert(i == nm_, "modifiers-in-sequence");
		}
		vp_reach("accepted");
	} else if (!strcmp(mode, "empty")) {	/* an update must have something to modify */
		static const char *const fs[] = { "field k int; ", "field r:q.id int; field s struct r; ", "field b blob null; " }; int any = 0;
		tx_s(&t, "}; struct w { "); i = pickc("rowid", 0, 1); if (i) tx_s(&t, "field id int rowid; ");
		{ int k; for (k = 0; k < 3; k++) { snprintf(nm, sizeof nm, "h%d", k); if (pickc(nm, 0, 1)) { tx_s(&t, fs[k]); any = 1; } } }
		if (!i && !any) return 0;
		tx_s(&t, "update: : name nm; };");
		c = parse_tx(&t);
		vp_assert((c != NULL) == any, "update-accepted-iff-there-is-something-to-modify"); vp_reach(c ? "accepted" : "rejected");
	} else if (!strcmp(mode, "unique")) {	/* unique statements: two or more fields, no structures, no combination twice */
		static const char *const f[] = { "fint", "fTEXT", "pr", "n", "nope", "nint" }; int n1 = pickc("n1", 1, 3), n2 = pickc("n2", 1, (int)vp_param("n2", 3)), a, s1 = 0, s2 = 0, bad = 0, rep = 0, dupl; const struct unique *x; const struct nref *nr;
		tx_s(&t, "unique ");
		for (i = 0; i < n1; i++) { snprintf(nm, sizeof nm, "a%d", i); a = pickc(nm, 0, 5); tx_f(&t, "%s%s", i ? ", " : "", f[a]); if (a == 3 || a == 4) bad = 1; if (s1 & (1 << a)) rep = 1; s1 |= 1 << a; }
		tx_s(&t, "; unique ");
		for (i = 0; i < n2; i++) { snprintf(nm, sizeof nm, "b%d", i); a = pickc(nm, 0, (int)vp_param("w", 5)); tx_f(&t, "%s%s", i ? ", " : "", f[a]); if (a == 3 || a == 4) bad = 1; if (s2 & (1 << a)) rep = 1; s2 |= 1 << a; }
		tx_s(&t, "; };");
		if (rep && !bad && n1 >= 2 && n2 >= 2) return 0;	/* a field twice in one statement: not stated */
		dupl = s1 == s2;
		c = parse_tx(&t);
		vp_assert((c != NULL) == (!bad && !dupl && n1 >= 2 && n2 >= 2), "unique-accepted-iff-new-combination-of-two-or-more-fields");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		q = find_strct(c, "q"); i = 0; TAILQ_FOREACH(x, &q->nq, entries) { int m = 0; TAILQ_FOREACH(nr, &x->nq, entries) for (a = 0; a < 6; a++) if (nr->field && !strcmp(nr->field->name, a == 1 ? "ftext" : f[a])) m |= 1 << a; vp_assert(m == (i == 0 ? s1 : s2), "unique-fields"); i++; }
		vp_assert(i == 2, "unique-count"); vp_reach("accepted");
	}
	return 0;
}
