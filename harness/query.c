/* Queries: which terms, operators, and parameters are accepted, and what they resolve to. */
#include "common.h"
static const char *const kinds[] = { "search", "list", "iterate", "count" };
static const enum stype stypes[] = { STYPE_SEARCH, STYPE_LIST, STYPE_ITERATE, STYPE_COUNT };
static const char *const ops[] = { "", "eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull" };
static const enum optype optypes_[] = { OPTYPE_EQUAL, OPTYPE_EQUAL, OPTYPE_GE, OPTYPE_GT, OPTYPE_LE, OPTYPE_LT, OPTYPE_NEQUAL, OPTYPE_LIKE, OPTYPE_AND, OPTYPE_OR, OPTYPE_STREQ, OPTYPE_STRNEQ, OPTYPE_ISNULL, OPTYPE_NOTNULL };
enum { INT, TEXT, REAL, EPOCH, BLOB, EMAIL, BIT, DATE, PASS, ENM, BITS, STRCT, NOFIELD };
#define ALLF "field fint int; field ftext text; field freal real; field fepoch epoch; field fblob blob; field femail email; field fbit bit; field fdate date; field fpass password; field fenum enum en; field fbits bits bi; "
static const char *const fn[] = { "fint", "fText", "freal", "fepoch", "fblob", "femail", "fbit", "fdate", "fpass", "fenum", "fbits", "n", "nope", "nint", "npass" };
#define PRE "enum en { item a; }; bits bi { item a 0; }; struct z { field id int rowid; field deep text; field fint int; }; struct p { field id int rowid; " ALLF "field zr:z.id int; field n struct zr; field nint int null; field npass password null; field nzr:z.id int null; field nz struct nzr; }; " \
	"struct q { field id int rowid; " ALLF "field nint int null; field npass password null; field pr:p.id int; field s struct pr; field pn:p.id int null; field sn struct pn; field pr2:p.id int; field t struct pr2; field u1 int unique; field u2 text null unique; unique fint, ftext; unique freal, fbit, fblob; field zr:z.id int; field n struct zr; "
static int opok(int ty, int op, int kind, int dst) {	/* ort(5), Queries */
	enum optype o = optypes_[op];
	if ((o == OPTYPE_AND || o == OPTYPE_OR) && ty != BIT && ty != BITS && ty != INT) return 0;
	if (o == OPTYPE_LIKE && ty != TEXT && ty != EMAIL) return 0;
	if (ty == PASS) {
		if (o != OPTYPE_ISNULL && o != OPTYPE_NOTNULL && o != OPTYPE_EQUAL && o != OPTYPE_NEQUAL && o != OPTYPE_STREQ && o != OPTYPE_STRNEQ) return 0;
		if ((kind == 3 || dst) && (o == OPTYPE_EQUAL || o == OPTYPE_NEQUAL)) return 0;
	}
	return 1;
}
static struct search *theq(struct config *c) { return TAILQ_FIRST(&find_strct(c, "q")->sq); }
/* names available in a chain */
static const char *const comp[] = { "id", "fint", "nint", "fpass", "s", "sn", "n", "nz", "deep", "ZR", "nope" };
/* where component k leads to from structure w (0 q, 1 p, 2 z): 0 nothing, 1 plain, 2 plain that may be null, 3 password, 4+x a structure x that is never null, 8+x one that may be */
static int leads(int w, int k) {
	switch (k) {
	case 0: return 1; case 1: return 1;
	case 2: return w < 2 ? 2 : 0; case 3: return w < 2 ? 3 : 0;
	case 4: return w == 0 ? 5 : 0; case 5: return w == 0 ? 9 : 0;
	case 6: return w < 2 ? 6 : 0; case 7: return w == 1 ? 10 : 0;
	case 8: return w == 2 ? 1 : 0; case 9: return w < 2 ? 1 : 0;
	}
	return 0;
}
static const char *sn[] = { "q", "p", "z" };
/* the chain's resolution: what its last component is, and in which structure; 0 when it leads nowhere */
static int walk(const int *c, int n, int *last) {
	int w = 0, i, l = 0;
	for (i = 0; i < n; i++) { l = leads(w, c[i]); *last = w; if (!l) return 0; if (i < n - 1) { if (l < 4 || l >= 8) return 0; w = l - 4; } }
	return l;
}
static void chain_text(struct tx *t, const int *c, int n) { int i; for (i = 0; i < n; i++) tx_f(t, "%s%s", i ? "." : "", comp[c[i]]); }
static int pickchain(const char *name, int *c, int max) {
	char nm[16]; int n, i; snprintf(nm, sizeof nm, "%sn", name); n = pickc(nm, 1, max);
	for (i = 0; i < n; i++) { snprintf(nm, sizeof nm, "%s%d", name, i); c[i] = pickc(nm, 0, (int)NEL(comp) - 1); }
	return n;
}
static int lowcmp(const char *a, const char *b) { for (; *a || *b; a++, b++) { int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a; int y = *b >= 'A' && *b <= 'Z' ? *b + 32 : *b; if (x != y) return 1; } return 0; }
static void chain_check(const struct config *cfg, const int *c, int n, struct field *const *chain, size_t chainsz, const struct field *f, const char *fname, const struct alias *a) {
	struct tx t; int last = 0, i; struct field *want;
	tx_init(&t); chain_text(&t, c, n);
	walk(c, n, &last);
	{ char low[32]; for (i = 0; comp[c[n - 1]][i]; i++) low[i] = comp[c[n - 1]][i] >= 'A' && comp[c[n - 1]][i] <= 'Z' ? comp[c[n - 1]][i] + 32 : comp[c[n - 1]][i]; low[i] = 0; want = find_field(find_strct(cfg, sn[last]), low); }
	vp_assert(f == want, "term-resolves-to-its-field"); vp_assert(chainsz == (size_t)n && chain[n - 1] == want, "term-chain"); vp_assert(!lowcmp(fname, t.b), "term-name");
	if (n == 1) vp_assert(a == NULL, "no-alias-for-own-fields");
	else { vp_assert(a != NULL, "alias-for-nested-fields"); vp_assert(strlen(a->name) == strlen(t.b) - strlen(comp[c[n - 1]]) - 1 && !strncmp(a->name, t.b, strlen(a->name)), "alias-of-the-right-path"); }
	tx_free(&t);
}
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; struct search *s;
	tx_init(&t); tx_s(&t, PRE);
	if (!strcmp(mode, "op")) {
		int k = pickc("kind", 0, 3), nest = pickc("nest", 0, 1), f, o, d = pickc("dst", 0, 2), ok, ty; static const char *const dn[] = { "", "distinct . ", "distinct s " }; const struct sent *se;
		int second = (int)vp_param("second", 0);
		tx_s(&t, kinds[k]); tx_s(&t, " ");
		if (second) tx_s(&t, "u1, ");
		if (nest) tx_s(&t, "s.");
		f = tx_pick(&t, "f", fn, NEL(fn)); o = tx_pick(&t, "o", ops, NEL(ops));
		tx_s(&t, ": name nm "); tx_s(&t, dn[d]); tx_s(&t, "; };");
		c = parse_tx(&t);
		ty = f == NOFIELD + 1 ? INT : f == NOFIELD + 2 ? PASS : f;
		ok = ty < STRCT && opok(ty, o, k, d > 0);
		vp_assert((c != NULL) == (ok != 0), "operator-accepted-iff-it-fits-type-and-query");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		s = theq(c); se = TAILQ_LAST(&s->sntq, sentq);
		vp_assert(s->type == stypes[k] && seq(s->name, "nm"), "query-kind-and-name");
		vp_assert(se->op == optypes_[o], "operator-kept");
		{ char low[16]; int i; for (i = 0; fn[f][i]; i++) low[i] = fn[f][i] == 'T' ? 't' : fn[f][i]; low[i] = 0; vp_assert(se->field == find_field(find_strct(c, nest ? "p" : "q"), low), "term-resolves-to-its-field"); }
		vp_assert(nest ? se->alias != NULL && !strcmp(se->alias->name, "s") : se->alias == NULL, "term-alias");
		vp_assert((s->dst != NULL) == (d > 0) && (d == 0 || s->dst->strct == find_strct(c, d == 1 ? "q" : "p")), "distinct-structure");
		if (!nest && !second) {
			int uq = 0; (void)uq;
			vp_assert(!(s->flags & SEARCH_IS_UNIQUE), "plain-field-is-not-unique");
		}
		{ struct strct *r = s->dst ? s->dst->strct : find_strct(c, "q"); vp_assert(k != 1 || (r->flags & STRCT_HAS_QUEUE), "listed-structure-has-a-queue"); vp_assert(k != 2 || (r->flags & STRCT_HAS_ITERATOR), "iterated-structure-has-an-iterator"); }
		vp_reach("accepted");
	} else if (!strcmp(mode, "chain")) {	/* dotted names in every place that takes them */
		int where = (int)vp_param("where", 0), ch[4], n, l, last = 0, ok; int k = 1;
		static const char *const pre[] = { "list ", "list: order ", "list: grouprow s.fint maxrow ", "list: minrow s.fint grouprow ", "list: distinct ", "list: order id, " };
		tx_s(&t, pre[where]);
		n = pickchain("c", ch, (int)vp_param("max", 3));
		chain_text(&t, ch, n); tx_s(&t, where == 1 || where == 5 ? " desc; };" : "; };");
		c = parse_tx(&t);
		l = walk(ch, n, &last);
		switch (where) {
		case 0: case 1: case 5: ok = l >= 1 && l <= 3; break;
		case 2: case 3: ok = l == 1 && n == 2 && ch[0] == 4 && ch[1] != 1; break;	/* same structure by the same path, not the same column */
		default: ok = l >= 4 && l < 8; break;
		}
		vp_assert((c != NULL) == ok, "dotted-name-accepted-iff-it-leads-to-a-fitting-field");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		s = theq(c);
		switch (where) {
		case 0: { struct sent *x = TAILQ_FIRST(&s->sntq); chain_check(c, ch, n, x->chain, x->chainsz, x->field, x->fname, x->alias); vp_assert(x->op == OPTYPE_EQUAL, "default-operator"); break; }
		case 1: case 5: { struct ord *x = TAILQ_LAST(&s->ordq, ordq); chain_check(c, ch, n, x->chain, x->chainsz, x->field, x->fname, x->alias); vp_assert(x->op == ORDTYPE_DESC && (where == 1 || TAILQ_FIRST(&s->ordq)->op == ORDTYPE_ASC), "direction"); break; }
		case 2: chain_check(c, ch, n, s->aggr->chain, s->aggr->chainsz, s->aggr->field, s->aggr->fname, s->aggr->alias); vp_assert(s->aggr->op == AGGR_MAXROW, "aggregate-kind"); break;
		case 3: chain_check(c, ch, n, s->group->chain, s->group->chainsz, s->group->field, s->group->fname, s->group->alias); vp_assert(s->aggr->op == AGGR_MINROW, "aggregate-kind"); break;
		default: { int want = l - 4; vp_assert(s->dst->strct == find_strct(c, sn[want]), "distinct-structure"); break; }
		}
		(void)k; vp_reach("accepted");
	} else if (!strcmp(mode, "params")) {	/* any sequence of parameters */
		static const char *const ps[] = { "name nn", "limit 7", "limit 9, 3", "comment \"cc\"", "order id", "order fint desc, ftext", "order s.fint ASC", "distinct s", "distinct .", "grouprow fint", "maxrow freal", "minrow s.freal", "grouprow s.fint", "zap", "" };
		int n = (int)vp_param("n", 3), i, p[5], cnt[15] = { 0 }, ok, names = 0, doc = 0, dst = 0, grp = 0, agg = 0, bad = 0, k = pickc("kind", 0, 3), nord = 0; char nm[8]; int64_t lim = 0, off = 0; struct ord *o;
		tx_s(&t, kinds[k]); tx_s(&t, k == 0 ? " u1: " : ": ");
		for (i = 0; i < n; i++) {
			snprintf(nm, sizeof nm, "p%d", i); p[i] = pickc(nm, 0, (int)NEL(ps) - 1); cnt[p[i]]++; tx_s(&t, ps[p[i]]); tx_s(&t, " ");
			switch (p[i]) { case 0: names++; break; case 1: lim = 7; break; case 2: lim = 9; off = 3; break; case 3: doc++; break; case 4: case 6: nord++; break; case 5: nord += 2; break; case 7: case 8: dst++; break; case 9: case 12: grp++; break; case 10: case 11: agg++; break; case 13: bad++; break; }
		}
		tx_s(&t, "; };");
		if (names > 1 || doc > 1) return 0;	/* repeating these is not stated */
		c = parse_tx(&t);
		ok = !bad && dst <= 1 && grp == agg && grp <= 1 && (!grp || (cnt[9] == cnt[10] && cnt[12] == cnt[11]));
		vp_assert((c != NULL) == ok, "parameters-accepted-iff-consistent");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		s = theq(c);
		vp_assert(s->limit == lim && s->offset == off, "limit-and-offset-kept"); vp_assert((s->name != NULL) == (names > 0) && (s->doc != NULL) == (doc > 0), "name-and-comment-kept");
		vp_assert((s->dst != NULL) == (dst > 0) && (s->group != NULL) == (grp > 0) && (s->aggr != NULL) == (agg > 0), "distinct-and-grouping-kept");
		i = 0; TAILQ_FOREACH(o, &s->ordq, entries) i++;
		vp_assert(i == nord, "order-terms-kept-in-sequence"); vp_reach("accepted");
	} else if (!strcmp(mode, "unique")) {	/* which queries give at most one row */
		static const char *const f[] = { "id", "u1", "u2", "fint", "ftext", "freal", "fbit", "fblob", "fepoch" }; static const int ty[] = { INT, INT, TEXT, INT, TEXT, REAL, BIT, BLOB, EPOCH };
		int n = (int)vp_param("n", 3), i, a[4], o[4], k = (int)vp_param("kind", 0), un = 0, m1 = 0, m2 = 0, ok = 1; char nm[8]; static const char *const oo[] = { "", "neq", "eq" };
		tx_s(&t, kinds[k]);
		for (i = 0; i < n; i++) {
			tx_s(&t, i ? ", " : " "); snprintf(nm, sizeof nm, "f%d", i); a[i] = pickc(nm, 0, (int)NEL(f) - 1); tx_s(&t, f[a[i]]); tx_s(&t, " "); snprintf(nm, sizeof nm, "o%d", i); o[i] = tx_pick(&t, nm, oo, 3);
			if (o[i] == 1) continue;
			if (a[i] < 3) un = 1;
			if (a[i] == 3) m1 |= 1; if (a[i] == 4) m1 |= 2; if (a[i] == 5) m2 |= 1; if (a[i] == 6) m2 |= 2; if (a[i] == 7) m2 |= 4;
		}
		(void)ty; (void)ok;
		tx_s(&t, "; };"); c = parse_tx(&t);
		vp_assert(c != NULL, "query-accepted"); s = theq(c);
		vp_assert(!!(s->flags & SEARCH_IS_UNIQUE) == (un || m1 == 3 || m2 == 7), "unique-iff-all-of-a-unique-key-is-given"); vp_reach("accepted");
	} else if (!strcmp(mode, "group")) {	/* the column grouped and the one collapsing are two of one (sub)structure */
		static const char *const pa[] = { "", "s.", "t.", "n.", "s.n." }, *const co[] = { "fint", "ftext", "fpass", "nint", "id", "deep" }; static const int in[] = { 0, 1, 1, 2, 2 };
		int p[2], f[2], ok, x, a = pickc("first", 0, 1);
		static const char *const kw[] = { "grouprow ", "maxrow " };
		tx_s(&t, "list: ");
		for (x = 0; x < 2; x++) { int y = x ^ a; tx_s(&t, kw[y]); p[y] = pickc(x ? "p1" : "p0", 0, 4); f[y] = pickc(x ? "f1" : "f0", 0, 5); tx_f(&t, "%s%s ", pa[p[y]], co[f[y]]); }
		tx_s(&t, "; };"); c = parse_tx(&t);
		ok = p[0] == p[1] && f[0] != f[1];
		for (x = 0; x < 2; x++) { int w = in[p[x]]; ok = ok && (f[x] == 0 || f[x] == 4 || (f[x] == 1 && w < 2) || (f[x] == 5 && w == 2)); }
		vp_assert((c != NULL) == ok, "grouping-accepted-iff-two-columns-of-one-structure");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		s = theq(c); vp_assert(s->group->alias == s->aggr->alias, "grouping-within-one-structure"); vp_reach("accepted");
	}
	return 0;
}
