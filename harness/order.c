/* The order of objects, and their distribution over files, does not matter. */
#include "common.h"
#include "gens.h"
static const char *const objs[] = {
	"enum ea { item x; item y 4 jslabel.en \"Y\" jslabel \"d\"; };\n",
	"bits ba { item x 0 jslabel.fr \"X\"; item y 9; comment \"bits\"; };\n",
	"struct pa2 { field id int rowid; field o:qa.h2 text null; };\nstruct pa { field id int rowid; field k enum ea default y; field b bits ba; field u text unique; list u: name lu; };\n",
	"struct qa { field id int rowid; field r:pa.id int; field s struct r; field h password; field h2 text unique; search s.u, h: name su order s.k desc; update k: id: name uk; field k int; roles rb { search su; noexport h; }; roles all { update uk; }; };\n",
	"roles { role ra { role rb; }; role rc; };\nenum eb { item q; };\n",
	"struct pa1 { field id int rowid; field f enum eb default q; };\nstruct sa { field id int rowid; field t:qa.id; field n struct t; iterate n.s.id gt: name it; roles rc { all; noexport; }; insert; };\n",
};
#define N 6
int harness(void) {
	int perm[N], used = 0, i, cut; struct tx t, u; struct config *a, *b; FILE *f; char *x, *y; size_t n, m, k; int d = 0; char nm[8];
	int fixed = (int)vp_param("first", -1);
	tx_init(&t); for (i = 0; i < N; i++) tx_s(&t, objs[i]);
	a = must_parse(t.b, t.n, "configuration-parses");
	for (i = 0; i < N; i++) {
		snprintf(nm, sizeof nm, "p%d", i);
		perm[i] = i == 0 && fixed >= 0 ? fixed : pickc(nm, 0, N - 1);
		vp_assume(!(used & (1 << perm[i]))); used |= 1 << perm[i];
	}
	cut = vp_param("split", 0) ? pickc("cut", 0, N) : N;
	tx_init(&u); b = ort_config_alloc();
	for (i = 0; i < cut; i++) tx_s(&u, objs[perm[i]]);
	f = vp_in("one.ort", u.b, u.n); vp_assert(ort_parse_file(b, f, "one.ort"), "part-parses"); fclose(f);
	if (cut < N) {
		tx_init(&u); for (i = cut; i < N; i++) tx_s(&u, objs[perm[i]]);
		f = vp_in("two.ort", u.b, u.n); vp_assert(ort_parse_file(b, f, "two.ort"), "part-parses"); fclose(f);
	}
	if (!ort_parse_close(b)) { const struct msg *msg; TAILQ_FOREACH(msg, &b->mq, entries) if (msg->buf) vp_log(msg->buf); vp_fail("reordered-configuration-links"); }
	ASSERT_EQ_CFG(a, b, EQ_ANYORDER | EQ_NOALIAS, "reordered-configuration-is-the-same");
	x = gen_str(G_SQL, a, &n); y = gen_str(G_SQL, b, &m);
	vp_assert(x != NULL && y != NULL && n == m, "reordered-schema-is-the-same");
	for (k = 0; k < n; k++) d |= x[k] ^ y[k];
	vp_assert(d == 0, "reordered-schema-is-the-same");
	{ struct diffq *q = ort_diff(a, b); const struct diff *dd; int ch = 0; vp_assert(q != NULL, "difference-computed"); TAILQ_FOREACH(dd, q, entries) ch |= dd->type != DIFF_SAME_STRCT && dd->type != DIFF_SAME_ENM && dd->type != DIFF_SAME_BITF && dd->type != DIFF_SAME_EITEM && dd->type != DIFF_SAME_BITIDX && dd->type != DIFF_SAME_FIELD && dd->type != DIFF_SAME_SEARCH && dd->type != DIFF_SAME_UPDATE && dd->type != DIFF_SAME_INSERT && dd->type != DIFF_SAME_ROLE && dd->type != DIFF_SAME_ROLES; vp_assert(!ch, "reordered-configuration-has-no-difference"); }
	vp_reach("reordered");
	return 0;
}
