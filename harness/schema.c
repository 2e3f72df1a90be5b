/* The SQL schema, read back, against the configuration. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
#include "sqlm.h"
static void check(const struct config *c) {
	size_t n; char *s = gen_str(G_SQL, c, &n); struct schema *d = s_new();
	vp_assert(s != NULL, "schema-written"); vp_assert(n > 24 && !memcmp(s, "PRAGMA foreign_keys=ON;\n", 24), "begins-with-pragma");
	s_run(d, s, n); db_is(d, c, NULL, 1); free(s);
}
static const char *const ftys[] = { "int", "text", "real", "enum en", "bits bi", "bit", "blob", "email", "password", "date", "epoch" };
static const char *const atts[] = { "", "null", "unique", "unique null", "noexport", "comment \"x\"", "rowid", "limit ge 3", "comment \"a b\nc\n\" null" };
static const char *const defs[][8] = {
	{ "", "default ~9~9~9", "default ~-~9~9", "default -9223372036854775808", "default 9223372036854775807", NULL },
	{ "", "default \"\"", "default \"~c~c\"", "default \"a\\\"~cb'~c\"", NULL },
	{ "", "default ~9.5", "default ~-~9~9.25", "default 1000000000000000000000.0", "default 0.1", "default 0.30000000000000004", "default ~9.00000000000000~9", NULL },
	{ "", "default a", "default c", "default ZZ", NULL }, { "", "default ~9~9", NULL }, { "", "default 0", "default 1", "default ~9", NULL }, { "", NULL },
	{ "", "default \"~c@~c\"", NULL }, { "", NULL }, { "", "default 2001-02-03", "default 19~93-0~9-14", NULL }, { "", "default ~9~9~9", NULL } };
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; int i;
	tx_init(&t);
	if (!strcmp(mode, "ctx")) {
		tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 3), (int)vp_param("first", -1));
	} else if (!strcmp(mode, "file")) {
		size_t n; char *f = vp_slurp(vp_sparam("file"), &n); tx_mem(&t, f, n);
	} else if (!strcmp(mode, "field")) {	/* every type, attribute and default */
		int ty = (int)vp_param("type", 0), a = pickc("att", 0, NEL(atts) - 1), d, nd = 0;
		while (defs[ty][nd]) nd++;
		d = pickc("def", 0, nd - 1);
		tx_s(&t, "enum en { item a 1; item zz -7; item c 9223372036854775806; }; bits bi { item a 0; }; struct q { field g1 text; ");
		tx_tpl(&t, "field f~a~x "); tx_s(&t, ftys[ty]); tx_s(&t, " "); tx_s(&t, atts[a]); tx_s(&t, " "); tx_tpl(&t, defs[ty][d]); tx_s(&t, "; field g2 int; };");
	} else if (!strcmp(mode, "ref")) {	/* references, their actions, several to one table, to itself */
		static const char *const acts[] = { "", "none", "restrict", "nullify", "cascade", "default" }, *const tg[] = { "p.id", "p.k", "q.id", "q.f1" };
		int n = (int)vp_param("n", 2);
		tx_s(&t, "struct p { field id int rowid; field k int unique; }; struct q { field id int rowid; field s struct f0; field f1 int unique; ");
		for (i = 0; i < n; i++) {
			char nm[8]; int x, d, u, b;
			snprintf(nm, sizeof nm, "t%d", i); x = pickc(nm, 0, 3); snprintf(nm, sizeof nm, "d%d", i); d = pickc(nm, 0, 5); snprintf(nm, sizeof nm, "u%d", i); u = pickc(nm, 0, 5); snprintf(nm, sizeof nm, "b%d", i); b = pickc(nm, 0, 2);
			tx_f(&t, "field f%d:%s int %s ", i ? 7 + i : 0, tg[x], b == 1 ? "unique" : b == 2 ? "null default 3" : "");
			if (d) tx_f(&t, "actdel %s ", acts[d]);
			if (u) tx_f(&t, "actup %s ", acts[u]);
			tx_s(&t, "; ");
		}
		tx_s(&t, "};");
	} else if (!strcmp(mode, "unique")) {	/* up to two unique statements and unique fields */
		static const char *const nm[] = { "a", "b", "aa", "ab", "id" }; int m = (int)vp_param("n", 3), k, s; char pn[8];
		tx_s(&t, "struct q { field id int rowid; "); for (i = 0; i < 4; i++) { snprintf(pn, sizeof pn, "q%d", i); tx_f(&t, "field %s text%s; ", nm[i], i < 2 && pickc(pn, 0, 1) ? " unique" : ""); }
		for (s = 0; s < 2; s++) {
			int cnt; snprintf(pn, sizeof pn, "c%d", s); cnt = pickc(pn, s ? 1 : 2, s ? 2 : m); if (cnt < 2) break;
			tx_s(&t, "unique "); for (k = 0; k < cnt; k++) { snprintf(pn, sizeof pn, "n%d%d", s, k); tx_f(&t, "%s%s", k ? ", " : "", nm[pickc(pn, 0, 4)]); } tx_s(&t, "; ");
		}
		tx_s(&t, "}; struct r { field a int unique; field b int; unique a, b; };");
	} else if (!strcmp(mode, "comment")) {	/* comments with any text change nothing */
		static const char *const body[] = { "~c~c~c", "~c~c\n~c", "word word word word word word word word word word word word word word word~cwo~cd~cx", "x\n\n~c~c", "a\\\"~c~c" };
		int w = (int)vp_param("where", 0), k = (int)vp_param("k", 0);
		tx_s(&t, "struct q { field id int rowid"); if (w == 0) { tx_s(&t, " comment \""); tx_tpl(&t, body[k]); tx_s(&t, "\""); }
		tx_s(&t, "; field b epoch"); if (w == 1) { tx_s(&t, " comment \""); tx_tpl(&t, body[k]); tx_s(&t, "\""); }
		tx_s(&t, ";"); if (w == 2) { tx_s(&t, " comment \""); tx_tpl(&t, body[k]); tx_s(&t, "\";"); }
		tx_s(&t, "}; struct r { field a int unique; };");
	} else if (!strcmp(mode, "names")) {	/* any names, in any case */
		struct tx u[4]; static const char *const pre[] = { "x", "i", "f", "r" };
		for (i = 0; i < 4; i++) { tx_init(&u[i]); tx_s(&u[i], pre[i]); tx_tpl(&u[i], "~A~x"); }
		tx_s(&t, "struct "); tx_mem(&t, u[0].b, u[0].n); tx_s(&t, " { field "); tx_mem(&t, u[1].b, u[1].n); tx_s(&t, " int rowid; field "); tx_mem(&t, u[2].b, u[2].n); tx_s(&t, " text; unique "); tx_mem(&t, u[1].b, u[1].n); tx_s(&t, ", "); tx_mem(&t, u[2].b, u[2].n);
		tx_s(&t, "; }; struct y { field "); tx_mem(&t, u[3].b, u[3].n); tx_s(&t, ":"); tx_mem(&t, u[0].b, u[0].n); tx_s(&t, "."); tx_mem(&t, u[1].b, u[1].n); tx_s(&t, " int unique; };");
	}
	c = parse_tx(&t);
	if (c == NULL) { vp_reach("rejected"); return 0; }
	check(c); ort_config_free(c); vp_reach("accepted");
	return 0;
}
