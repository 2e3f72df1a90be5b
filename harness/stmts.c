/* The statements in generated C, TypeScript and Rust against the operations they are for. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
#include "stmts.h"
#define ALLF "field fint int; field ftext text; field freal real; field fepoch epoch; field fblob blob; field femail email; field fbit bit; field fdate date; field fpass password; field fenum enum en; field fbits bits bi; "
static const char *const fn[] = { "fint", "fText", "freal", "fepoch", "fblob", "femail", "fbit", "fdate", "fpass", "fenum", "fbits", "nint", "npass", "id", "u1", "nblob" };
#define PRE "enum en { item a; }; bits bi { item a 0; }; struct z { field id int rowid; field deep text; field fint int; }; struct p { field id int rowid; " ALLF "field zr:z.id int; field n struct zr; field nint int null; field npass password null; field nblob blob null; field u1 int unique; field nzr:z.id int null; field nz struct nzr; }; " \
	"struct q { field id int rowid; " ALLF "field nint int null; field npass password null; field nblob blob null; field pr:p.id int; field s struct pr; field pn:p.id int null; field sn struct pn; field pr2:p.u1 int; field t struct pr2; field u1 int unique; field zr:z.id int; field n struct zr; "
static const char *const ops[] = { "", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull" };
static const char *const mods[] = { "", "set", "strset", "inc", "dec", "concat" };
static const char *const kinds[] = { "search", "list", "iterate", "count" };
static const char *const pref[] = { "", "s.", "t.", "n.", "s.n.", "t.n." };
static const enum gen lg[] = { G_CSOURCE, G_NODE, G_RUST };
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; int i, lang = (int)vp_param("lang", 0); char nm[8];
	tx_init(&t);
	if (!strcmp(mode, "ctx")) tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 3), (int)vp_param("first", -1));
	else if (!strcmp(mode, "file")) { size_t n; char *f = vp_slurp(vp_sparam("file"), &n); tx_mem(&t, f, n); }
	else if (!strcmp(mode, "terms")) {	/* any field of any path with any operator, after n others */
		int k = (int)vp_param("kind", 0), n = (int)vp_param("n", 1);
		tx_s(&t, PRE); tx_s(&t, kinds[k]); tx_s(&t, " ");
		for (i = 0; i < n; i++) { int f, o, p; snprintf(nm, sizeof nm, "p%d", i); p = pickc(nm, 0, i ? 1 : (int)NEL(pref) - 1); snprintf(nm, sizeof nm, "f%d", i); f = pickc(nm, 0, i ? 8 : (int)NEL(fn) - 1); snprintf(nm, sizeof nm, "o%d", i); o = pickc(nm, 0, i ? 5 : (int)NEL(ops) - 1); tx_f(&t, "%s%s%s %s", i ? ", " : "", pref[p], fn[f], ops[o]); }
		tx_s(&t, "; };");
	} else if (!strcmp(mode, "params")) {	/* any parameters in any sequence */
		static const char *const ps[] = { "name nn", "limit ~9~9", "limit ~9, ~9", "limit 0, 4", "order id", "order fint desc, ftext", "order s.fint asc, t.n.deep desc", "distinct s", "distinct .", "distinct s.n", "grouprow fint maxrow freal", "minrow s.freal grouprow s.fint", "grouprow t.n.fint minrow t.n.deep", "" };
		static const char *const tm[] = { "", "u1", "fpass", "s.fpass streq, n.deep", "fpass isnull, s.fpass neq, fint" }; int k = (int)vp_param("kind", 0), n = (int)vp_param("n", 2);
		tx_f(&t, "%s%s %s: ", PRE, kinds[k], tm[pickc("tm", k == 0, (int)vp_param("tm", NEL(tm)) - 1)]);
		for (i = 0; i < n; i++) { snprintf(nm, sizeof nm, "q%d", i); tx_tpl(&t, ps[pickc(nm, 0, NEL(ps) - 1)]); tx_s(&t, " "); }
		tx_s(&t, "; };");
	} else if (!strcmp(mode, "updates")) {	/* modifiers and constraints */
		int del = (int)vp_param("del", 0), con = del || (int)vp_param("con", 0), n = con ? 1 : pickc("n", 1, 2), m = con ? pickc("m", 1, 2) : 1;
		tx_s(&t, PRE); tx_s(&t, del ? "delete " : "update ");
		if (!del) for (i = 0; i < n; i++) { int f = 0, o = 0; if (!con) { snprintf(nm, sizeof nm, "f%d", i); f = pickc(nm, 0, i ? 3 : (int)NEL(fn) - 1); snprintf(nm, sizeof nm, "m%d", i); o = pickc(nm, 0, i ? 3 : (int)NEL(mods) - 1); } tx_f(&t, "%s%s %s", i ? ", " : "", fn[f], mods[o]); }
		if (!del) tx_s(&t, ": ");
		for (i = 0; i < m; i++) { int f = 13, o = 0; if (con) { snprintf(nm, sizeof nm, "g%d", i); f = pickc(nm, 0, i ? 1 : (int)NEL(fn) - 1); snprintf(nm, sizeof nm, "o%d", i); o = pickc(nm, 0, i ? 2 : (int)NEL(ops) - 1); } tx_f(&t, "%s%s %s", i ? ", " : "", fn[f], ops[o]); }
		tx_s(&t, ": name nm; };");
	} else if (!strcmp(mode, "insert")) {	/* names of any length, so that lines are broken anywhere */
		int n = (int)vp_param("n", 4), w = pickc("w", 1, 30), v = pickc("v", 1, 8); static const char x[] = "abcdefghijabcdefghijabcdefghijabcdefghij";
		tx_s(&t, "struct p { field id int rowid; }; struct q { "); if (n == 0 || pickc("rowid", 0, 1)) tx_s(&t, "field rid int rowid; ");
		for (i = 0; i < n; i++) tx_f(&t, "field %.*s%c%d int%s; ", i == 0 ? v : w, x, 'a', i, i == n - 1 ? "" : " null");
		tx_s(&t, "field pid:p.id int null; insert; update pid; delete; };");
	} else if (!strcmp(mode, "nest")) {	/* structures nested in each other, some of them null, with names of any length */
		int w = pickc("w", 1, 30), a; static const char x[] = "abcdefghijabcdefghijabcdefghijabcdefghij"; const char *nl[6];
		for (a = 0; a < 6; a++) { snprintf(nm, sizeof nm, "n%d", a); nl[a] = (vp_param("all", 0) || (a & 3) < 2) && pickc(nm, 0, 1) ? "null" : ""; }
		tx_f(&t, "struct a { field id int rowid; field u text unique; }; struct b%.*s { field id int rowid; field ar:a.id int %s; field sa struct ar; field ar2:a.u text %s; field sa2 struct ar2; }; ", w, x, nl[0], nl[1]);
		tx_f(&t, "struct c { field id int rowid; field br:b%.*s.id int %s; field bs struct br; field x int; }; struct d { field cr:c.id int %s; field cs struct cr; field cr2:c.id int %s; field cs2 struct cr2; field ar:a.id int unique %s; field sa struct ar; list ar; count: distinct .; insert; };", w, x, nl[2], nl[3], nl[4], nl[5]);
	}
	c = parse_tx(&t);
	if (c == NULL) { vp_reach("rejected"); return 0; }
	{ size_t n; char *s = gen_str(lg[lang], c, &n); vp_assert(s != NULL, "source-written"); stmts_check(c, s, lang); free(s); }
	ort_config_free(c); vp_reach("accepted");
	return 0;
}
