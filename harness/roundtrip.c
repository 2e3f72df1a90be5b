/* What is written in canonical form parses again to the same model, and writing that gives the same bytes. */
#include "common.h"
#include "ctx.h"
static const char *const tpl[] = {
/* enumerations: values, comments, labels */
"enum e { item a ~-~9~9; item b; item c ~9; };",
"enum e { item a 1 comment \"~c~c\" jslabel \"~c~c\" jslabel.~A~A \"z\"; isnull jslabel.en \"~c\"; comment \"~c\"; };",
"enum e { item a ~-92~93372036854775807; };",
"enum ~A~x { item ~A~x; item ~a; };",
/* bitfields */
"bits b { item a ~9~9; item z ~9 comment \"~c\"; };",
"bits ~A~x { item ~A 3 jslabel \"~c\"; isunset jslabel.~A \"~c\"; isnull jslabel \"~c\"; comment \"~c~c\"; };",
/* structures and fields */
"struct ~A~A~x { field ~A~x~A int rowid; };",
"struct q { field id int rowid; field d int default ~-~9~9; };",
"struct q { field id int rowid; field d int limit ge ~-~9 limit lt ~9~9; };",
"struct q { field id int rowid; field d int default ~-92~93372036854775807; };",
"struct q { field id int rowid; field d int limit gt ~-9~9~9~9; };",
"struct q { field id int rowid; field t text default \"~c~c\" comment \"~c~c~c\"; comment \"~c\"; };",
"struct q { field id int rowid; field t text limit gt ~9~9; field b blob limit le ~9; field p password limit eq ~9; field e email limit ge ~9; };",
"struct q { field id int rowid; field e epoch default ~-~9~9 limit gt ~-~9; field b bit default ~9 limit lt ~9; };",
"struct q { field id int rowid; field r real default ~-~9.~9; };",
"struct q { field id int rowid; field r real limit lt ~-~9.~9 limit ge ~-0; };",
"struct q { field id int rowid; field r real default ~-91234~9.~95~9; };",
"struct q { field id int rowid; field r real limit gt ~-0.0000~9~9 limit lt ~900000000000000000000.0; };",
"struct q { field id int rowid; field d date default ~9~900-~9-1; };",
"struct q { field id int rowid; field d date default ~900~9-0~9-~99; };",
"enum e { item a; item b; }; bits x { item a 0; }; struct q { field id int rowid; field e enum e default ~a; field b bits x default ~-~9 limit le ~9; };",
/* literals: any bytes, escapes, line breaks */
"struct q { field id int rowid comment \"~*~*~*\"; };",
"struct q { field id int rowid; field t text default \"a~*~*b\"; };",
"enum e { item a jslabel \"~*~*~*\"; };",
/* queries and changes */
"struct q { field id int rowid; field t text; list t like: limit ~9~9, ~9 order t desc, id; };",
"struct q { field id int rowid; field t text; list t: name ~A~x comment \"~c~c\"; search id: name ~A~A; };",
"struct q { field id int rowid; field t text; update t concat: id: comment \"~c\" name ~A~x; delete id ge: name ~A comment \"~c\"; };",
"struct q { field id int rowid; field t text; update t:: name ~A; update: : comment \"~c\"; update: id; delete: name ~A; delete; };",
"struct q { field id int rowid; field t text; field k int; list: grouprow k maxrow id name ~A limit ~9; list: distinct .; count t: comment \"~c\"; };",
/* roles */
"roles { role ~A~x comment \"~c~c\" { role bb; role cc { role dd comment \"~c\"; }; }; role ee; };",
"roles { role bb; role ee; }; struct q { field id int rowid; field t text; insert; list t: name ll; roles bb, ee { insert; list ll; }; roles default { noexport ~a; }; roles all { all; }; };",
};
int harness(void) {
	struct tx t; struct config *a, *b; char *w, *x; size_t n, m, i; int64_t k = vp_param("tpl", -1); int d = 0;
	tx_init(&t);
	if (vp_sparam("file")) { char *s = vp_slurp(vp_sparam("file"), &n); tx_mem(&t, s, n); }
	else if (vp_param("digits", 0)) {	/* a real of many digits */
		int j, d = (int)vp_param("digits", 0), dot = pickc("dot", 0, 3);
		tx_s(&t, "struct q { field id int rowid; field r real "); tx_tpl(&t, vp_param("lim", 0) ? "limit lt ~-~9" : "default ~-~9");
		for (j = 0; j < d; j++) { if (dot == j * 3 / d && (j == 0 || (j - 1) * 3 / d < dot)) tx_c(&t, '.'); tx_c(&t, j % 7 ? '3' : '0'); }
		if (dot == 3) tx_c(&t, '.');
		tx_tpl(&t, "~9; };");
	}
	else if (k >= 0) { tx_tpl(&t, tpl[k]); if (!strstr(tpl[k], "struct ")) tx_s(&t, " struct zz { field id int rowid; };"); }
	else tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 2), (int)vp_param("first", -1));
	a = parse_tx(&t);
	if (a == NULL) { vp_reach("rejected"); return 0; }
	vp_reach("accepted");
	w = write_cfg(a, &n);
	if (w == NULL) vp_fail("accepted-configuration-can-be-written");
	b = must_parse(w, n, "written-configuration-parses");
	ASSERT_EQ_CFG(a, b, EQ_LWS, "reparsed-model-equals-original");
	x = write_cfg(b, &m);
	if (x == NULL || m != n) { vp_log(w); if (x) vp_log(x); vp_fail("writing-is-idempotent"); }
	for (i = 0; i < n; i++) d |= w[i] ^ x[i];
	vp_assert(d == 0, "writing-is-idempotent");
	return 0;
}
