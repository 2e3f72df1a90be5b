/* Token-level symbolic programs: a fixed surrounding configuration and a sequence of symbolic tokens within it. */
#ifndef CTX_H
#define CTX_H
struct ctx { const char *pre, *post; const char *const *voc; int nvoc; };
#define BASE "roles { role r { role rr; }; role z; }; enum e { item a 1; item b 2; }; bits b { item x 0; item y 3; };" \
	" struct p { field id int rowid; field n text unique; field k int; field h password; field e enum e null; insert; list n: name lp; };"
static const char *const v_field[] = { "int", "text", "real", "enum e", "bits b", "bit", "blob", "email", "password", "date", "epoch", "struct id",
	"rowid", "unique", "null", "noexport", "default", "limit", "ge", "lt", "eq", "5", "-1", "1.5", "\"x\"", "2001-02-03", "a", "comment \"c\"", "actup", "actdel", "cascade", "nullify", "none", "restrict" };
static const char *const v_query[] = { ":", ",", "id", "t", "p.n", "p.h", "h", "bl", "w", "p", "eq", "like", "and", "isnull", "streq", "name x", "order", "desc", "limit", "5", "-2", "distinct", ".", "grouprow k", "maxrow", "minrow", "comment \"c\"" };
static const char *const v_update[] = { ":", ",", "id", "t", "h", "k", "p", "bl", "nul", "inc", "concat", "strset", "set", "eq", "streq", "gt", "isnull", "notnull", "name x", "name u1", "comment \"c\"" };
static const char *const v_roles[] = { "r", "rr", "z", "all", "default", "none", ",", "{", "}", "insert", ";", "list l1", "search l1", "update u1", "delete d1", "noexport", "noexport k", "iterate i1", "count c1" };
static const char *const v_unique[] = { ",", "id", "t", "k", "p", "bl", "pid", "q" };
static const char *const v_enum[] = { "item", "a", "b", "c", ";", "0", "1", "5", "-3", "2147483647", "jslabel", ".", "fr", "\"l\"", "comment \"c\"", "isnull", "9223372036854775807" };
static const char *const v_bits[] = { "item", "a", "b", ";", "0", "1", "63", "64", "-1", "jslabel \"x\"", "jslabel.fr \"x\"", "comment \"c\"", "isnull", "isunset" };
static const char *const v_top[] = { "role", "a", "b", "c", "{", "}", ";", "comment \"c\"", "all", "none", "default" };
#define QPRE BASE " struct q { field id int rowid; field p struct pid; field pid:p.id int; field t text; field h password; field bl blob null; field w bits b; field k int; field nul epoch null; "
#define QPOST " };"
static const struct ctx ctxs[] = {
	{ BASE "struct q { field id int rowid; field f ", "; };", v_field, NEL(v_field) },
	{ BASE "struct q { field pid:p.id ", "; field id int rowid; };", v_field, NEL(v_field) },
	{ QPRE "search ", ";" QPOST, v_query, NEL(v_query) },
	{ QPRE "list ", ";" QPOST, v_query, NEL(v_query) },
	{ QPRE "iterate : name x ", "; };", v_query, NEL(v_query) },
	{ QPRE "count ", ";" QPOST, v_query, NEL(v_query) },
	{ QPRE "update t: id: name u1; update ", ";" QPOST, v_update, NEL(v_update) },
	{ QPRE "delete ", ";" QPOST, v_update, NEL(v_update) },
	{ QPRE "insert; list id: name l1; search id: name l2; iterate: name i1; count: name c1; update k: id: name u1; delete id: name d1; roles ", "; roles z { all; }; };", v_roles, NEL(v_roles) },
	{ QPRE "unique ", ";" QPOST, v_unique, NEL(v_unique) },
	{ BASE "enum en { item zq; ", " }; struct q { field id int rowid; field en enum en; };", v_enum, NEL(v_enum) },
	{ BASE "bits en { ", " }; struct q { field id int rowid; field en bits en; };", v_bits, NEL(v_bits) },
	{ "struct q { field id int rowid; }; roles { ", " };", v_top, NEL(v_top) },
	{ QPRE "list id, t ", ": name x limit 3 order p.n ; };", v_query, NEL(v_query) },
	{ QPRE "list : ", "; list t: name l9; };", v_query, NEL(v_query) },
};
/* compose context number which with k symbolic tokens; p0..: fixed leading picks (for sharding), -1 none */
static void tx_ctx(struct tx *t, int which, int k, int first) {
	const struct ctx *c = &ctxs[which]; int i; char nm[8];
	tx_s(t, c->pre);
	for (i = 0; i < k; i++) {
		tx_c(t, ' ');
		if (i == 0 && first >= 0) tx_s(t, first < c->nvoc ? c->voc[first] : ";");
		else { snprintf(nm, sizeof nm, "t%d", i); tx_pick(t, nm, c->voc, c->nvoc); }
		tx_c(t, ' ');
	}
	tx_s(t, c->post);
}
#endif
