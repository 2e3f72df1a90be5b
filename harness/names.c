/* Naming: what must be unique is, in any case; reserved words are refused everywhere. */
#include "common.h"
static int low(int c) { return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c; }
/* a two-letter symbolic name after a fixed stem that is no reserved word; returns its offset */
static size_t nm(struct tx *t) { size_t o; tx_s(t, "zq"); o = t->n; tx_tpl(t, "~A~x"); return o; }
static int lng = -1;	/* this one has a letter more */
static int eqn(const struct tx *t, size_t a, size_t b) { return (low(t->b[a]) == low(t->b[b])) & (low(t->b[a + 1]) == low(t->b[b + 1])); }
/* scopes: three things of one scope; %0 %1 %2 are their names.  The kinds are fixed by the text. */
static const char *const scopes[] = {
	"struct %0 { field id int rowid; }; enum %1 { item x; }; bits %2 { item x 0; };",
	"struct %0 { field id int rowid; }; struct %1 { field id int rowid; }; struct %2 { field id int rowid; };",
	"enum %0 { item x; }; enum %1 { item y; }; bits %2 { item x 0; }; struct s { field id int rowid; };",
	"bits %0 { item x 1; }; enum %1 { item y; }; bits %2 { item x 0; }; struct s { field id int rowid; };",
	"struct s { field %0 int rowid; field %1 text; field %2 real; };",
	"struct p { field id int rowid; }; struct s { field %0 int; field %1:p.id int; field %2 struct %1; field id int rowid; };",
	"enum e { item %0; item %1 5; item %2 -1; }; struct s { field id int rowid; };",
	"bits b { item %0 0; item %1 5; item %2 63; }; struct s { field id int rowid; };",
	"roles { role %0; role %1 { role %2; }; }; struct s { field id int rowid; };",
	"roles { role %0 { role %1 { role %2; }; }; }; struct s { field id int rowid; };",
	"roles { role aa { role %0; }; role bb { role %1; role %2; }; }; struct s { field id int rowid; };",
	"struct s { field id int rowid; field t text; search id: name %0; list t: name %1; count t: name %2; };",
	"struct s { field id int rowid; field t text; iterate: name %0; iterate t: name %1; search id: name %2; };",
	"struct s { field id int rowid; field t text; update t: id: name %0; update id: t: name %1; update: : name %2; };",
	"struct s { field id int rowid; field t text; delete id: name %0; delete t: name %1; delete: name %2; };",
	"enum e { item x jslabel.%0 \"a\" jslabel.%1 \"b\" jslabel.%2 \"c\"; }; struct s { field id int rowid; };",
	"bits e { item x 0; isnull jslabel.%0 \"a\" jslabel.%1 \"b\" jslabel.%2 \"c\"; }; struct s { field id int rowid; };",
};
/* these may share a name: different scopes */
static const char *const apart[] = {
	"struct %0 { field %1 int rowid; }; enum e { item %2; };",
	"enum %0 { item %1; }; bits b { item %2 0; }; struct s { field id int rowid; };",
	"enum e { item %0; }; enum f { item %1; item x; }; bits b { item %2 1; }; struct s { field id int rowid; };",
	"roles { role %0; }; struct %1 { field %2 int rowid; };",
	"struct s { field %0 int rowid; }; struct t { field %1 int rowid; }; struct u { field %2 text; field id int rowid; };",
	"struct s { field id int rowid; field t text; search id: name %0; }; struct u { field id int rowid; search id: name %1; }; struct v { field id int rowid; list: name %2; };",
	"struct s { field id int rowid; update id: id: name %0; delete id: name %1; search id: name %2; };",
};
static const char *const words[] = { "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register", "restrict", "return",
	"short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while",
	"add", "all", "alter", "and", "as", "autoincrement", "between", "check", "collate", "commit", "constraint", "create", "deferrable", "delete", "distinct", "drop", "escape", "except", "exists", "foreign", "from", "group", "having", "in", "index",
	"insert", "intersect", "into", "is", "isnull", "join", "limit", "not", "nothing", "notnull", "null", "on", "or", "order", "primary", "references", "returning", "select", "set", "table", "then", "to", "transaction", "unique", "update", "using", "values", "when", "where" };
static const char *const where[] = {
	"struct % { field id int rowid; };", "struct s { field % int rowid; };", "enum % { item x; }; struct s { field id int rowid; };", "enum e { item %; }; struct s { field id int rowid; };",
	"bits % { item x 0; }; struct s { field id int rowid; };", "bits b { item % 0; }; struct s { field id int rowid; };", "roles { role %; }; struct s { field id int rowid; };", "roles { role a { role %; }; }; struct s { field id int rowid; };",
	"struct p { field id int rowid; }; struct s { field %:p.id int; };", "struct s { field id int rowid; field %; };",
};
/* things in between which mean nothing for names */
static const char *const extra[] = {
	"struct %0 { comment \"c\"; field id int rowid comment \"d\"; }; enum %1 { comment \"c\"; item x comment \"d\"; }; bits %2 { comment \"c\"; item x 0 comment \"d\"; };",
	"bits %0 { comment \"c\"; item x 1 jslabel \"l\"; isnull jslabel \"n\"; }; struct %1 { comment \"c\"; field id int rowid; }; enum %2 { comment \"c\"; item x 4 jslabel.fr \"l\"; isnull jslabel \"n\"; };",
	"enum %0 { item x 4; comment \"c\"; }; bits %1 { item y 2; isunset jslabel \"l\"; comment \"c\"; }; struct %2 { insert; field id int rowid; list: name l; comment \"c\"; };",
	"roles { role a; }; struct s { field %0 int rowid comment \"c\"; insert; field %1 text unique limit gt 4 comment \"c\"; list: name l; roles a { all; noexport %0; }; comment \"e\"; field %2 real null default 1.5; };",
	"struct p { field id int rowid; comment \"c\"; }; struct s { field %0:p.id int null actdel nullify comment \"c\"; field %1 struct %0 comment \"d\"; field %2 enum e default x; field id int rowid; }; enum e { item x; };",
	"enum e { comment \"c\"; item %0 comment \"c\" jslabel \"l\"; isnull jslabel \"n\"; item %1 5 jslabel.fr \"l\" comment \"d\"; item %2; }; struct s { field id int rowid; };",
	"bits b { comment \"c\"; item %0 7 comment \"c\" jslabel \"l\"; isnull jslabel \"n\"; item %1 5 jslabel.fr \"l\"; isunset jslabel \"u\"; item %2 0; }; struct s { field id int rowid; };",
	"roles { role %0 comment \"c\" { role aa comment \"c\" { role %1 comment \"d\"; }; }; role %2 comment \"e\"; }; struct s { field id int rowid; };",
	"roles { role aa { role bb { role cc { role %0; }; }; }; role dd { role %1 { role ee; }; role ff { role %2; }; }; }; struct s { field id int rowid; };",
	"struct s { field id int rowid; field t text; search id: name %0 comment \"c\"; search id, t: name x limit 4; list t: comment \"c\" name %1 order t desc; iterate t: name %2 limit 4; };",
	"roles { role a; }; struct s { field id int rowid; field t text; update t: id: name %0 comment \"c\"; update t: id: name zqz; roles a { update %0; }; update id: t: comment \"c\" name %1; update: : name %2; };",
	"roles { role a; }; struct s { field id int rowid; field t text; delete id: name %0 comment \"c\"; roles a { delete %0; }; delete t: name %1; delete: comment \"c\" name %2; };",
	"enum e { item x comment \"c\" jslabel.%0 \"a\" jslabel \"z\" jslabel.%1 \"b\" jslabel.%2 \"c\"; }; struct s { field id int rowid; };",
	"enum e { item x; isnull jslabel.%0 \"a\" jslabel \"z\" jslabel.%1 \"b\" jslabel.%2 \"c\"; }; struct s { field id int rowid; };",
	"bits e { item x 0 jslabel.%0 \"a\" jslabel.%1 \"a\" comment \"d\" jslabel.%2 \"a\"; isunset jslabel \"z\"; }; struct s { field id int rowid; };",
	"enum e { item x jslabel.%0 \"a\"; item y jslabel.%0 \"b\" jslabel.%1 \"b\" jslabel.%2 \"c\"; }; struct s { field id int rowid; };",
};
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; const char *p; size_t off[3] = { 0, 0, 0 }; int k = (int)vp_param("k", 0), dup;
	tx_init(&t);
	if (!strcmp(mode, "scope") || !strcmp(mode, "apart")) {
		int free_ = !strcmp(mode, "apart"), e0, e1, e2; lng = (int)vp_param("long", -1);
		for (p = (vp_param("extra", 0) ? extra : free_ ? apart : scopes)[k]; *p; p++) {
			if (*p != '%') { tx_c(&t, *p); continue; }
			p++;
			if (off[*p - '0']) { tx_s(&t, "zq"); tx_mem(&t, t.b + off[*p - '0'], 2); } else off[*p - '0'] = nm(&t);
			if (*p - '0' == lng) tx_c(&t, 'z');
		}
		c = parse_tx(&t);
		e0 = lng != 0 && lng != 1 ? eqn(&t, off[0], off[1]) : 0; e1 = lng != 0 && lng != 2 ? eqn(&t, off[0], off[2]) : 0; e2 = lng != 1 && lng != 2 ? eqn(&t, off[1], off[2]) : 0;
		dup = !free_ & (e0 | e1 | e2);
		vp_assert((c != NULL) == !dup, "accepted-iff-names-differ");
		vp_reach(c ? "accepted" : "rejected");
	} else if (!strcmp(mode, "word")) {	/* reserved words, in any case */
		const char *w; size_t o, i; char n[8]; int near = (int)vp_param("near", 0), from = (int)vp_param("from", 0), to = (int)vp_param("to", (int)NEL(words)) - 1;
		if (to >= (int)NEL(words)) to = (int)NEL(words) - 1;
		w = words[pickc("w", from, to)];
		for (p = where[k]; *p; p++) {
			if (*p != '%') { tx_c(&t, *p); continue; }
			if (near == 2) tx_c(&t, 'z');
			o = t.n; tx_s(&t, w);
			for (i = 0; w[i]; i++) { snprintf(n, sizeof n, "u%zu", i); vp_symbolic(t.b + o + i, 1, n); vp_assume((t.b[o + i] == w[i]) | (t.b[o + i] == w[i] - 32)); }
			if (near == 1) tx_c(&t, 'z');
		}
		c = parse_tx(&t);
		if (near) { if (c == NULL) vp_log(w); vp_assert(c != NULL, "near-word-accepted"); vp_reach("accepted"); return 0; }
		if (c != NULL) vp_log(w);
		vp_assert(c == NULL, "reserved-word-refused"); vp_reach("rejected");
	} else if (!strcmp(mode, "role")) {	/* reserved role names */
		static const char *const rs[] = { "all", "none", "default", "alle", "nona", "def" }; int i;
		tx_s(&t, "roles { role aa { role "); i = tx_pick(&t, "r", rs, 6); tx_s(&t, "; }; }; struct s { field id int rowid; };");
		c = parse_tx(&t); vp_assert((c == NULL) == (i < 3), "reserved-role-refused"); vp_reach(c ? "accepted" : "rejected");
	} else if (!strcmp(mode, "once")) {	/* statements that may appear only once, and the row identifier */
		static const char *const a[] = { "comment \"a\";", "field r int rowid;", "insert;", "field t text comment \"a\" comment \"b\";", "field u int default 1 default 2;", "field n int rowid null;", "field x text rowid;", "field y real rowid;", "field z epoch rowid;", "field k int null unique;", "field w enum e rowid;" };
		int i, j, two;
		tx_s(&t, "enum e { item a; }; struct s { field base text; "); i = tx_pick(&t, "a", a, NEL(a)); j = tx_pick(&t, "b", a, NEL(a)); tx_s(&t, " };");
		c = parse_tx(&t);
		two = i == j;
		if (i == 3 || j == 3 || i == 5 || j == 5 || (i >= 6 && i <= 8) || (j >= 6 && j <= 8) || i == 10 || j == 10) { vp_assert(c == NULL, "illegal-field-attribute-refused"); vp_reach("rejected"); return 0; }
		if (two && i != 4) { vp_assert(c == NULL, "repeated-statement-refused"); vp_reach("rejected"); return 0; }
		if (i != 4 && j != 4) { vp_assert(c != NULL, "distinct-statements-accepted"); vp_reach("accepted"); }
	}
	return 0;
}
