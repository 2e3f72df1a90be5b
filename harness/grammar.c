/* Whatever is accepted has the syntax of ort(5): an independent recogniser, written from that page alone. */
#include "common.h"
#include "ctx.h"
/* ---- tokens of a concrete text ---- */
enum tk { T_END, T_ID, T_STR, T_INT, T_REAL, T_LB, T_RB, T_SC, T_CN, T_CM, T_PD, T_BAD };
struct tok { enum tk k; size_t from, to; char w[40]; };
static struct tok *toks(const char *s, size_t n, size_t *cnt) {
	struct tok *v = calloc(n + 1, sizeof(*v)); size_t i = 0, c = 0, j;
	while (i < n) {
		struct tok *t = &v[c]; unsigned char ch = (unsigned char)s[i];
		if (ch == ' ' || (ch >= 9 && ch <= 13)) { i++; continue; }
		if (ch == '#') { while (i < n && s[i] != '\n') i++; continue; }
		t->from = i; c++;
		switch (ch) {
		case '{': t->k = T_LB; i++; break; case '}': t->k = T_RB; i++; break; case ';': t->k = T_SC; i++; break;
		case ':': t->k = T_CN; i++; break; case ',': t->k = T_CM; i++; break; case '.': t->k = T_PD; i++; break;
		case '"': t->k = T_BAD; for (i++; i < n; i++) if (s[i] == '"' && s[i - 1] != '\\') { t->k = T_STR; i++; break; } break;
		default:
			if (ch == '-' || (ch >= '0' && ch <= '9')) {
				t->k = T_INT; if (ch == '-') { i++; if (i == n || s[i] < '0' || s[i] > '9') { t->k = T_BAD; break; } }
				while (i < n && s[i] >= '0' && s[i] <= '9') i++;
				if (i < n && s[i] == '.') { t->k = T_REAL; i++; while (i < n && s[i] >= '0' && s[i] <= '9') i++; }
			} else if ((ch | 32) >= 'a' && (ch | 32) <= 'z') {
				t->k = T_ID; for (j = 0; i < n && (((s[i] | 32) >= 'a' && (s[i] | 32) <= 'z') || (s[i] >= '0' && s[i] <= '9')); i++) if (j < sizeof(t->w) - 1) t->w[j++] = (char)((s[i] >= 'A' && s[i] <= 'Z') ? s[i] + 32 : s[i]);
			} else { t->k = T_BAD; i++; }
		}
		t->to = i;
	}
	v[c].from = v[c].to = n; *cnt = c;
	return v;
}
/* ---- the syntax ---- */
static const struct tok *q; static const char *why;
static int bad(const char *w) { if (why == NULL) why = w; return 0; }
static int is(const char *w) { return q->k == T_ID && !strcmp(q->w, w); }
static int word(const char *w) { if (!is(w)) return 0; q++; return 1; }
static int sym(enum tk k) { if (q->k != k) return 0; q++; return 1; }
static int one(const char *const *v) { for (; *v; v++) if (word(*v)) return 1; return 0; }
static int id(void) { return sym(T_ID); }
static int str(void) { return sym(T_STR); }
#define NEED(x, w) do { if (!(x)) return bad(w); } while (0)
static const char *const ops[] = { "eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull", NULL };
static const char *const mods[] = { "concat", "dec", "inc", "set", "strset", NULL };
static const char *const lims[] = { "ge", "le", "gt", "lt", "eq", NULL };
static const char *const acts[] = { "none", "restrict", "nullify", "cascade", "default", NULL };
static const char *const named[] = { "delete", "iterate", "list", "search", "update", "count", NULL };
static int path(void) { NEED(id(), "term"); while (sym(T_PD)) NEED(id(), "term"); return 1; }
static int date(void) {	/* yyyy-mm-dd: an integer and two with a leading minus */
	return q[0].k == T_INT && q[1].k == T_INT && q[2].k == T_INT;
}
static int label(void) { if (sym(T_PD)) NEED(id(), "language"); NEED(str(), "label"); return 1; }
static int field(void) {
	NEED(id(), "field name");
	if (sym(T_CN)) { NEED(id(), "target structure"); NEED(sym(T_PD), "target period"); NEED(id(), "target field"); }
	if (is("enum") || is("bits") || is("bitfield") || is("struct")) { q++; NEED(id(), "name of type"); }
	else { static const char *const ty[] = { "bit", "blob", "email", "int", "password", "real", "epoch", "date", "text", NULL }; if (!one(ty)) return q->k == T_SC ? 1 : bad("type"); }
	while (q->k != T_SC) {
		if (word("actdel") || word("actup")) NEED(one(acts), "action");
		else if (word("comment")) NEED(str(), "comment");
		else if (word("default")) {
			if (date()) q += 3; else NEED(sym(T_INT) || sym(T_REAL) || sym(T_STR) || sym(T_ID), "default");
		} else if (word("limit")) {
			NEED(one(lims), "limit operator"); if (date()) q += 3; else NEED(sym(T_INT) || sym(T_REAL), "limit value");
		} else if (word("noexport") || word("null") || word("rowid") || word("unique")) continue;
		else return bad("typeinfo");
	}
	return 1;
}
static int query(void) {
	if (q->k == T_ID) do { NEED(path(), "term"); one(ops); } while (sym(T_CM));
	if (!sym(T_CN)) return 1;
	while (q->k != T_SC) {
		if (word("comment")) NEED(str(), "comment");
		else if (word("name")) NEED(id(), "name");
		else if (word("distinct")) { if (!sym(T_PD)) NEED(path(), "distinct"); }
		else if (word("grouprow") || word("minrow") || word("maxrow")) NEED(path(), "row");
		else if (word("limit")) { NEED(sym(T_INT), "limit"); if (sym(T_CM)) NEED(sym(T_INT), "offset"); }
		else if (word("order")) do { NEED(path(), "order"); if (!word("asc")) word("desc"); } while (sym(T_CM));
		else return bad("query parameter");
	}
	return 1;
}
static int update(int mod) {
	if (mod) {
		if (q->k == T_ID) do { NEED(id(), "field to modify"); one(mods); } while (sym(T_CM));
		if (!sym(T_CN)) return 1;
	}
	if (q->k == T_ID) do { NEED(id(), "constraint"); one(ops); } while (sym(T_CM));
	if (!sym(T_CN)) return 1;
	while (q->k != T_SC) {
		if (word("comment")) NEED(str(), "comment");
		else if (word("name")) NEED(id(), "name");
		else return bad("parameter");
	}
	return 1;
}
static int roles(void) {
	do NEED(id(), "role"); while (sym(T_CM));
	NEED(sym(T_LB), "brace");
	while (!sym(T_RB)) {
		if (word("all") || word("insert")) ;
		else if (word("noexport")) id();
		else if (one(named)) NEED(id(), "name of operation");
		else return bad("role type");
		NEED(sym(T_SC), "semicolon of operation");
	}
	return 1;
}
static int strct(void) {
	int nf = 0, nc = 0, ni = 0; NEED(id(), "structure name"); NEED(sym(T_LB), "brace");
	while (!sym(T_RB)) {
		if (word("comment")) { NEED(str(), "comment"); NEED(++nc < 2, "second comment"); }
		else if (word("field")) { NEED(field(), "field"); nf++; }
		else if (word("insert")) NEED(++ni < 2, "second insert");
		else if (word("count") || word("iterate") || word("list") || word("search")) NEED(query(), "query");
		else if (word("delete")) NEED(update(0), "delete");
		else if (word("update")) NEED(update(1), "update");
		else if (word("roles")) NEED(roles(), "roles");
		else if (word("unique")) { NEED(id(), "unique field"); NEED(q->k == T_CM, "two fields"); while (sym(T_CM)) NEED(id(), "unique field"); }
		else return bad("statement");
		NEED(sym(T_SC), "semicolon of statement");
	}
	NEED(nf > 0, "no field"); return sym(T_SC) ? 1 : bad("semicolon of structure");
}
static int type(int bits) {
	int n = 0, nc = 0; NEED(id(), "type name"); NEED(sym(T_LB), "brace");
	while (!sym(T_RB)) {
		if (word("comment")) { NEED(str(), "comment"); NEED(++nc < 2, "second comment"); }
		else if (word("item")) {
			NEED(id(), "item name"); n++; if (bits) NEED(sym(T_INT), "bit"); else sym(T_INT);
			while (q->k != T_SC) { if (word("comment")) NEED(str(), "comment"); else if (word("jslabel")) NEED(label(), "label"); else return bad("item parameter"); }
		}
		else if (word("isnull")) while (word("jslabel")) NEED(label(), "label");
		else if (bits && word("isunset")) while (word("jslabel")) NEED(label(), "label");
		else return bad("type statement");
		NEED(sym(T_SC), "semicolon of item");
	}
	NEED(n > 0, "no item"); return sym(T_SC) ? 1 : bad("semicolon of type");
}
static int role(void) {
	NEED(word("role"), "role"); NEED(id(), "role name"); while (word("comment")) NEED(str(), "comment");
	if (sym(T_LB)) while (!sym(T_RB)) NEED(role(), "role");
	return sym(T_SC) ? 1 : bad("semicolon of role");
}
static int whole(const char *s, size_t n) {
	size_t c; struct tok *v = toks(s, n, &c); int r = 1; q = v; why = NULL;
	while (r && q->k != T_END) {
		if (word("struct")) r = strct();
		else if (word("enum")) r = type(0);
		else if (word("bits") || word("bitfield")) r = type(1);
		else if (word("roles")) { r = sym(T_LB); while (r && !sym(T_RB)) r = role(); if (r) r = sym(T_SC); }
		else r = bad("object");
	}
	if (!r) { char *x = NULL; if (asprintf(&x, "at byte %zu: %s", q->from, why ? why : "?") > 0) vp_log(x); vp_log(s); }
	free(v); return r;
}
static const char *const vany[] = { "{", "}", ";", ":", ",", ".", "\"s\"", "7", "-7", "1.5", "2001-02-03", "id", "n", "p", "v", "w", "zq", "p.n",
	"struct", "enum", "bits", "bitfield", "roles", "role", "all", "default", "none", "field", "item", "isnull", "isunset", "notnull", "jslabel", "jslabel.fr \"f\"", "comment", "comment \"c\"",
	"int", "text", "real", "bit", "blob", "date", "rowid", "unique", "null", "noexport", "limit", "limit ge 1", "actdel", "cascade", "restrict",
	"search", "count", "list", "iterate", "insert", "update", "delete", "name", "name zz", "order", "desc", "asc", "distinct", "grouprow", "maxrow", "minrow",
	"eq", "lt", "like", "and", "streq", "set", "inc", "concat" };
int harness(void) {
	const char *mode = vp_sparam("mode"); struct tx t; struct config *c; int picks[4], np = 0, i; size_t n, cnt;
	tx_init(&t);
	if (!strcmp(mode, "ctx")) {	/* any few words in each context */
		tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 3), (int)vp_param("first", -1));
	} else if (!strcmp(mode, "free")) {	/* any few words, anywhere */
		static const char *const fr[][2] = { { "", " struct q { field id int rowid; };" }, { "struct q { field id int rowid; };", "" }, { "struct q { field id int rowid; ", " };" }, { "struct q { field id int rowid; ", "" }, { "struct q { field id int rowid; }; enum e { item a; ", " };" },
			{ "struct q { field id int rowid; }; bits e { item a 1; ", " };" }, { "roles { role a; ", " }; struct q { field id int rowid; };" }, { "struct q { field id int rowid; ", "; };" }, { "roles { role a; }; struct q { field id int rowid; insert; roles a { insert; ", " }; };" } };
		char nm[8]; int k = (int)vp_param("where", 0); tx_s(&t, fr[k][0]);
		for (i = 0; i < (int)vp_param("n", 3); i++) { tx_c(&t, ' '); snprintf(nm, sizeof nm, "t%d", i); tx_pick(&t, nm, vany, NEL(vany)); }
		tx_s(&t, fr[k][1]);
	} else {	/* a text with one or more of its tokens dropped, repeated, exchanged, replaced or preceded by any word */
		char *s = vp_slurp(vp_sparam("file"), &n); struct tok *v = toks(s, n, &cnt); size_t at = (size_t)vp_param("pos", 0), e; int op, len;
		at += (size_t)pickc("token", 0, (int)vp_param("span", 1) - 1); if (at >= cnt) return 0;
		op = pickc("edit", 0, 4); len = op < 3 && op != 2 ? pickc("tokens", 1, 3) : 1; if (at + (size_t)len > cnt) return 0;
		e = v[at + (size_t)len - 1].to; tx_mem(&t, s, v[at].from);
		switch (op) {
		case 0: break;
		case 1: tx_mem(&t, s + v[at].from, e - v[at].from); tx_c(&t, ' '); tx_mem(&t, s + v[at].from, e - v[at].from); break;
		case 2: if (at + 1 >= cnt) return 0; e = v[at + 1].to; tx_mem(&t, s + v[at + 1].from, e - v[at + 1].from); tx_c(&t, ' '); tx_mem(&t, s + v[at].from, v[at].to - v[at].from); break;
		case 3: case 4: tx_c(&t, ' '); picks[np++] = tx_pick(&t, "word", vany, NEL(vany)); if (op == 4) tx_mem(&t, s + v[at].from, e - v[at].from); break;
		}
		tx_c(&t, ' '); tx_mem(&t, s + e, n - e);
	}
	c = parse_tx(&t);
	if (c == NULL) { vp_reach("refused"); return 0; }
	for (n = 0; n < t.n; n++) t.b[n] = (char)vp_conc((unsigned char)t.b[n]);
	(void)picks; (void)i;
	vp_reach("accepted");
	vp_assert(whole(t.b, t.n), "accepted-text-has-the-syntax-of-ort(5)");
	return 0;
}
