/* Lexical rules: case, white space, comments, line ends and identifiers. */
#include "common.h"
static int isid(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }
/* mark positions between tokens: gap[i] set if text may be inserted before byte i */
static char *gaps(const char *s, size_t n) {
	char *g = calloc(1, n + 1); size_t i; int str = 0, cmt = 0;
	for (i = 0; i < n; i++) {
		if (cmt) { if (s[i] == '\n') cmt = 0; continue; }
		if (str) { if (s[i] == '"' && s[i - 1] != '\\') str = 0; continue; }
		if (s[i] == '#') { g[i] = 1; cmt = 1; continue; }
		if (i == 0 || !((isid(s[i]) || s[i] == '.') && (isid(s[i - 1]) || s[i - 1] == '.' || s[i - 1] == '-')) || (s[i - 1] == '.' && !(s[i] >= '0' && s[i] <= '9') && i > 1 && !(s[i - 2] >= '0' && s[i - 2] <= '9'))) g[i] = 1;
		if (s[i] == '"') str = 1;
	}
	g[n] = 1;
	return g;
}
static char *instr(const char *s, size_t n) {	/* bytes within string literals or comments */
	char *g = calloc(1, n + 1); size_t i; int str = 0, cmt = 0;
	for (i = 0; i < n; i++) {
		if (cmt) { g[i] = 2; if (s[i] == '\n') cmt = 0; continue; }
		if (str) { g[i] = 1; if (s[i] == '"' && s[i - 1] != '\\') str = 0; continue; }
		if (s[i] == '#') { g[i] = 2; cmt = 1; }
		if (s[i] == '"') { g[i] = 1; str = 1; }
	}
	return g;
}
static void same(const struct config *a, struct tx *t, const char *id) {
	struct config *b = must_parse(t->b, t->n, id);
	ASSERT_EQ_CFG(a, b, 0, id);
}
static int ws(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static const char *const where[][2] = {
	{ "struct ", " { field id int rowid; };" },
	{ "struct q { field ", " int rowid; };" },
	{ "enum ", " { item x; }; struct zzz { field id int rowid; };" },
	{ "enum zzy { item ", "; }; struct zzz { field id int rowid; };" },
	{ "bits ", " { item x 0; }; struct zzz { field id int rowid; };" },
	{ "bits zzy { item ", " 4; }; struct zzz { field id int rowid; };" },
	{ "roles { role ", "; }; struct zzz { field id int rowid; };" },
	{ "struct q { field id int rowid; search id: name ", "; };" },
	{ "struct q { field id int rowid; delete id: name ", "; };" },
	{ "enum zzy { item x jslabel.", " \"l\"; }; struct zzz { field id int rowid; };" },
};
static const char *name_at(const struct config *c, int k) {
	switch (k) {
	case 0: return TAILQ_FIRST(&c->sq)->name;
	case 1: return TAILQ_FIRST(&TAILQ_FIRST(&c->sq)->fq)->name;
	case 2: return TAILQ_FIRST(&c->eq)->name;
	case 3: return TAILQ_FIRST(&TAILQ_FIRST(&c->eq)->eq)->name;
	case 4: return TAILQ_FIRST(&c->bq)->name;
	case 5: return TAILQ_FIRST(&TAILQ_FIRST(&c->bq)->bq)->name;
	case 6: { struct role *r; TAILQ_FOREACH(r, &c->arq, allentries) if (strcmp(r->name, "all") && strcmp(r->name, "default") && strcmp(r->name, "none")) return r->name; return NULL; }
	case 7: return TAILQ_FIRST(&TAILQ_FIRST(&c->sq)->sq)->name;
	case 8: return TAILQ_FIRST(&TAILQ_FIRST(&c->sq)->dq)->name;
	default: return c->langs[c->langsz - 1];
	}
}
int harness(void) {
	char *mode = vp_sparam("mode"), *s = NULL, *g; size_t n = 0, i; struct tx t; struct config *a = NULL;
	tx_init(&t);
	if (vp_sparam("file")) { s = vp_slurp(vp_sparam("file"), &n); a = must_parse(s, n, "corpus-parses"); }
	if (!strcmp(mode, "case")) {		/* every letter outside literals and comments in either case */
		size_t from = (size_t)vp_param("pos", 0), to = from + (size_t)vp_param("span", 100000);
		char nm[16]; g = instr(s, n); tx_mem(&t, s, n);
		for (i = from; i < n && i < to; i++) if (!g[i] && ((s[i] | 32) >= 'a' && (s[i] | 32) <= 'z')) {
			snprintf(nm, sizeof nm, "u%zu", i); vp_symbolic(t.b + i, 1, nm); vp_assume(((unsigned char)t.b[i] == (unsigned char)(s[i] | 32)) | ((unsigned char)t.b[i] == (unsigned char)(s[i] & ~32)));
		}
		same(a, &t, "case-does-not-matter"); vp_reach("case");
	} else if (!strcmp(mode, "gap")) {	/* white space or a comment between two tokens */
		size_t pos = (size_t)vp_param("pos", 0); int kind, k = (int)vp_param("n", 2), j;
		pos += (size_t)pickc("pos", 0, (int)vp_param("span", 1) - 1);
		if (pos > n) return 0;
		g = gaps(s, n); if (!g[pos]) return 0;
		kind = pickc("kind", 0, 1);
		tx_mem(&t, s, pos);
		if (kind == 0) { for (j = 0; j < k; j++) { char *p = tx_sym(&t, "w", 1); vp_assume(ws((unsigned char)*p)); } }
		else { tx_s(&t, "#"); for (j = 0; j < k; j++) { char *p = tx_sym(&t, "c", 1); vp_assume(*p != '\n'); } tx_s(&t, "\n"); }
		tx_mem(&t, s + pos, n - pos);
		same(a, &t, "separators-do-not-matter"); vp_reach("gap");
	} else if (!strcmp(mode, "eol")) {	/* any line end as CRLF or LF */
		for (i = 0; i < n; i++) { if (s[i] == '\n') tx_c(&t, '\r'); tx_c(&t, s[i]); }
		same(a, &t, "crlf-equals-lf"); vp_reach("eol");
	} else if (!strcmp(mode, "squeeze")) {	/* no white space but where two words would touch */
		g = instr(s, n);
		for (i = 0; i < n; i++) {
			if (g[i] == 2) { if (s[i] == '\n' && t.n && isid(t.b[t.n - 1])) tx_c(&t, ' '); continue; }
			if (!g[i] && ws((unsigned char)s[i])) {
				size_t j = i; while (j < n && ws((unsigned char)s[j])) j++;
				if (j < n && t.n && isid(t.b[t.n - 1]) && (isid(s[j]) || s[j] == '-')) tx_c(&t, ' ');
				i = j - 1; continue;
			}
			tx_c(&t, s[i]);
		}
		same(a, &t, "separators-do-not-matter"); vp_reach("squeeze");
	} else if (!strcmp(mode, "ident")) {	/* symbolic bytes where an identifier is expected */
		int k = (int)vp_param("where", 0), len = (int)vp_param("n", 2), j, ok, tail = (int)vp_param("tail", 0); char *p, low[16]; const char *nm; struct config *c;
		tx_s(&t, where[k][0]);
		if (tail) tx_s(&t, "zq");
		for (j = 0; j < len; j++) {	/* any byte that does not end the word */
			unsigned char b; p = tx_sym(&t, "i", 1); b = *(unsigned char *)p;
			vp_assume(!(ws(b) | (b == '{') | (b == '}') | (b == ';') | (b == ':') | (b == '.') | (b == ',') | (b == '#') | (b == '"') | (b == '-')));
		}
		p = t.b + t.n - len - (tail ? 2 : 0);
		if (!tail) tx_s(&t, "zq");
		j = len + 2;
		ok = 1; for (i = 0; i < (size_t)j; i++) { int ch = (unsigned char)p[i], l = ((ch >= 'a') & (ch <= 'z')) | ((ch >= 'A') & (ch <= 'Z')), d = (ch >= '0') & (ch <= '9'); ok &= i ? (l | d) : l; low[i] = (char)(((ch >= 'A') & (ch <= 'Z')) ? ch + 32 : ch); }
		low[j] = 0;
		tx_s(&t, where[k][1]);
		c = parse_tx(&t);
		vp_assert((c != NULL) == (ok != 0), "identifier-accepted-iff-well-formed");
		if (c == NULL) { vp_reach("ident-rejected"); return 0; }
		nm = name_at(c, k); vp_assert(nm != NULL, "identifier-named");
		vp_assert(seq(nm, low), "identifier-kept-in-lower-case");
		vp_reach("ident-accepted");
	} else if (!strcmp(mode, "string")) {	/* literals keep every byte, but for CR before LF; quotes are escaped by a backslash */
		int len = (int)vp_param("n", 3), j, m = 0, prev = ' ', bad = 0; char *p; char want[16]; struct config *c; const char *d;
		tx_s(&t, "struct q { field id int rowid comment \""); p = tx_sym(&t, "s", (size_t)len); tx_s(&t, "\"; };"); p = t.b + strlen("struct q { field id int rowid comment \"");
		for (j = 0; j < len; j++) {
			if (p[j] == '"' && prev != '\\') { parse_tx(&t); vp_reach("string-short"); return 0; }	/* literal ends early */
			bad |= p[j] == 0;
			if (p[j] == '\n') while (m > 0 && want[m - 1] == '\r') m--;
			want[m++] = p[j]; prev = p[j];
		}
		want[m] = 0; c = parse_tx(&t);
		if (bad || prev == '\\') { vp_assert(c == NULL, "literal-refused"); vp_reach("string-rejected"); return 0; }	/* holds NUL, or does not end */
		vp_assert(c != NULL, "literal-accepted");
		d = TAILQ_FIRST(&TAILQ_FIRST(&c->sq)->fq)->doc;
		vp_assert(d != NULL && seq(d, want), "literal-kept"); vp_reach("string-kept");
	}
	return 0;
}
