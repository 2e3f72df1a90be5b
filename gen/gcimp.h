/* Import: documents for each structure, written here with symbolic values, and what must come of them. */
static struct jx jxs[500]; static int jxn, jxat, jfocus = -1, jform, jbad, jskip; static char jb[20000]; static size_t jn;
static void jput(const char *s) { size_t n = strlen(s); vp_assert(jn + n + 1 < sizeof jb, "bounded-document"); memcpy(jb + jn, s, n + 1); jn += n; }
static void jch(char c) { jb[jn++] = c; jb[jn] = 0; }
static int jfirst = 1;
static void jopen(void) { jch('{'); jfirst = 1; }
static void jclose(void) { jch('}'); jfirst = 0; }
static struct jx *jnext(void) { return &jxs[jxat++]; }
static int jk;	/* the value being written */
static void jname(const char *name) { if (!jfirst) jch(','); jfirst = 0; jch('"'); jput(name); jput("\":"); }
/* forms of any field: 0 value, 1 null, 2 left out, 3 wrong type, 4 an unknown field before it, 5 twice; 6 on: forms of the type */
static int jkey(const char *name, int null, int type) {
	struct jx *x = &jxs[jxn < 499 ? jxn : 499]; int form = jxn == jfocus ? jform : 0;
	jk = jxn++; x->st = 0; memset(&x->v, 0, sizeof x->v); x->v.type = type == GP ? GS : type;
	if (form == 2) { x->st = 2; jxn--; jxn++; return 0; }
	if (form == 4) { jname("zzunknown"); jput("1"); jbad = 1; }
	if (form == 5) { jname(name); switch (type) { case GI: case GE: jput("1"); break; case GR: jput("1.5"); break; case GS: case GP: jput("\"xyz\""); break; case GB: jput("\"eHl6\""); break; default: jput("{}"); } }
	jname(name);
	if (form == 1) { x->st = 1; jput("null"); if (!null) jbad = 1; return 0; }
	if (form == 3) { jbad = 1; x->st = 1; switch (type) { case GI: case GE: case GR: jput("[1]"); break; case 200: jput("\"x\""); break; default: jput("7"); } return 0; }
	return 1;
}
static int jf(void) { return jk == jfocus ? jform : 0; }
static void jsymc(char *c, const char *what, int lo, int hi) { char nm[24]; if (jk != jfocus) { *c = (char)(lo + jk % (hi - lo + 1)); return; } snprintf(nm, sizeof nm, "j%d.%s", jk, what); *c = (char)vp_u8(nm); vp_assume(*c >= lo && *c <= hi); }
static void jdigits(int n, struct jx *x, int neg) {
	uint64_t v = 0; int i; char c, nm[8];
	for (i = 0; i < n; i++) { snprintf(nm, sizeof nm, "d%d", i); if (n >= 9 && i < n - 3) c = "9223372036854775807"[i]; else jsymc(&c, nm, i == 0 && n > 1 ? '1' : '0', '9'); jch(c); v = v * 10 + (uint64_t)(c - '0'); }
	if (n >= 19) { if (v > (uint64_t)INT64_MAX + (neg ? 1 : 0)) { jbad = 1; vp_reach("import-overflow"); } }
	x->v.i = (int64_t)(neg ? 0 - v : v);
}
static void jnum(int bit, int en) {
	static const char *const bad[] = { "x", "1x", "1.5", "- 1", "\"\"", "\"1 2\"", "\"--1\"", "99999999999999999999", "-9223372036854775809" };
	struct jx *x = &jxs[jk]; int f = jf();
	if (bit) { char c; if (f > 7) { jskip = 1; return; } if (f == 6) jch('"'); jsymc(&c, "bit", '0', '1'); jch(c); x->v.i = c - '0'; if (f == 6) jch('"'); if (f == 7) { jput("\\"); jbad = 1; } return; }
	if (en) { if (f > 7) { jskip = 1; return; } if (f == 6) jch('"'); if (f == 7) { jch('-'); jdigits(9, x, 1); } else jdigits(2, x, 0); if (f == 6) jch('"'); return; }
	switch (f) {
	case 6: jch('"'); jdigits(2, x, 0); jch('"'); break;
	case 7: jch('-'); jdigits(18, x, 1); break;
	case 8: jdigits(19, x, 0); break;
	case 9: jch('-'); jdigits(19, x, 1); break;
	case 10: jch('"'); jch('-'); jdigits(19, x, 1); jch('"'); break;
	case 11: case 12: case 13: case 14: case 15: case 16: case 17: case 18: case 19: jput(bad[f - 11]); jbad = 1; break;
	case 0: case 4: case 5: jdigits(1, x, 0); break;
	default: jskip = 1;
	}
}
static void jreal(void) {
	static const struct { const char *t; double d; } r[] = { { "0", 0 }, { "-0.0", -0.0 }, { "1.5", 1.5 }, { "-2.25e3", -2250 }, { "123456789.125", 123456789.125 }, { "1e-3", 1e-3 }, { "\"7.5\"", 7.5 }, { "179769313486231570000000000000000000000", 179769313486231570000000000000000000000.0 } };
	static const char *const bad[] = { "x", "1.5x", "\"\"", "--1", "\"1.5 2\"" };
	struct jx *x = &jxs[jk]; int f = jf(), k;
	if (f >= 6 && f < 6 + (int)(sizeof r / sizeof *r)) { k = f - 6; jput(r[k].t); x->v.d = r[k].d; }
	else if (f >= 14 && f < 19) { jput(bad[f - 14]); jbad = 1; }
	else if (f > 5) jskip = 1;
	else { jput("2.5"); x->v.d = 2.5; }
}
static int jhex(char c) { return c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10; }
static void jstr(void) {
	static const char es[] = "\"\\/bfnrt", ev[] = "\"\\/\b\f\n\r\t";
	struct jx *x = &jxs[jk]; int f = jf(), i; char c; unsigned u = 0, u2 = 0; size_t n = 0; char *o = x->v.s;
	jch('"');
	if (f == 6) ;	/* empty */
	else if (f == 7) { for (i = 0; i < 3; i++) { char nm[8]; snprintf(nm, sizeof nm, "c%d", i); jsymc(&c, nm, -128, 127); vp_assume(c != 0 && c != '"' && c != '\\'); jch(c); o[n++] = c; } }
	else if (f >= 8 && f < 16) { jsymc(&c, "c", 'a', 'z'); jch(c); o[n++] = c; jch('\\'); jch(es[f - 8]); o[n++] = ev[f - 8]; jch('z'); o[n++] = 'z'; }
	else if (f == 16 || f == 17 || f == 18) {
		jput("\\u");
		for (i = 0; i < 4; i++) { char nm[8]; snprintf(nm, sizeof nm, "h%d", i); jsymc(&c, nm, '0', 'f'); vp_assume(c <= '9' || (c >= 'A' && c <= 'F') || c >= 'a'); jch(c); u = u << 4 | (unsigned)jhex(c); }
		vp_assume(f == 16 ? u > 0 && (u < 0xd800 || u > 0xdfff) : u >= 0xd800 && u < 0xdc00);
		if (f == 17) { jput("\\u"); for (i = 0; i < 4; i++) { char nm[8]; snprintf(nm, sizeof nm, "l%d", i); jsymc(&c, nm, '0', 'f'); vp_assume(c <= '9' || (c >= 'A' && c <= 'F') || c >= 'a'); jch(c); u2 = u2 << 4 | (unsigned)jhex(c); } vp_assume(u2 >= 0xdc00 && u2 < 0xe000); u = 0x10000 + ((u & 0x3ff) << 10) + (u2 & 0x3ff); }
		if (f == 18) { jskip = 2; jput("\\n"); }	/* half of a pair: anything, safely */
		if (u < 0x80) o[n++] = (char)u; else if (u < 0x800) { o[n++] = (char)(0xc0 | u >> 6); o[n++] = (char)(0x80 | (u & 63)); } else if (u < 0x10000) { o[n++] = (char)(0xe0 | u >> 12); o[n++] = (char)(0x80 | (u >> 6 & 63)); o[n++] = (char)(0x80 | (u & 63)); } else { o[n++] = (char)(0xf0 | u >> 18); o[n++] = (char)(0x80 | (u >> 12 & 63)); o[n++] = (char)(0x80 | (u >> 6 & 63)); o[n++] = (char)(0x80 | (u & 63)); }
	} else if (f > 5) jskip = 1;
	else { jsymc(&c, "c", 'a', 'z'); jch(c); o[n++] = c; }
	jch('"'); o[n] = 0; x->v.n = n;
}
static void jblob(void) {
	struct jx *x = &jxs[jk]; int f = jf(), i, n = f >= 6 && f <= 10 ? f - 6 : 2; char c, o[20];
	if (f == 11) { jput("\"A\""); jbad = 1; return; }
	if (f == 12) { jput("\"!!!!\""); jbad = 1; return; }
	if (f > 12) { jskip = 1; return; }
	for (i = 0; i < n; i++) { char nm[8]; snprintf(nm, sizeof nm, "b%d", i); jsymc(&c, nm, -128, 127); x->v.s[i] = c; }
	x->v.n = (size_t)n; gc_b64(&x->v, o); jch('"'); jput(o); jch('"');
}
static void jreset(void) { jxn = jxat = 0; jbad = jskip = 0; jn = 0; jb[0] = 0; }
static jsmntok_t *jtok(const char *b, size_t n, int *nt) {
	jsmn_parser p; jsmntok_t *t; int a, r;
	jsmn_init(&p); a = jsmn_parse(&p, b, n, NULL, 0); *nt = -1;
	if (a < 0) return NULL;
	t = malloc(sizeof *t * (size_t)(a ? a : 1));
	jsmn_init(&p); r = jsmn_parse(&p, b, n, t, (unsigned)a);
	vp_assert(r < 0 || r == a, "same-number-of-tokens");
	if (r < 0) { free(t); return NULL; }
	*nt = r; return t;
}
static void import(const char *mode) {
	int s = (int)vp_param("struct", 0), nt, rc, cnt, fmt; jsmntok_t *t; char *b; size_t n;
	if (s >= NIMP) return;
	gc_imp[s].nul();
	if (!strcmp(mode, "import")) {	/* one field in every form */
		jfocus = (int)vp_param("focus", -1); jorder = (int)vp_param("order", -1); if (jorder < 0) jorder = (int)vp_conc(vp_range("order", 0, 1));
		jform = (int)vp_conc(vp_range("form", 0, 19));
		jreset(); gc_imp[s].write();
		if (jfocus >= jxn) { vp_reach("no-such-field"); return; }
		if (jskip == 1) return;
		b = malloc(jn); memcpy(b, jb, jn); n = jn;
		t = jtok(b, n, &nt);
		if (t == NULL) { vp_assert(jbad || jskip, "document-read"); free(b); return; }
		rc = gc_imp[s].one(b, t, (size_t)nt, !jbad && !jskip, 0);
		if (jbad) { if (rc > 0) { vp_log(jb); vp_fail("malformed-field-refused"); } vp_assert(rc == 0, "malformed-is-no-allocation-failure"); vp_reach("import-refused"); } else vp_reach("imported");
		free(t); free(b);
	} else if (!strcmp(mode, "array")) {
		cnt = (int)vp_conc(vp_range("count", 0, 3)); fmt = (int)vp_conc(vp_range("fail", -1, 60)); jreset(); jch('[');
		for (rc = 0; rc < cnt; rc++) { if (rc) jch(','); gc_imp[s].write(); }
		jch(']'); b = malloc(jn); memcpy(b, jb, jn); t = jtok(b, jn, &nt); vp_assert(t != NULL, "document-read");
		if (fmt >= 0) { gc_calls = 0; gc_failat = fmt; rc = gc_imp[s].arr(b, t, (size_t)nt, 0, cnt); if (gc_failed) { vp_assert(rc < 0, "allocation-failure-reported"); vp_reach("import-failed"); } else vp_assert(rc > 0, "imported"); gc_failat = -1; }
		else { rc = gc_imp[s].arr(b, t, (size_t)nt, 1, cnt); if (cnt) { vp_assert(gc_imp[s].one(b, t, (size_t)nt, 0, 0) == 0, "array-is-no-object"); vp_assert(gc_imp[s].arr(b, t + 1, (size_t)nt - 1, 0, 0) == 0, "object-is-no-array"); } vp_reach("imported"); }
		free(t); free(b);
	} else {	/* damaged documents: no more than an error */
		int pos = (int)vp_param("pos", 0), span = (int)vp_param("span", 40), p, w = (int)vp_param("n", 1), i, arr = (int)vp_param("arr", 0);
		jreset(); if (arr) jch('['); gc_imp[s].write(); if (arr) { jput(","); gc_imp[s].write(); jch(']'); }
		p = pos + (int)vp_conc(vp_range("at", 0, span - 1)); if (p + w > (int)jn) return;
		if (vp_param("cut", 0)) { n = (size_t)p; b = malloc(n ? n : 1); memcpy(b, jb, n); }
		else { n = jn; b = malloc(n); memcpy(b, jb, n); for (i = 0; i < w; i++) { char nm[8]; snprintf(nm, sizeof nm, "x%d", i); b[p + i] = (char)vp_u8(nm); } }
		t = jtok(b, n, &nt);
		if (t == NULL) { vp_reach("unreadable"); free(b); return; }
		rc = (arr ? gc_imp[s].arr : gc_imp[s].one)(b, t, (size_t)nt, 0, 0);
		vp_assert(rc <= nt, "no-more-tokens-than-there-are");
		vp_reach(rc > 0 ? "imported" : "import-refused"); free(t); free(b);
	}
}
