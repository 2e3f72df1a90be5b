/* A reader of RFC 8259, and questions about what it read: every member is asked for once, and no others are there. */
#ifndef JSONM_H
#define JSONM_H
struct jv { char t, *s, *key; struct jv *first, *last, *next; int n, used; };	/* t: object, array, string, Number, null(0), True, False */
static const char *jp, *je;
static void j_ws(void) { while (jp < je && (*jp == ' ' || *jp == '\t' || *jp == '\n' || *jp == '\r')) jp++; }
static int j_hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char *j_string(void) {
	char *o, *p; const char *q;
	vp_assert(jp < je && *jp == '"', "json-string-begins"); jp++;
	for (q = jp; q < je && *q != '"'; q++) if (*q == '\\') { q++; if (q >= je) break; }
	o = p = calloc(1, (size_t)(q - jp) + 1);
	for (;;) {
		unsigned char c;
		vp_assert(jp < je, "json-string-ends"); c = (unsigned char)*jp++;
		if (c == '"') return o;
		vp_assert(c >= 32, "json-control-characters-escaped");
		if (c != '\\') { *p++ = (char)c; continue; }
		vp_assert(jp < je, "json-string-ends"); c = (unsigned char)*jp++;
		switch (c) { case '"': case '\\': case '/': *p++ = (char)c; break; case 'b': *p++ = '\b'; break; case 'f': *p++ = '\f'; break; case 'n': *p++ = '\n'; break; case 'r': *p++ = '\r'; break; case 't': *p++ = '\t'; break;
		case 'u': { int i, v = 0; for (i = 0; i < 4; i++) { int h; vp_assert(jp < je, "json-string-ends"); h = j_hex((unsigned char)*jp++); vp_assert(h >= 0, "json-hexadecimal"); v = v * 16 + h; } vp_assert(v > 0 && v < 128, "json-character"); *p++ = (char)v; break; }
		default: vp_fail("json-escape"); }
	}
}
static struct jv *j_value(void) {
	struct jv *v = calloc(1, sizeof *v), *k; char *key;
	j_ws(); vp_assert(jp < je, "json-value");
	if (*jp == '"') { v->t = 's'; v->s = j_string(); return v; }
	if (*jp == '{' || *jp == '[') {
		char end = *jp == '{' ? '}' : ']'; v->t = *jp == '{' ? 'o' : 'a'; jp++; j_ws();
		if (jp < je && *jp == end) { jp++; return v; }
		for (;;) {
			key = NULL;
			if (v->t == 'o') { j_ws(); key = j_string(); for (k = v->first; k; k = k->next) vp_assert(strcmp(k->key, key) != 0, "json-members-differ"); j_ws(); vp_assert(jp < je && *jp == ':', "json-colon"); jp++; }
			k = j_value(); k->key = key; if (v->last) v->last->next = k; else v->first = k; v->last = k; v->n++;
			j_ws(); vp_assert(jp < je && (*jp == ',' || *jp == end), "json-comma-or-end");
			if (*jp++ == end) return v;
		}
	}
	if (*jp == '-' || (*jp >= '0' && *jp <= '9')) {
		const char *q = jp; v->t = 'N'; if (*jp == '-') jp++; vp_assert(jp < je && *jp >= '0' && *jp <= '9', "json-digit");
		if (*jp == '0') jp++; else while (jp < je && *jp >= '0' && *jp <= '9') jp++;
		if (jp < je && *jp == '.') { jp++; vp_assert(jp < je && *jp >= '0' && *jp <= '9', "json-digit"); while (jp < je && *jp >= '0' && *jp <= '9') jp++; }
		if (jp < je && (*jp == 'e' || *jp == 'E')) { jp++; if (jp < je && (*jp == '-' || *jp == '+')) jp++; vp_assert(jp < je && *jp >= '0' && *jp <= '9', "json-digit"); while (jp < je && *jp >= '0' && *jp <= '9') jp++; }
		v->s = calloc(1, (size_t)(jp - q) + 1); memcpy(v->s, q, (size_t)(jp - q)); return v;
	}
	if (je - jp >= 4 && !memcmp(jp, "null", 4)) { jp += 4; return v; }
	if (je - jp >= 4 && !memcmp(jp, "true", 4)) { jp += 4; v->t = 'T'; return v; }
	if (je - jp >= 5 && !memcmp(jp, "false", 5)) { jp += 5; v->t = 'F'; return v; }
	vp_log(jp); vp_fail("json-value"); return v;
}
static struct jv *j_read(const char *s, size_t n) { struct jv *v; jp = s; je = s + n; v = j_value(); j_ws(); vp_assert(jp == je, "json-ends"); return v; }
static struct jv *j_get(struct jv *o, const char *k) { struct jv *v; vp_assert(o->t == 'o', "is-an-object"); for (v = o->first; v; v = v->next) if (strcmp(v->key, k) == 0) break; if (!v) vp_log(k); vp_assert(v != NULL, "member-is-there"); o->used++; return v; }
static struct jv *j_arr(struct jv *o, const char *k) { struct jv *v = j_get(o, k); vp_assert(v->t == 'a', "is-an-array"); return v; }
static void j_done(struct jv *o) { vp_assert(o->used == o->n, "no-other-members"); }
static void j_null(struct jv *o, const char *k) { struct jv *v = j_get(o, k); if (v->t) vp_log(k); vp_assert(v->t == 0, "is-null"); }
static void j_str(struct jv *o, const char *k, const char *want) { struct jv *v = j_get(o, k); vp_assert(v->t == 's', "is-a-string"); if (strcmp(v->s, want)) { vp_log(k); vp_log(v->s); vp_log(want); } vp_assert(strcmp(v->s, want) == 0, "member-is-the-same"); }
static void j_num(struct jv *o, const char *k, int64_t want) { struct jv *v = j_get(o, k); char b[32]; vp_assert(v->t == 'N', "is-a-number"); snprintf(b, sizeof b, "%lld", (long long)want); if (strcmp(v->s, b)) { vp_log(k); vp_log(v->s); vp_log(b); } vp_assert(strcmp(v->s, b) == 0, "number-is-the-same"); }
/* in ort, a quotation mark within a text is preceded by a backslash; all other backslashes are themselves */
static char *meant(const char *s) { char *o = calloc(1, strlen(s) + 1), *p = o; for (; *s; s++) { if (*s == '\\' && s[1] == '"') s++; *p++ = *s; } return o; }
static void j_text(struct jv *o, const char *k, const char *want) { char *m = meant(want); struct jv *v = j_get(o, k); vp_assert(v->t == 's', "is-a-string"); if (strcmp(v->s, m)) { vp_log(v->s); vp_log(m); } vp_assert(strcmp(v->s, m) == 0, "text-is-the-same"); free(m); }
static void j_doc(struct jv *o, const char *d) { if (d == NULL) j_null(o, "doc"); else j_text(o, "doc", d); }
#endif
