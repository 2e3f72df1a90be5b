/* XLIFF: extraction, joining and updating, and files which are not what they should be. */
#include "common.h"
#include "ort-lang-xliff.h"
#include <expat.h>
#include <strings.h>
#define NP 6		/* places with labels: two items of an enumeration, its isnull, a bit, isunset and isnull of a bitfield */
/* ---- reading XLIFF back, with expat(3) ---- */
struct unit { char *id, *src, *trg; };
static struct unit un[16]; static int nun, depth, bad; static char *xs, *xt, *xo, *xv; static const char *path[8]; static char **into;
static const char *att(const XML_Char **a, const char *n) { for (; *a; a += 2) if (!strcmp(a[0], n)) return a[1]; return NULL; }
static char *cpy(const char *s) { return s ? strdup(s) : NULL; }
static void rstart(void *d, const XML_Char *n, const XML_Char **a) {
	static const char *const want[] = { "xliff", "file", "body", "trans-unit" };
	if (depth < 4 ? strcmp(n, want[depth]) : depth > 4 || (strcmp(n, "source") && strcmp(n, "target"))) bad = 1;
	if (depth == 0) xv = cpy(att(a, "version"));
	if (depth == 1) { if (xs) bad = 1; xs = cpy(att(a, "source-language")); xt = cpy(att(a, "target-language")); xo = cpy(att(a, "original")); }
	if (depth == 3) { memset(&un[nun], 0, sizeof un[nun]); un[nun++].id = cpy(att(a, "id")); }
	if (depth == 4) { into = *n == 's' ? &un[nun - 1].src : &un[nun - 1].trg; if (*into) bad = 1; *into = strdup(""); }
	depth++;
}
static void rend(void *d, const XML_Char *n) { depth--; into = NULL; }
static void rtext(void *d, const XML_Char *s, int n) {
	size_t k; int i, ws = 0; if (!into) { for (i = 0; i < n; i++) ws |= !((s[i] == ' ') | (s[i] == '\n') | (s[i] == '\t')); if (ws) bad = 1; return; }
	k = strlen(*into); *into = realloc(*into, k + (size_t)n + 1); memcpy(*into + k, s, (size_t)n); (*into)[k + (size_t)n] = 0;
}
static void readback(const char *b, size_t n) {
	XML_Parser p = XML_ParserCreate(NULL); int i, j;
	XML_SetElementHandler(p, rstart, rend); XML_SetCharacterDataHandler(p, rtext);
	nun = depth = bad = 0; xs = xt = xo = xv = NULL;
	if (XML_Parse(p, b, (int)n, 1) != XML_STATUS_OK) { vp_log(b); vp_fail("well-formed"); }
	vp_assert(!bad, "xliff-structure"); vp_assert(xv && !strcmp(xv, "1.2"), "xliff-version"); vp_assert(xs && xt && xo, "file-attributes");
	for (i = 0; i < nun; i++) { vp_assert(un[i].id && un[i].src, "unit-complete"); for (j = 0; j < i; j++) vp_assert(strcmp(un[i].id, un[j].id), "ids-are-unique"); }
	XML_ParserFree(p);
}
/* ---- configurations ---- */
static char *lab[NP], *own[NP]; static int where[NP];	/* default label, label in the language, as written */
static const char *const kw[NP] = { "item a", "item b", "item isnull", "item p 0", "isunset", "isnull" };
static void xmltext(struct tx *t, const char *s) {
	for (; *s; s++) switch (*s) { case '<': tx_s(t, "&lt;"); break; case '&': tx_s(t, "&amp;"); break; case '>': tx_s(t, "&gt;"); break; case '"': tx_s(t, "&quot;"); break; case '\'': tx_s(t, "&apos;"); break; default: tx_c(t, *s); }
}
/* a text: the k-th of the kinds */
static char *text(const char *nm, int k, const char *fix) {
	struct tx t; tx_init(&t); char b[24];
	switch (k) {
	case 0: tx_s(&t, fix); break;
	case 1: if (!vp_param("sym", 1)) { tx_s(&t, "v&w"); break; } snprintf(b, sizeof b, "%sc", nm); tx_s(&t, "v"); { unsigned char c = *(unsigned char *)tx_sym(&t, b, 1); vp_assume((c >= 32) & (c < 127) & (c != '"') & (c != '\\')); } tx_s(&t, "w"); break;
	case 2: tx_s(&t, "q\\\"<&\\b"); break;
	case 3: tx_s(&t, "&lt;&amp;lt;"); break;
	case 4: tx_s(&t, "l1"); break;		/* what another place says by default */
	default: return NULL;
	}
	return t.b;
}
static void config(struct tx *t, const char *lang) {
	int i;
	for (i = 0; i < NP; i++) {
		if (i == 0) tx_s(t, "enum e {"); if (i == 3) tx_s(t, "}; bitfield y {");
		if (i != 2 && !lab[i] && i > 3) { if (own[i]) tx_f(t, " %s jslabel.%s \"%s\";", kw[i], lang, own[i]); continue; }
		if (i == 2 && !lab[i] && !own[i]) continue;
		if (i == 2) tx_s(t, " isnull"); else tx_f(t, " %s", kw[i]);
		if (lab[i]) { tx_s(t, " jslabel \""); tx_s(t, lab[i]); tx_s(t, "\""); }
		if (own[i]) { tx_f(t, " jslabel.%s \"", lang); tx_s(t, own[i]); tx_s(t, "\""); }
		tx_s(t, ";");
	}
	tx_s(t, "}; struct s { field id int rowid; field e enum e null; field y bits y null; };");
}
static const struct labelq *place(const struct config *c, int i) {
	const struct enm *e = TAILQ_FIRST(&c->eq); const struct bitf *b = TAILQ_FIRST(&c->bq);
	switch (i) { case 0: return &TAILQ_FIRST(&e->eq)->labels; case 1: return &TAILQ_NEXT(TAILQ_FIRST(&e->eq), entries)->labels; case 2: return &e->labels_null; case 3: return &TAILQ_FIRST(&b->bq)->labels; case 4: return &b->labels_unset; default: return &b->labels_null; }
}
static const char *label(const struct config *c, int i, const char *lang) {
	const struct label *l, *r = NULL; TAILQ_FOREACH(l, place(c, i), entries) if (!strcasecmp(c->langs[l->lang], lang)) { vp_assert(r == NULL, "one-label-in-a-language"); r = l; } return r ? r->label : NULL;
}
static int nlabels(const struct config *c, int i) { const struct label *l; int n = 0; TAILQ_FOREACH(l, place(c, i), entries) n++; return n; }
static struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
static int toldoferr(void) { const struct msg *m; TAILQ_FOREACH(m, &mq, entries) return 1; return 0; }
static int run(int mode, const struct ort_lang_xliff *a, struct config *c, FILE *o) { return mode == 0 ? ort_lang_xliff_extract(a, c, o, &mq) : mode == 1 ? ort_lang_xliff_join(a, c, o, &mq) : ort_lang_xliff_update(a, c, o, &mq); }
static struct tx x; static FILE *xf[2]; static const char *xn[] = { "a.xlf", "b.xlf" };
/* what a translation is in the language of the configuration: quotes are escaped; NULL if it cannot be said */
static char *meant(const char *s) {
	struct tx t; tx_init(&t); for (; *s; s++) { if (*s == '\\' && !s[1]) return NULL; if (*s == '\\' && s[1] == '"') { tx_s(&t, "\\\""); s++; } else if (*s == '"') tx_s(&t, "\\\""); else tx_c(&t, *s); } return t.n ? t.b : NULL;
}
static const char *const langs[] = { "fr", "FR", "de", "pt-BR", "2x", "", "TODO" };
/* ---- files which may not be what they should be ---- */
static const char *const tags[] = { "xliff version=\"1.2\"", "file target-language=\"fr\" source-language=\"en\" original=\"o\"", "body", "trans-unit id=\"1\"", "source", "target", "xliff", "xliff version=\"1.3\"", "file source-language=\"en\" original=\"o\"", "file target-language=\"fr\" original=\"o\"", "file target-language=\"fr\" source-language=\"en\"", "trans-unit" };
static const char *stk[16]; static int ns;
static void open_(int k) { tx_f(&x, "<%s>", tags[k]); stk[ns++] = tags[k]; }
static void close_(void) { const char *s = stk[--ns]; size_t n = 0; while (s[n] && s[n] != 32) n++; tx_s(&x, "</"); tx_mem(&x, s, n); tx_c(&x, '>'); }
static int wild(int mode) {
	struct ort_lang_xliff a; struct tx t; struct config *c; FILE *o; int i, k, rc, pre = (int)vp_param("pre", 0), nt = (int)vp_param("n", 2); char nm[8]; size_t n; char *b;
	memset(&a, 0, sizeof a); tx_init(&t); tx_init(&x);
	lab[0] = "l0"; lab[1] = "l0"; lab[3] = "l0"; lab[4] = "l0"; lab[5] = "l0"; config(&t, "fr"); c = must_parse(t.b, t.n, "setup-accepted");
	for (i = 0; i < pre && i < 4; i++) open_(i);
	if (pre >= 5) { tx_s(&x, "<source>l0</source>"); } if (pre >= 6) open_(5);
	if (pre >= 7) { tx_s(&x, "t</target>"); ns--; } if (pre >= 8) close_();
	for (i = 0; i < nt; i++) {
		snprintf(nm, sizeof nm, "t%d", i); k = pickc(nm, 0, 2 * (int)NEL(tags) + 3);
		if (k < (int)NEL(tags)) open_(k); else if (k < 2 * (int)NEL(tags)) tx_f(&x, "<%s/>", tags[k - (int)NEL(tags)]); else if (k == 2 * (int)NEL(tags)) tx_s(&x, "l0"); else if (k == 2 * (int)NEL(tags) + 1) { if (ns) close_(); } else if (k == 2 * (int)NEL(tags) + 2) tx_s(&x, "&amp;"); else tx_s(&x, "<");
	}
	while (ns) close_();
	xf[0] = vp_in(xn[0], x.b, x.n); a.in = xf; a.fnames = xn; a.insz = 1; a.flags = (unsigned)pickc("copy", 0, 1) * ORT_LANG_XLIFF_COPY; o = vp_out();
	rc = run(mode, &a, c, o); b = vp_out_buf(o, &n);
	vp_assert(rc >= 0, "not-a-system-failure");
	if (rc == 0) { vp_assert(toldoferr(), "refusal-has-message"); vp_reach("refused"); return 0; }
	vp_assert(n > 0, "output"); vp_assert(!strncmp(x.b, "<xliff version=\"1.2\"", 20) && strstr(x.b, "<file target-language=\"fr\" source-language=\"en\" original=\"o\"") != NULL, "accepted-is-xliff");
	if (mode == 1) { struct config *d = must_parse(b, n, "joined-is-accepted"); vp_assert(nlabels(d, 0) >= 1, "labels"); } else readback(b, n);
	vp_reach("accepted");
	return 0;
}
int harness(void) {
	int mode = (int)vp_param("mode", 0), vary = (int)vp_param("vary", 0), full = (int)vp_param("full", 0), i, j, copy, rc, miss = 0, refuse = 0; struct tx t; char nm[8], d[8]; struct config *c, *r; struct ort_lang_xliff a; FILE *o; char *b, *trg[NP], *enc; size_t n; const char *lang = "fr", *orig = "a.ort"; int none = 0, two = (int)vp_param("two", 0);
	if (mode >= 3) return wild(mode - 2);
	memset(&a, 0, sizeof a); tx_init(&t); tx_init(&x); o = vp_out(); copy = pickc("copy", 0, 1); a.flags = copy ? ORT_LANG_XLIFF_COPY : 0;
	for (i = 0; i < NP; i++) { snprintf(nm, sizeof nm, "l%d", i); snprintf(d, sizeof d, "l%d", i); lab[i] = text(nm, vary >> i & 1 ? pickc(nm, 0, full ? 5 : i == 2 ? 5 : 4) : 0, d); if (!lab[i] && i != 2) none = 1; }
	if (mode == 0) {
		static const char *const fns[] = { "a.ort", "a&b<.ort", "it's \"x\".ort" };
		orig = fns[pickc("fname", 0, 2)]; config(&t, "fr"); c = ort_config_alloc(); vp_assert(parse_into(c, t.b, t.n, orig) && ort_parse_close(c), "setup-accepted");
		rc = ort_lang_xliff_extract(&a, c, o, &mq); vp_assert(rc > 0, "extracted"); b = vp_out_buf(o, &n); readback(b, n); vp_assert(!strcmp(xo, orig), "names-the-original");
		for (i = 0; i < NP; i++) { int k = 0; if (!lab[i]) continue; for (j = 0; j < nun; j++) if (seq(un[j].src, lab[i])) k++; vp_assert(k == 1, "each-label-once"); }
		for (j = 0; j < nun; j++) { int k = 0; for (i = 0; i < NP; i++) if (lab[i] && seq(un[j].src, lab[i])) k++; vp_assert(k, "nothing-else"); vp_assert(copy ? un[j].trg && seq(un[j].trg, un[j].src) : !un[j].trg || !*un[j].trg, "target"); }
		vp_reach("accepted"); return 0;
	}
	/* labels already there in the language, and the language */
	i = (int)vp_param("own", -1); if (i >= 0) own[i] = "mine";
	lang = langs[vp_param("lang", 0)];
	config(&t, "fr"); c = must_parse(t.b, t.n, "setup-accepted");
	/* the translations */
	if (vp_param("attrs", 0)) orig = "a&b<\"c'";
	tx_s(&x, "<?xml version=\"1.0\"?>\n<xliff version=\"1.2\" xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n<!-- z --><file original=\""); xmltext(&x, orig); tx_f(&x, "\" source-language=\"%s\" target-language='%s'>\n<header><note>n</note></header><body>", vp_param("attrs", 0) ? "e&lt;" : "en", lang);
	for (i = 0; i < NP; i++) {
		int tv = vary >> (8 + i) & 1, k = 0; trg[i] = NULL; if (!lab[i]) continue;
		for (j = 0; j < i; j++) if (lab[j] && seq(lab[j], lab[i])) break;
		where[i] = j; if (j < i) continue;	/* said already */
		snprintf(nm, sizeof nm, "t%d", i); k = tv ? pickc(nm, 0, 9) : 0;
		if (k == 5) { miss = 1; continue; }
		tx_f(&x, "<trans-unit id='%s%d'>", k == 6 ? "&amp;" : "", 1 + (i * 2) % 7); snprintf(d, sizeof d, "t%d", i);
		tx_s(&x, "<source>"); xmltext(&x, lab[i]); tx_s(&x, "</source>");
		switch (k) { case 6: trg[i] = "a\"b'"; break; case 7: trg[i] = "back\\"; break; case 8: trg[i] = ""; break; case 9: break; case 4: trg[i] = "two\nlines"; break; default: trg[i] = text(nm, k, d); }
		if (trg[i]) { tx_s(&x, "<target>"); if (k == 6) tx_s(&x, "a\"b'"); else xmltext(&x, trg[i]); tx_s(&x, "</target>"); }
		if (!trg[i] || !*trg[i] || (mode == 1 && !meant(trg[i]))) refuse = 1;
		tx_s(&x, "</trans-unit>\n");
	}
	tx_s(&x, "</body></file></xliff>\n");
	xf[0] = vp_in(xn[0], x.b, x.n); a.in = xf; a.fnames = xn; a.insz = 1;
	if (two) {	/* another language from another file */
		struct tx y; tx_init(&y); tx_s(&y, "<xliff version='1.2'><file source-language='en' target-language='It' original='b'><body>");
		for (i = NP - 1; i >= 0; i--) if (lab[i] && where[i] == i) { tx_f(&y, "<trans-unit id='x%d'><target>D%d</target><source>", i, i); xmltext(&y, lab[i]); tx_s(&y, "</source></trans-unit>"); }
		tx_s(&y, "</body></file></xliff>"); xf[1] = vp_in(xn[1], y.b, y.n); a.insz = 2;
	}
	rc = run(mode, &a, c, o); b = vp_out_buf(o, &n);
	vp_assert(rc >= 0, "not-a-system-failure");
	if (rc == 0) {
		vp_assert(toldoferr(), "refusal-has-message"); vp_reach("refused");
		vp_assert(refuse | none | (miss & !copy & (mode == 1)) | (mode == 1 && vp_param("lang", 0) >= 3 && vp_param("lang", 0) <= 5), "refused-for-a-reason"); vp_assert(n == 0, "no-output-on-refusal");
		return 0;
	}
	vp_reach("accepted");
	if (mode == 2) {
		readback(b, n); vp_assert(!strcmp(xo, orig) && !strcmp(xt, lang) && !strcmp(xs, vp_param("attrs", 0) ? "e<" : "en"), "attributes-kept");
		for (i = 0, j = 0; i < NP; i++) {
			int k, m = 0; if (!lab[i] || where[i] < i) continue;
			for (k = 0; k < nun; k++) if (seq(un[k].src, lab[i])) { m++; if (trg[i]) { char id[8]; snprintf(id, sizeof id, "%d", 1 + (i * 2) % 7); vp_assert(un[k].trg && seq(un[k].trg, trg[i]), "translation-kept"); vp_assert(!strcmp(un[k].id + (*un[k].id == '&'), id), "id-kept"); } else vp_assert(copy ? un[k].trg && seq(un[k].trg, un[k].src) : !un[k].trg || !*un[k].trg, "new-target"); }
			vp_assert(m == 1, "each-label-once"); j++;
		}
		vp_assert(j == nun, "nothing-else"); return 0;
	}
	vp_assert(!(miss & !copy), "missing-translation-is-refused");
	r = must_parse(b, n, "joined-is-accepted");
	for (i = 0; i < NP; i++) {
		const char *w = NULL; int cnt;
		if (!lab[i]) continue;
		j = i; if (where[i] < i) j = where[i];
		w = own[i] ? own[i] : trg[j] ? meant(trg[j]) : lab[i];
		vp_assert(seq(label(r, i, ""), lab[i]), "label-kept"); cnt = nlabels(r, i);
		if (own[i]) vp_assert(seq(label(r, i, "fr"), own[i]), "own-translation-kept");
		if (!own[i] || strcasecmp(lang, "fr")) { if (own[i]) w = trg[j] ? meant(trg[j]) : lab[i]; vp_assert(w && label(r, i, lang) && wseq(label(r, i, lang), w), "translated"); }
		if (two) { char dd[8]; snprintf(dd, sizeof dd, "D%d", j); vp_assert(seq(label(r, i, "it"), dd), "translated-by-the-second-file"); }
		vp_assert(cnt == 2 + two + (own[i] && strcasecmp(lang, "fr")), "no-other-labels");
	}
	return 0;
}
