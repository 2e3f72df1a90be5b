/* Parsing is total: every input is accepted or rejected with a message, without memory errors, leaks or hangs;
 * whatever is accepted can be written, audited, and turned into every kind of output. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
static FILE *out(void) { return vp_out(); }
static void consume(const struct config *c) {
	FILE *o = out(); struct role *r; struct auditq *aq; struct diffq *dq;
	vp_assert(ort_write_file(o, c), "accepted-configuration-can-be-written"); fclose(o);
	TAILQ_FOREACH(r, &c->arq, allentries) { aq = ort_audit(r, c); vp_assert(aq != NULL, "audit-succeeds"); ort_auditq_free(aq); }
	dq = ort_diff(c, c); vp_assert(dq != NULL, "self-diff-succeeds"); ort_diffq_free(dq);
}
static void generate(const struct config *c, int64_t which) {
	int g; FILE *o;
	for (g = 0; g < G__MAX; g++) if (which & (1 << g)) {
		o = out(); if (!gen_one(g, c, o)) { vp_log(gen_names[g]); vp_fail("accepted-configuration-generates"); } fclose(o);
	}
}
/* is the end of this text between two top-level objects? */
static int at_boundary(const char *s, size_t n) {
	int depth = 0, str = 0, cmt = 0; char last = ';'; size_t i;
	for (i = 0; i < n; i++) {
		if (cmt) { cmt = s[i] != '\n'; continue; }
		if (str) { if (s[i] == '"' && s[i - 1] != '\\') str = 0; continue; }
		if (s[i] == '#') { cmt = 1; continue; }
		if (s[i] == '"') str = 1;
		if (s[i] == '{') depth++;
		if (s[i] == '}') depth--;
		if (s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r') last = s[i];
	}
	return !str && depth == 0 && last == ';';
}
static void tail(const char *s, size_t n) { char b[24]; size_t k = n < 20 ? n : 20; memcpy(b, s + n - k, k); b[k] = 0; vp_log(b); }
int harness(void) {
	int64_t mode = vp_param("mode", 0), n = vp_param("n", 6), gen = vp_param("gen", 0);
	size_t live, len = 0; struct config *c; struct tx t; char *base = NULL;
	tx_init(&t);
	if (mode == 0) {			/* n arbitrary bytes, optionally after a prefix */
		char *p = vp_sparam("pre"); if (p) tx_s(&t, p);
		tx_sym(&t, "b", (size_t)n);
		p = vp_sparam("post"); if (p) tx_s(&t, p);
	} else if (mode == 4) {			/* n symbolic tokens in a context */
		tx_ctx(&t, (int)vp_param("ctx", 0), (int)n, (int)vp_param("first", -1));
	} else {
		int64_t pos = vp_param("pos", 0);
		base = vp_slurp(vp_sparam("file"), &len);
		if (mode != 2 && vp_param("span", 1) > 1) pos += pickc("pos", 0, (int)vp_param("span", 1) - 1);
		if (pos > (int64_t)len) return 0;
		if (mode == 1) {		/* n arbitrary bytes in place of the n at pos */
			size_t k = len - (size_t)pos < (size_t)n ? len - (size_t)pos : (size_t)n;
			tx_mem(&t, base, (size_t)pos); tx_sym(&t, "b", k); tx_mem(&t, base + pos + k, len - (size_t)pos - k);
		} else if (mode == 2) {		/* cut at any point in [pos, pos+n) */
			int cut = pickc("cut", 0, (int)n - 1); if (pos + cut > (int64_t)len) return 0;
			tx_mem(&t, base, (size_t)pos + (size_t)cut);
		} else if (mode == 5) {		/* a token longer than any buffer, inserted */
			int k, kind = pickc("kind", 0, 3); char fill = kind == 1 ? '7' : 'x'; char *big = calloc(1, (size_t)n + 1); memset(big, fill, (size_t)n);
			tx_mem(&t, base, (size_t)pos); tx_s(&t, kind == 2 ? " \"" : kind == 3 ? " #" : " "); tx_mem(&t, big, (size_t)n); (void)k;
			tx_tpl(&t, kind == 1 ? "~9" : kind == 0 ? "~x" : "~c"); tx_s(&t, kind == 2 ? "\" " : kind == 3 ? "\n" : " "); tx_mem(&t, base + pos, len - (size_t)pos); free(big);
		} else {			/* n arbitrary bytes inserted at pos */
			tx_mem(&t, base, (size_t)pos); tx_sym(&t, "b", (size_t)n); tx_mem(&t, base + pos, len - (size_t)pos);
		}
	}
	live = vp_live();
	c = parse_checked(t.b, t.n);
	if (c) {
		vp_reach("accepted");
		if (mode == 2 && !at_boundary(t.b, t.n)) { tail(t.b, t.n); vp_fail("unfinished-input-rejected"); }
		consume(c); if (gen) generate(c, gen); ort_config_free(c);
	} else { vp_reach("rejected"); drop_last(); }
	vp_assert(vp_live() == live, "all-memory-released");
	return 0;
}
