/* The JSON of a configuration, read by ort-json.ts and formatted by it (translated by gen/ts2c.js), against the configuration. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
#include "slots.h"
#define jv jsonv
#include "jsonm.h"
#undef jv
#include <ctype.h>
struct gcv { int type, isnull; int64_t i; double d; size_t n; char s[8]; };
static int gc_bytes(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; int d = 0; for (size_t k = 0; k < n; k++) d |= x[k] ^ y[k]; return d == 0; }
#define JSRT_HOST
#include "oj.c"
static int jnat(jv o, const char *m, int n, jv *a, jv *r) { (void)o; (void)m; (void)n; (void)a; (void)r; return 0; }
#include "jsonin.h"
static jv tojs(const struct jsonv *v) {
	const struct jsonv *x; jv r;
	switch (v->t) {
	case 'o': r = jobj(-1); for (x = v->first; x; x = x->next) jset(r, x->key, tojs(x)); return r;
	case 'a': r = jarr(); for (x = v->first; x; x = x->next) jpush(r, tojs(x)); return r;
	case 's': return jstr(v->s);
	case 'N': { char *e; double d = (double)strtoll(v->s, &e, 10); if (*e) vp_fail("unmodelled: fraction"); return jnum(d); }
	case 'T': return jbool(1);
	case 'F': return jbool(0);
	default: return JNULL;
	}
}
int harness(void) {
	struct config *c = json_input(), *d; struct ort_lang_json ja; const struct bitf *bf; const struct bitidx *bi; FILE *f; char *b; size_t n; jv x, s, e;
	if (c == NULL) { vp_reach("rejected"); return 0; }
	TAILQ_FOREACH(bf, &c->bq, entries) TAILQ_FOREACH(bi, &bf->bq, entries) ((struct bitidx *)(uintptr_t)bi)->value = vp_conc(bi->value);
	memset(&ja, 0, sizeof ja); f = vp_out(); vp_assert(ort_lang_json(&ja, c, f), "json-written"); b = vp_out_buf(f, &n);
	x = tojs(j_read(b, n)); fclose(f);
	ts_init(); e = N_ortJson_ortJsonConfigFormat(1, &x); vp_assert(!jexc, "throws-without-reason"); s = jmethod(e, "toString", 0, NULL); vp_assert(!jexc, "throws-without-reason");
	vp_assert(s.t == TS_ && s.u.s->k == SK_P, "formats-as-text");
	d = must_parse(s.u.s->s, s.u.s->n, "formatted-configuration-parses");
	ASSERT_EQ_CFG(c, d, EQ_ANONFIRST, "formatted-configuration-is-the-same");
	vp_reach("accepted");
	return 0;
}
