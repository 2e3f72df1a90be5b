/* One failing allocation, write, or read, at any point: whatever is being done either succeeds with exactly what it gives
 * without the failure, or fails; it neither crashes nor leaks nor carries on with less. */
#include "common.h"
#include "gens.h"
#include "ctx.h"
static struct tx t;
static int64_t from, span;
static void in_range(const char *nm, int64_t *k) { *k = vp_i64(nm); vp_assume((*k >= from) & (*k < from + span)); }
enum { X_WRITE, X_AUDIT, X_DIFF, X_SELF, X_GEN };
static struct diffq *dq0; static int fired;
static void endfault(void) { fired |= vp_fault_fired(); vp_alloc_fault(-1); }
/* does it; gives a description of the result, NULL on failure */
static char *act(int64_t what, int64_t gen, struct config *c, struct config *d, FILE *o, int64_t opt) {
	struct role *r; struct auditq *aq; struct diffq *dq; char *s = NULL, *b; size_t m; int rc = 0, k = 0; struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	switch (what) {
	case X_WRITE: rc = ort_write_file(o, c); break;
	case X_AUDIT:
		TAILQ_FOREACH(r, &c->arq, allentries) if (k++ == opt) {
			struct audit *a; aq = ort_audit(r, c); endfault(); if (!aq) return NULL;
			TAILQ_FOREACH(a, aq, entries) fprintf(o, "%d %d\n", a->type, a->type == AUDIT_REACHABLE ? a->ar.exported : 0);
			ort_auditq_free(aq); rc = 1; }
		if (k <= opt) vp_end();
		break;
	case X_DIFF: dq = ort_diff(c, d); if (!dq) { endfault(); return NULL; } rc = ort_write_diff_file(o, dq, NULL, 0, NULL, 0); ort_diffq_free(dq); break;
	case X_SELF: { struct ort_lang_sql sq; memset(&sq, 0, sizeof sq); rc = ort_lang_diff_sql(&sq, dq0, (int)opt, o, &mq); ort_msgq_free(&mq); break; }
	default: rc = gen_one((int)gen, c, o);
	}
	endfault();
	if (rc <= 0) return NULL;
	b = vp_out_buf(o, &m); s = calloc(1, m + 1); memcpy(s, b, m); return s;
}
static void tail(const char *s, size_t n) { char b[80]; size_t k = n < 60 ? n : 60; memcpy(b, s + n - k, k); b[k] = 0; vp_log(b); }
int harness(void) {
	const char *mode = vp_sparam("mode"); int64_t k = -1, what = vp_param("what", 0), gen = vp_param("gen", 0), opt = vp_param("opt", 0); size_t live, len = 0, n; int acc, rc; struct config *c, *d = NULL; char *want = NULL, *got, *ot = NULL; FILE *o, *f;
	from = vp_param("from", 0); span = vp_param("span", 1000);
	tx_init(&t);
	if (vp_sparam("file")) { char *p = vp_slurp(vp_sparam("file"), &len); tx_mem(&t, p, len); }
	else tx_ctx(&t, (int)vp_param("ctx", 0), (int)vp_param("n", 1), (int)vp_param("first", -1));
	live = vp_live();
	c = parse_checked(t.b, t.n); acc = c != NULL;
	if (!strcmp(mode, "parse") || !strcmp(mode, "read")) {
		int rd = mode[0] == 'r';
		if (c) { want = write_cfg(c, &n); if (!want) vp_fail("written"); }
		in_range("k", &k);
		if (!rd) vp_alloc_fault(k);
		d = ort_config_alloc();
		if (d == NULL) { endfault(); vp_assert(fired, "allocates"); vp_reach("nothing"); if (c) { ort_config_free(c); free(want); } else drop_last(); vp_assert(vp_live() == live, "all-memory-released"); return 0; }
		f = vp_in("in.ort", t.b, t.n);
		if (rd) vp_read_fault(f, k);
		rc = ort_parse_file(d, f, "in.ort"); if (rc) rc = ort_parse_close(d);
		endfault();
		if (rd && k < (int64_t)t.n) { vp_assert(!rc, "unreadable-is-not-accepted"); vp_assert(has_error(d), "rejection-has-message"); vp_reach("unreadable"); }
		if (!rd && rc) {
			char *w; vp_assert(acc, "rejected-stays-rejected");
			vp_reach("accepted-nevertheless");
			w = write_cfg(d, &n); vp_assert(w != NULL, "written"); vp_assert(strcmp(w, want) == 0, "same-configuration-although-allocation-failed"); free(w);
			{ struct diffq *q = ort_diff(c, d); vp_assert(q != NULL && TAILQ_EMPTY(q) == 0, "compared"); ort_diffq_free(q); }
		} else if (!rd) vp_reach("refused");
		fclose(f); free(want); if (c) ort_config_free(c); else drop_last();
		ort_config_free(d);
		vp_assert(vp_live() == live, "all-memory-released");
		return 0;
	}
	if (!acc) { drop_last(); return 0; }
	if (what == X_DIFF || what == X_SELF) { ot = vp_slurp(vp_sparam("file2"), &n); d = must_parse(ot, n, "other-accepted"); }
	if (what == X_SELF) { dq0 = opt ? ort_diff(d, c) : ort_diff(c, d); vp_assert(dq0 != NULL, "diff"); }
	o = vp_out(); want = act(what, gen, c, d, o, opt); fclose(o);
	in_range("k", &k);
	live = vp_live();
	o = vp_out(); fired = 0;
	if (!strcmp(mode, "write")) { vp_write_fault(o, k); got = act(what, gen, c, d, o, opt); } else { vp_alloc_fault(k); got = act(what, gen, c, d, o, opt); }
	if (got == NULL) { vp_reach("failed"); vp_assert(fired || want == NULL, "fails-only-when-something-failed"); }
	else {
		vp_reach("succeeded"); vp_assert(want != NULL, "refused-stays-refused");
		if (!strcmp(mode, "write")) if (fired) { size_t i; for (i = 0; want[i] && want[i] == got[i]; i++) ; tail(want, i); vp_fail("failed-write-is-reported"); }
		vp_assert(strcmp(want, got) == 0, "same-output-although-allocation-failed"); free(got);
	}
	fclose(o);
	if (got != NULL) vp_assert(vp_live() == live, "all-memory-released");
	free(want);
	if (dq0) ort_diffq_free(dq0);
	ort_config_free(c); if (d) ort_config_free(d);
	return 0;
}
