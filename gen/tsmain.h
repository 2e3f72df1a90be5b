/* Entry point for generated TypeScript: the jobs over one specification. */
static int cur_role, late = -1;
static void ts_noexc(void) { if (jexc) vp_fail("throws-without-reason"); }
static void gc_start_ts(char kind, const char *table) { gc_start(kind, table); }
static jv ts_call(jv ctx, const char *m, int n, jv *a) { jv v = jmethod(ctx, m, n, a); ts_noexc(); return v; }
static int jv_same(int type, jv o, jv x) {	/* exported from the value of the object */
	struct gcv g; memset(&g, 0, sizeof g); g.type = type == GP ? GS : type;
	if (o.t == TN) return x.t == TN;
	switch (type) {
	case GI: if (o.t != TI) return 0; g.i = (int64_t)o.u.i.lo; break;
	case GE: return jseq(o, x);
	case GR: if (o.t != TD) return 0; g.d = o.u.d; break;
	case GB: if (o.t != TX) return 0; g = *o.u.x; break;
	default: return jseq(o, x);
	}
	return jv_exp(x, &g);
}
static void ts_export(jv p, jv o, void (*chk)(jv, jv, int)) { jv x = jmethod(p, "export", 0, NULL); ts_noexc(); chk(o, x, want_role_idx); }
void done_call(void) { if (gc_want_exit == 1) vp_fail("ran-although-the-role-may-not"); vp_assert(gc_main != NULL, "statement-executed"); }
#if HAVE_ROLES
static void go(jv ctx, int *cur, int to) {
	jv a = jstr(rolen[to]), c;
	gc_want_exit = !role_ok(*cur, to); ts_call(ctx, "db_role", 1, &a);
	if (gc_want_exit) { vp_log(rolen[*cur]); vp_log(rolen[to]); vp_fail("role-change-refused"); }
	*cur = to; c = ts_call(ctx, "db_role_current", 0, NULL); vp_assert(jseq(c, a), "role-current");
}
#endif
static void role_late_(jv ctx) {
#if HAVE_ROLES
	if (late >= 0 && role_ok(cur_role, late)) { int c = cur_role, w = gc_want_exit; go(ctx, &c, late); gc_want_exit = w; }
#endif
}
void role_late(struct ort *c) { (void)c; }
static jv open_(int args) {
	jv a[2], db, ctx;
	a[0] = jstr("database"); a[1] = jobj(-1); jset(a[1], "bcrypt_cost", jnum(11));
	db = F_ort(JUNDEF, args ? 2 : 1, a); ts_noexc(); vp_assert(js_open == 1 && !strcmp(js_dbname, "database"), "opens-its-source");
	if (!args) { jv *p = jslot(jget(db, "args"), "bcrypt_cost"); vp_assert(p && p->t == TD && p->u.d == 10, "default-rounds"); }
	ctx = jmethod(db, "connect", 0, NULL); ts_noexc();
#if HAVE_ROLES
	vp_assert(jseq(jmethod(ctx, "db_role_current", 0, NULL), jstr("default")), "starts-as-default");
#endif
	return ctx;
}
static int vwant(const struct tsval *g, struct jin *in, int64_t *x) {
	jv v = jbig(in->hi, in->lo), lo = jint(INT64_MIN), hi = jint(INT64_MAX);
	*x = (int64_t)in->lo;
	if (in->empty && strcmp(g->base, "text") && strcmp(g->base, "password") && strcmp(g->base, "blob")) return 0;
	switch (g->type) {
	case GI:
		if (!strcmp(g->base, "date")) { *x = in->days * 86400; return in->isdate == 2 && g->want(in, x); }
		if (!in->isint) return 0;
		if (!strcmp(g->base, "bit")) return (jilt(v, jint(0)) | jilt(jint(64), v)) == 0 && g->want(in, x);
		if (!strcmp(g->base, "bits")) return (jilt(v, lo) | jilt(jbig(0, UINT64_MAX), v)) == 0 && g->want(in, x);
		return (jilt(v, lo) | jilt(hi, v)) == 0 && g->want(in, x);
	case GE: return in->isint && jieq(v, jint(*x)) && g->want(in, x);
	case GR: return in->isdec && g->want(in, x);
	default: if (!strcmp(g->base, "email")) return in->isemail == 2 && g->want(in, x); return g->want(in, x);
	}
}
static void valid(void) {
	int k = (int)vp_param("field", -1), form, w; const struct tsval *g; jv f, v, r; struct jin *in = calloc(1, sizeof *in); int64_t x = 0;
	if (k < 0) k = (int)vp_conc(vp_range("field", 0, NVALS - 1)); if (k >= NVALS) return; g = &ts_vals[k]; vp_log(g->name);
	vp_assert(G_ortvalid_ortValids.u.o->n == NVALS, "a-validator-for-each-field");
	f = jfield(G_ortvalid_ortValids, g->name); vp_assert(f.t == TF, "a-validator-for-each-field");
	form = (int)vp_conc(vp_range("form", 0, 3));
	if (form < 2) { v = form ? JNULL : JUNDEF; r = jcall(f, form < 1 && vp_range("none", 0, 1) ? 0 : 1, &v); ts_noexc(); vp_assert(r.t == TN, "nothing-is-not-valid"); vp_reach("validated"); return; }
	if (form == 2) { v = jobj(-1); r = jcall(f, 1, &v); ts_noexc(); if (g->type == GI || g->type == GE || g->type == GR || g->type == GB || !strcmp(g->base, "email")) vp_assert(r.t == TN, "object-is-not-valid"); vp_reach("validated"); return; }
	in->empty = (int)vp_conc(vp_range("empty", 0, 1)); in->isint = vp_range("isint", 0, 1); in->canon = vp_range("canon", 0, 1); in->padded = vp_range("padded", 0, 1); in->isdec = vp_range("isdec", 0, 1); in->isemail = vp_range("isemail", 0, 2); in->isdate = vp_range("isdate", 0, 2);
	in->lo = (uint64_t)vp_i64("lo"); in->hi = vp_i64("hi"); vp_symbolic(&in->d, 8, "d"); vp_assume(in->d == in->d); in->days = vp_i64("days"); vp_assume((in->days > -4000000) & (in->days < 4000000));
	in->len = vp_i64("len"); in->bytes = vp_i64("bytes"); in->elen = vp_i64("elen"); in->ebytes = vp_i64("ebytes");
	vp_assume((in->len >= 0) & (in->len < 1 << 29) & (in->bytes >= in->len) & (in->bytes <= 3 * in->len)); vp_assume((in->elen > 2) & (in->elen < 1 << 29) & (in->ebytes >= in->elen) & (in->ebytes <= 3 * in->elen));
	if (in->empty) { vp_assume((in->isint | in->isdec | in->isemail | in->isdate) == 0); } else vp_assume(in->len > 0);
	vp_assume(in->canon <= in->isint);
	v = js_(SK_IN); v.u.s->in = in; r = jcall(f, 1, &v); ts_noexc();
	w = vwant(g, in, &x);
	if ((r.t != TN) != w) { vp_log(g->name); vp_fail("valid-iff-within-limits"); }
	if (r.t != TN) {
		switch (g->type) {
		case GI: vp_assert(r.t == TI && (strcmp(g->base, "bits") ? jieq(r, jint(x)) : (int64_t)r.u.i.lo == x), "value-kept"); break;
		case GE: vp_assert(r.t == TS_ && r.u.s->in == in && (r.u.s->trim || !in->padded), "value-kept"); break;
		case GR: vp_assert(r.t == TD && gc_bits(r.u.d, in->d), "value-kept"); break;
		case GB: vp_assert(r.t == TO && jseq(jfield(r, "#from"), v), "value-kept"); break;
		default: vp_assert(r.t == TS_ && r.u.s->k == SK_IN && r.u.s->in == in && r.u.s->norm == !strcmp(g->base, "email") && (r.u.s->norm || !r.u.s->trim), "value-kept");
		}
		vp_reach("accepted");
	} else vp_reach("refused");
}
int harness(void) {
	char *mode = vp_sparam("mode"); jv ctx; int o = 0, rows, k;
	ts_init(); vp_assert(!jexc, "loads"); (void)k;
	if (!strcmp(mode, "valid")) { valid(); return 0; }
	ctx = open_(strcmp(mode, "misc") != 0);
	if (!strcmp(mode, "misc")) {
		static const struct { const char *m; char c; } x[] = { { "db_trans_open_immediate", 'I' }, { "db_trans_open_deferred", 'D' }, { "db_trans_open_exclusive", 'E' }, { "db_trans_commit", 'C' }, { "db_trans_rollback", 'R' } };
		for (o = 0; o < 5; o++) { jv a = jnum(vp_range("id", 0, 1) ? 1 : 7); js_tr = 0; ts_call(ctx, x[o].m, 1, &a); vp_assert(js_tr == x[o].c, "transaction"); }
		vp_reach("misc"); return 0;
	}
	o = (int)vp_param("op", -1); if (o < 0) o = (int)vp_conc(vp_range("op", 0, NOPS - 1));
	if (o >= NOPS) return 0;
	vp_log(opn[o]);
	rows = (int)vp_conc(vp_range("rows", 0, (int)vp_param("rows", 2)));
#if HAVE_ROLES
	cur_role = 1;
	if (!strcmp(mode, "access")) {
		int steps = (int)vp_param("steps", 2), s; char nm[8];
		for (s = 0; s < steps; s++) { snprintf(nm, sizeof nm, "role%d", s); k = (int)vp_conc(vp_range(nm, 0, NROLES - 1)); go(ctx, &cur_role, k); }
		if (op_open(cur_role, o)) return 0;
		gc_want_exit = !op_ok(cur_role, o);
	} else {
		k = (int)vp_conc(vp_range("role", 1, NROLES - 1));
		if (!op_ok(k, o)) return 0;
		if (k != 1) go(ctx, &cur_role, k);
		late = (int)vp_conc(vp_range("late", -1, NROLES - 1));
		gc_want_exit = 0;
	}
	want_role_idx = cur_role;
#else
	gc_want_exit = 0;
#endif
	ops[o](ctx, rows); vp_reach("completed"); return 0;
}
