/* Entry point: the jobs over one specification. */
static size_t live0;
static void fin(struct ort *ctx) {	/* everything is released */
	gc_start('S', ""); gc_jreset();
	db_close(ctx);
	vp_assert(gc_dbopen == 0 && gc_live_hier == 0, "database-closed");
	if (vp_live() != live0) vp_fail("memory-released");
}
#if HAVE_ROLES
static void go(struct ort *ctx, int *cur, int to) {	/* change role, which may be refused */
	gc_want_exit = !role_ok(*cur, to);
	db_role(ctx, (enum ort_role)rolev[to]);
	if (gc_want_exit) { vp_log(rolen[*cur]); vp_log(rolen[to]); vp_fail("role-change-refused"); }
	*cur = to; want_role = rolev[to];
	vp_assert(db_role_current(ctx) == (enum ort_role)want_role && gc_role == (size_t)want_role, "role-current");
}
static int late = -1, cur_role;
#endif
void role_late(struct ort *ctx) {
#if HAVE_ROLES
	if (late >= 0 && role_ok(cur_role, late)) { int c = cur_role, w = want_role; go(ctx, &c, late); want_role = w; }
#endif
}
void done_call(void) {
	if (gc_failed && !gc_finfail) vp_fail("goes-on-after-a-failure");
	if (gc_want_exit == 1) vp_fail("ran-although-the-role-may-not");
	vp_assert(gc_main != NULL, "statement-executed");
	vp_assert(gc_top == NULL, "statements-finalised");
}
static struct ort *open_(void) { struct ort *c = db_open("database"); vp_assert(c != NULL && gc_dbopen == 1 && gc_live_hier == 0 && !strcmp(gc_fname, "database"), "opens"); 
#if HAVE_ROLES
	want_role = ROLE_default; vp_assert(db_role_current(c) == ROLE_default, "starts-as-default");
#endif
	return c; }
static void lg(const char *s, void *p) { (void)s; (void)p; }
static void lgs(const char *s, ...) { (void)s; }
int harness(void) {
	char *mode = vp_sparam("mode"); struct ort *ctx; int o = 0, rows, json = (int)vp_param("json", 0), k;
	live0 = vp_live();
	if (!strcmp(mode, "valid")) {
		struct kpair kp; const struct gcval *g; char txt[8] = "abc";
		vp_assert(VALID__MAX == NVALS, "a-validator-for-each-field");
		k = (int)vp_param("field", -1); if (k < 0) k = (int)vp_conc(vp_range("field", 0, NVALS - 1)); if (k >= NVALS) return 0; g = &gc_vals[k];
		vp_assert(strcmp(valid_keys[g->key].name, g->name) == 0, "name-of-input");
		if (g->type == GB) { vp_assert(valid_keys[g->key].valid == NULL || 1, "blobs-unchecked"); vp_reach("validated"); return 0; }
		memset(&kp, 0, sizeof kp); kp.key = (char *)g->name; kp.val = txt; kp.valsz = (size_t)(vp_i64("size") & 0xffffffffffff);
		gc_kval = vp_range("wellformed", 0, 1); gc_sym(&gc_kv, "value", g->type == GE ? GI : g->type == GR ? GR : GI, 0);
		if (g->type == GR) vp_assume(gc_kv.d == gc_kv.d);
		for (o = 0; o < 2; o++) {
			int (*fn)(struct kpair *) = o ? g->fn : valid_keys[g->key].valid; int r;
			if (fn == NULL) { vp_assert(o, "validator-present"); continue; }
			gc_kcalls = 0; kp.state = KPAIR_UNCHECKED; r = fn(&kp);
			vp_assert(gc_kcalls == 1 && strcmp(gc_kfun, g->base) == 0, "checks-the-type");
			if ((r != 0) != (gc_kval && g->want(&kp))) { vp_log(g->name); vp_fail("valid-iff-within-limits"); }
			if (r && (g->type == GI || g->type == GE)) vp_assert(kp.parsed.i == gc_kv.i, "value-kept");
		}
		vp_reach("validated"); return 0;
	}
	if (!strcmp(mode, "import") || !strcmp(mode, "array") || !strcmp(mode, "damage")) { import(mode); vp_assert(vp_live() == live0, "memory-released"); return 0; }
	if (!strcmp(mode, "misc")) {
		int m = vp_range("mode", -2, 2); size_t id = (size_t)vp_u32("id");
		if (vp_range("log", 0, 1)) { ctx = db_open_logging("database", lg, lgs, &m); vp_assert(ctx && gc_cfg.msg.func == lg && gc_cfg.msg.func_short == lgs && gc_cfg.msg.dat == &m, "logging-passed-on"); } else ctx = open_();
		db_trans_open(ctx, id, m); vp_assert(gc_tkind == (m < 0 ? 'E' : m > 0 ? 'I' : 'D') && gc_tid == id, "transaction-opened");
		db_trans_commit(ctx, id); vp_assert(gc_tkind == 'C' && gc_tid == id, "transaction-committed");
		db_trans_rollback(ctx, id); vp_assert(gc_tkind == 'R' && gc_tid == id, "transaction-rolled-back");
		db_logging_data(ctx, &id, sizeof id); vp_assert(gc_msgdat == (void *)&id && gc_msgsz == sizeof id, "logging-data");
		db_close(NULL); frees_null(); fin(ctx); vp_reach("misc"); return 0;
	}
	if (!strcmp(mode, "open")) {	/* opening fails cleanly at any point */
		gc_failat = vp_range("fail", 0, (int)vp_param("max", 200)); ctx = db_open("database");
		if (gc_failed) { vp_assert(ctx == NULL, "open-fails"); vp_assert(gc_dbopen == 0 && gc_live_hier == 0, "nothing-left-open"); vp_assert(vp_live() == live0, "memory-released"); vp_reach("open-failed"); }
		else { vp_assert(ctx != NULL, "opens"); gc_failat = -1; fin(ctx); vp_reach("opened"); }
		return 0;
	}
	ctx = open_();
	o = (int)vp_param("op", -1);
	if (o < 0) o = (int)vp_conc(vp_range("op", 0, NOPS - 1));
	if (o >= NOPS) { fin(ctx); return 0; }
	vp_log(opn[o]);
	if (json && !opjson[o]) { fin(ctx); return 0; }
	rows = vp_range("rows", 0, (int)vp_param("rows", 2)); rows = (int)vp_conc(rows);
#if HAVE_ROLES
	cur_role = 1;
	if (!strcmp(mode, "access")) {
		int steps = (int)vp_param("steps", 2), s; char nm[8];
		for (s = 0; s < steps; s++) { snprintf(nm, sizeof nm, "role%d", s); k = (int)vp_conc(vp_range(nm, 0, NROLES - 1)); go(ctx, &cur_role, k); }
		if (op_open(cur_role, o)) { fin(ctx); return 0; }
		gc_want_exit = !op_ok(cur_role, o);
	} else {
		k = (int)vp_conc(vp_range("role", 1, NROLES - 1));
		if (!op_ok(k, o)) { fin(ctx); return 0; }
		if (k != 1) go(ctx, &cur_role, k);
		if (json) { late = (int)vp_conc(vp_range("late", -1, NROLES - 1)); }
		gc_want_exit = 0;
	}
	want_role_idx = cur_role;
#endif
	if (!strcmp(mode, "fault")) { gc_nullfew = 1; gc_calls = 0; gc_failat = vp_range("fail", 0, (int)vp_param("max", 30)); gc_failat = vp_conc(gc_failat); }
	ops[o](ctx, rows, json);
	gc_failat = -1;
	fin(ctx); vp_reach("completed");
	return 0;
}
