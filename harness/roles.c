/* Roles: the tree, who may do what, and what the audit reports. */
#include "common.h"
/* named roles: all { r1 { ra }, r2 }, default, none */
enum { R_ALL = 1, R_1 = 2, R_A = 4, R_2 = 8, R_DEF = 16, R_NONE = 32 };
#define TREE "roles { role r1 { role ra; }; role r2; };\n"
static const char *const sets[] = { "r1", "RA", "r2", "all", "default", "r1, R2", "nope", "none", "ra, all" };
static const int setm[] = { R_1, R_A, R_2, R_ALL, R_DEF, R_1 | R_2, 0, 0, R_A | R_ALL };	/* 6 and 7 are refused */
enum { O_S, O_L, O_I, O_C, O_U, O_D, O_INS, O_ANON, O_DS, F_ID, F_A, F_B, F_N, NOPS };
static const char *const ents[] = { "all", "search S1", "list l1", "iterate i1", "count c1", "update u1", "delete d1", "insert", "list dd", "noexport", "noexport fa", "noexport N", "search l1", "delete u1", "noexport nope", "update", "insert x", "nope s1" };
static const int entm[] = { 0x1ff, 1 << O_S, 1 << O_L, 1 << O_I, 1 << O_C, 1 << O_U, 1 << O_D, 1 << O_INS, 1 << O_DS, 0xf << F_ID, 1 << F_A, 1 << F_N };	/* 12 on are refused */
static int rbit(const struct role *r) { static const char *const n[] = { "all", "r1", "ra", "r2", "default", "none" }; int i; for (i = 0; i < 6; i++) if (!strcmp(n[i], r->name)) return 1 << i; return 1 << 30; }
static int mapmask(const struct rolemap *m) { int r = 0; const struct rref *x; if (m == NULL) return 0; TAILQ_FOREACH(x, &m->rq, entries) { r |= rbit(x->role); vp_assert(x->parent == m, "role-reference-parent"); } return r; }
static const struct rolemap *opmap(const struct strct *q, int o) {
	switch (o) {
	case O_S: return find_search(q, "s1")->rolemap; case O_L: return find_search(q, "l1")->rolemap; case O_I: return find_search(q, "i1")->rolemap; case O_C: return find_search(q, "c1")->rolemap;
	case O_DS: return find_search(q, "dd")->rolemap; case O_ANON: { const struct search *s; TAILQ_FOREACH(s, &q->sq, entries) if (s->name == NULL) return s->rolemap; return NULL; }
	case O_U: return find_update(&q->uq, "u1")->rolemap; case O_D: return find_update(&q->dq, "d1")->rolemap; case O_INS: return q->ins->rolemap;
	case F_ID: return find_field(q, "id")->rolemap; case F_A: return find_field(q, "fa")->rolemap; case F_B: return find_field(q, "fb")->rolemap; case F_N: return find_field(q, "n")->rolemap;
	}
	return NULL;
}
#define Q_ "struct q { field id int rowid; field fa int%s; field fb:p.id int; field n struct fb%s; search id: name s1; list: name l1; iterate: name i1; count: name c1; iterate fa; list: distinct n name dd; insert; update: : name u1; delete: name d1; "
#define P_ "struct z { field id int rowid; field zx text; %s}; struct p { field id int rowid; field px int; field zr:z.id int; field nz struct zr%s; %s}; "
static int above(int r) { switch (r) { case R_1: case R_2: return r | R_ALL; case R_A: return R_A | R_1 | R_ALL; default: return r; } }	/* r and the roles over it */
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; int i, j, k; char nm[16]; struct strct *q;
	tx_init(&t);
	if (!strcmp(mode, "assign")) {	/* statements of roles, each with entries */
		int ns = (int)vp_param("stmts", 2), ne = (int)vp_param("ents", 1), bad = 0, m[NOPS] = { 0 }, w0 = (int)vp_param("first", -1), order = (int)vp_param("order", 0), given[NEL(ents)] = { 0 };
		if (!order) tx_s(&t, TREE);
		tx_f(&t, P_, "", "", ""); tx_f(&t, Q_, "", "");
		for (i = 0; i < ns; i++) {
			int s; snprintf(nm, sizeof nm, "s%d", i); s = i == 0 && w0 >= 0 ? w0 : pickc(nm, 0, (int)NEL(sets) - 1);
			if (s == 6 || s == 7) bad = 1;
			tx_f(&t, "roles %s { ", sets[s]);
			for (j = 0; j < ne; j++) { int e; snprintf(nm, sizeof nm, "e%d%d", i, j); e = pickc(nm, 0, (int)NEL(ents) - 1); tx_f(&t, "%s; ", ents[e]); if (e >= 12 || (given[e] & setm[s])) bad = 1; else given[e] |= setm[s]; if (e < 12) for (k = 0; k < NOPS; k++) if (entm[e] >> k & 1) m[k] |= setm[s]; }
			tx_s(&t, "}; ");
		}
		tx_s(&t, "};"); if (order) tx_s(&t, TREE);
		c = parse_tx(&t);
		vp_assert((c != NULL) == !bad, "roles-accepted-iff-roles-and-operations-exist");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		q = find_strct(c, "q");
		for (k = 0; k < NOPS; k++) vp_assert(mapmask(opmap(q, k)) == m[k], "operation-has-exactly-the-given-roles");
		{ struct field *f; struct strct *p = find_strct(c, "p"); TAILQ_FOREACH(f, &p->fq, entries) vp_assert(f->rolemap == NULL, "roles-stay-with-their-structure"); }
		vp_reach("accepted");
	} else if (!strcmp(mode, "tree")) {	/* any tree of roles */
		int n = (int)vp_param("n", 4), par[6], d, com[6]; struct role *r[6], *x; size_t cnt = 0; int kids[6]; (void)kids;
		for (i = 0; i < n; i++) { snprintf(nm, sizeof nm, "p%d", i); par[i] = pickc(nm, -1, i - 1); com[i] = i < 2 ? pickc(i ? "c1" : "c0", 0, 1) : 0; }
		tx_s(&t, "struct z { field id int; }; roles { ");
		/* depth first, children in order of number */
		{ int st[8], sp = 0, next[8], node = -1; for (i = 0; i < 8; i++) next[i] = 0; (void)d;
		  st[sp] = -1; next[sp] = 0;
		  for (;;) {
			for (i = next[sp]; i < n; i++) if (par[i] == st[sp]) break;
			if (i == n) { if (sp == 0) break; sp--; tx_s(&t, "}; "); continue; }
			next[sp] = i + 1; node = i; tx_f(&t, "role Role%d ", i); if (com[i]) tx_f(&t, "comment \"c%d\" ", i); tx_s(&t, "{ "); sp++; st[sp] = node; next[sp] = 0;
		  } }
		tx_s(&t, "}; ");
		c = parse_tx(&t); vp_assert(c != NULL, "tree-accepted");
		TAILQ_FOREACH(x, &c->arq, allentries) cnt++;
		vp_assert(cnt == (size_t)n + 3, "all-roles-are-listed-once");
		for (i = 0; i < n; i++) { snprintf(nm, sizeof nm, "role%d", i); r[i] = find_role(c, nm); vp_assert(r[i] != NULL, "role-present"); }
		for (i = 0; i < n; i++) {
			vp_assert(r[i]->parent == (par[i] < 0 ? find_role(c, "all") : r[par[i]]), "role-parent"); vp_assert((r[i]->doc != NULL) == com[i], "role-comment");
			j = 0; TAILQ_FOREACH(x, &r[i]->subrq, entries) { vp_assert(x->parent == r[i], "sub-role-parent"); j++; }
			for (k = 0; k < n; k++) if (par[k] == i) j--;
			vp_assert(j == 0, "sub-role-count");
		}
		vp_assert(find_role(c, "default")->parent == NULL && find_role(c, "none")->parent == NULL && find_role(c, "all")->parent == NULL, "reserved-roles-stand-alone");
		vp_assert(TAILQ_EMPTY(&find_role(c, "default")->subrq) && TAILQ_EMPTY(&find_role(c, "none")->subrq), "reserved-roles-are-empty");
		vp_reach("accepted"); vp_reach("rejected");
	} else {	/* audit: exactly what the role may do, and all that it may see */
		static const char *const al[] = { "all", "search s1", "list l1", "list dd", "insert", "count c1", "update u1", "delete d1" }; static const int alm[] = { 0x1ff, 1 << O_S, 1 << O_L, 1 << O_DS, 1 << O_INS, 1 << O_C, 1 << O_U, 1 << O_D };
		static const int ro[] = { 0, 1, 2, 3, 4 }; static const char *const rn[] = { "all", "r1", "ra", "r2", "default", "none" };
		/* who allows: set a1 does entry e1, set a2 does entry e2; who must not export: n1 something of q, n2 something of p or z */
		int full = (int)vp_param("full", 0), a1, e1, a2, e2, n1, w1, n2, w2, flag, who, m[NOPS] = { 0 }, pm[4] = { 0 }, zm[2] = { 0 }, up, r; const struct role *rl; struct auditq *aq; const struct audit *a; int seen[NOPS] = { 0 }, reach[3] = { 0 };
		struct strct *sp, *sz; char zb[64] = "", pb[64] = "";
		(void)ro; a1 = pickc("a1", 0, 4); e1 = pickc("e1", 0, 7); a2 = full == 1 ? pickc("a2", 0, 4) : 2; e2 = full == 1 ? pickc("e2", 0, 7) : 2;
		n1 = pickc("n1", 0, 4); w1 = pickc("w1", 0, 3); n2 = full == 2 ? pickc("n2", 0, 4) : (int)vp_param("n2", 1); w2 = pickc("w2", 0, 3); flag = pickc("flag", 0, 2); who = (int)vp_param("who", 0);
		if (a1 == a2 && e1 == e2) return 0;	/* the same twice: refused, above */
		if (w1 == 0 && n1) return 0;
		if (w2 == 0 && n2) return 0;
		if (w2 == 1) snprintf(pb, sizeof pb, "roles %s { noexport; }; ", sets[n2]);
		if (w2 == 2) snprintf(pb, sizeof pb, "roles %s { noexport nz; }; ", sets[n2]);
		if (w2 == 3) snprintf(zb, sizeof zb, "roles %s { noexport zx; }; ", sets[n2]);
		tx_s(&t, TREE); tx_f(&t, P_, zb, flag == 2 ? " noexport" : "", pb); tx_f(&t, Q_, "", flag == 1 ? " noexport" : "");
		tx_f(&t, "roles %s { %s; }; roles %s { %s; }; ", sets[a1], al[e1], sets[a2], al[e2]);
		if (w1) tx_f(&t, "roles %s { noexport%s; }; ", sets[n1], w1 == 1 ? "" : w1 == 2 ? " n" : " fa");
		tx_s(&t, "};");
		c = parse_tx(&t); vp_assert(c != NULL, "accepted"); q = find_strct(c, "q"); sp = find_strct(c, "p"); sz = find_strct(c, "z");
		rl = find_role(c, rn[who]); r = 1 << who; up = above(r);
		for (k = 0; k < 9; k++) { if (alm[e1] >> k & 1) m[k] |= setm[a1]; if (alm[e2] >> k & 1) m[k] |= setm[a2]; }
		if (w1) for (k = F_ID; k <= F_N; k++) if (w1 == 1 || (w1 == 2 && k == F_N) || (w1 == 3 && k == F_A)) m[k] |= setm[n1];
		if (w2 == 1) for (k = 0; k < 4; k++) pm[k] = setm[n2];
		if (w2 == 2) pm[3] = setm[n2];
		if (w2 == 3) zm[1] = setm[n2];
		aq = ort_audit(rl, c); vp_assert(aq != NULL, "audit-done");
		TAILQ_FOREACH(a, aq, entries) switch (a->type) {
		case AUDIT_INSERT: vp_assert(a->st == q, "insert-of-its-structure"); seen[O_INS]++; break;
		case AUDIT_UPDATE: vp_assert(a->up == find_update(&q->uq, "u1") || a->up == find_update(&q->dq, "d1"), "update-known"); seen[a->up->type == UP_DELETE ? O_D : O_U]++; break;
		case AUDIT_QUERY: for (k = 0; k < 9; k++) if (k != O_INS && k != O_U && k != O_D) { const struct search *s; const char *const n[] = { "s1", "l1", "i1", "c1", NULL, NULL, NULL, NULL, "dd" }; TAILQ_FOREACH(s, &q->sq, entries) if (n[k] ? s->name && !strcmp(s->name, n[k]) : s->name == NULL) break; if (s == a->sr) seen[k]++; } break;
		case AUDIT_REACHABLE: {
			int w = a->ar.st == q ? 0 : a->ar.st == sp ? 1 : 2, any = 0; size_t x; const struct strct *st = a->ar.st; const struct field *f; const int *fm = w == 0 ? m + F_ID : w == 1 ? pm : zm;
			reach[w]++; x = 0;
			TAILQ_FOREACH(f, &st->fq, entries) { int nx; vp_assert(x < a->ar.fdsz && a->ar.fds[x].fd == f, "fields-of-the-structure"); nx = (fm[x] & up) || (f->flags & FIELD_NOEXPORT); vp_assert(!!a->ar.fds[x].exported == !nx, "field-exported-iff-nothing-forbids-it"); x++; }
			vp_assert(x == a->ar.fdsz, "fields-of-the-structure");
			{ const struct search *s; size_t got = 0;
			  TAILQ_FOREACH(s, &q->sq, entries) {	/* each allowed query once by its path */
				int mm = 0, o = s->name == NULL ? O_ANON : s->name[0] == 's' ? O_S : s->name[0] == 'l' ? O_L : s->name[0] == 'i' ? O_I : s->name[0] == 'c' ? O_C : O_DS, nq, np, ex; const char *path; size_t y; int hits = 0;
				mm = m[o];
				if (!(mm & up) || (o == O_DS && w == 0)) { for (y = 0; y < a->ar.srsz; y++) vp_assert(a->ar.srs[y].sr != s, "no-path-from-a-forbidden-query"); continue; }
				path = o == O_DS ? (w == 1 ? NULL : "nz") : w == 0 ? NULL : w == 1 ? "n" : "n.nz";
				nq = (m[F_N] & up) || flag == 1;	/* the nested p is not exported with q */
				np = (pm[3] & up) || flag == 2;
				ex = w == 0 ? !(w1 == 1 && (setm[n1] & up)) : w == 1 ? (o == O_DS ? !(w2 == 1 && (setm[n2] & up)) : !nq) : (o == O_DS ? !np : !nq && !np);
				for (y = 0; y < a->ar.srsz; y++) if (a->ar.srs[y].sr == s) { hits++; vp_assert(seq(a->ar.srs[y].path, path), "path-to-the-structure"); vp_assert(a->ar.srs[y].exported == ex, "path-exported-iff-nothing-on-it-forbids-it"); any |= ex; }
				vp_assert(hits == 1, "one-path-for-each-allowed-query"); got++;
			  }
			  vp_assert(got == a->ar.srsz && got > 0, "no-other-paths");
			  vp_assert(a->ar.exported == any, "exported-iff-some-path-is");
			}
			break; }
		}
		for (k = 0; k < 9; k++) vp_assert(seen[k] == !!(m[k] & up), "operation-reported-iff-allowed");
		k = !!((m[O_S] | m[O_L] | m[O_I] | m[O_C] | m[O_ANON]) & up);
		vp_assert(reach[0] == k && reach[1] == (k || (m[O_DS] & up)) && reach[2] == reach[1], "structures-reachable-iff-queried");
		ort_auditq_free(aq); vp_reach(reach[1] ? "accepted" : "rejected");
	}
	return 0;
}
