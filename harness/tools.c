/* The command line tools: what they read, the options they take, what they print, and the status they exit with. */
#include "common.h"
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"
#include "jsonm.h"
#include <strings.h>
extern void (*vp_on_exit)(int);
int main_main(int, char **); int main_mainaudit(int, char **); int main_maindiff(int, char **); int main_audit_json(int, char **); int main_cheader(int, char **); int main_csource(int, char **); int main_cmanpage(int, char **);
int main_javascript(int, char **); int main_json(int, char **); int main_nodejs(int, char **); int main_rust(int, char **); int main_sql(int, char **); int main_sqldiff(int, char **); int main_xliff(int, char **);
enum { ORT, SQL, JSON, RUST, HEADER, SOURCE, MAN, NODE, JS, XLIFF, AUDIT, AJSON, DIFF, SQLDIFF };
static int (*const mains[])(int, char **) = { main_main, main_sql, main_json, main_rust, main_cheader, main_csource, main_cmanpage, main_nodejs, main_javascript, main_xliff, main_mainaudit, main_audit_json, main_maindiff, main_sqldiff };
/* what the manuals say of each option */
struct opt { const char *a, *b; unsigned set, clr, inc; const char *s; };
static const struct opt oc_h[] = { { "-j", 0, ORT_LANG_C_JSON_KCGI }, { "-J", 0, ORT_LANG_C_JSON_JSMN }, { "-s", 0, ORT_LANG_C_SAFE_TYPES }, { "-v", 0, ORT_LANG_C_VALID_KCGI }, { "-N", "b", 0, ORT_LANG_C_CORE }, { "-Nd", 0, 0, ORT_LANG_C_DB_SQLBOX }, { "-N", "db", 0, ORT_LANG_C_DB_SQLBOX | ORT_LANG_C_CORE }, { "-g", "X_H", .s = "X_H" }, { "-vJ", 0, ORT_LANG_C_JSON_JSMN | ORT_LANG_C_VALID_KCGI }, { "-Z" }, { "-g" } };
static const struct opt oc_s[] = { { "-j", 0, ORT_LANG_C_JSON_KCGI }, { "-J", 0, ORT_LANG_C_JSON_JSMN }, { "-v", 0, ORT_LANG_C_VALID_KCGI }, { "-N", "d", 0, ORT_LANG_C_DB_SQLBOX }, { "-h", "x.h,y.h", .s = "x.h,y.h" }, { "-I", "d", .inc = ORT_LANG_C_DB_SQLBOX }, { "-Iv", 0, .inc = ORT_LANG_C_VALID_KCGI }, { "-I", "j", .inc = ORT_LANG_C_JSON_KCGI }, { "-I", "vj", .inc = ORT_LANG_C_VALID_KCGI | ORT_LANG_C_JSON_KCGI }, { "-jv", 0, ORT_LANG_C_JSON_KCGI | ORT_LANG_C_VALID_KCGI }, { "-Z" }, { "-S", "none", 1 << 30 } };
static const struct opt oc_m[] = { { "-j", 0, ORT_LANG_C_JSON_KCGI }, { "-J", 0, ORT_LANG_C_JSON_JSMN }, { "-v", 0, ORT_LANG_C_VALID_KCGI }, { "-Z" } };
static const struct opt on_n[] = { { "-e", 0, ORT_LANG_NODEJS_NOMODULE }, { "-v", 0, ORT_LANG_NODEJS_VALID }, { "-N", "b", 0, ORT_LANG_NODEJS_CORE }, { "-N", "d", 0, ORT_LANG_NODEJS_DB }, { "-Nbd", 0, 0, ORT_LANG_NODEJS_DB | ORT_LANG_NODEJS_CORE }, { "-Z" } };
static const struct opt o_js[] = { { "-Z" }, { "-S", "none", 1 << 30 } };
static const struct opt o_x[] = { { "-c", 0, ORT_LANG_XLIFF_COPY }, { "-Z" } };
static const struct opt o_a[] = { { "-r", "ro", .s = "ro" }, { "-r", "RP", .s = "rp" }, { "-rdefault", 0, .s = "default" }, { "-r", "none", .s = "none" }, { "-r", "nosuch", .s = "nosuch" }, { "-r", "rQ", .s = "rq" }, { "-v", 0, 1 }, { "-Z" } };
static const struct opt o_aj[] = { { "-r", "ro", .s = "ro" }, { "-r", "RP", .s = "rp" }, { "-rdefault", 0, .s = "default" }, { "-r", "none", .s = "none" }, { "-r", "nosuch", .s = "nosuch" }, { "-r", "rQ", .s = "rq" }, { "-s", 0, 1 }, { "-Z" } };
static const struct opt o_d[] = { { "-d", 0, 1 }, { "-Z" } };
static const struct opt o_z[] = { { "-Z" } };
static const struct { const struct opt *o; int n; } opts[] = { { o_z, 1 }, { o_z, 1 }, { o_z, 1 }, { o_z, 1 }, { oc_h, NEL(oc_h) }, { oc_s, NEL(oc_s) }, { oc_m, NEL(oc_m) }, { on_n, NEL(on_n) }, { o_js, NEL(o_js) }, { o_x, NEL(o_x) }, { o_a, NEL(o_a) }, { o_aj, NEL(o_aj) }, { o_z, 1 }, { o_d, NEL(o_d) } };
#define NCONT 6
static void content(struct tx *t, int k) {
	switch (k) {
	case 0: tx_tpl(t, "roles { role ro { role rp; }; }; struct s~x { field id int rowid; field b enum e; insert; update b: id: name u; delete id; search id: name g; list b; iterate: name i; count: name c; roles ro { insert; search g; }; roles rp { update u; }; };"); break;
	case 1: tx_s(t, "enum e { item a 1; item b jslabel \"x & y\"; }; "); break;
	case 2: tx_tpl(t, "struct s~x { field a int limit gt ~9; field id int rowid; };"); break;
	case 3: tx_tpl(t, "struct s { field a in~a; }"); break;
	case 4: break;
	case 6: {	/* for audits: who may do one thing in each structure, and what is said of things, is left open */
		static const char *const who[] = { "ro", "rp", "rq", "ro, rq" }, *const pop[] = { "search byid", "iterate all", "insert", "noexport n", "noexport", "all", "count c", "update u" }, *const qop[] = { "list l", "search s", "delete d", "all", "insert", "list deep", "noexport a", "iterate i" }; int a = (int)vp_param("pop", 0), b = (int)vp_param("qop", 0);
		tx_s(t, "roles { role ro"); if (vp_param("docs", 0)) tx_tpl(t, " comment \"~c\\\"\""); tx_s(t, " { role rp; }; role rq; }; struct p { field id int rowid; field n text noexport"); if (vp_param("docs", 0) == 2) tx_tpl(t, " comment \"\\~c\""); else tx_s(t, " comment \"z\"");
		tx_s(t, "; field e email; search id: name byid comment \"gets\"; search n: name secret; iterate: name all; count n: name c; insert; update n: id: name u comment \"sets\"; delete id: name d; update e concat, n set: id eq, n like; count e lt, id isnull; roles ");
		tx_s(t, who[pickc("pwho", 0, 3)]); tx_f(t, " { %s; }; }; ", pop[a]);
		tx_s(t, "struct q { field p struct pid; field pid:p.id int; field p2 struct p2id; field p2id:p.id int; field a int noexport; field id int rowid; list p.n: name l; search id: name s; list: name deep; iterate p2.e: name i; delete id: name d; delete a le; insert; list a gt, id notnull; roles ");
		tx_s(t, who[pickc("qwho", 0, 3)]); tx_f(t, " { %s; }; }; struct z { field q struct qid; field qid:q.id int; field x text; list q.p.n: name zz; search x eq; iterate q.a; roles rp { ", qop[b]); tx_s(t, "list zz; }; };"); break; }
	case 5: tx_s(t, "struct s3 { field id int rowid; field b bitfield y; comment \"z\"; }; bitfield y { item p 0; item q 5; };"); break;
	}
}
static const char *const shapes[] = { "", "a", "ab", "abc", "f", "af", "fa", "afb", "abfc", "afbc", "a!", "!a", "nx" };
static char *av[24]; static int ac; static FILE *so, *se; static char *want; static size_t wantn; static int wrc, wmin;	/* wanted: output, its size, status (-1: failure) */
static char *wmsg; static size_t wmsgn;
static char *dup_n(const char *b, size_t n) { char *r = calloc(1, n + 1); memcpy(r, b, n); return r; }
static int seqn(const char *a, const char *b, size_t n) { size_t i; int d = 0; for (i = 0; i < n; i++) d |= a[i] ^ b[i]; return d == 0; }
static void finish(int rc) {
	size_t n, m; const char *b = vp_out_buf(so, &n), *e = vp_out_buf(se, &m);
	if (wrc == -1) vp_assert(rc != 0, "failure-is-told"); else if (wrc == -2) vp_assert(rc > 1, "failure-is-told"); else vp_assert(rc == wrc, "exit-status");
	if (want) { vp_assert(n == wantn && seqn(b, want, n), "output"); } else vp_assert(n == 0, "no-output-on-failure");
	if (wmsg) { vp_assert(m == wmsgn && seqn(e, wmsg, m), "messages"); } else vp_assert(m > 0, "failure-has-a-message");
	vp_reach(wrc < 0 ? "failed" : "succeeded");
}
static struct tx files[3], in; static const char *const fname[] = { "a.ort", "b.ort", "c.ort" };
static void more(const struct msgq *q) { FILE *f = vp_out(); size_t n, k; char *b; ort_write_msg_file(f, q); b = vp_out_buf(f, &n); k = wmsgn; wmsg = wmsg ? realloc(wmsg, k + n + 1) : calloc(1, n + 1); memcpy(wmsg + k, b, n); wmsgn = k + n; wmsg[wmsgn] = 0; fclose(f); }
static void msgs(const struct config *c) { more(&c->mq); }
/* which: one digit for each file, or "-" for the standard input; *ok says whether it was accepted */
static struct config *load(const char *which, int *ok) {
	struct config *c = ort_config_alloc(); *ok = 1;
	if (!*which) *ok = parse_into(c, in.b, in.n, "<stdin>");
	for (; *which && *ok; which++) *ok = parse_into(c, files[*which - 'a'].b, files[*which - 'a'].n, fname[*which - 'a']);
	return c;
}
/* ---- what ort-audit-json says, by its manual ---- */
static const struct config *wcfg; static const char *wrole; static struct auditq *aq;
static const char *const cget[] = { "count", "get", "list", "iterate" }, *const cmod[] = { "cat", "dec", "inc", "set", "strset" }, *const cops[] = { "eq", "ge", "gt", "le", "lt", "neq", "like", "and", "or", "streq", "strneq", "isnull", "notnull" };
static char *fn_search(const struct search *s) { struct tx t; const struct sent *x; tx_init(&t); tx_f(&t, "db_%s_%s", s->parent->name, cget[s->type]); if (s->name) tx_f(&t, "_%s", s->name); else if (!TAILQ_EMPTY(&s->sntq)) { tx_s(&t, "_by"); TAILQ_FOREACH(x, &s->sntq, entries) tx_f(&t, "_%s_%s", x->uname, cops[x->op]); } return t.b; }
static char *fn_update(const struct update *u) { struct tx t; const struct uref *x; tx_init(&t); tx_f(&t, "db_%s_%s", u->parent->name, u->type == UP_MODIFY ? "update" : "delete"); if (u->name) tx_f(&t, "_%s", u->name); else { if (u->type == UP_MODIFY && !(u->flags & UPDATE_ALL)) TAILQ_FOREACH(x, &u->mrq, entries) tx_f(&t, "_%s_%s", x->field->name, cmod[x->mod]); if (!TAILQ_EMPTY(&u->crq)) { tx_s(&t, "_by"); TAILQ_FOREACH(x, &u->crq, entries) tx_f(&t, "_%s_%s", x->field->name, cops[x->op]); } } return t.b; }
static void j_bool(struct jv *o, const char *k, int want) { struct jv *v = j_get(o, k); vp_assert(v->t == (want ? 'T' : 'F'), "flag-is-the-same"); }
static void j_in(struct jv *arr, const char *s, int times) { struct jv *v; int n = 0; for (v = arr->first; v; v = v->next) { vp_assert(v->t == 's', "is-a-string"); n += strcmp(v->s, s) == 0; } if (n != times) vp_log(s); vp_assert(n == times, "listed-once"); }
static void fun(struct jv *o, const char *n, const char *ty, const char *doc) { struct jv *v = j_get(o, n); j_str(v, "type", ty); j_doc(v, doc); j_done(v); }
static void ajson(char *b, size_t n, int wrapped) {
	struct jv *top, *v, *x, *w; const struct role *r; const struct strct *s; const struct audit *a, *re; const struct field *f; size_t i; int cnt; char *e; struct auditq *q;
	vp_assert((b[0] == '{') == !wrapped, "bare-or-wrapped");
	if (wrapped) { e = strstr(b, "var audit ="); vp_assert(e != NULL, "wrapped"); n -= (size_t)(e + 11 - b); b = e + 11; for (i = n; i > 0 && b[i - 1] != ';'; i--) ; vp_assert(i > 0, "wrapped"); e = strstr(b, "root.audit"); vp_assert(e != NULL, "wrapped"); n = (size_t)(e - b); while (n > 0 && b[n - 1] != ';') n--; vp_assert(n > 0, "wrapped"); n--; }
	TAILQ_FOREACH(r, &wcfg->arq, allentries) if (!strcasecmp(r->name, wrole)) break;
	q = ort_audit(r, wcfg); top = j_read(b, n); j_str(top, "role", r->name); j_doc(top, r->doc);
	x = j_arr(top, "access")->first;
	TAILQ_FOREACH(s, &wcfg->sq, entries) {
		const char *ins = NULL; char nm[128]; vp_assert(x != NULL, "structure-listed"); j_str(x, "name", s->name); v = j_get(x, "access"); j_done(x); re = NULL;
		TAILQ_FOREACH(a, q, entries) if (a->type == AUDIT_REACHABLE && a->ar.st == s) re = a;
		if (re) {
			j_bool(v, "exportable", re->ar.exported); w = j_arr(v, "data"); cnt = 0; TAILQ_FOREACH(f, &s->fq, entries) { j_in(w, f->name, 1); cnt++; } vp_assert(w->n == cnt, "nothing-else");
			w = j_arr(v, "accessfrom"); vp_assert(w->n == (int)re->ar.srsz, "nothing-else"); w = w->first;
			for (i = 0; i < re->ar.srsz; i++, w = w->next) { j_str(w, "function", fn_search(re->ar.srs[i].sr)); j_bool(w, "exporting", re->ar.srs[i].exported); j_str(w, "path", re->ar.srs[i].path ? re->ar.srs[i].path : ""); j_done(w); }
		}
		TAILQ_FOREACH(a, q, entries) if (a->type == AUDIT_INSERT && a->st == s) ins = s->name;
		if (ins) { snprintf(nm, sizeof nm, "db_%s_insert", ins); j_str(v, "insert", nm); } else j_null(v, "insert");
		for (i = 0; i < 6; i++) { w = j_arr(v, i == 4 ? "update" : i == 5 ? "delete" : cget[i]); cnt = 0; TAILQ_FOREACH(a, q, entries) { if (i < 4 && a->type == AUDIT_QUERY && a->sr->parent == s && a->sr->type == i) { j_in(w, fn_search(a->sr), 1); cnt++; } if (i >= 4 && a->type == AUDIT_UPDATE && a->up->parent == s && (a->up->type == UP_DELETE) == (i == 5)) { j_in(w, fn_update(a->up), 1); cnt++; } } vp_assert(w->n == cnt, "nothing-else"); }
		j_done(v); x = x->next;
	}
	vp_assert(x == NULL, "no-other-structures");
	v = j_get(top, "functions"); w = j_get(top, "fields");
	TAILQ_FOREACH(a, q, entries) switch (a->type) {
	case AUDIT_INSERT: { char nm[128]; snprintf(nm, sizeof nm, "db_%s_insert", a->st->name); fun(v, nm, "insert", NULL); break; }
	case AUDIT_UPDATE: fun(v, fn_update(a->up), a->up->type == UP_DELETE ? "delete" : "update", a->up->doc); break;
	case AUDIT_QUERY: fun(v, fn_search(a->sr), cget[a->sr->type], a->sr->doc); break;
	default: for (i = 0; i < a->ar.fdsz; i++) { char nm[128]; snprintf(nm, sizeof nm, "%s.%s", a->ar.st->name, a->ar.fds[i].fd->name); x = j_get(w, nm); j_bool(x, "export", a->ar.fds[i].exported); j_doc(x, a->ar.fds[i].fd->doc); j_done(x); }
	}
	j_done(v); j_done(w); j_done(top); (void)aq;
}
/* ort-xliff -j and -u: a and b are configurations, p and q translations, ! a missing file */
static const char *const xshapes[] = { "a", "ap", "axp", "xp", "abxp", "ax", "axpq", "xpq", "x", "abp", "", "!p", "a!", "ax!", "!xp", "abx" };
static int xl(void) {
	int op, copy = 0, i, usage = 0, seenx = 0, ncf = 0, nxf = 0, gone = 0, ok = 1, rc; const char *p, *sh = xshapes[vp_param("shape", 0)], *cn[3], *xn[3]; struct tx c[2], x[2], none; struct tx *cv[3], *xv[3]; FILE *xf[3], *o; struct config *cfg; struct ort_lang_xliff a; struct msgq mq = TAILQ_HEAD_INITIALIZER(mq);
	op = pickc("op", 0, 5); av[ac++] = "ort-xliff";
	switch (op) { case 0: av[ac++] = "-j"; break; case 1: av[ac++] = "-u"; break; case 2: copy = 1; av[ac++] = "-c"; av[ac++] = "-j"; break; case 3: copy = 1; av[ac++] = "-uc"; break; case 4: copy = 1; av[ac++] = "-jc"; break; case 5: av[ac++] = "-j"; av[ac++] = "-q"; usage = 1; break; }
	for (i = 0; i < 2; i++) { tx_init(&c[i]); tx_init(&x[i]); } tx_init(&none);
	switch (pickc("conf", 0, 2)) { case 0: tx_tpl(&c[0], "enum e { item a 1 jslabel \"~x\"; item b jslabel \"two\"; }; struct r { field id int rowid; };"); break; case 1: tx_s(&c[0], "struct r { field id int rowid; }; bitfield y { item p 0 jslabel \"two\"; isunset jslabel \"u\"; isnull jslabel \"u\"; };"); break; default: tx_s(&c[0], "enum e { item a 1 jslabel ; };"); }
	tx_s(&c[1], "struct s { field id int rowid; field e enum f; };"); if (strchr(sh, 'b')) tx_s(&c[0], " enum f { item zz jslabel \"u\"; };");
	switch (pickc("trans", 0, 3)) {
	case 0: tx_tpl(&x[0], "<xliff version=\"1.2\"><file source-language=\"en\" target-language=\"fr\" original=\"a.ort\"><body><trans-unit id=\"1\"><source>~x</source><target>T</target></trans-unit><trans-unit id=\"7\"><source>two</source><target>deux</target></trans-unit></body></file></xliff>"); break;
	case 1: tx_s(&x[0], "<xliff version=\"1.2\"><file source-language=\"en\" target-language=\"de\" original=\"a.ort\"><body><trans-unit id=\"2\"><source>u</source><target>U</target></trans-unit><trans-unit id=\"7\"><source>two</source><target>zwei</target></trans-unit></body></file></xliff>"); break;
	case 2: tx_s(&x[0], "<xliff version=\"1.2\"><file source-language=\"en\" original=\"a.ort\"></file></xliff>"); break;
	default: break;
	}
	tx_s(&x[1], "<xliff version=\"1.2\"><file source-language=\"en\" target-language=\"it\" original=\"a.ort\"><body><trans-unit id=\"2\"><source>u</source><target>V</target></trans-unit><trans-unit id=\"7\"><source>two</source><target>due</target></trans-unit></body></file></xliff>");
	vp_file("a.ort", c[0].b, c[0].n); vp_file("b.ort", c[1].b, c[1].n); vp_file("p.xlf", x[0].b, x[0].n); vp_file("q.xlf", x[1].b, x[1].n);
	for (p = sh; *p; p++) switch (*p) {
	case 'a': case 'b': cv[ncf] = &c[*p - 'a']; cn[ncf++] = av[ac++] = *p == 'a' ? "a.ort" : "b.ort"; break;
	case 'p': case 'q': xv[nxf] = &x[*p - 'p']; xn[nxf++] = av[ac++] = *p == 'p' ? "p.xlf" : "q.xlf"; break;
	case '!': av[ac++] = "none"; gone = 1; break;
	case 'x': av[ac++] = "-x"; seenx = 1; break;
	}
	if ((!seenx && strlen(sh) > 2) || !*sh || !strcmp(sh, "x") || (nxf > 1 && (op == 1 || op == 3))) usage = 1;
	av[ac] = NULL; stdin = vp_in("<stdin>", none.b, 0);
	if (ncf == 0) { cv[0] = &c[0]; cn[0] = "<stdin>"; ncf = 1; stdin = vp_in("<stdin>", c[0].b, c[0].n); }
	if (nxf == 0) { xv[0] = &x[0]; xn[0] = "<stdin>"; nxf = 1; stdin = vp_in("<stdin>", x[0].b, x[0].n); }
	wrc = -1;
	if (!usage && !gone) {
		cfg = ort_config_alloc(); for (i = 0; i < ncf && ok; i++) ok = parse_into(cfg, cv[i]->b, cv[i]->n, cn[i]);
		if (ok) ok = ort_parse_close(cfg);
		if (!ok) msgs(cfg);
		else {
			for (i = 0; i < nxf; i++) xf[i] = vp_in(xn[i], xv[i]->b, xv[i]->n);
			memset(&a, 0, sizeof a); a.in = xf; a.fnames = xn; a.insz = (size_t)nxf; a.flags = copy ? ORT_LANG_XLIFF_COPY : 0; o = vp_out();
			rc = op == 1 || op == 3 ? ort_lang_xliff_update(&a, cfg, o, &mq) : ort_lang_xliff_join(&a, cfg, o, &mq);
			if (rc > 0) { char *b = vp_out_buf(o, &wantn); want = dup_n(b, wantn); wrc = 0; msgs(cfg); more(&mq); }
		}
	}
	so = vp_out(); se = vp_out(); stdout = so; stderr = se; vp_on_exit = finish;
	rc = main_xliff(ac, av); finish(rc);
	return 0;
}
static const char *const styp[] = { "count", "search", "list", "iterate" };
static void line(struct tx *t, const char *ty, const char *comp, const struct pos *p, size_t w) { size_t i; tx_s(t, ty); for (i = strlen(ty); i < 12; i++) tx_c(t, ' '); tx_s(t, comp); for (i = strlen(comp); i < w; i++) tx_c(t, ' '); tx_f(t, " %s:%zu:%zu\n", p->fname, p->line, p->column); }
int harness(void) {
	int tool = (int)vp_param("tool", 0), no = (int)vp_param("nopt", 1), i, k, ok = 1, usage = 0, nofile = 0, ns = 0; const char *sh, *role = NULL, *str = NULL; unsigned fl = 0, inc = 0; char oldf[4] = "", newf[4] = ""; struct config *c, *d = NULL; FILE *o; int rc = 1, isdiff = tool == DIFF || tool == SQLDIFF, verb = 0;
	if (vp_param("xl", 0)) return xl();
	static const char priv[] = "/* private */\n";
	switch (tool) { case HEADER: fl = ORT_LANG_C_CORE | ORT_LANG_C_DB_SQLBOX; str = "DB_H"; break; case SOURCE: fl = ORT_LANG_C_DB_SQLBOX; str = "db.h"; break; case NODE: fl = ORT_LANG_NODEJS_DB | ORT_LANG_NODEJS_CORE; break; }
	av[ac++] = "tool";
	if (tool == SOURCE || tool == JS) { av[ac++] = "-S"; av[ac++] = "."; vp_file("./jsmn.c", priv, sizeof priv - 1); vp_file("./ortPrivate.ts", priv, sizeof priv - 1); }
	/* options */
	for (i = 0; i < no; i++) {
		char nm[8]; const struct opt *q; snprintf(nm, sizeof nm, "o%d", i); k = pickc(nm, 0, opts[tool].n); if (k == opts[tool].n) continue;
		q = &opts[tool].o[k]; av[ac++] = (char *)q->a; if (q->b) av[ac++] = (char *)q->b;
		if (!strcmp(q->a, "-Z")) usage = 1; else if (!strcmp(q->a, "-g") && !q->b) { ns = 1; } else if (q->set == 1u << 30) nofile = 1;
		else if (tool == AUDIT || tool == AJSON || tool == SQLDIFF) verb |= (int)q->set; else { fl |= q->set; inc |= q->inc; }
		fl &= ~q->clr; if (q->s) { if (tool == AUDIT || tool == AJSON) role = q->s; else str = q->s; }
		if (ns) break;	/* an option at the end without its argument */
	}
	if ((tool == AUDIT || tool == AJSON) && role == NULL && !usage) { av[ac++] = "-r"; av[ac++] = "ro"; role = "ro"; }
	if (vp_param("dashes", 0) && !ns) av[ac++] = "--";
	/* operands */
	for (i = 0; i < 3; i++) { tx_init(&files[i]); } tx_init(&in);
	sh = shapes[vp_param("shape", 0)]; if (ns) sh = "";
	{ int seenf = 0; const char *p; char *q = isdiff ? oldf : newf;
	  for (p = sh; *p; p++) {
		if (*p == 'f') { seenf = 1; av[ac++] = "-f"; q = newf; continue; }
		if (*p == '!' || *p == 'x') { av[ac++] = "none.ort"; nofile = 1; if (*p == 'x') q = newf; continue; }
		if (*p == 'n') continue;
		k = *p - 'a'; { char nm[8]; snprintf(nm, sizeof nm, "f%d", k); content(&files[k], vp_param("audit", 0) ? 6 : pickc(nm, 0, NCONT - 1)); vp_file(fname[k], files[k].b, files[k].n); } av[ac++] = (char *)fname[k]; { size_t l = strlen(q); q[l] = *p; q[l + 1] = 0; }
	  }
	  if (isdiff && !seenf) { if (strlen(oldf) == 2) { newf[0] = oldf[1]; newf[1] = 0; oldf[1] = 0; } else if (strlen(oldf) > 2) usage = 1; }
	  if (isdiff && !*oldf && !*newf && !nofile) usage = 1; }
	if (!*newf || (isdiff && !*oldf)) content(&in, pickc("stdin", 0, NCONT - 1));
	av[ac] = NULL;
	/* what is wanted */
	wrc = tool == DIFF ? -2 : -1;
	if (!usage && !ns && !nofile) {
		int okn, oko = 1; o = vp_out();
		c = load(newf, &okn); if (isdiff) { if (okn) d = load(oldf, &oko); else d = ort_config_alloc(); }
		if (okn && oko) okn = ort_parse_close(c); if (okn && oko && isdiff) oko = ort_parse_close(d);
		ok = okn && oko; msgs(c); if (isdiff) msgs(d);
		if (!ok && isdiff) wmsg = NULL;	/* which of the two is told of is left open */
		if (ok) {
			struct ort_lang_c ca; struct msgq mq = TAILQ_HEAD_INITIALIZER(mq); memset(&ca, 0, sizeof ca); ca.flags = fl; ca.includes = inc; ca.header = ca.guard = str; ca.ext_jsmn = priv; wrc = 0;
			switch (tool) {
			case ORT: rc = ort_write_file(o, c); break;
			case SQL: rc = ort_lang_sql(NULL, c, o); break;
			case JSON: { struct ort_lang_json a; memset(&a, 0, sizeof a); rc = ort_lang_json(&a, c, o); break; }
			case RUST: { struct ort_lang_rust a; memset(&a, 0, sizeof a); rc = ort_lang_rust(&a, c, o); break; }
			case HEADER: rc = ort_lang_c_header(&ca, c, o); break;
			case SOURCE: rc = ort_lang_c_source(&ca, c, o); break;
			case MAN: rc = ort_lang_c_manpage(&ca, c, o); break;
			case NODE: { struct ort_lang_nodejs a; memset(&a, 0, sizeof a); a.flags = fl; rc = ort_lang_nodejs(&a, c, o); break; }
			case JS: { struct ort_lang_js a; memset(&a, 0, sizeof a); a.ext_privMethods = priv; rc = ort_lang_javascript(c, &a, o); break; }
			case XLIFF: { struct ort_lang_xliff a; memset(&a, 0, sizeof a); a.flags = fl; rc = ort_lang_xliff_extract(&a, c, o, &mq); if (rc <= 0) { wrc = -1; wmsg = NULL; } else more(&mq); break; }
			case AUDIT: case AJSON: {
				const struct role *r; struct auditq *q; const struct audit *a; struct tx t; size_t w = 0, pass, j; char comp[128];
				TAILQ_FOREACH(r, &c->arq, allentries) if (!strcasecmp(r->name, role)) break;
				if (TAILQ_EMPTY(&c->arq) || r == NULL) { wrc = -1; wmsg = NULL; break; }
				q = ort_audit(r, c); vp_assert(q != NULL, "audited"); tx_init(&t);
				for (pass = 0; pass < 2; pass++) TAILQ_FOREACH(a, q, entries) {
					size_t n = 1, isr = a->type == AUDIT_REACHABLE; const char *ty = ""; const struct pos *p = NULL;
					if (isr && verb) n = a->ar.srsz;
					for (j = 0; j < n; j++) {
						switch (a->type) {
						case AUDIT_INSERT: ty = "insert"; p = &a->st->ins->pos; snprintf(comp, sizeof comp, "%s", a->st->name); break;
						case AUDIT_UPDATE: ty = a->up->type == UP_DELETE ? "delete" : "update"; p = &a->up->pos; snprintf(comp, sizeof comp, "%s:%s", a->up->parent->name, a->up->name ? a->up->name : "-"); break;
						case AUDIT_QUERY: ty = styp[a->sr->type]; p = &a->sr->pos; snprintf(comp, sizeof comp, "%s:%s", a->sr->parent->name, a->sr->name ? a->sr->name : "-"); break;
						default:
							if (!verb) { ty = a->ar.exported ? "readwrite" : "read"; p = &a->ar.st->pos; snprintf(comp, sizeof comp, "%s", a->ar.st->name); }
							else { const struct auditpaths *s = &a->ar.srs[j]; ty = s->exported ? "readwrite" : "read"; p = &s->sr->pos; snprintf(comp, sizeof comp, "%s:%s:%s:%s", a->ar.st->name, styp[s->sr->type], s->sr->name ? s->sr->name : "-", s->path ? s->path : "-"); }
						}
						if (!pass) { if (strlen(comp) > w) w = strlen(comp); } else line(&t, ty, comp, p, w + 1);
					}
				}
				fwrite(t.b, 1, t.n, o); break; }
			case DIFF: { struct diffq *q = ort_diff(d, c); const struct diff *x; const char *on[3], *nn[3]; size_t a1 = 0, a2 = 0; const char *p; TAILQ_FOREACH(x, q, entries) switch (x->type) { case DIFF_SAME_BITF: case DIFF_SAME_BITIDX: case DIFF_SAME_EITEM: case DIFF_SAME_ENM: case DIFF_SAME_FIELD: case DIFF_SAME_INSERT: case DIFF_SAME_ROLE: case DIFF_SAME_ROLES: case DIFF_SAME_SEARCH: case DIFF_SAME_STRCT: case DIFF_SAME_UPDATE: break; default: wrc = 1; }
				for (p = oldf; *p; p++) on[a1++] = fname[*p - 'a']; for (p = newf; *p; p++) nn[a2++] = fname[*p - 'a']; rc = ort_write_diff_file(o, q, nn, a2, on, a1); break; }
			case SQLDIFF: { struct diffq *q = ort_diff(d, c); rc = ort_lang_diff_sql(NULL, q, verb, o, &mq); if (rc <= 0) { wrc = -1; wmsg = NULL; rc = 1; } else more(&mq); break; }
			}
			vp_assert(tool == XLIFF || rc > 0, "library-succeeds");
			if (wrc >= 0) { char *b = vp_out_buf(o, &wantn); want = dup_n(b, wantn); }
		}
	}
	stdin = vp_in("<stdin>", in.b, in.n); so = vp_out(); se = vp_out(); stdout = so; stderr = se;
	if (tool == AJSON && want) { want = NULL; wmin = 1; }
	wcfg = c; wrole = role;
	vp_on_exit = finish;
	rc = mains[tool](ac, av);
	if (wmin) { size_t n, m; char *b = vp_out_buf(so, &n); vp_out_buf(se, &m); vp_assert(rc == 0, "exit-status"); vp_assert(n > 2 && m == wmsgn, "output"); ajson(b, n, verb); vp_reach("succeeded"); return 0; }
	finish(rc);
	return 0;
}
