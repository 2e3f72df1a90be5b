/* Every output generator behind one call. */
#ifndef GENS_H
#define GENS_H
#include "ort-lang-c.h"
#include "ort-lang-javascript.h"
#include "ort-lang-json.h"
#include "ort-lang-nodejs.h"
#include "ort-lang-rust.h"
#include "ort-lang-sql.h"
#include "ort-lang-xliff.h"
enum gen { G_ORT, G_SQL, G_CHEADER, G_CSOURCE, G_CMAN, G_JSON, G_JS, G_NODE, G_RUST, G_XLIFF, G__MAX };
static const char *const gen_names[] = { "ort", "sql", "c-header", "c-source", "c-manpage", "json", "javascript", "nodejs", "rust", "xliff" };
static int gen_one(enum gen g, const struct config *c, FILE *o) {
	struct ort_lang_sql sq; struct ort_lang_js js; struct ort_lang_c ca; struct ort_lang_nodejs nj; struct ort_lang_rust ru; struct ort_lang_json j; struct ort_lang_xliff x;
	struct msgq mq = TAILQ_HEAD_INITIALIZER(mq); int rc;
	memset(&sq, 0, sizeof sq); memset(&js, 0, sizeof js); memset(&ca, 0, sizeof ca); memset(&nj, 0, sizeof nj); memset(&ru, 0, sizeof ru); memset(&j, 0, sizeof j); memset(&x, 0, sizeof x);
	ca.flags = ORT_LANG_C_JSON_KCGI | ORT_LANG_C_JSON_JSMN | ORT_LANG_C_VALID_KCGI | ORT_LANG_C_DB_SQLBOX | ORT_LANG_C_CORE | ORT_LANG_C_SAFE_TYPES; ca.guard = "DB_H"; ca.header = "db.h"; ca.ext_jsmn = "";
	js.ext_privMethods = ""; nj.flags = ORT_LANG_NODEJS_DB | ORT_LANG_NODEJS_CORE | ORT_LANG_NODEJS_VALID;
	switch (g) {
	case G_ORT: return ort_write_file(o, c);
	case G_SQL: return ort_lang_sql(&sq, c, o);
	case G_CHEADER: return ort_lang_c_header(&ca, c, o);
	case G_CSOURCE: return ort_lang_c_source(&ca, c, o);
	case G_CMAN: return ort_lang_c_manpage(&ca, c, o);
	case G_JSON: return ort_lang_json(&j, c, o);
	case G_JS: return ort_lang_javascript(c, &js, o);
	case G_NODE: return ort_lang_nodejs(&nj, c, o);
	case G_RUST: return ort_lang_rust(&ru, c, o);
	case G_XLIFF: rc = ort_lang_xliff_extract(&x, c, o, &mq); ort_msgq_free(&mq); return rc;
	default: return 0;
	}
}
/* output as a fresh NUL-terminated string, or NULL when the generator fails */
static char *gen_str(enum gen g, const struct config *c, size_t *n) {
	FILE *o = vp_out(); char *r = NULL, *b; size_t m;
	if (gen_one(g, c, o)) { b = vp_out_buf(o, &m); r = calloc(1, m + 1); memcpy(r, b, m); if (n) *n = m; }
	fclose(o); return r;
}
#endif
