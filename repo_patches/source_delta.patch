From cf2a1fb81abf1fe03cfad3458d986e2a02bcbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:01 +0000
Subject: [PATCH 01/78] fix: reject input that ends inside a top-level object

---
 parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.c b/parser.c
index 11cd1d5..723ab46 100644
--- a/parser.c
+++ b/parser.c
@@ -747,6 +747,13 @@ parse_root(struct parse *p)
 			parse_bitfield(p);
 		else
 			parse_errx(p, "unknown top-level type");
+
+		/* Objects end in a semicolon, not in the end of file. */
+
+		if (p->lasttype == TOK_EOF) {
+			parse_errx(p, "unexpected end of file");
+			return 0;
+		}
 	}
 
 	return 1;
-- 
2.43.0


From 5039bdebccb880270823de08c9d3411d4fac2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 02/78] fix: reject a dash at the end of the input

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 723ab46..eb12c00 100644
--- a/parser.c
+++ b/parser.c
@@ -460,7 +460,7 @@ again:
 
 	if ('-' == c) {
 		c = parse_nextchar(p);
-		if (parse_check_error_eof(p))
+		if (parse_check_error(p))
 			return(parse_read_err(p));
 		if ( ! isdigit(c))
 			return(parse_errx(p, "expected digit"));
-- 
2.43.0


From 3165d2bb7ac3475f287d2a829ddc1bfd5953aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 03/78] fix: manual page for configurations without inserts

---
 lang-c-manpage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lang-c-manpage.c b/lang-c-manpage.c
index 9073d25..24bc9bf 100644
--- a/lang-c-manpage.c
+++ b/lang-c-manpage.c
@@ -981,7 +981,7 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 		if (s->ins != NULL)
 			break;
 	if (s == NULL)
-		return 0;
+		return 1;
 
 	if (!syn && fputs(
 	    ".Ss Database inserts\n"
@@ -989,11 +989,11 @@ gen_inserts(FILE *f, const struct config *cfg, int syn)
 	    "All functions return -1 on constraint failure or the new\n"
 	    "row identifier on success.\n"
 	    ".Bl -tag -width Ds\n", f) == EOF)
-		return -1;
+		return 0;
 
 	TAILQ_FOREACH(s, &cfg->sq, entries) 
 		if (s->ins != NULL && !gen_insert(f, s, syn))
-			return -1;
+			return 0;
 
 	if (!syn && fputs(".El\n", f) == EOF)
 		return 0;
-- 
2.43.0


From 1e712022751ddeaa74d3277db69341f2154dcfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 04/78] fix: signed overflow after an enumeration with an
 invalid value

---
 parser_enum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_enum.c b/parser_enum.c
index 6eb630a..989c658 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -282,7 +282,7 @@ parse_enum(struct parse *p)
 
 	/* Auto-assign values, if not given. */
 
-	if (foundauto) {
+	if (foundauto && !PARSE_STOP(p)) {
 		maxv = maxv < 0 ? 0 : maxv + 1;
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (ei->flags & EITEM_AUTO)
-- 
2.43.0


From 0ced284d8f5580d7ac3b061fe6db0f183d2eb851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 05/78] fix: out-of-range parts of a date default

---
 parser_field.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser_field.c b/parser_field.c
index 003c690..f811bbf 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -326,7 +326,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected year (integer)");
 					break;
-				} else if (p->last.integer > INT_MAX) {
+				} else if (p->last.integer < 0 ||
+				    p->last.integer > INT_MAX) {
 					parse_errx(p, "invalid year");
 					break;
 				}
@@ -334,10 +335,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected month (integer)");
 					break;
-				} else if (p->last.integer >= 0) {
-					parse_errx(p, "invalid month");
-					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer >= 0 ||
+				    p->last.integer < -12) {
 					parse_errx(p, "invalid month");
 					break;
 				}
@@ -345,10 +344,8 @@ parse_field_info(struct parse *p, struct field *fd)
 				if (parse_next(p) != TOK_INTEGER) {
 					parse_errx(p, "expected day (integer)");
 					break;
-				} else if (p->last.integer >= 0) {
-					parse_errx(p, "invalid day");
-					break;
-				} else if (p->last.integer < INT_MIN) {
+				} else if (p->last.integer >= 0 ||
+				    p->last.integer < -31) {
 					parse_errx(p, "invalid day");
 					break;
 				}
-- 
2.43.0


From 75b74ee64c1c9b716ae4db2561bd153d6f81641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 06/78] fix: date defaults depend on the local time zone

---
 parser_field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_field.c b/parser_field.c
index f811bbf..2415ed4 100644
--- a/parser_field.c
+++ b/parser_field.c
@@ -352,7 +352,7 @@ parse_field_info(struct parse *p, struct field *fd)
 				tm.tm_mday = (int)-p->last.integer;
 				tm.tm_isdst = -1;
 				fd->flags |= FIELD_HASDEF;
-				fd->def.integer = mktime(&tm); 
+				fd->def.integer = timegm(&tm);
 				break;
 			case FTYPE_BIT:
 			case FTYPE_BITFIELD:
-- 
2.43.0


From 427b70afbdf7f84d2c926f15ff092c4752ebe831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 07/78] fix: date defaults are written as numbers, which do not
 parse

---
 writer.c | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/writer.c b/writer.c
index 7c3b094..0ff96cb 100644
--- a/writer.c
+++ b/writer.c
@@ -23,10 +23,12 @@
 #include <assert.h>
 #include <ctype.h>
 #include <inttypes.h>
+#include <math.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <time.h>
 
 #include "ort.h"
 
@@ -184,6 +186,30 @@ parse_write_comment(struct writer *w, const char *cp, size_t tabs)
 	return wputs(w, "\"");
 }
 
+/*
+ * Write a real number in the decimal notation of ort(5) with the fewest
+ * fractional digits that read back as the same value.
+ * Returns zero on failure (memory), non-zero otherwise.
+ */
+static int
+parse_write_real(struct writer *w, double v)
+{
+	char	 buf[2048];
+	int	 prec;
+
+	/* Whole numbers small enough need not have a fraction. */
+
+	prec = (signbit(v) && v == 0.0) || fabs(v) > 1e15 ? 1 : 0;
+
+	for ( ; prec < 1100; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+
+	return wputs(w, buf);
+}
+
 /*
  * Write a structure field.
  * Returns zero on failure (memory), non-zero otherwise.
@@ -192,6 +218,8 @@ static int
 parse_write_field(struct writer *w, const struct field *p)
 {
 	const struct fvalid *fv;
+	struct tm	 tm;
+	time_t		 t;
 	unsigned int	 fl;
 	int		 rc;
 
@@ -246,15 +274,22 @@ parse_write_field(struct writer *w, const struct field *p)
 		switch (p->type) {
 		case FTYPE_BIT:
 		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
 			rc = wprint(w, " default %" PRId64,
 				p->def.integer);
 			break;
+		case FTYPE_DATE:
+			t = (time_t)p->def.integer;
+			if (gmtime_r(&t, &tm) == NULL)
+				return 0;
+			rc = wprint(w, " default %.4d-%.2d-%.2d",
+				tm.tm_year + 1900, tm.tm_mon + 1,
+				tm.tm_mday);
+			break;
 		case FTYPE_REAL:
-			rc = wprint(w, " default %g",
-				p->def.decimal);
+			rc = wputs(w, " default ") &&
+				parse_write_real(w, p->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
@@ -289,8 +324,8 @@ parse_write_field(struct writer *w, const struct field *p)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (!wprint(w, " limit %s %g",
-			    vtypes[fv->type], fv->d.value.decimal))
+			if (!wprint(w, " limit %s ", vtypes[fv->type]) ||
+			    !parse_write_real(w, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From 422968ec9852a95ccf66bdb76849cd9588be22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:43 +0000
Subject: [PATCH 08/78] fix: abort writing a limit on a bitfield

---
 lang-json.c | 1 +
 writer.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lang-json.c b/lang-json.c
index d45bf02..2373035 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -623,6 +623,7 @@ gen_field(FILE *f, const struct field *fd)
 			return 0;
 		switch (fd->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
diff --git a/writer.c b/writer.c
index 0ff96cb..e32bc7a 100644
--- a/writer.c
+++ b/writer.c
@@ -316,6 +316,7 @@ parse_write_field(struct writer *w, const struct field *p)
 	TAILQ_FOREACH(fv, &p->fvq, entries) 
 		switch (p->type) {
 		case FTYPE_BIT:
+		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
 		case FTYPE_EPOCH:
 		case FTYPE_INT:
-- 
2.43.0


From badcaa0aecbc64b1400021cc407ffb68e555cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 09/78] fix: repeated carriage returns before a newline are not
 normalised at once

---
 parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser.c b/parser.c
index eb12c00..3488365 100644
--- a/parser.c
+++ b/parser.c
@@ -498,11 +498,9 @@ again:
 
 			/* Strip out CRLF. */
 
-			if (last == '\r' && c == '\n') {
+			while (c == '\n' && p->bufsz > 0 &&
+			    p->buf[p->bufsz - 1] == '\r')
 				p->bufsz--;
-				last = p->bufsz == 0 ? 
-					' ' : p->buf[p->bufsz];
-			}
 
 			if (!buf_push(p, c))
 				return TOK_ERR;
-- 
2.43.0


From 518df6e85721e38f6a281e7ae930e984496507f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:44 +0000
Subject: [PATCH 10/78] fix: string literals are silently cut at NUL

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 3488365..ee8ae11 100644
--- a/parser.c
+++ b/parser.c
@@ -496,6 +496,12 @@ again:
 			if (c == EOF || (c == '"' && last != '\\'))
 				break;
 
+			/* Strings end at NUL, so it can't be content. */
+
+			if (c == '\0')
+				return parse_errx(p,
+					"NUL in string literal");
+
 			/* Strip out CRLF. */
 
 			while (c == '\n' && p->bufsz > 0 &&
-- 
2.43.0


From c60807bbab14b5940efeb2610be541d77345c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 11/78] fix: real limits and defaults lose precision in
 generated output

---
 lang-c-source.c | 2 +-
 lang-json.c     | 4 ++--
 lang-nodejs.c   | 2 +-
 lang-sql.c      | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 077b475..23cbb41 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2027,7 +2027,7 @@ gen_valids_field(FILE *f,
 		break;
 	case FTYPE_REAL:
 		if (fprintf(f,
-		    "\tif (p->parsed.d %s %g)\n"
+		    "\tif (p->parsed.d %s %.17g)\n"
 		    "\t\treturn 0;\n",
 		    validbins[v->type], v->d.value.decimal) < 0)
 			return 0;
diff --git a/lang-json.c b/lang-json.c
index 2373035..72172b7 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -589,7 +589,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%g\"", fd->def.decimal) < 0)
+			if (fprintf(f, "\"%.17g\"", fd->def.decimal) < 0)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -632,7 +632,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%g", 
+			if (fprintf(f, "%.17g", 
 			    fv->d.value.decimal) < 0)
 				return 0;
 			break;
diff --git a/lang-nodejs.c b/lang-nodejs.c
index 778be6d..e8a993b 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1646,7 +1646,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv %s %f))\n"
+			    "\t\t\tif (!(nv %s %.17g))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.decimal) < 0)
 				return 0;
diff --git a/lang-sql.c b/lang-sql.c
index 01a8315..26ec919 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -305,7 +305,7 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 			rc = fprintf(f, "%" PRId64, fd->def.integer);
 			break;
 		case FTYPE_REAL:
-			rc = fprintf(f, "%g", fd->def.decimal);
+			rc = fprintf(f, "%.17g", fd->def.decimal);
 			break;
 		case FTYPE_EMAIL:
 		case FTYPE_TEXT:
-- 
2.43.0


From 390f0cddc353fc68c5c37b30cb3ea5cd9bde2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 12/78] fix: structures are not always ordered after those they
 contain

---
 linker.c | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/linker.c b/linker.c
index fd7534b..c9b9351 100644
--- a/linker.c
+++ b/linker.c
@@ -82,26 +82,27 @@ gen_errx(struct config *cfg,
 }
 
 /*
- * Recursively annotate our height from each node.
+ * Recursively annotate our height from each node: the longest path of
+ * FTYPE_STRUCT fields leading to it, so that a structure is always
+ * higher than those containing it.
  * We only do this for FTYPE_STRUCT objects.
  */
 static void
-annotate(struct ref *ref, size_t height, size_t colour)
+annotate(struct ref *ref, size_t height)
 {
 	struct field	*f;
 	struct strct	*p;
 
 	p = ref->target->parent;
 
-	if (p->colour == colour)
+	if (p->height >= height)
 		return;
 
-	p->colour = colour;
-	p->height += height;
+	p->height = height;
 
 	TAILQ_FOREACH(f, &p->fq, entries)
 		if (FTYPE_STRUCT == f->type)
-			annotate(f->ref, height + 1, colour);
+			annotate(f->ref, height + 1);
 }
 
 /*
@@ -493,7 +494,7 @@ ort_parse_close(struct config *cfg)
 	struct field	 *f;
 	struct rolemap	 *rm;
 	struct search	 *srch;
-	size_t		  colour = 1, sz = 0, i = 0;
+	size_t		  sz = 0, i = 0;
 
 	if (TAILQ_EMPTY(&cfg->sq)) {
 		gen_errx(cfg, NULL, "no structures in configuration");
@@ -557,22 +558,15 @@ ort_parse_close(struct config *cfg)
 
 	/*
 	 * Now follow and order all outbound links for structs.
-	 * From the get-go, we don't descend into structures that we've
-	 * already coloured.
 	 * This establishes a "height" that we'll use when ordering our
 	 * structures in the header file.
 	 */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries) {
 		sz++;
-		if (p->colour)
-			continue;
 		TAILQ_FOREACH(f, &p->fq, entries)
-			if (FTYPE_STRUCT == f->type) {
-				p->colour = colour;
-				annotate(f->ref, 1, colour);
-			}
-		colour++;
+			if (FTYPE_STRUCT == f->type)
+				annotate(f->ref, p->height + 1);
 	}
 	assert(sz > 0);
 
-- 
2.43.0


From b4090d35028482f88120545f78478594b8a5e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 13/78] fix: noexport of all fields and of one field lose or
 leak roles

---
 linker_resolve.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index ce2dc64..e27180f 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -560,7 +560,7 @@ resolve_struct_rolemap_field(struct config *cfg,
 		/* Already specified! */
 
 		if (rdst != NULL)
-			return 1;
+			continue;
 
 		/* Source doesn't exist in destination. */
 
@@ -590,13 +590,10 @@ resolve_struct_rolemap_noexport(struct config *cfg,
 {
 	struct field	*f;
 
-	/* Start by applying noexport to all fields. */
+	/* All-fields are applied after all named: see the post step. */
 
 	if (r->name == NULL) {
 		r->result->f = NULL;
-		TAILQ_FOREACH(f, &r->result->parent->fq, entries)
-			if (!resolve_struct_rolemap_field(cfg, r, f))
-				return -1;
 		return 1;
 	}
 
@@ -642,6 +639,9 @@ resolve_struct_rolemap_post_cover(struct config *cfg,
 /*
  * For "all" rolemaps, add the assigned roles to all possible operations
  * except for "noexport".
+ * For "noexport" without a field, add the roles to all fields: this
+ * happens here because fields without roles of their own share the
+ * rolemap, so named fields must already have been assigned.
  * Returns zero on allocation failure, non-zero on success.
  */
 static int
@@ -650,6 +650,12 @@ resolve_struct_rolemap_post(struct config *cfg, struct struct_rolemap *r)
 	struct strct	*p;
 	struct update	*u;
 	struct search	*s;
+	struct field	*f;
+
+	if (r->type == ROLEMAP_NOEXPORT && r->name == NULL)
+		TAILQ_FOREACH(f, &r->result->parent->fq, entries)
+			if (!resolve_struct_rolemap_field(cfg, r, f))
+				return 0;
 
 	if (r->type != ROLEMAP_ALL)
 		return 1;
-- 
2.43.0


From c0217ec049cf61d7c827f24cb3877fb4c298e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 14/78] fix: allocation failures resolving queries are taken as
 success

---
 linker_resolve.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/linker_resolve.c b/linker_resolve.c
index e27180f..d5e9c4e 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -1008,20 +1008,32 @@ linker_resolve(struct config *cfg)
 	TAILQ_FOREACH(r, &cfg->priv->rq, entries)
 		switch (r->type) {
 		case RESOLVE_AGGR:
-			fail += !resolve_struct_aggr
+			rc = resolve_struct_aggr
 				(cfg, &r->struct_aggr);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_DISTINCT:
-			fail += !resolve_struct_distinct
+			rc = resolve_struct_distinct
 				(cfg, &r->struct_distinct);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_GROUPROW:
-			fail += !resolve_struct_grouprow
+			rc = resolve_struct_grouprow
 				(cfg, &r->struct_grouprow);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ORDER:
-			fail += !resolve_struct_order
+			rc = resolve_struct_order
 				(cfg, &r->struct_order);
+			if (rc < 0)
+				return 0;
+			fail += !rc;
 			break;
 		case RESOLVE_ROLEMAP:
 			if (!resolve_struct_rolemap_post
-- 
2.43.0


From 5e94d74ed26c563ecad44f82a5e9e96fd17d152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 15/78] fix: bit operators in update constraints are not
 checked for type

---
 linker_resolve.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/linker_resolve.c b/linker_resolve.c
index d5e9c4e..df437e9 100644
--- a/linker_resolve.c
+++ b/linker_resolve.c
@@ -295,6 +295,20 @@ resolve_up_const(struct config *cfg, struct struct_up_const *r)
 		errs++;
 	}
 	
+	/* Bit operations only on bits and integers, as in queries. */
+
+	if (r->result->field != NULL &&
+	    (r->result->op == OPTYPE_AND ||
+	     r->result->op == OPTYPE_OR) &&
+	    r->result->field->type != FTYPE_BIT &&
+	    r->result->field->type != FTYPE_BITFIELD &&
+	    r->result->field->type != FTYPE_INT) {
+		gen_errx(cfg, &r->result->pos, 
+			"bit operations only available on bit, "
+			"bitfield, and integer types");
+		errs++;
+	}
+
 	/* Warning: isnot or notnull on non-null fields. */
 
 	if (r->result->field != NULL &&
-- 
2.43.0


From c751d99b42205b8f3c9b3c69bb25e0f1874875cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 16/78] fix: some duplicate unique statements are not detected

---
 linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index c9b9351..eb6f4b1 100644
--- a/linker.c
+++ b/linker.c
@@ -394,7 +394,7 @@ check_unique_unique(struct config *cfg, struct strct *s)
 					break;
 			}
 			if (nf != NULL)
-				break;
+				continue;
 			gen_errx(cfg, &u->pos, "duplicate "
 				"unique statements: %s:%zu:%zu",
 				uu->pos.fname, uu->pos.line,
-- 
2.43.0


From 007bf9ce625065f2f12274eaf7959e7c36a20d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 17/78] fix: updates and deletes of the same name are accepted

---
 parser_struct.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser_struct.c b/parser_struct.c
index 4457f81..aa58f28 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -915,7 +915,7 @@ parse_struct_unique(struct parse *p, struct strct *s)
 static void
 parse_struct_update(struct parse *p, struct strct *s, enum upt type)
 {
-	struct update	*up;
+	struct update	*up, *uu;
 	struct uref	*ur;
 	char		*cp;
 
@@ -1075,6 +1075,15 @@ terms:
 				parse_errx(p, "expected term name");
 				return;
 			}
+			TAILQ_FOREACH(uu, up->type == UP_MODIFY ?
+			    &s->uq : &s->dq, entries)
+				if (uu != up && uu->name != NULL &&
+				    strcasecmp(uu->name, 
+				    p->last.string) == 0) {
+					parse_errx(p, "duplicate "
+						"operation name");
+					return;
+				}
 			free(up->name);
 			up->name = strdup(p->last.string);
 			if (NULL == up->name) {
-- 
2.43.0


From 3b89bff30a0a473e359ae327aebdb17a9ca6c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:41 +0000
Subject: [PATCH 18/78] fix: aliases past the first 676 are not alphabetic

---
 linker_aliases.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 707c1ec..6b75e02 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -85,7 +85,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		if (*offs >= 26 * 26)
 			c = asprintf(&a->alias, "_%c%c%c", 
 				(char)(*offs / 26 / 26) + 97,
-				(char)(*offs / 26) + 97,
+				(char)(*offs / 26 % 26) + 97,
 				(char)(*offs % 26) + 97);
 		else if (*offs >= 26)
 			c = asprintf(&a->alias, "_%c%c", 
-- 
2.43.0


From 898665db3fa28884209346fbbd45b5c1cef7ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 19/78] fix: references into a cycle exhaust aliases instead of
 being rejected

---
 linker_aliases.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/linker_aliases.c b/linker_aliases.c
index 6b75e02..f1e59fb 100644
--- a/linker_aliases.c
+++ b/linker_aliases.c
@@ -33,7 +33,8 @@
 /*
  * Map all "parent.child" chains of foreign references from a given
  * structure (recursively) into alias names.
- * Also checks that the given "orig" does not have infinite recursion.
+ * Also checks that the given "orig" does not have infinite recursion:
+ * a chain may not be longer than "max", the number of structures.
  * This is used when creating SQL queries because we might join on the
  * same structure more than once, so it requires "AS" statements.
  * The "AS" name is the alias name.
@@ -42,7 +43,8 @@
  */
 static int
 linker_aliases_create(struct config *cfg, struct strct *orig, 
-	struct strct *p, size_t *offs, const struct alias *prior)
+	struct strct *p, size_t *offs, const struct alias *prior,
+	size_t max)
 {
 	struct field	*f;
 	struct alias	*a;
@@ -53,7 +55,7 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 			continue;
 		assert(f->ref != NULL);
 
-		if (f->ref->target->parent == orig) {
+		if (f->ref->target->parent == orig || max == 0) {
 			gen_errx(cfg, &orig->pos,
 				"contains recursive references");
 			return 0;
@@ -103,7 +105,8 @@ linker_aliases_create(struct config *cfg, struct strct *orig,
 		(*offs)++;
 
 		if (!linker_aliases_create
-		    (cfg, orig, f->ref->target->parent, offs, a))
+		    (cfg, orig, f->ref->target->parent, offs, a, 
+		     max - 1))
 			return 0;
 	}
 
@@ -228,13 +231,17 @@ int
 linker_aliases(struct config *cfg)
 {
 	struct strct	*p;
-	size_t		 count = 0;
+	size_t		 count = 0, max = 0;
 	struct search	*srch;
 
+	TAILQ_FOREACH(p, &cfg->sq, entries)
+		max++;
+
 	/* Creates aliases and checks for infinite recursion. */
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		if (!linker_aliases_create(cfg, p, p, &count, NULL))
+		if (!linker_aliases_create
+		    (cfg, p, p, &count, NULL, max))
 			return 0;
 
 	/* Assigns aliases to search types. */
-- 
2.43.0


From bca21369da307784d4bb1b190f105edf3e979624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 20/78] fix: C and SQL keywords are accepted as identifiers

---
 parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser.c b/parser.c
index ee8ae11..5480cfc 100644
--- a/parser.c
+++ b/parser.c
@@ -54,17 +54,23 @@ static	const char *const badidents[] = {
 	"extern",
 	"float",
 	"goto",
+	"inline",
+	"int",
 	"long",
 	"register",
+	"return",
 	"short",
 	"signed",
+	"sizeof",
 	"static",
 	"struct",
+	"switch",
 	"typedef",
 	"union",
 	"unsigned",
 	"void",
 	"volatile",
+	"while",
 	/* Things not allowed in SQLite. */
 	"ABORT",
 	"ACTION",
@@ -143,6 +149,7 @@ static	const char *const badidents[] = {
 	"MATCH",
 	"NATURAL",
 	"NOT",
+	"NOTHING",
 	"NOTNULL",
 	"NULL",
 	"OF",
@@ -164,6 +171,7 @@ static	const char *const badidents[] = {
 	"RENAME",
 	"REPLACE",
 	"RESTRICT",
+	"RETURNING",
 	"RIGHT",
 	"ROLLBACK",
 	"ROW",
-- 
2.43.0


From 56df4d41efe6b44064546d1a70c35256515378af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 21/78] fix: decimals are refused after an earlier range error

---
 parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.c b/parser.c
index 5480cfc..9a1646c 100644
--- a/parser.c
+++ b/parser.c
@@ -562,6 +562,7 @@ again:
 		if ( ! buf_push(p, '\0'))
 			return TOK_ERR;
 		if (hasdot) {
+			errno = 0;
 			p->last.decimal = strtod(p->buf, &epp);
 			if (epp == p->buf || ERANGE == errno)
 				return(parse_errx(p, 
-- 
2.43.0


From ce62720f769bb5af006cb296919208528c1eb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 22/78] fix: automatic enumeration values next to large ones
 are refused

---
 parser_enum.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 989c658..98e72ee 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -211,12 +211,14 @@ parse_enum_data(struct parse *p, struct enm *e)
 					maxvalue = ei->value;
 		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
 		TAILQ_FOREACH(ei, &e->eq, entries)
-			if (maxvalue == INT64_MAX) {
+			if (!(ei->flags & EITEM_AUTO)) {
+				continue;
+			} else if (maxvalue == INT64_MAX) {
 				parse_errx(p, "integer overflow "
 					"when assigning dynamic "
 					"enum value");
 				return;
-			} else if ((ei->flags & EITEM_AUTO))
+			} else
 				ei->value = maxvalue++;
 	}
 
-- 
2.43.0


From dd41c28ff40b956a18dbb257a48669f630de93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 23/78] fix: labels compare by order of languages instead of
 language

---
 diff.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/diff.c b/diff.c
index 01827f0..9f868c8 100644
--- a/diff.c
+++ b/diff.c
@@ -82,10 +82,13 @@ ort_check_rolemap_roles(const struct rolemap *from,
 
 /*
  * Make sure that the queue of labels contains the same data.
+ * A language's index depends on its order of appearance, so compare
+ * languages by name.
  * Return zero if dissimilar, non-zero if similar.
  */
 static int
-ort_check_labels(const struct labelq *from, const struct labelq *into)
+ort_check_labels(const struct config *cfrom, const struct labelq *from,
+	const struct config *cinto, const struct labelq *into)
 {
 	size_t	 		 fromsz = 0, intosz = 0;
 	const struct label	*linto, *lfrom;
@@ -103,7 +106,8 @@ ort_check_labels(const struct labelq *from, const struct labelq *into)
 
 	TAILQ_FOREACH(lfrom, from, entries) {
 		TAILQ_FOREACH(linto, into, entries) {
-			if (linto->lang != lfrom->lang)
+			if (strcmp(cinto->langs[linto->lang],
+			    cfrom->langs[lfrom->lang]))
 				continue;
 			if (strcmp(linto->label, lfrom->label))
 				continue;
@@ -220,6 +224,7 @@ ort_check_comment(const char *from, const char *into)
  */
 static int
 ort_diff_bitidx(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitidx *ifrom, const struct bitidx *iinto)
 {
 	struct diff	*d;
@@ -244,7 +249,8 @@ ort_diff_bitidx(struct diffq *q,
 		type = DIFF_MOD_BITIDX;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_BITIDX_LABELS)) == NULL)
 			return -1;
 		d->bitidx_pair.from = ifrom;
@@ -436,6 +442,7 @@ ort_diff_field(struct diffq *q,
  */
 static int
 ort_diff_eitem(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct eitem *ifrom, const struct eitem *iinto)
 {
 	struct diff	*d;
@@ -468,7 +475,8 @@ ort_diff_eitem(struct diffq *q,
 		type = DIFF_MOD_EITEM;
 	}
 
-	if (!ort_check_labels(&ifrom->labels, &iinto->labels)) {
+	if (!ort_check_labels
+	    (cfrom, &ifrom->labels, cinto, &iinto->labels)) {
 		if ((d = diff_alloc(q, DIFF_MOD_EITEM_LABELS)) == NULL)
 			return -1;
 		d->eitem_pair.from = ifrom;
@@ -488,6 +496,7 @@ ort_diff_eitem(struct diffq *q,
  */
 static int
 ort_diff_bitf(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct bitf *efrom, const struct bitf *einto)
 {
 	const struct bitidx	*ifrom, *iinto;
@@ -504,7 +513,8 @@ ort_diff_bitf(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->bq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_bitidx(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_bitidx
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_BITF;
@@ -534,9 +544,9 @@ ort_diff_bitf(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	     (&efrom->labels_unset, &einto->labels_unset) ||
+	     (cfrom, &efrom->labels_unset, cinto, &einto->labels_unset) ||
 	    !ort_check_labels
-	     (&efrom->labels_null, &einto->labels_null)) {
+	     (cfrom, &efrom->labels_null, cinto, &einto->labels_null)) {
 		d = diff_alloc(q, DIFF_MOD_BITF_LABELS);
 		if (d == NULL)
 			return 0;
@@ -1281,6 +1291,7 @@ ort_diff_strct(struct diffq *q,
  */
 static int
 ort_diff_enm(struct diffq *q,
+	const struct config *cfrom, const struct config *cinto,
 	const struct enm *efrom, const struct enm *einto)
 {
 	const struct eitem	*ifrom, *iinto;
@@ -1297,7 +1308,8 @@ ort_diff_enm(struct diffq *q,
 		TAILQ_FOREACH(ifrom, &efrom->eq, entries)
 			if (strcasecmp(iinto->name, ifrom->name) == 0)
 				break;
-		if ((rc = ort_diff_eitem(q, ifrom, iinto)) < 0)
+		if ((rc = ort_diff_eitem
+		    (q, cfrom, cinto, ifrom, iinto)) < 0)
 			return 0;
 		else if (rc > 0)
 			type = DIFF_MOD_ENM;
@@ -1326,7 +1338,7 @@ ort_diff_enm(struct diffq *q,
 	}
 
 	if (!ort_check_labels
-	    (&efrom->labels_null, &einto->labels_null)) {
+	    (cfrom, &efrom->labels_null, cinto, &einto->labels_null)) {
 		if ((d = diff_alloc(q, DIFF_MOD_ENM_LABELS)) == NULL)
 			return 0;
 		d->enm_pair.from = efrom;
@@ -1362,7 +1374,8 @@ ort_diff_bitfs(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_BITF)) == NULL)
 				return 0;
 			d->bitf = einto;
-		} else if (!ort_diff_bitf(q, efrom, einto))
+		} else if (!ort_diff_bitf
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
@@ -1612,7 +1625,8 @@ ort_diff_enms(struct diffq *q,
 			if ((d = diff_alloc(q, DIFF_ADD_ENM)) == NULL)
 				return 0;
 			d->enm = einto;
-		} else if (!ort_diff_enm(q, efrom, einto))
+		} else if (!ort_diff_enm
+		    (q, from, into, efrom, einto))
 			return 0;
 	}
 
-- 
2.43.0


From a9b795a48a69fc86b052c6ad5f7892aee7a11b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:51 +0000
Subject: [PATCH 24/78] fix: role constraint name used after its token was
 overwritten

The name is in the parser's token buffer, which reading the next token
may reallocate or overwrite if that token isn't the semicolon.
---
 parser_struct.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index aa58f28..0785561 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1359,16 +1359,22 @@ parse_struct_roles(struct parse *p, struct strct *s)
 			goto cleanup;
 		} 
 
-		/* Assign all roles to the given operation. */
-
-		if (!rolemap_assign(p, s, 
-		    (const char *const *)ns, nsz, type, name))
-			goto cleanup;
+		/*
+		 * Reading anything but the semicolon may have
+		 * overwritten or moved the token we're pointing at, so
+		 * check for it before using the name.
+		 */
 
 		if (p->lasttype != TOK_SEMICOLON) {
 			parse_errx(p, "expected semicolon");
 			goto cleanup;
 		}
+
+		/* Assign all roles to the given operation. */
+
+		if (!rolemap_assign(p, s, 
+		    (const char *const *)ns, nsz, type, name))
+			goto cleanup;
 	}
 
 	if (!PARSE_STOP(p) && p->lasttype == TOK_RBRACE)
-- 
2.43.0


From cc924aba0eadd5bf095006f13eb6d759ba4581a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:15 +0000
Subject: [PATCH 25/78] fix: group and constraint accepted in different joins
 of a structure

Their structures must be the same, but the same structure may be joined
several times in a query: compare the joins as well.
---
 linker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linker.c b/linker.c
index eb6f4b1..e7a0ea9 100644
--- a/linker.c
+++ b/linker.c
@@ -149,7 +149,8 @@ check_aggrtype(struct config *cfg, const struct search *srch)
 			errs++;
 		}
 		if (srch->aggr->field->parent !=
-		    srch->group->field->parent) {
+		    srch->group->field->parent ||
+		    srch->aggr->alias != srch->group->alias) {
 			gen_errx(cfg, &srch->group->pos,
 				"structure for group and constraint "
 				"must be the same");
-- 
2.43.0


From bcd1433c26ecc92c98dca3def998b059e3b9861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 26/78] fix: updates accepted without any fields to modify

An update without modifiers modifies all of the fields of its structure
but its rowid, of which there may be none.
---
 parser_struct.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser_struct.c b/parser_struct.c
index 0785561..f94f3ff 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1515,6 +1515,12 @@ parse_struct_post(struct parse *p, struct strct *s)
 			ref->parent = up;
 			ref->pos = up->pos;
 		}
+		if (TAILQ_EMPTY(&up->mrq)) {
+			ort_msg(&p->cfg->mq, MSGTYPE_ERROR, 0,
+				&up->pos, "no fields to modify");
+			p->lasttype = TOK_ERR;
+			return;
+		}
 	}
 }
 
-- 
2.43.0


From 641b26abf1b42dc341ad9f163076885e432f37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 27/78] fix: audit reports structures as not exportable when
 they are

A query with "distinct" returns another structure than the one it's
defined in: whether that one may be exported is what matters.
---
 audit.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/audit.c b/audit.c
index 15b43ec..ad973f4 100644
--- a/audit.c
+++ b/audit.c
@@ -177,15 +177,6 @@ ort_audit(const struct role *r, const struct config *cfg)
 	TAILQ_INIT(aq);
 
 	TAILQ_FOREACH(st, &cfg->sq, entries) {
-		exported = 1;
-		TAILQ_FOREACH(rm, &st->rq, entries) 
-			if (rm->type == ROLEMAP_NOEXPORT &&
-			    rm->f == NULL &&
-			    rolemap_has(rm, r)) {
-				exported = 0;
-				break;
-			}
-
 		if (st->ins != NULL &&
 		    rolemap_has(st->ins->rolemap, r)) {
 			a = calloc(1, sizeof(struct audit));
@@ -224,6 +215,14 @@ ort_audit(const struct role *r, const struct config *cfg)
 				a->sr = sr;
 				sst = sr->dst != NULL ? 
 					sr->dst->strct : st;
+				exported = 1;
+				TAILQ_FOREACH(rm, &sst->rq, entries) 
+					if (rm->type == ROLEMAP_NOEXPORT &&
+					    rm->f == NULL &&
+					    rolemap_has(rm, r)) {
+						exported = 0;
+						break;
+					}
 				if (!follow(sst, r, aq, sr, exported, NULL))
 					goto err;
 			}
-- 
2.43.0


From 4f6747928f73dce05626c0cb1ef02373c67a5b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 28/78] fix: comments ending in a newline swallow the line
 after them

---
 lang.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 15ad2b1..8511d44 100644
--- a/lang.c
+++ b/lang.c
@@ -224,9 +224,13 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 			curcol++;
 		}
 
-		/* Newline-terminate. */
+		/*
+		 * Newline-terminate.
+		 * Do so even if the text ends with a newline, as it'll
+		 * have been followed by the in-comment marker.
+		 */
 
-		if (last != '\n' && fputc('\n', f) == EOF)
+		if (fputc('\n', f) == EOF)
 			return 0;
 	}
 
-- 
2.43.0


From abf5666beab5eab5b3e11d31c27f5e3d100df024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:41 +0000
Subject: [PATCH 29/78] fix: end-of-comment marker in documentation ends the
 generated comment

---
 lang.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lang.c b/lang.c
index 8511d44..35726d8 100644
--- a/lang.c
+++ b/lang.c
@@ -128,8 +128,7 @@ gen_enum_unique(FILE *f, int defn, const struct field *fd,
  * Generate a (possibly) multi-line comment with "tabs" number of
  * preceding tab spaces.
  * This uses the standard comment syntax as seen in this comment itself.
- * FIXME: make sure that text we're ommitting doesn't clobber the
- * comment epilogue, like having star-slash in the text of a C comment.
+ * The end-of-comment marker within the text is broken up by a space.
  */
 static int
 print_comment(FILE *f, const char *doc, size_t tabs, 
@@ -220,6 +219,9 @@ print_comment(FILE *f, const char *doc, size_t tabs,
 
 			if (fputc(*cp, f) == EOF)
 				return 0;
+			if (*cp == '*' && cp[1] == '/' &&
+			    fputc(' ', f) == EOF)
+				return 0;
 			last = *cp;
 			curcol++;
 		}
@@ -266,12 +268,12 @@ gen_comment(FILE *f, size_t tabs, enum cmtt type, const char *cp)
 	/*
 	 * If we're a C comment and are sufficiently small, then print
 	 * us on a one-line comment block.
-	 * FIXME: make sure the comment doesn't have the end-of-comment
-	 * marker itself.
+	 * This doesn't apply if it has the end-of-comment marker.
 	 */
 
 	if (type == COMMENT_C && cp != NULL && tabs >= 1 && 
-	    strchr(cp, '\n') == NULL && strlen(cp) < maxcol) {
+	    strchr(cp, '\n') == NULL && strstr(cp, "*/") == NULL &&
+	    strlen(cp) < maxcol) {
 		for (i = 0; i < tabs; i++) 
 			if (fputc('\t', f) == EOF)
 				return 0;
-- 
2.43.0


From 2971d831ad316bdc08713c664ec880c94e13c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 30/78] fix: quotes in default text are not escaped in
 generated SQL

---
 lang-sql.c | 93 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 63 insertions(+), 30 deletions(-)

diff --git a/lang-sql.c b/lang-sql.c
index 26ec919..286141c 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -172,6 +172,67 @@ gen_fkeys(FILE *f, const struct field *fd, int *first)
 	return 1;
 }
 
+/*
+ * Generate a string literal: single quotes are doubled, and quotes
+ * escaped in the configuration are not escaped here.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_literal(FILE *f, const char *cp)
+{
+
+	if (fputc('\'', f) == EOF)
+		return 0;
+	for ( ; *cp != '\0'; cp++) {
+		if (*cp == '\\' && cp[1] == '"')
+			continue;
+		if (*cp == '\'' && fputc('\'', f) == EOF)
+			return 0;
+		if (fputc(*cp, f) == EOF)
+			return 0;
+	}
+	return fputc('\'', f) != EOF;
+}
+
+/*
+ * Generate the default value of a column, if any.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+gen_default(FILE *f, const struct field *fd)
+{
+	int	 rc;
+
+	if (!(fd->flags & FIELD_HASDEF))
+		return 1;
+	if (fputs(" DEFAULT ", f) == EOF)
+		return 0;
+
+	switch (fd->type) {
+	case FTYPE_BIT:
+	case FTYPE_BITFIELD:
+	case FTYPE_DATE:
+	case FTYPE_EPOCH:
+	case FTYPE_INT:
+		rc = fprintf(f, "%" PRId64, fd->def.integer);
+		break;
+	case FTYPE_REAL:
+		rc = fprintf(f, "%.17g", fd->def.decimal);
+		break;
+	case FTYPE_EMAIL:
+	case FTYPE_TEXT:
+		return gen_literal(f, fd->def.string);
+	case FTYPE_ENUM:
+		rc = fprintf(f, "%" PRId64, fd->def.eitem->value);
+		break;
+	default:
+		abort();
+		/* NOTREACHED */
+	}
+
+	return rc >= 0;
+}
+
 /*
  * Generate a column for this table.
  * Return zero on failure, non-zero on success.
@@ -270,7 +331,6 @@ ort_lang_sql(const struct ort_lang_sql *args,
 static int
 gen_diff_field_new(FILE *f, const struct field *fd)
 {
-	int	 rc;
 
 	if (fprintf(f, "ALTER TABLE %s ADD COLUMN %s %s",
 	    fd->parent->name, fd->name, ftypes[fd->type]) < 0)
@@ -293,35 +353,8 @@ gen_diff_field_new(FILE *f, const struct field *fd)
 	    fprintf(f, " ON DELETE %s", upacts[fd->actdel]) < 0)
 		return 0;
 
-	if (fd->flags & FIELD_HASDEF) {
-		if (fputs(" DEFAULT ", f) == EOF)
-			return 0;
-		switch (fd->type) {
-		case FTYPE_BIT:
-		case FTYPE_BITFIELD:
-		case FTYPE_DATE:
-		case FTYPE_EPOCH:
-		case FTYPE_INT:
-			rc = fprintf(f, "%" PRId64, fd->def.integer);
-			break;
-		case FTYPE_REAL:
-			rc = fprintf(f, "%.17g", fd->def.decimal);
-			break;
-		case FTYPE_EMAIL:
-		case FTYPE_TEXT:
-			rc = fprintf(f, "'%s'", fd->def.string);
-			break;
-		case FTYPE_ENUM:
-			rc = fprintf(f, "%" PRId64, 
-				fd->def.eitem->value);
-			break;
-		default:
-			abort();
-			/* NOTREACHED */
-		}
-		if (rc < 0)
-			return 0;
-	}
+	if (!gen_default(f, fd))
+		return 0;
 
 	return fputs(";\n", f) != EOF;
 }
-- 
2.43.0


From e70a65d1adcab27fb70350bfe793d888b97a49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 31/78] fix: default values missing from the generated SQL
 schema

---
 lang-sql.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang-sql.c b/lang-sql.c
index 286141c..aa9e1b2 100644
--- a/lang-sql.c
+++ b/lang-sql.c
@@ -260,6 +260,8 @@ gen_field(FILE *f, const struct field *fd, int *first, int comments)
 	if (!(fd->flags & FIELD_ROWID) && 
 	    !(fd->flags & FIELD_NULL) && fputs(" NOT NULL", f) == EOF)
 		return 0;
+	if (!gen_default(f, fd))
+		return 0;
 
 	*first = 0;
 	return 1;
-- 
2.43.0


From b41f45c64399567282d89493bfe68163d96c5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 32/78] fix: signed overflow numbering items after a refused
 enumeration value

---
 parser_enum.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser_enum.c b/parser_enum.c
index 98e72ee..03cdb31 100644
--- a/parser_enum.c
+++ b/parser_enum.c
@@ -209,7 +209,10 @@ parse_enum_data(struct parse *p, struct enm *e)
 			if (!(ei->flags & EITEM_AUTO))
 				if (ei->value > maxvalue)
 					maxvalue = ei->value;
-		maxvalue = maxvalue < 0 ? 0 : maxvalue + 1;
+		if (maxvalue < 0)
+			maxvalue = 0;
+		else if (maxvalue < INT64_MAX)
+			maxvalue++;
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (!(ei->flags & EITEM_AUTO)) {
 				continue;
@@ -285,7 +288,10 @@ parse_enum(struct parse *p)
 	/* Auto-assign values, if not given. */
 
 	if (foundauto && !PARSE_STOP(p)) {
-		maxv = maxv < 0 ? 0 : maxv + 1;
+		if (maxv < 0)
+			maxv = 0;
+		else if (maxv < INT64_MAX)
+			maxv++;
 		TAILQ_FOREACH(ei, &e->eq, entries)
 			if (ei->flags & EITEM_AUTO)
 				ei->value = maxv++;
-- 
2.43.0


From be25d6e7e0a7d623208744d0d6041d8dc8c83ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 33/78] fix: counts of distinct rows are invalid SQL

---
 lang.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lang.c b/lang.c
index 35726d8..0038064 100644
--- a/lang.c
+++ b/lang.c
@@ -624,12 +624,15 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Juggle around the possibilities of...
 		 *   select count(*)
-		 *   select count(distinct --gen_sql_stmt_schema--)
+		 *   select count(*) from
+		 *     (select distinct --gen_sql_stmt_schema--)
 		 *   select --gen_sql_stmt_schema--
 		 */
 
 		if (s->type == STYPE_COUNT) {
-			if ((rc = fprintf(f, "COUNT(")) < 0)
+			if ((rc = fprintf(f, "COUNT(%s", 
+			    s->dst == NULL ? "" : 
+			    "*) FROM (SELECT ")) < 0)
 				return 0;
 			col += (size_t)rc;
 		}
@@ -654,7 +657,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 		if (needquot && fprintf(f, "%s%c", spacer, delim) < 0)
 			return 0;
-		if (s->type == STYPE_COUNT && fputc(')', f) == EOF)
+		if (s->type == STYPE_COUNT && s->dst == NULL &&
+		    fputc(')', f) == EOF)
 			return 0;
 		if (fprintf(f, " FROM %s", p->name) < 0)
 			return 0;
@@ -662,10 +666,11 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		/* 
 		 * Whether anything is coming after the "FROM" clause,
 		 * which includes all ORDER, WHERE, GROUP, LIMIT, and
-		 * OFFSET commands.
+		 * OFFSET commands, and the end of a sub-query.
 		 */
 
 		hastrail = 
+			(s->type == STYPE_COUNT && s->dst != NULL) ||
 			(s->aggr != NULL && s->group != NULL) ||
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
@@ -804,6 +809,9 @@ gen_sql_stmts(FILE *f, size_t tabs,
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
+		if (s->type == STYPE_COUNT && s->dst != NULL &&
+		    fputc(')', f) == EOF)
+			return 0;
 		if (fputc(delim, f) == EOF)
 			return 0;
 		if (lang == LANG_RUST && fputs("; }", f) == EOF)
-- 
2.43.0


From 9640086102c3109f8b4835893d0a99116a63c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:12 +0000
Subject: [PATCH 34/78] fix: query offset without a limit is invalid SQL

---
 lang.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lang.c b/lang.c
index 0038064..374e4d9 100644
--- a/lang.c
+++ b/lang.c
@@ -803,8 +803,12 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				return 0;
 		}
 
-		if (STYPE_SEARCH != s->type && s->limit > 0 &&
-		    fprintf(f, " LIMIT %" PRId64, s->limit) < 0)
+		/* There's no OFFSET without LIMIT: negative is unlimited. */
+
+		if (STYPE_SEARCH != s->type && 
+		    (s->limit > 0 || s->offset > 0) &&
+		    fprintf(f, " LIMIT %" PRId64, 
+		    s->limit > 0 ? s->limit : -1) < 0)
 			return 0;
 		if (STYPE_SEARCH != s->type && s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
-- 
2.43.0


From 41b7a17bbd7ad1cca9432fceb671f5b52cf4792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 35/78] fix: offset of singleton searches is ignored

---
 lang.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lang.c b/lang.c
index 374e4d9..0737c55 100644
--- a/lang.c
+++ b/lang.c
@@ -675,7 +675,7 @@ gen_sql_stmts(FILE *f, size_t tabs,
 			(!TAILQ_EMPTY(&s->sntq)) ||
 			(!TAILQ_EMPTY(&s->ordq)) ||
 			(s->type != STYPE_SEARCH && s->limit > 0) ||
-			(s->type != STYPE_SEARCH && s->offset > 0);
+			(s->offset > 0);
 		
 		nc = 0;
 		if (!gen_sql_stmt_join
@@ -805,12 +805,12 @@ gen_sql_stmts(FILE *f, size_t tabs,
 
 		/* There's no OFFSET without LIMIT: negative is unlimited. */
 
-		if (STYPE_SEARCH != s->type && 
-		    (s->limit > 0 || s->offset > 0) &&
+		if (((STYPE_SEARCH != s->type && s->limit > 0) ||
+		     s->offset > 0) &&
 		    fprintf(f, " LIMIT %" PRId64, 
 		    s->limit > 0 ? s->limit : -1) < 0)
 			return 0;
-		if (STYPE_SEARCH != s->type && s->offset > 0 &&
+		if (s->offset > 0 &&
 		    fprintf(f, " OFFSET %" PRId64, s->offset) < 0)
 			return 0;
 		if (s->type == STYPE_COUNT && s->dst != NULL &&
-- 
2.43.0


From 7fa1f0653e77b02e0943c0f57d40e7b1ee30d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:46 +0000
Subject: [PATCH 36/78] fix: concatenation to null fields is invalid TypeScript

---
 lang.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lang.c b/lang.c
index 0737c55..48cdd8a 100644
--- a/lang.c
+++ b/lang.c
@@ -1001,7 +1001,8 @@ gen_sql_stmts(FILE *f, size_t tabs,
 				 */
 
 				if ((ur->field->flags & FIELD_NULL)) {
-					if (fprintf(f, 
+					if (fprintf(f, delim == '\'' ?
+					    "COALESCE(%s,\\'\\')" :
 					    "COALESCE(%s,'')",
 					    ur->field->name) < 0)
 						return 0;
-- 
2.43.0


From 8309d65e0cbbb673c8f01581d5acdfb4fa68ec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 37/78] fix: field not exported to nested roles is invalid C

---
 lang-c-source.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 23cbb41..7d352e4 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -254,6 +254,24 @@ gen_role(FILE *f, const struct role *r)
 	return 1;
 }
 
+/*
+ * See if the role map already has "r" by way of one of its ancestors.
+ * Return zero if it doesn't, non-zero if it does.
+ */
+static int
+role_implied(const struct rolemap *map, const struct role *r)
+{
+	const struct rref	*rs;
+	const struct role	*rp;
+
+	for (rp = r->parent; rp != NULL; rp = rp->parent)
+		TAILQ_FOREACH(rs, &map->rq, entries)
+			if (rs->role == rp)
+				return 1;
+
+	return 0;
+}
+
 /*
  * Fill an individual field from the database in gen_fill().
  * Return zero on failure, non-zero on success.
@@ -2147,7 +2165,8 @@ gen_json_out_field(FILE *f,
 		    "(p->priv_store)) {\n", f) == EOF)
 			return 0;
 		TAILQ_FOREACH(rs, &fd->rolemap->rq, entries)
-			if (!gen_role(f, rs->role))
+			if (!role_implied(fd->rolemap, rs->role) &&
+			    !gen_role(f, rs->role))
 				return 0;
 		if (!gen_comment(f, 2, COMMENT_C,
 		    "Don't export field to noted roles."))
-- 
2.43.0


From 605a9eba250812395b791326bbe4dbb98551630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 38/78] fix: C roles cannot transition into none

---
 lang-c-source.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 7d352e4..7cbb41f 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1161,6 +1161,10 @@ gen_func_role_transitions(FILE *f, const struct config *cfg)
 	    "\t\treturn;\n"
 	    "\tif (ctx->role == ROLE_none)\n"
 	    "\t\tabort();\n"
+	    "\tif (r == ROLE_none) {\n"
+	    "\t\tctx->role = r;\n"
+	    "\t\treturn;\n"
+	    "\t}\n"
 	    "\n"
 	    "\tswitch (ctx->role) {\n"
 	    "\tcase ROLE_default:\n"
-- 
2.43.0


From e8298183552402f68d8b8b93f89c6a47b9d14dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 39/78] fix: Node.js roles transition into descendants, not
 ancestors

---
 lang-nodejs.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index e8a993b..8000096 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1987,14 +1987,16 @@ gen_alias_builder(FILE *f, const struct strct *p)
 static int
 gen_ortctx_dbrole_role(FILE *f, const struct role *r)
 {
-	const struct role	*rr;
+	const struct role	*rp, *rr;
 
 	if (fprintf(f, "\t\tcase '%s':\n"
-	    "\t\t\tswitch(newrole) {\n", r->name) < 0)
+	    "\t\t\tswitch(newrole) {\n"
+	    "\t\t\tcase 'none':\n", r->name) < 0)
 		return 0;
 
-	if (!gen_role(f, r, 3))
-		return 0;
+	for (rp = r->parent; strcmp(rp->name, "all"); rp = rp->parent)
+		if (fprintf(f, "\t\t\tcase '%s':\n", rp->name) < 0)
+			return 0;
 	if (fputs("\t\t\t\tthis.#role = newrole;\n"
 	    "\t\t\t\treturn;\n"
 	    "\t\t\tdefault:\n"
@@ -2056,7 +2058,7 @@ gen_ortctx_dbrole(FILE *f, const struct config *cfg)
 	    "\t\t\tprocess.abort();\n\n", f) == EOF)
 		return 0;
 
-	/* All possible descents from current into encompassed role. */
+	/* All possible ascents from current into ancestor roles. */
 
 	if (fputs("\t\tswitch (this.#role) {\n"
 	    "\t\tcase 'default':\n"
-- 
2.43.0


From 5fc1f297630a74170133dfc990ee0e033dd95aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 40/78] fix: default role denied nullable nested structures

---
 lang-c-source.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang-c-source.c b/lang-c-source.c
index 7cbb41f..9077b68 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -826,6 +826,7 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 	const struct search 	*s;
 	const struct update 	*u;
 	const struct field 	*fd;
+	const struct role	*r;
 	size_t	 		 pos, shown = 0;
 	char			*buf;
 
@@ -841,6 +842,10 @@ gen_roles(FILE *f, const struct config *cfg, const struct strct *p)
 				return -1;
 			if (!gen_role_stmt_all(f, cfg, buf))
 				return -1;
+			TAILQ_FOREACH(r, &cfg->rq, entries)
+				if (strcmp(r->name, "default") == 0 &&
+				    !gen_role_stmt(f, r, buf))
+					return -1;
 			shown++;
 			free(buf);
 		}
-- 
2.43.0


From 3d183ddf47c05761012fc23403089271ec83c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 41/78] fix: JSON import refuses null nested structures

---
 lang-c-source.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 9077b68..44c0358 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2341,6 +2341,19 @@ gen_json_parse(FILE *f, const struct strct *p)
 		     fd->name, fd->name) < 0)
 			return 0;
 
+		if (fd->type == FTYPE_STRUCT &&
+		    (fd->ref->source->flags & FIELD_NULL) && fprintf
+		    (f, "\t\t\tif (t[j+1].type == "
+		     "JSMN_PRIMITIVE &&\n"
+		     "\t\t\t    buf[t[j+1].start] == \'n\') {\n"
+		     "\t\t\t\tp->has_%s = 0;\n"
+		     "\t\t\t\tj++;\n"
+		     "\t\t\t\tcontinue;\n"
+		     "\t\t\t} else\n"
+		     "\t\t\t\tp->has_%s = 1;\n",
+		     fd->name, fd->name) < 0)
+			return 0;
+
 		switch (fd->type) {
 		case FTYPE_BITFIELD:
 		case FTYPE_DATE:
@@ -2511,15 +2524,6 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-			if (fd->ref->source->flags & FIELD_NULL) {
-				if (fprintf(f, "\tif (p->has_%s)\n"
-			            "\t\tjsmn_%s_clear(&p->%s);\n",
-				    fd->ref->source->name,
-				    fd->ref->target->parent->name,
-				    fd->name) < 0)
-					return 0;
-				break;
-			}
 			if (fprintf(f, "\tjsmn_%s_clear(&p->%s);\n",
 			    fd->ref->target->parent->name,
 			    fd->name) < 0)
-- 
2.43.0


From a9546f52cc16963194992590556d758c7a088e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 42/78] fix: JSON import reads past the last token

---
 lang-c-source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 44c0358..20f101b 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2316,7 +2316,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	if (fputs("\n"
 	    "\tif (toksz < 1 || t[0].type != JSMN_OBJECT)\n"
 	    "\t\treturn 0;\n\n"
-	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n", f) == EOF)
+	    "\tfor (i = 0, j = 0; i < t[0].size; i++) {\n"
+	    "\t\tif (toksz < j + 3)\n"
+	    "\t\t\treturn 0;\n", f) == EOF)
 		return 0;
 
 	TAILQ_FOREACH(fd, &p->fq, entries) {
@@ -2476,7 +2478,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_STRUCT:
 			if (fprintf(f, "\t\t\trc = jsmn_%s\n"
 			    "\t\t\t\t(&p->%s, buf,\n"
-			    "\t\t\t\t &t[j+1], toksz - j);\n"
+			    "\t\t\t\t &t[j+1], toksz - j - 1);\n"
 			    "\t\t\tif (rc <= 0)\n"
 			    "\t\t\t\treturn rc;\n"
 			    "\t\t\tj += rc;\n",
@@ -2564,7 +2566,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\t\treturn -1;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
-	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j);\n"
+	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j - 1);\n"
 	    "\t\tif (rc <= 0)\n"
 	    "\t\t\treturn rc;\n"
 	    "\t\tj += rc;\n"
-- 
2.43.0


From a7f829ce737ea2b544cac7296a1d4a4bae0f39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 43/78] fix: JSON import array failure dereferences null

---
 lang-c-source.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 20f101b..f1f6085 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2542,6 +2542,8 @@ gen_json_parse(FILE *f, const struct strct *p)
 		return 0;
 	if (fprintf(f, "{\n"
 	    "\tsize_t i;\n"
+	    "\tif (p == NULL)\n"
+	    "\t\treturn;\n"
 	    "\tfor (i = 0; i < sz; i++)\n"
 	    "\t\tjsmn_%s_clear(&p[i]);\n"
 	    "\tfree(p);\n"
@@ -2561,9 +2563,9 @@ gen_json_parse(FILE *f, const struct strct *p)
 	    "\tif (toksz < 1 || t[0].type != JSMN_ARRAY)\n"
 	    "\t\treturn 0;\n"
 	    "\n"
-	    "\t*sz = t[0].size;\n"
-	    "\tif ((*p = calloc(*sz, sizeof(struct %s))) == NULL)\n"
+	    "\tif ((*p = calloc(t[0].size, sizeof(struct %s))) == NULL)\n"
 	    "\t\treturn -1;\n"
+	    "\t*sz = t[0].size;\n"
 	    "\n"
 	    "\tfor (i = j = 0; i < *sz; i++) {\n"
 	    "\t\trc = jsmn_%s(&(*p)[i], buf, &t[j+1], toksz - j - 1);\n"
-- 
2.43.0


From a48bf7d0c99ec2b01386f0e85fd000b7b8e70730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 44/78] fix: JSON import accepts malformed numbers

---
 jsmn.c          | 19 +++++++------------
 lang-c-source.c |  5 +++--
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index cb0b249..34d7b3e 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -317,8 +317,7 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
-	char 	 tmp[128];
-	int	 rc;
+	char 	 tmp[128], *ep;
 
 	if (sz > sizeof(tmp) - 1)
 		return 0;
@@ -326,17 +325,14 @@ jsmn_parse_real(const char *buf, size_t sz, double *ret)
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%lf", ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	*ret = strtod(tmp, &ep);
+	return ep != tmp && *ep == '\0';
 }
 
 static int
 jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 {
-	char 	 tmp[32];
-	int	 rc;
+	char 	 tmp[32], *ep;
 
 	if (sz > sizeof(tmp) - 1)
 		return 0;
@@ -344,8 +340,7 @@ jsmn_parse_int(const char *buf, size_t sz, int64_t *ret)
 	memcpy(tmp, buf, sz);
 	tmp[sz] = '\0';
 
-	if ((rc = sscanf(tmp, "%" SCNd64, ret)) == -1)
-		return -1;
-
-	return 1 == rc;
+	errno = 0;
+	*ret = strtoll(tmp, &ep, 10);
+	return ep != tmp && *ep == '\0' && errno == 0;
 }
diff --git a/lang-c-source.c b/lang-c-source.c
index f1f6085..e20b354 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2366,7 +2366,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			if (fputs("\t\t\tif ((t[j+1].type != JSMN_STRING && "
 			    "t[j+1].type != JSMN_PRIMITIVE) ||\n"
 			    "\t\t\t    (buf[t[j+1].start] != \'-\' &&\n"
-			    "\t\t\t    !isdigit((unsigned int)"
+			    "\t\t\t    !isdigit((unsigned char)"
 			    "buf[t[j+1].start])))\n"
 			    "\t\t\t\treturn 0;\n", f) == EOF)
 				return 0;
@@ -2374,7 +2374,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_BIT:
 			if (fputs("\t\t\tif ((t[j+1].type != JSMN_STRING && "
 			    "t[j+1].type != JSMN_PRIMITIVE) ||\n"
-			    "\t\t\t    !isdigit((unsigned int)"
+			    "\t\t\t    !isdigit((unsigned char)"
 			    "buf[t[j+1].start]))\n"
 			    "\t\t\t\treturn 0;\n", f) == EOF)
 				return 0;
@@ -2934,6 +2934,7 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	if (args->flags & ORT_LANG_C_JSON_JSMN)
 		if (fputs(
 		    "#include <ctype.h>\n"
+		    "#include <errno.h>\n"
 		    "#include <inttypes.h>\n", f) == EOF)
 			return 0;
 
-- 
2.43.0


From c79d8569fb57fb0738fa1a0a8d627f44c7722999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 45/78] fix: JSON import of malformed base64 is a parse error

---
 lang-c-source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index e20b354..45d4315 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2457,7 +2457,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\t(t[j+1].end - t[j+1].start) + 1);\n"
 			    "\t\t\tfree(tmpbuf);\n"
 			    "\t\t\tif (rc < 0)\n"
-			    "\t\t\t\treturn -1;\n"
+			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
 			    fd->name, fd->name) < 0)
-- 
2.43.0


From a260f2d0cea9cacd993aba4055b5640cbdba80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 46/78] fix: JSON import leaks repeated fields

---
 lang-c-source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 45d4315..3d3616e 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2447,6 +2447,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (tmpbuf == NULL)\n"
 			    "\t\t\t\treturn -1;\n"
+			    "\t\t\tfree(p->%s);\n"
 			    "\t\t\tp->%s = malloc((t[j+1].end - "
 			    "t[j+1].start) + 1);\n"
 			    "\t\t\tif (p->%s == NULL) {\n"
@@ -2460,19 +2461,20 @@ gen_json_parse(FILE *f, const struct strct *p)
 			    "\t\t\t\treturn 0;\n"
 			    "\t\t\tp->%s_sz = rc;\n"
 			    "\t\t\tj++;\n", fd->name, fd->name,
-			    fd->name, fd->name) < 0)
+			    fd->name, fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_TEXT:
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
-			if (fprintf(f, "\t\t\tp->%s = strndup\n"
+			if (fprintf(f, "\t\t\tfree(p->%s);\n"
+			    "\t\t\tp->%s = strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (p->%s == NULL)\n"
 			    "\t\t\t\treturn -1;\n"
 			    "\t\t\tj++;\n",
-			    fd->name, fd->name) < 0)
+			    fd->name, fd->name, fd->name) < 0)
 				return 0;
 			break;
 		case FTYPE_STRUCT:
-- 
2.43.0


From c131aae0d496a09ce672c3849c4b68fa3cd11152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 47/78] fix: JSON import keeps escape sequences

---
 jsmn.c          | 89 +++++++++++++++++++++++++++++++++++++++++++++++++
 lang-c-source.c |  4 +--
 2 files changed, 91 insertions(+), 2 deletions(-)

diff --git a/jsmn.c b/jsmn.c
index 34d7b3e..9f8efb4 100644
--- a/jsmn.c
+++ b/jsmn.c
@@ -314,6 +314,95 @@ jsmn_eq(const char *json, const jsmntok_t *tok, const char *s)
 	return 0;
 }
 
+static int
+jsmn_hex4(const char *cp)
+{
+	int	 i, c, v = 0;
+
+	for (i = 0; i < 4; i++) {
+		c = (unsigned char)cp[i];
+		v = v * 16 + (isdigit(c) ? c - '0' :
+			tolower(c) - 'a' + 10);
+	}
+	return v;
+}
+
+/*
+ * Allocate a copy of the given string token's bytes with its escape
+ * sequences, already checked by jsmn_parse_string(), decoded.
+ * Surrogate pairs are combined.
+ */
+static char *
+jsmn_strndup(const char *buf, size_t sz)
+{
+	char	*ret, *cp;
+	size_t	 i;
+	int	 c, cc;
+
+	if ((cp = ret = malloc(sz + 1)) == NULL)
+		return NULL;
+
+	for (i = 0; i < sz; i++) {
+		if (buf[i] != '\\' || i + 1 == sz) {
+			*cp++ = buf[i];
+			continue;
+		}
+		switch (buf[++i]) {
+		case 'b':
+			*cp++ = '\b';
+			continue;
+		case 'f':
+			*cp++ = '\f';
+			continue;
+		case 'n':
+			*cp++ = '\n';
+			continue;
+		case 'r':
+			*cp++ = '\r';
+			continue;
+		case 't':
+			*cp++ = '\t';
+			continue;
+		case 'u':
+			if (sz - i > 4)
+				break;
+			/* FALLTHROUGH */
+		default:
+			*cp++ = buf[i];
+			continue;
+		}
+
+		c = jsmn_hex4(&buf[i + 1]);
+		i += 4;
+		if (c >= 0xd800 && c < 0xdc00 && sz - i > 6 &&
+		    buf[i + 1] == '\\' && buf[i + 2] == 'u') {
+			cc = jsmn_hex4(&buf[i + 3]);
+			if (cc >= 0xdc00 && cc < 0xe000) {
+				c = 0x10000 + ((c & 0x3ff) << 10) +
+					(cc & 0x3ff);
+				i += 6;
+			}
+		}
+		if (c < 0x80) {
+			*cp++ = c;
+		} else if (c < 0x800) {
+			*cp++ = 0xc0 | (c >> 6);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else if (c < 0x10000) {
+			*cp++ = 0xe0 | (c >> 12);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		} else {
+			*cp++ = 0xf0 | (c >> 18);
+			*cp++ = 0x80 | ((c >> 12) & 0x3f);
+			*cp++ = 0x80 | ((c >> 6) & 0x3f);
+			*cp++ = 0x80 | (c & 0x3f);
+		}
+	}
+	*cp = '\0';
+	return ret;
+}
+
 static int
 jsmn_parse_real(const char *buf, size_t sz, double *ret)
 {
diff --git a/lang-c-source.c b/lang-c-source.c
index 3d3616e..401dcb0 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2442,7 +2442,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 				return 0;
 			break;
 		case FTYPE_BLOB:
-			if (fprintf(f, "\t\t\ttmpbuf = strndup\n"
+			if (fprintf(f, "\t\t\ttmpbuf = jsmn_strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (tmpbuf == NULL)\n"
@@ -2468,7 +2468,7 @@ gen_json_parse(FILE *f, const struct strct *p)
 		case FTYPE_PASSWORD:
 		case FTYPE_EMAIL:
 			if (fprintf(f, "\t\t\tfree(p->%s);\n"
-			    "\t\t\tp->%s = strndup\n"
+			    "\t\t\tp->%s = jsmn_strndup\n"
 			    "\t\t\t\t(buf + t[j+1].start,\n"
 			    "\t\t\t\t t[j+1].end - t[j+1].start);\n"
 			    "\t\t\tif (p->%s == NULL)\n"
-- 
2.43.0


From 50a4b3ca289630838aa2a70463b1e8a616d2ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 48/78] fix: nullable references to other than integers looked
 up as integers

---
 lang-c-source.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index 401dcb0..ea2388a 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1737,10 +1737,37 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 	TAILQ_FOREACH(fd, &p->fq, entries) {
 		if (fd->type != FTYPE_STRUCT)
 			continue;
-		if ((fd->ref->source->flags & FIELD_NULL))
+		if ((fd->ref->source->flags & FIELD_NULL)) {
 			if (fprintf(f, "\tif (p->has_%s) {\n"
-			    "\t\tparm.type = SQLBOX_PARM_INT;\n"
-			    "\t\tparm.iparm = ORT_GET_%s_%s(p);\n"
+			    "\t\tparm.type = %s;\n"
+			    "\t\tparm.sz = 0;\n",
+			    fd->ref->source->name,
+			    bindtypes[fd->ref->source->type]) < 0)
+				return 0;
+			switch (fd->ref->source->type) {
+			case FTYPE_BIT:
+			case FTYPE_BITFIELD:
+			case FTYPE_DATE:
+			case FTYPE_EPOCH:
+			case FTYPE_INT:
+				if (fprintf(f, "\t\tparm.iparm = "
+				    "ORT_GET_%s_%s(p);\n",
+				    fd->ref->source->parent->name,
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			default:
+				if (fprintf(f, "\t\tparm.%s = p->%s;\n",
+				    bindvars[fd->ref->source->type],
+				    fd->ref->source->name) < 0)
+					return 0;
+				break;
+			}
+			if (fd->ref->source->type == FTYPE_BLOB &&
+			    fprintf(f, "\t\tparm.sz = p->%s_sz;\n",
+			    fd->ref->source->name) < 0)
+				return 0;
+			if (fprintf(f, 
 			    "\t\tif (!sqlbox_prepare_bind_async\n"
 			    "\t\t    (db, 0, STMT_%s_BY_UNIQUE_%s, 1, &parm, 0))\n"
 			    "\t\t\texit(EXIT_FAILURE);\n"
@@ -1751,14 +1778,12 @@ gen_reffind(FILE *f, const struct config *cfg, const struct strct *p)
 			    "\t\t\texit(EXIT_FAILURE);\n"
 			    "\t\tp->has_%s = 1;\n"
 			    "\t}\n",
-			    fd->ref->source->name,
-			    fd->ref->source->parent->name,
-			    fd->ref->source->name,
 			    fd->ref->target->parent->name,
 			    fd->ref->target->name,
 			    fd->ref->target->parent->name,
 			    fd->name, fd->name) < 0)
 				return 0;
+		}
 		if (!(fd->ref->target->parent->flags &
 		    STRCT_HAS_NULLREFS))
 			continue;
-- 
2.43.0


From 6bd85a3f72f6b7b7f7741678e12caeb661954573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 49/78] fix: ort-nodejs: type of the arguments of ort()

---
 lang-nodejs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 8000096..93d12bd 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -2284,7 +2284,7 @@ ort_lang_nodejs(const struct ort_lang_nodejs *args,
 		    fputs("export ", f) == EOF)
 			return 0;
 		if (fputs
-		    ("function ort(dbname: string, args?: optargs): ortdb\n"
+		    ("function ort(dbname: string, args?: ortargs): ortdb\n"
 		     "{\n"
 		     "\treturn new ortdb(dbname, args);\n"
 		     "}\n", f) == EOF)
-- 
2.43.0


From f2c1141add450038f97d190dfc1d9285c26ab627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 50/78] fix: ort-nodejs: validators throw on input which is not
 text

---
 lang-nodejs.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 93d12bd..f41844e 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1606,7 +1606,14 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 
 	switch (fd->type) {
 	case FTYPE_BLOB:
-		if (fputs("\t\t\treturn Buffer.from(v);\n", f) == EOF)
+		if (fputs
+		    ("\t\t\tlet nv: Buffer;\n"
+		     "\t\t\ttry {\n"
+		     "\t\t\t\tnv = Buffer.from(v);\n"
+		     "\t\t\t} catch (er) {\n"
+		     "\t\t\t\treturn null;\n"
+		     "\t\t\t}\n"
+		     "\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1626,10 +1633,10 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_EMAIL:
 		if (fputs
-		    ("\t\t\tif (!validator.isEmail(v.trim()))\n"
+		    ("\t\t\tif (!validator.isEmail(v.toString().trim()))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
-		     "\t\t\t\tvalidator.normalizeEmail(v.trim());\n"
+		     "\t\t\t\tvalidator.normalizeEmail(v.toString().trim());\n"
 		     "\t\t\treturn typeof(em) === 'string' ? "
 		     "em : null;\n", f) == EOF)
 			return 0;
@@ -1655,11 +1662,11 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		return 1;
 	case FTYPE_DATE:
 		if (fputs
-		    ("\t\t\tif (!validator.isDate(v.trim(), { "
+		    ("\t\t\tif (!validator.isDate(v.toString().trim(), { "
 		     "format: 'YYYY-MM-DD', strictMode: true }))\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nd: Date|null = "
-		     "validator.toDate(v.trim());\n"
+		     "validator.toDate(v.toString().trim());\n"
 		     "\t\t\tif (nd === null)\n"
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst nv: bigint = "
-- 
2.43.0


From 17b41cb0453073a0538603e07b90569400194d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 51/78] fix: ort-nodejs: limits of email and blob ignored, of
 text not in bytes

---
 lang-nodejs.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index f41844e..2aa5b1f 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -1612,8 +1612,15 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\tnv = Buffer.from(v);\n"
 		     "\t\t\t} catch (er) {\n"
 		     "\t\t\t\treturn null;\n"
-		     "\t\t\t}\n"
-		     "\t\t\treturn nv;\n", f) == EOF)
+		     "\t\t\t}\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn nv;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_TEXT:
@@ -1624,7 +1631,7 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 			return 0;
 		TAILQ_FOREACH(fv, &fd->fvq, entries)
 			if (fprintf(f, 
-			    "\t\t\tif (!(nv.length %s %zu))\n"
+			    "\t\t\tif (!(Buffer.byteLength(nv) %s %zu))\n"
 			    "\t\t\t\treturn null;\n", 
 			    vtypes[fv->type], fv->d.value.len) < 0)
 				return 0;
@@ -1637,8 +1644,16 @@ gen_ortns_express_valid(FILE *f, const struct field *fd)
 		     "\t\t\t\treturn null;\n"
 		     "\t\t\tconst em: string|false = \n"
 		     "\t\t\t\tvalidator.normalizeEmail(v.toString().trim());\n"
-		     "\t\t\treturn typeof(em) === 'string' ? "
-		     "em : null;\n", f) == EOF)
+		     "\t\t\tif (typeof(em) !== 'string')\n"
+		     "\t\t\t\treturn null;\n", f) == EOF)
+			return 0;
+		TAILQ_FOREACH(fv, &fd->fvq, entries)
+			if (fprintf(f, 
+			    "\t\t\tif (!(Buffer.byteLength(em) %s %zu))\n"
+			    "\t\t\t\treturn null;\n", 
+			    vtypes[fv->type], fv->d.value.len) < 0)
+				return 0;
+		if (fputs("\t\t\treturn em;\n", f) == EOF)
 			return 0;
 		return 1;
 	case FTYPE_REAL:
-- 
2.43.0


From 22bdf202b441446342d008fe3df827d1db32359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 52/78] fix: release role names when the parser runs out of
 memory

---
 parser_struct.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_struct.c b/parser_struct.c
index f94f3ff..9fed687 100644
--- a/parser_struct.c
+++ b/parser_struct.c
@@ -1288,7 +1288,7 @@ parse_struct_roles(struct parse *p, struct strct *s)
 		return;
 	} else if (!name_append(&ns, &nsz, p->last.string)) {
 		parse_err(p);
-		return;
+		goto cleanup;
 	}
 
 	while (!PARSE_STOP(p) && parse_next(p) != TOK_LBRACE) {
@@ -1304,7 +1304,7 @@ parse_struct_roles(struct parse *p, struct strct *s)
 		}
 		if (!name_append(&ns, &nsz, p->last.string)) {
 			parse_err(p);
-			return;
+			goto cleanup;
 		}
 	}
 
-- 
2.43.0


From 160cdbfdab88318910e9eec938ec01d566d046ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 53/78] fix: free the strings collected by
 ort_lang_xliff_extract

---
 lang-xliff.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 66dc4ad..2881c05 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -1021,6 +1021,7 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 
 	rc = fputs("\t\t</body>\n\t</file>\n</xliff>\n", f) != EOF;
 out:
+	free(s);
 	if (mq == &tmpq)
 		ort_msgq_free(mq);
 	return rc;
-- 
2.43.0


From 1648a9785ba4aee2d89b9d92e7fa8e2652de77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 54/78] fix: report failure to write in ort-sqldiff and
 ort-xliff

---
 sqldiff.c | 5 +++--
 xliff.c   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sqldiff.c b/sqldiff.c
index cbf2bea..c62b8c3 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -150,7 +150,8 @@ main(int argc, char *argv[])
 		goto out;
 	}
 
-	if (!(rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq)))
+	rc = ort_lang_diff_sql(NULL, q, destruct, stdout, &mq);
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -169,7 +170,7 @@ out:
 
 	free(confs);
 	free(dconfs);
-	return rc ? EXIT_SUCCESS : EXIT_FAILURE;
+	return rc > 0 ? EXIT_SUCCESS : EXIT_FAILURE;
 
 usage:
 	fprintf(stderr, 
diff --git a/xliff.c b/xliff.c
index ad30878..5f04dea 100644
--- a/xliff.c
+++ b/xliff.c
@@ -172,7 +172,7 @@ main(int argc, char *argv[])
 		break;
 	}
 
-	if (!rc)
+	if (rc <= 0)
 		warn(NULL);
 out:
 	ort_write_msg_file(stderr, &cfg->mq);
@@ -193,7 +193,7 @@ out:
 
 	free(confs);
 	free(args.in);
-	return !rc;
+	return rc <= 0;
 usage:
 	fprintf(stderr, 
 		"usage: %s [-c] -j [config...] -x [xliff...]\n"
-- 
2.43.0


From 2663467f6235c956db8cefb9c79e60a8931d86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 55/78] fix: report failure to write headings in
 ort_write_diff_file

---
 writer-diff.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/writer-diff.c b/writer-diff.c
index 4ea0f0e..e127f3e 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -1092,14 +1092,16 @@ ort_write_diff_file(FILE *f, const struct diffq *q,
 	size_t			 i;
 
 	for (i = 0; i < fromsz; i++)
-		fprintf(f, "--- %s\n", from[i]);
-	if (fromsz == 0)
-		fprintf(f, "--- <stdin>\n");
+		if (fprintf(f, "--- %s\n", from[i]) < 0)
+			return 0;
+	if (fromsz == 0 && fprintf(f, "--- <stdin>\n") < 0)
+		return 0;
 
 	for (i = 0; i < intosz; i++)
-		fprintf(f, "+++ %s\n", into[i]);
-	if (intosz == 0)
-		fprintf(f, "+++ <stdin>\n");
+		if (fprintf(f, "+++ %s\n", into[i]) < 0)
+			return 0;
+	if (intosz == 0 && fprintf(f, "+++ <stdin>\n") < 0)
+		return 0;
 
 	/* Write enumerations iff any have changed. */
 
-- 
2.43.0


From ed6d5612770cf165baaddefe4bdbc565b2f04e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 56/78] fix: report failure to write functions in
 ort_lang_c_source, and free the fill list on error

---
 lang-c-source.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index ea2388a..f7e4dc3 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -2892,7 +2892,8 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	size_t			 sz;
 	int			 need_kcgi = 0,
 				 need_kcgijson = 0,
-				 need_sqlbox = 0;
+				 need_sqlbox = 0,
+				 rc = 0;
 	struct filldepq		 fq;
 	struct filldep		*fd;
 
@@ -3151,20 +3152,23 @@ ort_lang_c_source(const struct ort_lang_c *args,
 	TAILQ_FOREACH(p, &cfg->sq, entries)
 		TAILQ_FOREACH(s, &p->sq, entries)
 			if (!gen_filldep(&fq, p, FILLDEP_FILL_R))
-				return 0;
+				goto out;
 
 	TAILQ_FOREACH(p, &cfg->sq, entries)
-		gen_functions(f, cfg, p,
-			args->flags & ORT_LANG_C_JSON_KCGI,
-			args->flags & ORT_LANG_C_JSON_JSMN,
-			args->flags & ORT_LANG_C_VALID_KCGI,
-			args->flags & ORT_LANG_C_DB_SQLBOX, &fq);
+		if (!gen_functions(f, cfg, p,
+		    args->flags & ORT_LANG_C_JSON_KCGI,
+		    args->flags & ORT_LANG_C_JSON_JSMN,
+		    args->flags & ORT_LANG_C_VALID_KCGI,
+		    args->flags & ORT_LANG_C_DB_SQLBOX, &fq))
+			goto out;
 
+	rc = 1;
+out:
 	while ((fd = TAILQ_FIRST(&fq)) != NULL) {
 		TAILQ_REMOVE(&fq, fd, entries);
 		free(fd);
 	}
 
-	return 1;
+	return rc;
 }
 
-- 
2.43.0


From 53097ec958c54f7998b2e4fe4b0881b282936a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 57/78] fix: report failure to write variables and password
 checks in ort_lang_nodejs

---
 lang-nodejs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 2aa5b1f..07a9a9d 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -134,7 +134,7 @@ gen_var(FILE *f, size_t pos, size_t col, const struct field *fd)
 	    (fd->type == FTYPE_STRUCT &&
 	     (fd->ref->source->flags & FIELD_NULL))) {
 		if ((rc = fprintf(f, "|null")) < 0)
-			return 0;
+			return -1;
 		col += (size_t)rc;
 	}
 
@@ -1210,7 +1210,8 @@ gen_query(FILE *f, const struct config *cfg,
 		       if (fprintf(f, "\t\tthis.db_%s_reffind"
 			   "(this.#o, obj);\n", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f, "\t\treturn new "
 	  	    "ortns.%s(this.#role, obj);\n", rs->name) < 0)
 			return 0;
@@ -1227,7 +1228,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tcb(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n", rs->name) < 0)
@@ -1249,7 +1251,8 @@ gen_query(FILE *f, const struct config *cfg,
 			if (fprintf(f, "\t\t\tthis.db_%s_reffind"
 			    "(this.#o, obj);\n", rs->name) < 0)
 				return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f, 
 		    "\t\t\tobjs.push(new ortns.%s(this.#role, obj));\n"
 		    "\t\t}\n"
-- 
2.43.0


From ee0f578f2f088406a8dc3137e71fbcc6a2280c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 58/78] fix: report failure to write variables, roles and
 password checks in ort_lang_rust

---
 lang-rust.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lang-rust.c b/lang-rust.c
index 1df62c3..e306b86 100644
--- a/lang-rust.c
+++ b/lang-rust.c
@@ -182,22 +182,22 @@ gen_var(FILE *f, size_t pos, const struct field *fd, int comma)
 	if (fprintf(f, "v%zu: ", pos) < 0)
 		return -1;
 	if ((fd->flags & FIELD_NULL) && fputs("Option<", f) == EOF)
-		return 0;
+		return -1;
 	if (fd->type == FTYPE_ENUM) {
 		if (fprintf(f, "data::%c%s",
 		    toupper((unsigned char)fd->enm->name[0]),
 		    fd->enm->name + 1) < 0)
-			return 0;
+			return -1;
 	} else {
 		if (strcmp(ftypes[fd->type], "i64") &&
 		    strcmp(ftypes[fd->type], "f64"))
 			if (fputc('&', f) == EOF)
-				return 0;
+				return -1;
 		if (fputs(ftypes[fd->type], f) == EOF)
-			return 0;
+			return -1;
 	}
 	if ((fd->flags & FIELD_NULL) && fputs(">", f) == EOF)
-		return 0;
+		return -1;
 	return 1;
 }
 
@@ -215,14 +215,14 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	if (fd->rolemap != NULL &&
 	    !TAILQ_EMPTY(&fd->rolemap->rq)) {
 		if (fprintf(f, "%16sif !(", "") < 0)
-			return 0;
+			return -1;
 		TAILQ_FOREACH(r, &fd->rolemap->rq, entries) {
 			rc = gen_role(f, r->role, 5, "role", rc, 1);
 			if (rc < 0)
-				return 0;
+				return -1;
 		}
 		if (fputs(") {\n", f) == EOF)
-			return 0;
+			return -1;
 		tabs += 4;
 	}
 
@@ -365,7 +365,7 @@ gen_field_to_json(const struct field *fd, int first, FILE *f)
 	}
 
 	if (fd->rolemap != NULL && fprintf(f, "%16s}\n", "") < 0)
-		return 0;
+		return -1;
 
 	return 1;
 }
@@ -1334,7 +1334,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 1);
+		if (!gen_query_checkpass(f, s, 1))
+			return 0;
 		if (fprintf(f,
 		    "%16sreturn Ok(Some(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1362,7 +1363,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16scb(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
@@ -1391,7 +1393,8 @@ gen_query(const struct search *s, size_t num, FILE *f)
 			   "%16sself.db_%s_reffind(&mut obj);\n",
 			   "", rs->name) < 0)
 			       return 0;
-		gen_query_checkpass(f, s, 0);
+		if (!gen_query_checkpass(f, s, 0))
+			return 0;
 		if (fprintf(f,
 		    "%16svec.push(objs::%s {\n"
 		    "%20sdata: obj,\n", "", ret, "") < 0)
-- 
2.43.0


From 5b832452739c37fd7d060d49996d469ad0029c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 59/78] fix: list removed roles in ort_write_diff_file

---
 writer-diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer-diff.c b/writer-diff.c
index e127f3e..034656f 100644
--- a/writer-diff.c
+++ b/writer-diff.c
@@ -984,7 +984,7 @@ ort_write_diff_roleq(FILE *f, const struct diffq *q, const struct diff *d)
 		case DIFF_ADD_ROLE:
 			rc = ort_write_role(f, 1, dd);
 			break;
-		case DIFF_DEL_EITEM:
+		case DIFF_DEL_ROLE:
 			rc = ort_write_role(f, 0, dd);
 			break;
 		case DIFF_MOD_ROLE:
-- 
2.43.0


From 802543eaa2b420692ed06ac9bf20de0745b098a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 60/78] fix: line and column were swapped in ort_lang_json

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 72172b7..19a926f 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -246,7 +246,7 @@ gen_pos(FILE *f, const struct pos *pos)
 	if (!gen_string(f, pos->fname))
 		return 0;
 	return fprintf(f, ", \"line\": %zu, \"column\": %zu },", 
-		pos->column, pos->line) > 0;
+		pos->line, pos->column) > 0;
 }
 
 /*
-- 
2.43.0


From ea21783ea7a1b2de3b900a0caa5729e065a882b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 61/78] fix: escape control characters in hexadecimal in
 ort_lang_json

---
 lang-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang-json.c b/lang-json.c
index 19a926f..aa24efa 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -147,7 +147,7 @@ gen_string(FILE *f, const char *cp)
 			break;
 		default:
 			if ((unsigned char)*cp < 32)
-				rc = fprintf(f, "\\u%.4u", *cp) > 0;
+				rc = fprintf(f, "\\u%.4x", *cp) > 0;
 			else
 				rc = fputc(*cp, f) != EOF;
 		}
-- 
2.43.0


From 39f34a5b14e522b80bec617db8a7d405967ad970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 62/78] fix: escape backslashes in ort_lang_json

---
 lang-json.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lang-json.c b/lang-json.c
index aa24efa..588c429 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -117,8 +117,9 @@ static const char *const rolemapts[ROLEMAP__MAX] = {
 
 /*
  * Format the string according to the JSON specification.
- * Note about escaping the double-quote: in ort(3), double-quotes are
- * already escaped, so we need not do so again here.
+ * Note about escaping the double-quote: in ort(3), double-quotes within
+ * quoted strings are already escaped, so we need not do so again here.
+ * All other backslashes are literal, so must themselves be escaped.
  * Return zero on failure, non-zero on sucess.
  */
 static int
@@ -130,6 +131,16 @@ gen_string(FILE *f, const char *cp)
 		return 0;
 	for ( ; *cp != '\0'; cp++) {
 		switch (*cp) {
+		case '\\':
+			if (cp[1] == '"') {
+				rc = fputs("\\\"", f) != EOF;
+				cp++;
+			} else
+				rc = fputs("\\\\", f) != EOF;
+			break;
+		case '"':
+			rc = fputs("\\\"", f) != EOF;
+			break;
 		case '\b':
 			rc = fputs("\\b", f) != EOF;
 			break;
-- 
2.43.0


From 615a9f061f2ba29e5c35e47110fbb5d6f0d87218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 63/78] fix: accept -f and -x where getopt(3) looks for options
 after arguments

---
 maindiff.c | 14 ++++++++++++--
 sqldiff.c  | 14 ++++++++++++--
 xliff.c    | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index bfec866..e6079b9 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -37,7 +37,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 2;
+	int		  rc = 2, optc;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0;
 	struct diffq	 *q = NULL;
@@ -48,7 +48,17 @@ main(int argc, char *argv[])
 		err(2, "pledge");
 #endif
 
-	if (getopt(argc, argv, "d") != -1)
+	/*
+	 * Options end at "-f", which mustn't be seen by getopt(3): it
+	 * isn't an option, and some implementations also look for
+	 * options after other arguments.
+	 */
+
+	for (optc = 1; optc < argc; optc++)
+		if (strcmp(argv[optc], "-f") == 0)
+			break;
+
+	if (getopt(optc, argv, "d") != -1)
 		goto usage;
 
 	argc -= optind;
diff --git a/sqldiff.c b/sqldiff.c
index c62b8c3..2c73344 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -39,7 +39,7 @@ main(int argc, char *argv[])
 {
 	FILE		**confs = NULL, **dconfs = NULL;
 	struct config	 *cfg = NULL, *dcfg = NULL;
-	int		  rc = 0, c, destruct = 0;
+	int		  rc = 0, c, destruct = 0, optc;
 	size_t		  confsz = 0, dconfsz = 0, i, j, 
 			  confst = 0, sz;
 	struct diffq	 *q = NULL;
@@ -50,7 +50,17 @@ main(int argc, char *argv[])
 		err(EXIT_FAILURE, "pledge");
 #endif
 
-	while ((c = getopt(argc, argv, "d")) != -1)
+	/*
+	 * Options end at "-f", which mustn't be seen by getopt(3): it
+	 * isn't an option, and some implementations also look for
+	 * options after other arguments.
+	 */
+
+	for (optc = 1; optc < argc; optc++)
+		if (strcmp(argv[optc], "-f") == 0)
+			break;
+
+	while ((c = getopt(optc, argv, "d")) != -1)
 		switch (c) {
 		case 'd':
 			destruct = 1;
diff --git a/xliff.c b/xliff.c
index 5f04dea..e61c2db 100644
--- a/xliff.c
+++ b/xliff.c
@@ -43,7 +43,7 @@ main(int argc, char *argv[])
 #define	OP_EXTRACT		  0
 #define	OP_JOIN			  1
 #define	OP_UPDATE		 (-1)
-	int			  c, op = OP_EXTRACT, rc = 0;
+	int			  c, op = OP_EXTRACT, rc = 0, optc;
 	size_t			  confsz = 0, i, j, xmlstart = 0, sz;
 	struct msgq		  mq = TAILQ_HEAD_INITIALIZER(mq);
 
@@ -54,7 +54,17 @@ main(int argc, char *argv[])
 
 	memset(&args, 0, sizeof(struct ort_lang_xliff));
 
-	while ((c = getopt(argc, argv, "cju")) != -1)
+	/*
+	 * Options end at "-x", which mustn't be seen by getopt(3): it
+	 * isn't an option, and some implementations also look for
+	 * options after other arguments.
+	 */
+
+	for (optc = 1; optc < argc; optc++)
+		if (strcmp(argv[optc], "-x") == 0)
+			break;
+
+	while ((c = getopt(optc, argv, "cju")) != -1)
 		switch (c) {
 		case 'c':
 			args.flags |= ORT_LANG_XLIFF_COPY;
-- 
2.43.0


From 5808e2af3fc75b7544372198a60e1382d0433201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 64/78] fix: only one file before -f or -x is not two files

---
 maindiff.c | 2 +-
 sqldiff.c  | 2 +-
 xliff.c    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maindiff.c b/maindiff.c
index e6079b9..95105a8 100644
--- a/maindiff.c
+++ b/maindiff.c
@@ -83,7 +83,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && argc == 2)
+	if (dconfsz == (size_t)argc && argc == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
diff --git a/sqldiff.c b/sqldiff.c
index 2c73344..93e1a8d 100644
--- a/sqldiff.c
+++ b/sqldiff.c
@@ -92,7 +92,7 @@ main(int argc, char *argv[])
 
 	/* If we have 2 w/o -f, it's old-new. */
 
-	if (confsz == 0 && sz == 2)
+	if (dconfsz == sz && sz == 2)
 		confsz = dconfsz = confst = 1;
 
 	/* Need at least one configuration. */
diff --git a/xliff.c b/xliff.c
index e61c2db..cf938f4 100644
--- a/xliff.c
+++ b/xliff.c
@@ -110,7 +110,7 @@ main(int argc, char *argv[])
 
 		/* If we have 2 w/o -x, it's old-new. */
 
-		if (args.insz == 0 && sz == 2)
+		if (confsz == sz && sz == 2)
 			args.insz = confsz = xmlstart = 1;
 
 		if (OP_UPDATE == op && args.insz > 1)
-- 
2.43.0


From f67210839af33b1c98ee39aaf53814a3fe3687cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 65/78] fix: escape control characters in hexadecimal in
 ort-audit-json

---
 audit-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/audit-json.c b/audit-json.c
index 821a596..224e8f6 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -212,7 +212,7 @@ print_doc(const char *cp)
 			break;
 		default:
 			if ((unsigned char)c < 32)
-				printf("\\u%.4u", c);
+				printf("\\u%.4x", c);
 			else
 				fputc(c, stdout);
 			break;
-- 
2.43.0


From 300f71f4d73ea82e623fda18f23cc78e4fcd2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 66/78] fix: escape backslashes in ort-audit-json

---
 audit-json.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/audit-json.c b/audit-json.c
index 224e8f6..d4f1ae5 100644
--- a/audit-json.c
+++ b/audit-json.c
@@ -195,6 +195,17 @@ print_doc(const char *cp)
 
 	while ('\0' != (c = *cp++))
 		switch (c) {
+		case ('\\'):
+			/* Already-escaped quote or literal backslash. */
+			if (*cp == '"') {
+				fputs("\\\"", stdout);
+				cp++;
+			} else
+				fputs("\\\\", stdout);
+			break;
+		case ('"'):
+			fputs("\\\"", stdout);
+			break;
 		case ('\b'):
 			fputs("\\b", stdout);
 			break;
-- 
2.43.0


From 463c0812a11a6a29c7761bc25384cc66cb4b8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 67/78] fix: empty <source> or <target> crashes when parsing
 XLIFF

---
 lang-xliff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 2881c05..2bcda5b 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -478,11 +478,13 @@ xend(void *dat, const XML_Char *s)
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
 		assert(p->curunit != NULL);
-		unescape(p->curunit->target);
+		if (p->curunit->target != NULL)
+			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
 		assert(p->curunit != NULL);
-		unescape(p->curunit->source);
+		if (p->curunit->source != NULL)
+			unescape(p->curunit->source);
 		p->type = 0;
 	}
 }
-- 
2.43.0


From 8602b976b3b5cdd4d66333305c214a4a0d5bb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 68/78] fix: XLIFF without or with misplaced elements crashes
 when parsing

---
 lang-xliff.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 2bcda5b..09279ab 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -305,7 +305,7 @@ xstart(void *dat, const XML_Char *s, const XML_Char **atts)
 			return;
 		}
 	} else if (strcmp(s, "trans-unit") == 0) {
-		if (p->set->trglang == NULL) {
+		if (p->set == NULL || p->set->trglang == NULL) {
 			xparse_err(p, "<trans-unit> not in <file>");
 			XML_StopParser(p->p, 0);
 			return;
@@ -466,8 +466,15 @@ xend(void *dat, const XML_Char *s)
 
 	XML_SetDefaultHandlerExpand(p->p, NULL);
 
+	/*
+	 * This is also invoked for an empty element after we've stopped
+	 * parsing in xstart(), such as when it's misplaced.
+	 */
+
+	if (p->curunit == NULL)
+		return;
+
 	if (strcmp(s, "trans-unit") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source == NULL || 
 		    p->curunit->target == NULL) {
 			xparse_err(p, "missing <source> or "
@@ -477,12 +484,10 @@ xend(void *dat, const XML_Char *s)
 		}
 		p->curunit = NULL;
 	} else if (strcmp(s, "target") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->target != NULL)
 			unescape(p->curunit->target);
 		p->type = 0;
 	} else if (strcmp(s, "source") == 0) {
-		assert(p->curunit != NULL);
 		if (p->curunit->source != NULL)
 			unescape(p->curunit->source);
 		p->type = 0;
@@ -538,6 +543,13 @@ xliff_read(struct msgq *mq, FILE *f,
 		return 0;
 	} while (!feof(f));
 
+	if (xp->set == NULL || xp->set->trglang == NULL ||
+	    xp->set->srclang == NULL || xp->set->original == NULL) {
+		xparse_err(xp, "missing <xliff> or <file>");
+		xparse_free(xp);
+		return 0;
+	}
+
 	*ret = xp->set;
 	xp->set = NULL;
 	xparse_free(xp);
-- 
2.43.0


From ee0ce83a84e921ac540a2ca155dba558fe9294d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 69/78] fix: escape attributes when writing XLIFF

---
 lang-xliff.c | 60 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index 09279ab..fb3a634 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -424,6 +424,23 @@ escape(const char *s)
 	return buf;
 }
 
+/*
+ * Write an attribute with its value escaped.
+ * Return zero on failure, non-zero on success.
+ */
+static int
+write_attr(FILE *f, const char *name, const char *val)
+{
+	char	*buf;
+	int	 rc;
+
+	if ((buf = escape(val)) == NULL)
+		return 0;
+	rc = fprintf(f, " %s=\"%s\"", name, buf);
+	free(buf);
+	return rc >= 0;
+}
+
 /*
  * In-place unescape from XML into native characters.
  * This considers only '&amp;' -> '&' and '&lt;' -> '<'.
@@ -868,12 +885,13 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 	rc = -1;
 	qsort(x->u, x->usz, sizeof(struct xliffunit), xliffunit_sort);
 
-	if (fprintf(f, 
-	    "<xliff version=\"1.2\" "
+	if (fputs("<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
-	    "\t<file target-language=\"%s\" source-language=\"%s\" "
-	    "original=\"%s\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", x->trglang, x->srclang, x->original) < 0)
+	    "\t<file", f) == EOF ||
+	    !write_attr(f, "target-language", x->trglang) ||
+	    !write_attr(f, "source-language", x->srclang) ||
+	    !write_attr(f, "original", x->original) ||
+	    fputs(" datatype=\"plaintext\">\n\t\t<body>\n", f) == EOF)
 		goto out;
 
 	for (i = 0; i < x->usz; i++) {
@@ -883,29 +901,27 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 		    (tbuf = escape(x->u[i].target)) == NULL)
 			goto out;
 
+		if (fputs("\t\t\t<trans-unit", f) == EOF ||
+		    !write_attr(f, "id", x->u[i].name))
+			goto out;
+
 		if (tbuf == NULL && 
 		    (args->flags & ORT_LANG_XLIFF_COPY)) {
-			if (fprintf(f,
-			    "\t\t\t<trans-unit id=\"%s\">\n"
+			if (fprintf(f, ">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
-			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, sbuf) < 0)
+			    "\t\t\t</trans-unit>\n", sbuf, sbuf) < 0)
 				goto out;
 		} else if (tbuf == NULL) {
-			if (fprintf(f, 
-			    "\t\t\t<trans-unit id=\"%s\">\n"
+			if (fprintf(f, ">\n"
 			    "\t\t\t\t<source>%s</source>\n"
-			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf) < 0)
+			    "\t\t\t</trans-unit>\n", sbuf) < 0)
 				goto out;
 		} else {
-			if (fprintf(f, 
-			    "\t\t\t<trans-unit id=\"%s\">\n"
+			if (fprintf(f, ">\n"
 			    "\t\t\t\t<source>%s</source>\n"
 			    "\t\t\t\t<target>%s</target>\n"
-			    "\t\t\t</trans-unit>\n",
-			    x->u[i].name, sbuf, tbuf) < 0)
+			    "\t\t\t</trans-unit>\n", sbuf, tbuf) < 0)
 				goto out;
 		}
 		free(sbuf);
@@ -1005,11 +1021,13 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 	 * Escape all '<' and '&' as '&lt;' and '&amp;'.
 	 */
 
-	if (fprintf(f, "<xliff version=\"1.2\" "
+	if (fputs("<xliff version=\"1.2\" "
 	    "xmlns=\"urn:oasis:names:tc:xliff:document:1.2\">\n"
-	    "\t<file source-language=\"TODO\" original=\"%s\" "
-	    "target-language=\"TODO\" datatype=\"plaintext\">\n"
-            "\t\t<body>\n", cfg->fnamesz ? cfg->fnames[0] : "") < 0)
+	    "\t<file source-language=\"TODO\"", f) == EOF ||
+	    !write_attr(f, "original", 
+	    cfg->fnamesz ? cfg->fnames[0] : "") ||
+	    fputs(" target-language=\"TODO\" "
+	    "datatype=\"plaintext\">\n\t\t<body>\n", f) == EOF)
 		goto out;
 
 	for (i = 0; i < ssz; i++) {
-- 
2.43.0


From 9fbc3d4d97a1f6eece87a5331d89970e510d736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 70/78] fix: new unit identifiers may clash when updating XLIFF

---
 lang-xliff.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index fb3a634..726870d 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -685,7 +685,7 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 	const char *type, struct xliffset *x, const struct pos *pos)
 {
 	const struct label		*l;
-	size_t			 i;
+	size_t			 i, id;
 	struct xliffunit	*u;
 	char			 nbuf[32];
 	void			*pp;
@@ -716,13 +716,23 @@ xliff_update_unit(struct msgq *mq, const struct labelq *q,
 			break;
 
 	if (i == x->usz) {
+		/* Identifiers must be unique: use the first unused. */
+
+		for (id = x->usz + 1; ; id++) {
+			snprintf(nbuf, sizeof(nbuf), "%zu", id);
+			for (i = 0; i < x->usz; i++)
+				if (strcmp(x->u[i].name, nbuf) == 0)
+					break;
+			if (i == x->usz)
+				break;
+		}
+
 		pp = reallocarray(x->u, 
 			x->usz + 1, sizeof(struct xliffunit));
 		if (pp == NULL)
 			return -1;
 		x->u = pp;
 		u = &x->u[x->usz++];
-		snprintf(nbuf, sizeof(nbuf), "%zu", x->usz);
 		memset(u, 0, sizeof(struct xliffunit));
 		if ((u->name = strdup(nbuf)) == NULL)
 			return -1;
-- 
2.43.0


From 2cf032d46246b25443221c8b104c494f2bd59809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 71/78] fix: XLIFF omits isnull labels of enumerations

---
 lang-xliff.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 726870d..ec2e961 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -765,6 +765,16 @@ xliff_join_xliff(struct config *cfg, int copy,
 				return rc;
 		}
 
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_join_unit
+		    (cfg, &e->labels_null, copy, 
+		     "isnull", lang, x, &e->pos, mq);
+		if (rc <= 0)
+			return rc;
+	}
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
 			rc = xliff_join_unit
@@ -875,6 +885,15 @@ ort_lang_xliff_update(const struct ort_lang_xliff *args,
 				goto out;
 		}
 
+	TAILQ_FOREACH(e, &cfg->eq, entries) {
+		if (TAILQ_EMPTY(&e->labels_null))
+			continue;
+		rc = xliff_update_unit
+		    (mq, &e->labels_null, "isnull", x, &e->pos);
+		if (rc <= 0)
+			goto out;
+	}
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries) {
 			rc = xliff_update_unit
@@ -1011,6 +1030,12 @@ ort_lang_xliff_extract(const struct ort_lang_xliff *args,
 			    NULL, &ei->pos, &s, &ssz))
 				goto out;
 
+	TAILQ_FOREACH(e, &cfg->eq, entries)
+		if (!TAILQ_EMPTY(&e->labels_null) &&
+		    !xliff_extract_unit(mq, f, &e->labels_null,
+		    "isnull", &e->pos, &s, &ssz))
+			goto out;
+
 	TAILQ_FOREACH(b, &cfg->bq, entries) {
 		TAILQ_FOREACH(bi, &b->bq, entries)
 			if (!xliff_extract_unit(mq, f, &bi->labels, 
-- 
2.43.0


From 82ac17defd81a565daffe336ee3c79cbfc14c0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 72/78] fix: escape quotes in translations when joining XLIFF

---
 lang-xliff.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lang-xliff.c b/lang-xliff.c
index ec2e961..8b2c764 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -584,6 +584,28 @@ xliffunit_sort(const void *a1, const void *a2)
 	return strcmp(p1->source, p2->source);
 }
 
+/*
+ * Double-quotes in ort(5) strings must be escaped and strings can't end
+ * in a backslash, which would escape the closing quote.
+ * Returns a newly-allocated string or NULL on memory failure.
+ */
+static char *
+xliff_quote(const char *s)
+{
+	char	*buf, *cp;
+
+	if ((buf = cp = calloc(strlen(s) * 2 + 1, 1)) == NULL)
+		return NULL;
+	for ( ; *s != '\0'; s++) {
+		if (s[0] == '\\' && s[1] == '"')
+			*cp++ = *s++;
+		else if (s[0] == '"')
+			*cp++ = '\\';
+		*cp++ = *s;
+	}
+	return buf;
+}
+
 /*
  * Return <0 on error, 0 on syntax error, >0 on success.
  */
@@ -646,6 +668,12 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 
 	assert(targ != NULL);
 
+	if (*targ != '\0' && targ[strlen(targ) - 1] == '\\') {
+		ort_msg(mq, MSGTYPE_ERROR, 0, pos, 
+			"translation ends in backslash");
+		return 0;
+	}
+
 	/* 
 	 * We have what we want to translate, now make sure that we're
 	 * not overriding an existing translation.
@@ -671,7 +699,7 @@ xliff_join_unit(struct config *cfg, struct labelq *q, int copy,
 	if ((l = calloc(1, sizeof(struct label))) == NULL)
 		return -1;
 	l->lang = lang;
-	if ((l->label = strdup(targ)) == NULL)
+	if ((l->label = xliff_quote(targ)) == NULL)
 		return -1;
 	TAILQ_INSERT_TAIL(q, l, entries);
 	return 1;
-- 
2.43.0


From ae0e0199fc72fcd3e20f9c65434dbf27d59fe946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 73/78] fix: languages when joining XLIFF must be valid and
 case-insensitive

---
 lang-xliff.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lang-xliff.c b/lang-xliff.c
index 8b2c764..a913179 100644
--- a/lang-xliff.c
+++ b/lang-xliff.c
@@ -21,6 +21,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h> /* isalnum, isalpha, tolower */
 #include <expat.h>
 #include <limits.h> /* INT_MAX */
 #include <stdarg.h>
@@ -846,6 +847,25 @@ xliff_join_single(struct config *cfg, int copy,
 
 	assert(x->trglang != NULL);
 
+	/* Languages are lowercase identifiers (see parse_label()). */
+
+	for (i = 0; x->trglang[i] != '\0'; i++) {
+		if (!(i ? isalnum((unsigned char)x->trglang[i]) : 
+		    isalpha((unsigned char)x->trglang[i])))
+			break;
+		x->trglang[i] = (char)tolower
+			((unsigned char)x->trglang[i]);
+	}
+
+	if (i == 0 || x->trglang[i] != '\0') {
+		pos.fname = fn;
+		pos.line = pos.column = 0;
+		ort_msg(mq, MSGTYPE_ERROR, 0, &pos, 
+			"bad target-language: \"%s\"", x->trglang);
+		xparse_xliff_free(x);
+		return 0;
+	}
+
 	for (i = 0; i < cfg->langsz; i++)
 		if (strcmp(cfg->langs[i], x->trglang) == 0)
 			break;
-- 
2.43.0


From a71708d5c71f2ac7cf45f0e1d2455b04c84b03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 74/78] fix: dates as defaults when formatting JSON as a
 configuration

---
 ort-json.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ort-json.ts b/ort-json.ts
index d7dac10..8662cf9 100644
--- a/ort-json.ts
+++ b/ort-json.ts
@@ -513,6 +513,14 @@ namespace ortJson {
 			return ' roles {' + this.roleSubrqToString(r) + '};';
 		}
 
+		private dateToString(def: string): string
+		{
+			const d: Date = new Date(Number(def) * 1000);
+			return d.getUTCFullYear().toString() + 
+				'-' + (d.getUTCMonth() + 1).toString() +
+				'-' + d.getUTCDate().toString();
+		}
+
 		private fieldObjToString(name: string, field: fieldObj): string
 		{
 			let str: string = ' field';
@@ -543,6 +551,10 @@ namespace ortJson {
 				str += ' default "' + 
 					field.def.replace(/"/g, '\\"') +
 					'"';
+			else if (field.def !== null && 
+			    field.type === 'date')
+				str += ' default ' +
+					this.dateToString(field.def);
 			else if (field.def !== null)
 				str += ' default ' + field.def;
 
-- 
2.43.0


From 50115848482f188dba77c05681ac325e488a080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 75/78] fix: reals in JSON have exponents, which ort(5) does
 not have

---
 lang-json.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lang-json.c b/lang-json.c
index 588c429..c4afee7 100644
--- a/lang-json.c
+++ b/lang-json.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <inttypes.h>
+#include <math.h>
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -526,6 +527,31 @@ gen_roles(FILE *f, const struct config *cfg)
 	return fputs(" },", f) != EOF;
 }
 
+/*
+ * Write a real number in the decimal notation of ort(5), which does not
+ * have exponents, with the fewest fractional digits that read back as
+ * the same value.
+ * Returns zero on failure, non-zero otherwise.
+ */
+static int
+gen_real(FILE *f, double v)
+{
+	char	 buf[2048];
+	int	 prec;
+
+	/* Whole numbers small enough need not have a fraction. */
+
+	prec = (signbit(v) && v == 0.0) || fabs(v) > 1e15 ? 1 : 0;
+
+	for ( ; prec < 1100; prec++) {
+		snprintf(buf, sizeof(buf), "%.*f", prec, v);
+		if (strtod(buf, NULL) == v)
+			break;
+	}
+
+	return fputs(buf, f) != EOF;
+}
+
 /*
  * Emit "name": { fieldObj } w/o comma.
  * Return zero on failure, non-zero on success.
@@ -600,7 +626,9 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "\"%.17g\"", fd->def.decimal) < 0)
+			if (fputc('"', f) == EOF ||
+			    !gen_real(f, fd->def.decimal) ||
+			    fputc('"', f) == EOF)
 				return 0;
 			break;
 		case FTYPE_EMAIL:
@@ -643,8 +671,7 @@ gen_field(FILE *f, const struct field *fd)
 				return 0;
 			break;
 		case FTYPE_REAL:
-			if (fprintf(f, "%.17g", 
-			    fv->d.value.decimal) < 0)
+			if (!gen_real(f, fv->d.value.decimal))
 				return 0;
 			break;
 		case FTYPE_BLOB:
-- 
2.43.0


From edd7ef25b1f3bdaa3d37a7bd6f7c2c658b108949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 76/78] fix: bind the arguments of generated iterators in their
 places after a hashed password

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index f7e4dc3..d522764 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -545,8 +545,8 @@ gen_iterator(FILE *f, const struct config *cfg,
 				idx, pos, sent->op);
 			if (c < 0)
 				return 0;
-			pos += (size_t)c;
-			idx++;
+			idx += (size_t)c;
+			pos++;
 		}
 
 	/* Prepare and step. */
-- 
2.43.0


From 47aba0034cde7dec29b9f63e13583d6404d94f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 77/78] fix: several passwords checked in one generated search
 used the row after freeing it

---
 lang-c-source.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang-c-source.c b/lang-c-source.c
index d522764..d551c1c 100644
--- a/lang-c-source.c
+++ b/lang-c-source.c
@@ -1418,11 +1418,11 @@ gen_search(FILE *f, const struct config *cfg,
 			pos++;
 			continue;
 		}
-		if (fputs("\t\tif ", f) == EOF)
+		if (fputs("\t\tif (p != NULL &&\n\t\t    ", f) == EOF)
 			return 0;
 		if (!gen_checkpass(f, 1, pos, sent))
 			return 0;
-		if (fprintf(f, " {\n"
+		if (fprintf(f, ") {\n"
 		    "\t\t\tdb_%s_free(p);\n"
 		    "\t\t\tp = NULL;\n"
 		    "\t\t}\n",
-- 
2.43.0


From fc9a5a8163d56c5e9f575eba346afdc6482409f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 78/78] fix: generated TypeScript let every role use operations
 not assigned to any

ort(5): if there are roles, operations must be associated with one or
more roles to be used.  Also emit a valid switch if all roles are
allowed but none are defined.
---
 lang-nodejs.c | 55 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/lang-nodejs.c b/lang-nodejs.c
index 07a9a9d..34e29a4 100644
--- a/lang-nodejs.c
+++ b/lang-nodejs.c
@@ -167,27 +167,48 @@ gen_role(FILE *f, const struct role *r, size_t tabs)
 }
 
 /*
- * Recursively generate all roles allowed by this rolemap.
- * Return <0 on failure, >0 if we wrote something, 0 otherwise.
+ * Generate the cases for all roles in this rolemap.  If there are none,
+ * generate "all", which is never the current role.
+ * Return zero on failure, non-zero on success.
  */
 static int
-gen_rolemap(FILE *f, const struct rolemap *rm)
+gen_rolecases(FILE *f, const struct rolemap *rm)
 {
 	const struct rref	*rr;
+	int			 none = 1;
+
+	if (rm != NULL)
+		TAILQ_FOREACH(rr, &rm->rq, entries) {
+			if (strcmp(rr->role->name, "all") ||
+			    !TAILQ_EMPTY(&rr->role->subrq))
+				none = 0;
+			if (!gen_role(f, rr->role, 2))
+				return 0;
+		}
 
-	if (rm == NULL)
+	return !none || fputs("\t\tcase 'all':\n", f) != EOF;
+}
+
+/*
+ * Recursively generate all roles allowed by this rolemap.  If roles are
+ * enabled, nobody is allowed without a rolemap.
+ * Return <0 on failure, >0 if we wrote something, 0 otherwise.
+ */
+static int
+gen_rolemap(FILE *f, const struct config *cfg, const struct rolemap *rm)
+{
+	if (rm == NULL && TAILQ_EMPTY(&cfg->rq))
 		return 0;
 
 	if (fputs("\t\tswitch (this.#role) {\n", f) == EOF)
-		return 0;
-	TAILQ_FOREACH(rr, &rm->rq, entries)
-		if (!gen_role(f, rr->role, 2))
-			return 0;
+		return -1;
+	if (!gen_rolecases(f, rm))
+		return -1;
 
 	return fputs("\t\t\tbreak;\n"
 	     "\t\tdefault:\n"
 	     "\t\t\tprocess.abort();\n"
-	     "\t\t}\n", f) != EOF;
+	     "\t\t}\n", f) == EOF ? -1 : 1;
 }
 
 /*
@@ -386,7 +407,7 @@ gen_fill(FILE *f, const struct strct *p)
  * success.
  */
 static int
-gen_insert(FILE *f, const struct strct *p)
+gen_insert(FILE *f, const struct config *cfg, const struct strct *p)
 {
 	const struct field	*fd;
 	size_t	 	 	 pos = 1, col;
@@ -461,7 +482,7 @@ gen_insert(FILE *f, const struct strct *p)
 	    "\n", p->name) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, p->ins->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, p->ins->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -730,7 +751,7 @@ gen_update(FILE *f, const struct config *cfg,
 	    num) < 0)
 		return 0;
 
-	if ((rc = gen_rolemap(f, up->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, up->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1144,7 +1165,7 @@ gen_query(FILE *f, const struct config *cfg,
 	    "\t\tstmt.raw(true);\n"
 	    "\n", s->parent->name, num) < 0)
 		return 0;
-	if ((rc = gen_rolemap(f, s->rolemap)) < 0)
+	if ((rc = gen_rolemap(f, cfg, s->rolemap)) < 0)
 		return 0;
 	else if (rc > 0 && fputc('\n', f) == EOF)
 		return 0;
@@ -1291,7 +1312,7 @@ gen_api(FILE *f, const struct config *cfg, const struct strct *p)
 	if (!gen_reffind(f, p))
 		return 0;
 
-	if (p->ins != NULL && !gen_insert(f, p))
+	if (p->ins != NULL && !gen_insert(f, cfg, p))
 		return 0;
 
 	pos = 0;
@@ -1389,7 +1410,6 @@ static int
 gen_strct(FILE *f, const struct strct *p, size_t pos)
 {
 	const struct field	*fd;
-	const struct rref	*r;
 	const char		*tab;
 
 	if (pos > 0 && fputc('\n', f) == EOF)
@@ -1455,9 +1475,8 @@ gen_strct(FILE *f, const struct strct *p, size_t pos)
 			tab = "\t";
 			if (fputs("\t\tswitch (role) {\n", f) == EOF)
 				return 0;
-			TAILQ_FOREACH(r, &fd->rolemap->rq, entries)
-				if (!gen_role(f, r->role, 2))
-					return 0;
+			if (!gen_rolecases(f, fd->rolemap))
+				return 0;
 			if (!gen_comment(f, 3, COMMENT_JS, 
 			    "Don't export field to noted roles."))
 				return 0;
-- 
2.43.0

