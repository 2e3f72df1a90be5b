/* Integers, enumeration values, bit indexes, limits: exact or refused. */
#include "common.h"
/* value of the text "[-]digits" at p (blank in place of the sign allowed); *big when it exceeds the 63-bit magnitude */
static int64_t val(const char *p, size_t n, int *big) {
	uint64_t v = 0; int neg = 0; size_t i; int over = 0;
	for (i = 0; i < n; i++) {
		if (p[i] == ' ') continue;
		if (p[i] == '-') { neg = 1; continue; }
		{ unsigned d = (unsigned)(p[i] - '0'); over |= (v > 922337203685477580ULL) | ((v == 922337203685477580ULL) & (d > 7)); v = v * 10 + d; }
	}
	*big = over;
	return neg ? -(int64_t)v : (int64_t)v;
}
static char *mark(struct tx *t, const char *tpl, size_t *off, size_t *len) { *off = t->n; tx_tpl(t, tpl); *len = t->n - *off; return t->b + *off; }
#define PRE "struct q { field id int rowid; "
static const char *const nums[] = { "~-~9", "~-~9~9~9~9", "~-000~9~9", "~-922337203685477580~9", "~-92233720368547~9580~9", "~-1844674407370955161~9", "~-99999999999999999999~9", "~-~9223372036854775807" };
static struct field *fld(struct config *c, const char *n) { return find_field(find_strct(c, "q"), n); }
int harness(void) {
	char *mode = vp_sparam("mode"); struct tx t; struct config *c; size_t o, l; int big; int64_t v; struct field *f;
	int64_t num = vp_param("num", 0);
	tx_init(&t);
	if (!strcmp(mode, "default") || !strcmp(mode, "limit") || !strcmp(mode, "epoch")) {
		const char *const kw = !strcmp(mode, "limit") ? "field d int limit ge " : !strcmp(mode, "epoch") ? "field d epoch default " : "field d int default ";
		tx_s(&t, PRE); tx_s(&t, kw); mark(&t, nums[num], &o, &l); tx_s(&t, "; };");
		c = parse_tx(&t);
		v = val(t.b + o, l, &big);
		vp_assert((c != NULL) == !big, "integer-accepted-iff-it-fits");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		f = fld(c, "d");
		if (!strcmp(mode, "limit")) vp_assert(TAILQ_FIRST(&f->fvq)->d.value.integer == v && TAILQ_FIRST(&f->fvq)->type == VALIDATE_GE, "limit-exact");
		else vp_assert((f->flags & FIELD_HASDEF) && f->def.integer == v, "default-exact");
		vp_reach("accepted");
	} else if (!strcmp(mode, "length")) {	/* length limits are not negative */
		static const char *const ty[] = { "text", "email", "blob", "password" }; struct fvalid *fv; int neg; size_t at;
		tx_s(&t, PRE "field d "); tx_pick(&t, "ty", ty, 4); tx_s(&t, " limit le "); at = t.n; mark(&t, "~-~9~9", &o, &l); tx_s(&t, "; };");
		c = parse_tx(&t); v = val(t.b + o, l, &big); neg = t.b[at] == '-';
		if (c == NULL) { vp_assert(neg, "length-accepted"); vp_reach("rejected"); return 0; }
		vp_assert(!neg || v == 0, "negative-length-refused");
		fv = TAILQ_FIRST(&fld(c, "d")->fvq); vp_assert(fv->d.value.len == (size_t)v && fv->type == VALIDATE_LE, "length-exact"); vp_reach("accepted");
	} else if (!strcmp(mode, "query")) {	/* limit (zero: none) and offset are not negative */
		struct search *s; size_t o2, l2; int64_t w; int b2;
		tx_s(&t, PRE "list id: limit "); mark(&t, "~-~9~9", &o, &l);
		if (pickc("off", 0, 1)) { tx_s(&t, ", "); mark(&t, "~-~9", &o2, &l2); } else o2 = 0;
		tx_s(&t, "; };");
		c = parse_tx(&t); v = val(t.b + o, l, &big); w = o2 ? val(t.b + o2, l2, &b2) : 0;
		if (c == NULL) { vp_assert(v < 0 || (o2 && w < 0), "limit-accepted"); vp_reach("rejected"); return 0; }
		s = TAILQ_FIRST(&find_strct(c, "q")->sq);
		vp_assert(v >= 0, "limit-not-negative"); vp_assert(s->limit == v && (!o2 || s->offset == w) && (o2 || s->offset == 0), "limit-exact"); vp_assert(!o2 || w >= 0, "offset-not-negative"); vp_reach("accepted");
	} else if (!strcmp(mode, "enum")) {	/* explicit and automatic values */
		int n = (int)vp_param("n", 3), i, j, au[6], dup = 0, ex = 0; int64_t vs[6], mx = -1; const struct eitem *ei; char nm[8]; int over = 0;
		static const char *const forms[] = { "~-~9~9", "922337203685477580~9", "~-~9" };
		tx_s(&t, PRE "field e enum e; }; enum e { ");
		for (i = 0; i < n; i++) {
			size_t oo, ll; int b;
			tx_f(&t, "item i%d ", i);
			snprintf(nm, sizeof nm, "auto%d", i); au[i] = pickc(nm, 0, 1);
			if (!au[i]) { mark(&t, forms[vp_param("form", 0) ? (i == 0 ? 1 : 2) : 0], &oo, &ll); vs[i] = val(t.b + oo, ll, &b); over |= b | (vs[i] == INT64_MAX); }
			tx_s(&t, "; ");
		}
		tx_s(&t, "};");
		for (i = 0; i < n; i++) if (!au[i]) { ex = 1; if (vs[i] > mx) mx = vs[i]; for (j = 0; j < i; j++) if (!au[j]) dup |= vs[i] == vs[j]; }
		(void)ex;
		/* automatic values: one more than the greatest, or zero, rising in order */
		{ int64_t next = mx < 0 ? 0 : mx + 1; for (i = 0; i < n; i++) if (au[i]) { over |= next >= INT64_MAX || next < 0; vs[i] = next++; } }
		c = parse_tx(&t);
		vp_assert((c != NULL) == !(dup || over), "enumeration-accepted-iff-values-distinct-and-in-range");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		i = 0; TAILQ_FOREACH(ei, &find_enm(c, "e")->eq, entries) { vp_assert(i < n && ei->value == vs[i], "item-value"); i++; }
		vp_assert(i == n, "item-count"); vp_reach("accepted");
	} else if (!strcmp(mode, "bits")) {
		int n = (int)vp_param("n", 2), i, j, bad = 0, b; int64_t vs[6]; const struct bitidx *bi;
		tx_s(&t, PRE "field e bits e; }; bits e { ");
		for (i = 0; i < n; i++) { size_t oo, ll; tx_f(&t, "item i%d ", i); mark(&t, i ? "~9~9" : "~-~9~9", &oo, &ll); vs[i] = val(t.b + oo, ll, &b); tx_s(&t, "; "); }
		tx_s(&t, "};");
		for (i = 0; i < n; i++) { bad |= (vs[i] < 0) | (vs[i] > 63); for (j = 0; j < i; j++) bad |= vs[i] == vs[j]; }
		c = parse_tx(&t);
		vp_assert((c != NULL) == !bad, "bits-accepted-iff-distinct-within-0-63");
		if (c == NULL) { vp_reach("rejected"); return 0; }
		i = 0; TAILQ_FOREACH(bi, &find_bitf(c, "e")->bq, entries) { vp_assert(i < n && bi->value == vs[i], "bit-index"); i++; }
		vp_reach("accepted");
	} else if (!strcmp(mode, "date")) {	/* yyyy-mm-dd: days since the epoch, times 86400 */
		int64_t y, m, d, yy, era, yoe, doy, doe; int leap, ml;
		static const signed char days[] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
		static const int years[] = { 1, 1900, 1969, 1970, 1999, 2000, 2004, 2023, 2038, 2100, 9999 };
		y = years[vp_param("num", 0)]; m = pickc("m", 0, vp_param("wide", 0) ? 99 : 19); d = pickc("d", 0, vp_param("wide", 0) ? 99 : 39);
		tx_f(&t, PRE "field d date default %d-%02d-%02d; };", (int)y, (int)m, (int)d);
		c = parse_tx(&t);
		if (m >= 1 && m <= 12 && d >= 1) {
			leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; ml = days[m] + (m == 2 && leap);
			if (d <= ml) {
				vp_assert(c != NULL, "valid-date-accepted");
				yy = m <= 2 ? y - 1 : y; era = yy / 400; yoe = yy - era * 400; doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
				vp_assert(fld(c, "d")->def.integer == (era * 146097 + doe - 719468) * 86400, "date-exact"); vp_reach("accepted"); return 0;
			}
			if (d <= 31) { vp_reach("date-beyond-month"); return 0; }	/* rolls over or refused: not stated */
		}
		vp_assert(c == NULL, "impossible-date-refused"); vp_reach("rejected");
	}
	return 0;
}
