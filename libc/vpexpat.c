/* A model of expat(3) for the engine: a strict, non-validating parser of XML 1.0 without document types, calling
 * the handlers as libexpat does (character data is handed out in pieces).  Natively libexpat itself is used. */
#include <expat.h>
#include <stdlib.h>
#include <string.h>
struct XML_ParserStruct {
	void *ud; XML_StartElementHandler st; XML_EndElementHandler en; XML_CharacterDataHandler cd; XML_DefaultHandler df; XML_CommentHandler cm; XML_ProcessingInstructionHandler pi;
	char *b; size_t n, at, ev; int stop, err, fin;
};
static void vx_clear(XML_Parser p) { free(p->b); memset(p, 0, sizeof *p); }
XML_Parser XML_ParserCreate(const XML_Char *e) { return calloc(1, sizeof(struct XML_ParserStruct)); }
XML_Parser XML_ParserCreateNS(const XML_Char *e, XML_Char c) { return XML_ParserCreate(e); }
XML_Bool XML_ParserReset(XML_Parser p, const XML_Char *e) { vx_clear(p); return 1; }
void XML_ParserFree(XML_Parser p) { if (p) { free(p->b); free(p); } }
void XML_SetUserData(XML_Parser p, void *u) { p->ud = u; }
void XML_SetElementHandler(XML_Parser p, XML_StartElementHandler s, XML_EndElementHandler e) { p->st = s; p->en = e; }
void XML_SetStartElementHandler(XML_Parser p, XML_StartElementHandler s) { p->st = s; }
void XML_SetEndElementHandler(XML_Parser p, XML_EndElementHandler e) { p->en = e; }
void XML_SetCharacterDataHandler(XML_Parser p, XML_CharacterDataHandler h) { p->cd = h; }
void XML_SetDefaultHandler(XML_Parser p, XML_DefaultHandler h) { p->df = h; }
void XML_SetDefaultHandlerExpand(XML_Parser p, XML_DefaultHandler h) { p->df = h; }
void XML_SetCommentHandler(XML_Parser p, XML_CommentHandler h) { p->cm = h; }
void XML_SetProcessingInstructionHandler(XML_Parser p, XML_ProcessingInstructionHandler h) { p->pi = h; }
enum XML_Error XML_GetErrorCode(XML_Parser p) { return p->err; }
const XML_LChar *XML_ErrorString(enum XML_Error e) { return e == XML_ERROR_ABORTED ? "parsing aborted" : e ? "not well-formed" : NULL; }
enum XML_Status XML_StopParser(XML_Parser p, XML_Bool r) { if (p->stop || p->fin) return XML_STATUS_ERROR; p->stop = 1; return XML_STATUS_OK; }
XML_Size XML_GetCurrentLineNumber(XML_Parser p) { size_t i, l = 1; for (i = 0; i < p->ev; i++) l += p->b[i] == '\n'; return l; }
XML_Size XML_GetCurrentColumnNumber(XML_Parser p) { size_t i, c = 0; for (i = 0; i < p->ev; i++) c = p->b[i] == '\n' ? 0 : c + 1; return c; }
static int vx_ws(int c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static int vx_ns(int c) { c &= 255; return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == ':') | (c >= 128); }
static int vx_nc(int c) { return vx_ns(c) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '.'); }
/* length of the character at i, 0 if none is allowed there */
static size_t vx_ch(XML_Parser p, size_t i) {
	unsigned char *s = (unsigned char *)p->b + i; size_t k, n = p->n - i; unsigned c = s[0];
	if (c < 128) return (c >= 32) | (c == '\t') | (c == '\n') | (c == '\r');
	k = c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
	if (k == 0 || k > n) return 0;
	for (size_t j = 1; j < k; j++) if ((s[j] & 0xc0) != 0x80) return 0;
	if (k == 3 && ((c == 0xe0 && s[1] < 0xa0) || (c == 0xed && s[1] >= 0xa0) || (c == 0xef && s[1] == 0xbf && s[2] >= 0xbe))) return 0;
	if (k == 4 && ((c == 0xf0 && s[1] < 0x90) || (c == 0xf4 && s[1] >= 0x90))) return 0;
	return k;
}
static int vx_at(XML_Parser p, const char *s) { size_t l = strlen(s); return p->n - p->at >= l && !memcmp(p->b + p->at, s, l); }
static size_t vx_name(XML_Parser p, size_t i) { size_t s = i; if (i >= p->n || !vx_ns(p->b[i])) return 0; while (i < p->n && vx_nc(p->b[i])) i++; return i - s; }
static char *vx_dup(const char *b, size_t n) { char *r = malloc(n + 1); memcpy(r, b, n); r[n] = 0; return r; }
/* a reference at i: its length, its value as UTF-8 in v; 0 if malformed */
static size_t vx_ref(XML_Parser p, size_t i, char *v) {
	static const char *const nm[] = { "amp;", "lt;", "gt;", "quot;", "apos;" }; size_t k, s = i++; unsigned long c = 0; int hex, d, any = 0;
	for (k = 0; k < 5; k++) if (p->n - i >= strlen(nm[k]) && !memcmp(p->b + i, nm[k], strlen(nm[k]))) { v[0] = "&<>\"'"[k]; v[1] = 0; return 1 + strlen(nm[k]); }
	if (i >= p->n || p->b[i] != '#') return 0;
	i++; hex = i < p->n && p->b[i] == 'x'; i += hex;
	for (; i < p->n && p->b[i] != ';'; i++) { int x = p->b[i]; if (x >= '0' && x <= '9') d = x - '0'; else if (hex && x >= 'a' && x <= 'f') d = x - 'a' + 10; else if (hex && x >= 'A' && x <= 'F') d = x - 'A' + 10; else return 0; c = c * (hex ? 16 : 10) + d; any = 1; if (c > 0x10ffff) return 0; }
	if (i >= p->n || !any || !(c == 9 || c == 10 || c == 13 || (c >= 32 && c < 0xd800) || (c >= 0xe000 && c < 0xfffe) || c >= 0x10000)) return 0;
	k = 0;
	if (c < 128) v[k++] = (char)c; else if (c < 0x800) { v[k++] = (char)(0xc0 | c >> 6); v[k++] = (char)(0x80 | (c & 63)); } else if (c < 0x10000) { v[k++] = (char)(0xe0 | c >> 12); v[k++] = (char)(0x80 | (c >> 6 & 63)); v[k++] = (char)(0x80 | (c & 63)); } else { v[k++] = (char)(0xf0 | c >> 18); v[k++] = (char)(0x80 | (c >> 12 & 63)); v[k++] = (char)(0x80 | (c >> 6 & 63)); v[k++] = (char)(0x80 | (c & 63)); }
	v[k] = 0; return i + 1 - s;
}
static int vx_text(XML_Parser p, size_t n, const char *v, size_t vn) {	/* n raw bytes which mean v */
	p->ev = p->at;
	if (p->cd) p->cd(p->ud, v, (int)vn); else if (p->df) p->df(p->ud, p->b + p->at, (int)n);
	p->at += n; return !p->stop;
}
static int vx_until(XML_Parser p, size_t skip, const char *e, size_t *len) {	/* up to and with e */
	size_t l = strlen(e), i, k;
	for (i = p->at + skip; i + l <= p->n; ) { if (!memcmp(p->b + i, e, l)) { *len = i + l - p->at; return 1; } if (!(k = vx_ch(p, i))) return 0; i += k; }
	return 0;
}
static int vx_other(XML_Parser p) {	/* comment or processing instruction; 0: neither or malformed */
	size_t len, i; char *s;
	if (vx_at(p, "<!--")) {
		if (!vx_until(p, 4, "-->", &len)) return 0;
		for (i = p->at + 4; i + 3 < p->at + len; i++) if (p->b[i] == '-' && p->b[i + 1] == '-') return 0;
		p->ev = p->at;
		if (p->cm) { s = vx_dup(p->b + p->at + 4, len - 7); p->cm(p->ud, s); free(s); } else if (p->df) p->df(p->ud, p->b + p->at, (int)len);
	} else if (vx_at(p, "<?")) {
		if (!(i = vx_name(p, p->at + 2)) || (i == 3 && (p->b[p->at + 2] | 32) == 'x' && (p->b[p->at + 3] | 32) == 'm' && (p->b[p->at + 4] | 32) == 'l' && p->at)) return 0;
		if (!vx_until(p, 2 + i, "?>", &len) || (len > i + 4 && !vx_ws(p->b[p->at + 2 + i]))) return 0;
		p->ev = p->at; if (p->df) p->df(p->ud, p->b + p->at, (int)len);
	} else return 0;
	p->at += len; return 1;
}
static int vx_doc(XML_Parser p) {
	char *open[64]; int depth = 0, root = 0; size_t i, n, k; char v[8];
	if (p->n >= 3 && !memcmp(p->b, "\357\273\277", 3)) p->at = 3;
	for (;;) {
		if (p->stop) return 0;
		if (p->at >= p->n) return root && depth == 0;
		if (depth == 0 && p->b[p->at] != '<') { if (!vx_ws(p->b[p->at])) return 0; if (p->df) p->df(p->ud, p->b + p->at, 1); p->at++; continue; }
		if (p->b[p->at] != '<') {
			if (p->b[p->at] == '&') { if (!(n = vx_ref(p, p->at, v))) return 0; if (!vx_text(p, n, v, strlen(v))) return 0; continue; }
			if (p->b[p->at] == '\n' || p->b[p->at] == '\r') { n = p->b[p->at] == '\r' && p->at + 1 < p->n && p->b[p->at + 1] == '\n' ? 2 : 1; if (!vx_text(p, n, "\n", 1)) return 0; continue; }
			for (i = p->at; i < p->n && p->b[i] != '<' && p->b[i] != '&' && p->b[i] != '\n' && p->b[i] != '\r'; i += k) {
				if (!(k = vx_ch(p, i)) || (p->n - i >= 3 && !memcmp(p->b + i, "]]>", 3))) { if (i > p->at) vx_text(p, i - p->at, p->b + p->at, i - p->at); return 0; }
			}
			if (!vx_text(p, i - p->at, p->b + p->at, i - p->at)) return 0;
			continue;
		}
		if (vx_at(p, "<![CDATA[")) {
			size_t len, e; if (!depth || !vx_until(p, 9, "]]>", &len)) return 0;
			e = p->at + len; p->ev = p->at;
			if (p->cd) { if (len > 12) p->cd(p->ud, p->b + p->at + 9, (int)(len - 12)); } else if (p->df) p->df(p->ud, p->b + p->at, (int)len);
			p->at = e; continue;
		}
		if (vx_at(p, "<!") || vx_at(p, "<?")) { if (!vx_other(p)) return 0; continue; }
		if (vx_at(p, "</")) {
			n = vx_name(p, p->at + 2); if (!n || !depth || strlen(open[depth - 1]) != n || memcmp(open[depth - 1], p->b + p->at + 2, n)) return 0;
			i = p->at + 2 + n; while (i < p->n && vx_ws(p->b[i])) i++;
			if (i >= p->n || p->b[i] != '>') return 0;
			p->ev = p->at; if (p->en) p->en(p->ud, open[depth - 1]); else if (p->df) p->df(p->ud, p->b + p->at, (int)(i + 1 - p->at));
			free(open[--depth]); p->at = i + 1; continue;
		}
		{	/* a start tag */
			const XML_Char *at[33]; int na = 0, j, empty; char *nm, *w; size_t wn;
			if ((depth == 0 && root) || !(n = vx_name(p, p->at + 1))) return 0;
			nm = vx_dup(p->b + p->at + 1, n); i = p->at + 1 + n;
			for (;;) {
				size_t s = i; while (i < p->n && vx_ws(p->b[i])) i++;
				if (i >= p->n) return 0;
				if (p->b[i] == '>' || p->b[i] == '/') break;
				if (s == i || !(n = vx_name(p, i)) || na + 2 > 32) return 0;
				w = vx_dup(p->b + i, n); for (j = 0; j < na; j += 2) if (!strcmp(at[j], w)) return 0;
				at[na++] = w; i += n;
				while (i < p->n && vx_ws(p->b[i])) i++;
				if (i >= p->n || p->b[i] != '=') return 0;
				i++; while (i < p->n && vx_ws(p->b[i])) i++;
				if (i >= p->n || (p->b[i] != '"' && p->b[i] != '\'')) return 0;
				s = i++; for (n = i; n < p->n && p->b[n] != p->b[s]; n++) ; if (n >= p->n) return 0;
				w = malloc(n - i + 1); wn = 0;
				while (i < n) {
					if (p->b[i] == '<') return 0;
					if (p->b[i] == '&') { size_t l = vx_ref(p, i, v); if (!l) return 0; memcpy(w + wn, v, strlen(v)); wn += strlen(v); i += l; }
					else if (vx_ws(p->b[i])) { if (p->b[i] == '\r' && p->b[i + 1] == '\n') i++; w[wn++] = ' '; i++; }
					else { if (!(k = vx_ch(p, i))) return 0; memcpy(w + wn, p->b + i, k); wn += k; i += k; }
				}
				w[wn] = 0; at[na++] = w; i = n + 1;
			}
			at[na] = NULL; empty = p->b[i] == '/';
			if (empty && (++i >= p->n || p->b[i] != '>')) return 0;
			if (depth >= 64) return 0;
			p->ev = p->at; root = 1;
			if (p->st) p->st(p->ud, nm, at); else if (p->df) p->df(p->ud, p->b + p->at, (int)(i + 1 - p->at));
			if (empty) { if (p->en) p->en(p->ud, nm); free(nm); } else open[depth++] = nm;
			for (j = 0; j < na; j++) free((void *)at[j]);
			p->at = i + 1;
		}
	}
}
enum XML_Status XML_Parse(XML_Parser p, const char *s, int len, int fin) {
	char *q;
	if (p->fin || p->stop) { p->err = XML_ERROR_FINISHED; return XML_STATUS_ERROR; }
	q = realloc(p->b, p->n + (size_t)len + 1); if (!q) { p->err = XML_ERROR_NO_MEMORY; return XML_STATUS_ERROR; }
	p->b = q; memcpy(p->b + p->n, s, (size_t)len); p->n += (size_t)len; p->b[p->n] = 0;
	if (!fin) return XML_STATUS_OK;
	p->fin = 0;
	if (!vx_doc(p)) { p->ev = p->at; p->err = p->stop ? XML_ERROR_ABORTED : XML_ERROR_SYNTAX; p->fin = 1; return XML_STATUS_ERROR; }
	p->fin = 1; return XML_STATUS_OK;
}
