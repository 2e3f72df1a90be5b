/*
 * Model of the C library for symbolic execution: streams are memory
 * buffers, allocation and stream operations can be made to fail at a
 * chosen point.  Primitive memory, string, ctype and formatting functions
 * are in the engine itself.
 */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <limits.h>
#include <time.h>
typedef struct vfile {
	const char *name; unsigned char *buf; size_t len, cap, pos;
	int rd, wr, eof, err; int unget; int64_t rfail, wfail, wn; struct vfile *next;
} FILE;
#define EOF (-1)
void *vp_alloc(size_t); void *vp_zalloc(size_t); void vp_free(void *); void *vp_realloc(void *, size_t);
char *vp_format(const char *, va_list *, size_t *);
long long vp_conc(long long); long long vp_strtoll(const char *, size_t *, int *); double vp_strtod(const char *, size_t *, int *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); size_t strlen(const char *); int strcmp(const char *, const char *);
size_t strnlen(const char *, size_t);
void vp_end(void) __attribute__((noreturn));
void abort(void) __attribute__((noreturn));

static int errno_;
int *__errno_location(void) { return &errno_; }

/* ---- allocation ---- */
static int64_t alloc_k = -1, alloc_n; static int fired;
int64_t vp_alloc_count(void) { return alloc_n; }
void vp_alloc_fault(int64_t k) { alloc_k = k; alloc_n = 0; fired = 0; }
int vp_fault_fired(void) { return fired; }
static int afail(void) {
	if (alloc_k == -1) { alloc_n++; return 0; }
	if (alloc_n++ == alloc_k) { fired = 1; alloc_k = -1; errno_ = ENOMEM; return 1; }
	return 0;
}
void *malloc(size_t n) { return afail() ? 0 : vp_alloc(n); }
void *calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno_ = ENOMEM; return 0; } return afail() ? 0 : vp_zalloc(a * b); }
void *realloc(void *p, size_t n) { return afail() ? 0 : vp_realloc(p, n); }
void *reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno_ = ENOMEM; return 0; } return afail() ? 0 : vp_realloc(p, a * b); }
void free(void *p) { vp_free(p); }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p; if (afail()) return 0; p = vp_alloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p; if (afail()) return 0; p = vp_zalloc(n + 1); memcpy(p, s, n); return p; }
void explicit_bzero(void *p, size_t n) { memset(p, 0, n); }

/* ---- streams ---- */
static FILE in_ = { .rd = 1, .unget = -1, .rfail = -1, .wfail = -1 }, out_ = { .wr = 1, .unget = -1, .rfail = -1, .wfail = -1 }, err_ = { .wr = 1, .unget = -1, .rfail = -1, .wfail = -1 };
FILE *stdin = &in_, *stdout = &out_, *stderr = &err_;
static struct { const char *name; const void *buf; size_t n; } files[8]; static int nfiles;
void vp_file(const char *path, const void *buf, size_t n) { files[nfiles].name = path; files[nfiles].buf = buf; files[nfiles].n = n; nfiles++; }
FILE *vp_in(const char *name, const void *buf, size_t n) {
	FILE *f = vp_zalloc(sizeof *f);
	f->name = name; f->buf = (unsigned char *)buf; f->len = n; f->rd = 1; f->rfail = f->wfail = -1; f->unget = -1;
	return f;
}
FILE *vp_out(void) { FILE *f = vp_zalloc(sizeof *f); f->wr = 1; f->wfail = f->rfail = -1; f->unget = -1; return f; }
void vp_write_fault(FILE *f, int64_t k) { f->wfail = k; f->wn = 0; fired = 0; }
void vp_read_fault(FILE *f, int64_t k) { f->rfail = k; }
static int room(FILE *f, size_t n) {
	if (f->len + n + 1 > f->cap) {
		size_t c = f->cap ? f->cap * 2 : 512;
		unsigned char *q;
		while (c < f->len + n + 1) c *= 2;
		q = vp_zalloc(c);
		if (f->len) memcpy(q, f->buf, f->len);
		if (f->buf) vp_free(f->buf);
		f->buf = q; f->cap = c;
	}
	return 1;
}
char *vp_out_buf(FILE *f, size_t *n) { room(f, 0); f->buf[f->len] = 0; if (n) *n = f->len; return (char *)f->buf; }
static int wput(FILE *f, const void *p, size_t n) {	/* one write call */
	if (f->rd) { f->err = 1; errno_ = EBADF; return -1; }
	if (f->wfail != -1 && f->wn++ == f->wfail) { f->wfail = -1; f->err = 1; fired = 1; errno_ = EIO; return -1; }
	room(f, n); memcpy(f->buf + f->len, p, n); f->len += n;
	return 0;
}
FILE *fopen(const char *path, const char *mode) {
	for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, path) && mode[0] == 'r') return vp_in(path, files[i].buf, files[i].n);
	errno_ = ENOENT; return 0;
}
int fclose(FILE *f) { if (f != stdin && f != stdout && f != stderr) { if (f->wr && f->buf) vp_free(f->buf); vp_free(f); } return 0; }
int fflush(FILE *f) { return f && f->err ? EOF : 0; }
int feof(FILE *f) { return f->eof; }
int ferror(FILE *f) { return f->err; }
void clearerr(FILE *f) { f->err = f->eof = 0; }
int fgetc(FILE *f) {
	if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
	if (f->rfail >= 0 && (int64_t)f->pos == f->rfail) { f->err = 1; fired = 1; errno_ = EIO; return EOF; }
	if (f->pos >= f->len) { f->eof = 1; return EOF; }
	return f->buf[f->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { if (c == EOF) return EOF; f->unget = (unsigned char)c; f->eof = 0; return c; }
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
	size_t k = 0, tot = sz * n;
	if (tot && f->unget >= 0) { ((unsigned char *)p)[k++] = (unsigned char)f->unget; f->unget = -1; }
	if (k < tot) {
		size_t m = tot - k, av = f->len - f->pos;
		if (f->rfail >= 0) { if ((int64_t)f->pos + (int64_t)(m < av ? m : av) > f->rfail) { f->err = 1; fired = 1; errno_ = EIO; return k / sz; } }
		if (m > av) { m = av; f->eof = 1; }
		memcpy((char *)p + k, f->buf + f->pos, m); f->pos += m; k += m;
	}
	return k / sz;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (!sz || !n) return 0; return wput(f, p, sz * n) < 0 ? 0 : n; }
int fputs(const char *s, FILE *f) { return wput(f, s, strlen(s)) < 0 ? EOF : 1; }
int fputc(int c, FILE *f) { unsigned char b = (unsigned char)c; return wput(f, &b, 1) < 0 ? EOF : b; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char *s) { if (wput(stdout, s, strlen(s)) < 0) return EOF; return wput(stdout, "\n", 1) < 0 ? EOF : 1; }
int vfprintf(FILE *f, const char *fmt, va_list ap) {
	size_t n; va_list c; char *p; int r;
	va_copy(c, ap); p = vp_format(fmt, (va_list *)&c, &n); va_end(c);
	r = wput(f, p, n) < 0 ? -1 : (int)n; vp_free(p); return r;
}
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int printf(const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int vprintf(const char *fmt, va_list ap) { return vfprintf(stdout, fmt, ap); }
int vsnprintf(char *b, size_t sz, const char *fmt, va_list ap) {
	size_t n, m; va_list c; char *p;
	va_copy(c, ap); p = vp_format(fmt, (va_list *)&c, &n); va_end(c);
	if (sz) { m = n < sz - 1 ? n : sz - 1; memcpy(b, p, m); b[m] = 0; }
	vp_free(p); return (int)n;
}
int snprintf(char *b, size_t sz, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vsnprintf(b, sz, fmt, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *fmt, va_list ap) {
	size_t n; va_list c;
	if (afail()) { *o = 0; return -1; }
	va_copy(c, ap); *o = vp_format(fmt, (va_list *)&c, &n); va_end(c); return (int)n;
}
int asprintf(char **o, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = vasprintf(o, fmt, ap); va_end(ap); return r; }
char *strerror(int e) { return e == ENOMEM ? "Cannot allocate memory" : e == EIO ? "Input/output error" : "error"; }

/* ---- numbers, strings ---- */
long long strtoll(const char *s, char **ep, int base) {
	size_t end; int ov; long long r;
	if (base != 10 && base != 0) abort();
	r = vp_strtoll(s, &end, &ov); if (ep) *ep = (char *)s + end; if (ov) errno_ = ERANGE; return r;
}
long long __isoc23_strtoll(const char *s, char **ep, int base) { return strtoll(s, ep, base); }
long strtol(const char *s, char **ep, int base) { return strtoll(s, ep, base); }
long __isoc23_strtol(const char *s, char **ep, int base) { return strtoll(s, ep, base); }
double strtod(const char *s, char **ep) { size_t end; int er; double d = vp_strtod(s, &end, &er); if (ep) *ep = (char *)s + end; if (er) errno_ = ERANGE; return d; }
/* only the conversions of one number */
void vp_unsupported(const char *);
static int vsscanf_(const char *s, const char *f, va_list ap) {
	const char *p = s; char *ep;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	if (*p == 0) return -1;
	if (!strcmp(f, "%lf")) { double d = strtod(p, &ep); if (ep != p) *va_arg(ap, double *) = d; }
	else if (!strcmp(f, "%ld") || !strcmp(f, "%lld")) { long long d = strtoll(p, &ep, 10); if (ep != p) *va_arg(ap, long long *) = d; }
	else { vp_unsupported("sscanf"); return 0; }
	return ep != p;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf_(s, f, ap); va_end(ap); return r; }
size_t strlcpy(char *d, const char *s, size_t n) { size_t l = strlen(s); if (n) { size_t m = l < n - 1 ? l : n - 1; memcpy(d, s, m); d[m] = 0; } return l; }
size_t strlcat(char *d, const char *s, size_t n) { size_t k = strnlen(d, n), l = strlen(s); if (k == n) return n + l; { size_t m = l < n - k - 1 ? l : n - k - 1; memcpy(d + k, s, m); d[k + m] = 0; } return k + l; }
char *strstr(const char *h, const char *n) { size_t nl = strlen(n), hl = strlen(h); extern int memcmp(const void *, const void *, size_t); for (size_t i = 0; i + nl <= hl; i++) if (!memcmp(h + i, n, nl)) return (char *)h + i; return 0; }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {	/* insertion sort */
	char tmp[256]; char *a = b;
	if (sz > sizeof tmp) abort();
	for (size_t i = 1; i < n; i++) {
		size_t j = i;
		memcpy(tmp, a + i * sz, sz);
		while (j > 0 && cmp(a + (j - 1) * sz, tmp) > 0) { memcpy(a + j * sz, a + (j - 1) * sz, sz); j--; }
		memcpy(a + j * sz, tmp, sz);
	}
}
double fabs(double x) { return x < 0 ? -x : x == 0 ? 0.0 : x; }
time_t mktime(struct tm *t) {	/* UTC */
	long long y = (long long)vp_conc(t->tm_year) + 1900, m = vp_conc(t->tm_mon), d = vp_conc(t->tm_mday), era, yoe, doy, doe;
	y += m / 12; m %= 12; if (m < 0) { m += 12; y--; }
	m += 1;
	y -= m <= 2; era = (y >= 0 ? y : y - 399) / 400; yoe = y - era * 400;
	doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5; doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return (era * 146097 + doe - 719468 + d - 1) * 86400 + t->tm_hour * 3600LL + t->tm_min * 60 + t->tm_sec;
}
time_t timegm(struct tm *t) { return mktime(t); }
struct tm *gmtime_r(const time_t *tp, struct tm *t) {
	long long z = vp_conc(*tp), sod, era, doe, yoe, y, doy, mp;
	long long days = z / 86400; sod = z % 86400; if (sod < 0) { sod += 86400; days--; }
	memset(t, 0, sizeof *t);
	t->tm_hour = (int)(sod / 3600); t->tm_min = (int)(sod % 3600 / 60); t->tm_sec = (int)(sod % 60); t->tm_wday = (int)(((days + 4) % 7 + 7) % 7);
	days += 719468; era = (days >= 0 ? days : days - 146096) / 146097; doe = days - era * 146097;
	yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = yoe + era * 400; doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	mp = (5 * doy + 2) / 153; t->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); t->tm_mon = (int)(mp < 10 ? mp + 2 : mp - 10); t->tm_year = (int)(y + (mp < 10 ? 0 : 1) - 1900);
	return t;
}
struct tm *gmtime(const time_t *tp) { static struct tm t; return gmtime_r(tp, &t); }
struct tm *localtime_r(const time_t *tp, struct tm *t) { return gmtime_r(tp, t); }

/* ---- process ---- */
char *program_invocation_short_name = "ort"; char *optarg; int optind = 1, opterr = 1, optopt;
static int vp_exit_code_ = -1;
int vp_exit_code(void) { return vp_exit_code_; }
void (*vp_on_exit)(int);
void exit(int c) { vp_exit_code_ = c; if (vp_on_exit) vp_on_exit(c); vp_end(); }
void _exit(int c) { exit(c); }
/* as in glibc: operands are moved behind options */
static void rot(char **v, int to, int from) { char *x = v[from]; for (; from > to; from--) v[from] = v[from - 1]; v[to] = x; }
int getopt(int argc, char *const argv_[], const char *os) {
	static int sp = 1; const char *o; char c; char **argv = (char **)argv_; int j;
	if (sp == 1) {
		for (j = optind; j < argc && (argv[j][0] != '-' || argv[j][1] == 0); j++) ;
		if (j >= argc) return -1;
		rot(argv, optind, j);
		if (argv[optind][1] == '-' && argv[optind][2] == 0) { optind++; return -1; }
	} else j = optind;
	c = argv[optind][sp];
	for (o = os; *o && (*o != c || c == ':'); o++) ;
	if (!*o) { optopt = c; if (argv[optind][++sp] == 0) { optind++; sp = 1; } return '?'; }
	if (o[1] == ':') {
		if (argv[optind][sp + 1]) optarg = argv[optind++] + sp + 1;
		else if (j + 1 >= argc) { optind++; sp = 1; return '?'; }
		else { rot(argv, optind + 1, j + 1); optarg = argv[optind + 1]; optind += 2; }
		sp = 1;
	} else { if (argv[optind][++sp] == 0) { sp = 1; optind++; } optarg = 0; }
	return c;
}
/* descriptors: 100 and on are the files */
static size_t fpos[8];
int open(const char *p, int f, ...) { int i; (void)f; for (i = 0; i < nfiles; i++) if (!strcmp(files[i].name, p)) { fpos[i] = 0; return 100 + i; } errno_ = ENOENT; return -1; }
int close(int fd) { (void)fd; return 0; }
struct stat;
int vp_fstat_size(int fd, long long *sz) { if (fd < 100 || fd >= 100 + nfiles) { errno_ = EBADF; return -1; } *sz = (long long)files[fd - 100].n; return 0; }
long read(int fd, void *b, size_t n) { size_t k; if (fd < 100 || fd >= 100 + nfiles) { errno_ = EBADF; return -1; } k = files[fd - 100].n - fpos[fd - 100]; if (k > n) k = n; memcpy(b, (const char *)files[fd - 100].buf + fpos[fd - 100], k); fpos[fd - 100] += k; return (long)k; }
#define FILE sysFILE
#include <sys/stat.h>
#undef FILE
int fstat(int fd, struct stat *st) { long long n; if (vp_fstat_size(fd, &n) == -1) return -1; memset(st, 0, sizeof *st); st->st_size = n; return 0; }
char *getenv(const char *n) { (void)n; return 0; }
long arc4random_(void) { return 4; }

/* ---- more strings and base64 (generated code) ---- */
char *strcpy(char *d, const char *s) { memcpy(d, s, strlen(s) + 1); return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); memcpy(d, s, l); if (l < n) memset(d + l, 0, n - l); return d; }
static char b64c(unsigned v) { return (char)(v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/'); }
int __b64_ntop(const unsigned char *s, size_t n, char *o, size_t osz) {
	size_t k = 0, i;
	if ((n + 2) / 3 * 4 + 1 > osz) return -1;
	for (i = 0; i < n; i += 3) { unsigned x = (unsigned)s[i] << 16; if (i + 1 < n) x |= (unsigned)s[i + 1] << 8; if (i + 2 < n) x |= s[i + 2]; o[k++] = b64c(x >> 18 & 63); o[k++] = b64c(x >> 12 & 63); o[k++] = i + 1 < n ? b64c(x >> 6 & 63) : '='; o[k++] = i + 2 < n ? b64c(x & 63) : '='; }
	o[k] = 0; return (int)k;
}
static int b64v(int c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
/* groups of four without white space, padded; anything else is refused */
int __b64_pton(const char *s, unsigned char *o, size_t osz) {
	size_t n = strlen(s), i, k = 0;
	if (n % 4) return -1;
	for (i = 0; i < n; i += 4) {
		int a = b64v(s[i]), b = b64v(s[i + 1]), c = s[i + 2] == '=' ? -2 : b64v(s[i + 2]), d = s[i + 3] == '=' ? -2 : b64v(s[i + 3]), last = i + 4 == n;
		if (a < 0 || b < 0 || c == -1 || d == -1 || ((c == -2 || d == -2) && !last) || (c == -2 && d != -2)) return -1;
		if ((c == -2 && (b & 15)) || (c != -2 && d == -2 && (c & 3))) return -1;
		if (k >= osz) return -1; o[k++] = (unsigned char)(a << 2 | b >> 4);
		if (c != -2) { if (k >= osz) return -1; o[k++] = (unsigned char)((b & 15) << 4 | c >> 2); }
		if (d != -2) { if (k >= osz) return -1; o[k++] = (unsigned char)((c & 3) << 6 | d); }
	}
	return (int)k;
}
void perror(const char *s) { (void)s; }
