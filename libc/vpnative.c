/*
 * Native counterpart of the engine's harness interface: replays recorded
 * input values against the real code and the real C library.
 * usage: prog VALUES [param=value ...]
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <unistd.h>
#include "vp.h"
extern int harness(void);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *);
static struct { char *name; unsigned char *v; size_t n; } vals[4096]; static size_t nvals;
static struct { char name[128]; int n; } occs[4096]; static size_t noccs;
static char **gargv; static int gargc;

static const unsigned char *get(const char *base, size_t n) {
	char nm[256]; size_t i; int k = 0;
	static unsigned char zero[65536];
	for (i = 0; i < noccs; i++) if (!strcmp(occs[i].name, base)) { k = occs[i].n++; break; }
	if (i == noccs) { snprintf(occs[noccs].name, sizeof occs[0].name, "%s", base); occs[noccs++].n = 1; }
	if (k) snprintf(nm, sizeof nm, "%s#%d", base, k); else snprintf(nm, sizeof nm, "%s", base);
	for (i = 0; i < nvals; i++) if (!strcmp(vals[i].name, nm)) { if (vals[i].n < n) { unsigned char *q = calloc(1, n); memcpy(q, vals[i].v, vals[i].n); return q; } return vals[i].v; }
	return zero;
}
void vp_symbolic(void *p, size_t n, const char *name) { memcpy(p, get(name, n), n); }
int64_t vp_i64(const char *n) { int64_t x; memcpy(&x, get(n, 8), 8); return x; }
uint32_t vp_u32(const char *n) { uint32_t x; memcpy(&x, get(n, 4), 4); return x; }
uint8_t vp_u8(const char *n) { return *get(n, 1); }
int vp_range(const char *name, int lo, int hi) {
	int x; if (lo >= 0 && hi <= 255) x = *get(name, 1); else memcpy(&x, get(name, 4), 4);
	vp_assume(x >= lo && x <= hi); return x;
}
static void done(int c) { fflush(NULL); _exit(c); }
void vp_assume(int c) { if (!c) { fprintf(stderr, "REPLAY: assumption not met\n"); done(40); } }
void vp_assert_(int c, const char *id) { if (!c) { fprintf(stderr, "REPLAY: assertion fails: %s\n", id); done(41); } }
void vp_fail(const char *id) { vp_assert_(0, id); abort(); }
void vp_reach(const char *id) { fprintf(stderr, "REACH %s\n", id); }
void vp_log(const char *s) { fprintf(stderr, "log: %s\n", s); }
void vp_end(void) { done(0); abort(); }
char *vp_sparam(const char *n) { for (int i = 2; i < gargc; i++) { size_t l = strlen(n); if (!strncmp(gargv[i], n, l) && gargv[i][l] == '=') return __real_strdup(gargv[i] + l + 1); } return NULL; }
int64_t vp_param(const char *n, int64_t d) { char *s = vp_sparam(n); if (!s) return d; d = strtoll(s, 0, 0); __real_free(s); return d; }
char *vp_slurp(const char *fn, size_t *n) { FILE *f = fopen(fn, "rb"); char *b = __real_calloc(1, 1 << 20); if (!f) return NULL; *n = fread(b, 1, (1 << 20) - 1, f); fclose(f); return b; }
void vp_dump(const char *fn, const void *p, size_t n) { (void)fn; (void)p; (void)n; }
int64_t vp_conc(int64_t x) { return x; }

/* streams */
struct cook { const unsigned char *b; size_t n, pos; int64_t fail; };
int vp_fired;
static ssize_t crd(void *c, char *buf, size_t sz) {
	struct cook *k = c; size_t m = k->n - k->pos;
	if (k->fail >= 0) { if ((int64_t)k->pos == k->fail) { errno = EIO; k->fail = -1; extern int vp_fired; static int inmain; vp_fired = 1; return -1; } if ((int64_t)(k->pos + (m < sz ? m : sz)) > k->fail) { m = (size_t)k->fail - k->pos; } }
	if (m > sz) m = sz;
	memcpy(buf, k->b + k->pos, m); k->pos += m; return (ssize_t)m;
}
static struct { FILE *f; char *buf; size_t n; int64_t wfail; struct cook *c; } fs[256]; static int nfs;
FILE *vp_in(const char *name, const void *buf, size_t n) {
	struct cook *c = __real_calloc(1, sizeof *c); cookie_io_functions_t io = { crd, NULL, NULL, NULL };
	unsigned char *copy = __real_malloc(n + 1);
	memcpy(copy, buf, n); c->b = copy; c->n = n; c->fail = -1; (void)name;
	FILE *f = fopencookie(c, "r", io); fs[nfs].f = f; fs[nfs].c = c; fs[nfs].wfail = -1; nfs++; return f;
}
FILE *vp_out(void) { FILE *f = open_memstream(&fs[nfs].buf, &fs[nfs].n); fs[nfs].f = f; fs[nfs].wfail = -1; nfs++; return f; }
static int fidx(FILE *f) { for (int i = 0; i < nfs; i++) if (fs[i].f == f) return i; return -1; }
char *vp_out_buf(FILE *f, size_t *n) { int i = fidx(f); fflush(f); if (n) *n = fs[i].n; return fs[i].buf; }
void vp_read_fault(FILE *f, int64_t k) { fs[fidx(f)].c->fail = k; setvbuf(f, NULL, _IONBF, 0); }
void vp_write_fault(FILE *f, int64_t k) { fs[fidx(f)].wfail = k; vp_fired = 0; }
void vp_file(const char *path, const void *buf, size_t n) { FILE *f = fopen(path, "wb"); if (f) { fwrite(buf, 1, n, f); fclose(f); } }
static int inmain;
static int64_t ak = -1, an;
void vp_alloc_fault(int64_t k) { ak = k; an = 0; vp_fired = 0; }
int64_t vp_alloc_count(void) { return an; }
int vp_fault_fired(void) { return vp_fired; }
static int afail(void) { if (inmain == 0) return 0; if (ak == -1) { an++; return 0; } if (an++ == ak) { vp_fired = 1; ak = -1; errno = ENOMEM; return 1; } return 0; }
static int wfail(FILE *f) { int i = fidx(f); if (i < 0 || fs[i].wfail < 0) return 0; if (fs[i].wfail == 0) { fs[i].wfail = -2; vp_fired = 1; errno = EIO; return 1; } fs[i].wfail--; return 0; }
/* linked with --wrap for the code under test */
static size_t live;
static void *cnt(void *p) { if (p) live++; return p; }
size_t vp_live(void) { return live; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
void *__wrap_malloc(size_t n) { return afail() ? NULL : cnt(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return afail() ? NULL : cnt(__real_calloc(a, b)); }
static void *re(void *p, size_t n) { void *q = __real_realloc(p, n); if (!p && q) live++; return q; }
void *__wrap_realloc(void *p, size_t n) { return afail() ? NULL : re(p, n); }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; } return afail() ? NULL : re(p, a * b); }
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
char *__wrap_strdup(const char *s) { return afail() ? NULL : cnt(__real_strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { return afail() ? NULL : cnt(__real_strndup(s, n)); }
int __real_vasprintf(char **, const char *, va_list);
int __wrap_vasprintf(char **o, const char *f, va_list ap) { int r; if (afail()) { *o = NULL; return -1; } r = __real_vasprintf(o, f, ap); if (r >= 0) live++; return r; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = __wrap_vasprintf(o, f, ap); va_end(ap); return r; }
int __real_vfprintf(FILE *, const char *, va_list);
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { return wfail(f) ? -1 : __real_vfprintf(f, fmt, ap); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = __wrap_vfprintf(f, fmt, ap); va_end(ap); return r; }
int __wrap_printf(const char *fmt, ...) { va_list ap; int r; va_start(ap, fmt); r = __wrap_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int __real_fputs(const char *, FILE *); int __real_fputc(int, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __wrap_fputs(const char *s, FILE *f) { return wfail(f) ? EOF : __real_fputs(s, f); }
int __wrap_fputc(int c, FILE *f) { return wfail(f) ? EOF : __real_fputc(c, f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { return wfail(f) ? 0 : __real_fwrite(p, a, b, f); }
int __wrap_puts(const char *s) { if (__wrap_fputs(s, stdout) == EOF) return EOF; return __wrap_fputc('\n', stdout); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
void (*vp_on_exit)(int);
int vp_exit_code_ = -1;
int vp_exit_code(void) { return vp_exit_code_; }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (vp_on_exit) { vp_exit_code_ = c; vp_on_exit(c); done(0); } __real_exit(c); }

int main(int argc, char **argv) {
	FILE *f; char *line = NULL; size_t cap = 0; ssize_t len;
	gargv = argv; gargc = argc;
	if (argc > 1 && (f = fopen(argv[1], "r"))) {
		while ((len = getline(&line, &cap, f)) > 0) {
			char *sp = strrchr(line, ' '); size_t n, i;
			if (!sp) continue;
			*sp++ = 0; n = strcspn(sp, "\n") / 2;
			vals[nvals].name = __real_strdup(line); vals[nvals].v = __real_calloc(1, n + 1); vals[nvals].n = n;
			for (i = 0; i < n; i++) { unsigned x; sscanf(sp + 2 * i, "%2x", &x); vals[nvals].v[i] = (unsigned char)x; }
			nvals++;
		}
		fclose(f);
	}
	alarm(60); inmain = 1;
	harness();
	fprintf(stderr, "REPLAY: completed without a failure\n");
	done(0);
}
