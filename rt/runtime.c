/* Small libc model compiled to bitcode and linked with the code under test. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
extern void *malloc(size_t); extern void free(void *); extern void *realloc(void *, size_t); extern void *memcpy(void *, const void *, size_t);
extern void exit(int); extern int sx_fmt_double(char *, long, const char *, double); extern double strtod(const char *, char **);
static int errno_v; int *__errno_location(void) { return &errno_v; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } if (!n) return 0; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && lc(*a) == lc(*b)) { a++; b++; } return lc((unsigned char)*a) - lc((unsigned char)*b); }
int tolower(int c) { return lc(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char *)h; if (!*h) return NULL; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p - *q; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
static int sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static unsigned long long rdnum(const char *s, char **e, int base, int *neg, int *ovf) {
  const char *p = s; *neg = 0; *ovf = 0; while (sp(*p)) p++; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1;
    if (v > (~0ULL - d) / base) *ovf = 1; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s); return v;
}
long long strtoll(const char *s, char **e, int b) { int n, o; unsigned long long v = rdnum(s, e, b, &n, &o); if (o || (!n && v > INT64_MAX) || (n && v > (unsigned long long)INT64_MAX + 1)) { errno_v = 34; return n ? INT64_MIN : INT64_MAX; } return n ? -v : v; }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
intmax_t strtoimax(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { int n, o; unsigned long long v = rdnum(s, e, b, &n, &o); if (o) { errno_v = 34; return ~0ULL; } return n ? -v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
uintmax_t strtoumax(const char *s, char **e, int b) { return strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
double atof(const char *s) { return strtod(s, NULL); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static void swapb(char *a, char *b, size_t n) { while (n--) { char t = *a; *a++ = *b; *b++ = t; } }
/* stable merge sort like glibc's */
static void msort(char *b, size_t n, size_t s, int (*cmp)(const void *, const void *), char *tmp) {
  if (n <= 1) return; size_t n1 = n / 2, n2 = n - n1; char *b1 = b, *b2 = b + n1 * s; msort(b1, n1, s, cmp, tmp); msort(b2, n2, s, cmp, tmp); char *t = tmp;
  while (n1 > 0 && n2 > 0) { if (cmp(b1, b2) <= 0) { memcpy(t, b1, s); b1 += s; n1--; } else { memcpy(t, b2, s); b2 += s; n2--; } t += s; }
  if (n1 > 0) memcpy(t, b1, n1 * s); memcpy(b, tmp, (n - n2) * s);
}
void qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { if (n < 2) return; char *t = malloc(n * s); msort(b, n, s, cmp, t); free(t); }
void *bsearch(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { size_t l = 0, u = n; while (l < u) { size_t i = (l + u) / 2; const char *p = (const char *)b + i * s; int c = cmp(k, p); if (c < 0) u = i; else if (c > 0) l = i + 1; else return (void *)p; } return NULL; }
char *getenv(const char *n) { return NULL; }
int getpid(void) { return 4711; }
static long rnd = 12345; long random(void) { rnd = (rnd * 1103515245 + 12345) & 0x7fffffff; return rnd; } int rand(void) { return random(); } void srand(unsigned s) { rnd = s; } void srandom(unsigned s) { rnd = s; }
/* time: frozen unless a harness advances it */
long sx_clock_us = 1000000; struct tv { long s, u; };
int gettimeofday(struct tv *t, void *z) { t->s = sx_clock_us / 1000000; t->u = sx_clock_us % 1000000; return 0; }
long time(long *t) { long r = sx_clock_us / 1000000; if (t) *t = r; return r; }
long clock(void) { return sx_clock_us; }
int getrusage(int w, long *r) { for (int i = 0; i < 18; i++) r[i] = 0; r[0] = sx_clock_us / 1000000; r[1] = sx_clock_us % 1000000; return 0; }
int getrlimit(int w, long *r) { r[0] = r[1] = -1; return 0; }
int setrlimit(int w, const long *r) { return 0; }
long sysconf(int n) { return 4096; }
void *signal(int s, void *h) { return NULL; }
int raise(int s) { return 0; }
char *strerror(int e) { return "error"; }
/* stdio */
typedef struct sxf { int kind; /*0 sink,1 mem out,2 mem in*/ char *buf; size_t pos, len, cap; char **up; size_t *un; int eof, err; } sxf;
static sxf f_out, f_err, f_in = {2};
sxf *stdout = &f_out, *stderr = &f_err, *stdin = &f_in;
static void fo(sxf *f, const char *s, size_t n) {
  if (f->kind != 1) return;
  if (f->len + n + 1 > f->cap) { size_t c = f->cap ? f->cap : 64; while (c < f->len + n + 1) c *= 2; f->buf = realloc(f->buf, c); f->cap = c; }
  memcpy(f->buf + f->len, s, n); f->len += n; f->buf[f->len] = 0; if (f->up) { *f->up = f->buf; *f->un = f->len; }
}
static sxf *nf(int k) { sxf *f = malloc(sizeof *f); f->kind = k; f->buf = 0; f->pos = f->len = f->cap = 0; f->up = 0; f->un = 0; f->eof = f->err = 0; return f; }
sxf *open_memstream(char **p, size_t *n) { sxf *f = nf(1); f->up = p; f->un = n; fo(f, "", 0); return f; }
sxf *fmemopen(void *b, size_t n, const char *m) { sxf *f = nf(2); f->buf = b; f->len = n; return f; }
/* virtual file system: files registered by the harness */
#define MAXVF 8
static const char *vf_name[MAXVF]; static char *vf_data[MAXVF]; static size_t vf_len[MAXVF]; static int vf_n;
void sx_vfile(const char *name, char *data, size_t len) { vf_name[vf_n] = name; vf_data[vf_n] = data; vf_len[vf_n++] = len; }
void sx_stdin(char *data, size_t len) { f_in.buf = data; f_in.len = len; f_in.pos = 0; f_in.eof = 0; }
sxf *fopen(const char *n, const char *m) { if (m[0] == 'r') { for (int i = 0; i < vf_n; i++) if (!strcmp(n, vf_name[i])) { sxf *f = nf(2); f->buf = vf_data[i]; f->len = vf_len[i]; return f; } errno_v = 2; return NULL; } return nf(0); }
int fclose(sxf *f) { if (f->kind == 1 && f->up) { *f->up = f->buf; *f->un = f->len; } if (f != stdout && f != stderr && f != stdin) free(f); return 0; }
int fflush(sxf *f) { if (f && f->kind == 1 && f->up) { *f->up = f->buf; *f->un = f->len; } return 0; }
int ferror(sxf *f) { return f->err; } int feof(sxf *f) { return f->eof; } void clearerr(sxf *f) { f->err = f->eof = 0; } int fileno(sxf *f) { return f == stdin ? 0 : f == stdout ? 1 : 2; }
int getc(sxf *f) { if (f->kind != 2 || f->pos >= f->len) { f->eof = 1; return -1; } return (unsigned char)f->buf[f->pos++]; }
int fgetc(sxf *f) { return getc(f); } int _IO_getc(sxf *f) { return getc(f); }
int ungetc(int c, sxf *f) { if (f->pos) f->pos--; return c; }
char *fgets(char *b, int n, sxf *f) { int i = 0; while (i < n - 1) { int c = getc(f); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
size_t fread(void *p, size_t s, size_t n, sxf *f) { size_t k = s * n, i = 0; char *b = p; for (; i < k; i++) { int c = getc(f); if (c < 0) break; b[i] = c; } return s ? i / s : 0; }
size_t fwrite(const void *p, size_t s, size_t n, sxf *f) { fo(f, p, s * n); return n; }
int fputc(int c, sxf *f) { char b = c; fo(f, &b, 1); return c; } int putc(int c, sxf *f) { return fputc(c, f); } int putchar(int c) { return c; } int puts(const char *s) { return 0; }
int fputs(const char *s, sxf *f) { if (f->kind == 1) fo(f, s, strlen(s)); return 0; }
void perror(const char *s) {}
typedef struct { char *b; size_t cap, n; sxf *f; } osink;
static void oc(osink *o, char c) { if (o->f) fo(o->f, &c, 1); else { if (o->n + 1 < o->cap) o->b[o->n] = c; } o->n++; }
static int fmtv(osink *o, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { oc(o, *f); continue; }
    const char *st = f; f++; int left = 0, zero = 0, plus = 0, wid = 0, prec = -1, lng = 0, space = 0, alt = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') space = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { wid = va_arg(ap, int); if (wid < 0) { left = 1; wid = -wid; } f++; } else while (*f >= '0' && *f <= '9') wid = wid * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f != 'h') lng = 1; f++; }
    char tmp[512]; int n = 0; const char *s = tmp;
    switch (*f) {
    case '%': oc(o, '%'); continue;
    case 'c': tmp[0] = va_arg(ap, int); n = 1; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || n < prec) && s[n]) n++; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': case 'o': {
      int neg = 0; unsigned long v; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10;
      if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x; }
      else if (*f == 'p') v = (unsigned long)va_arg(ap, void *); else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      char r[40]; int k = 0; while (v) { int d = v % base; r[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } if (k == 0 && prec != 0) r[k++] = '0'; while (k < prec) r[k++] = '0';
      if (zero && !left && prec < 0) { int w = wid - (neg || plus || space); while (k < w && k < 38) r[k++] = '0'; }
      if (*f == 'p') { r[k++] = 'x'; r[k++] = '0'; }
      if (neg) tmp[n++] = '-'; else if (plus && (*f == 'd' || *f == 'i')) tmp[n++] = '+'; else if (space && (*f == 'd' || *f == 'i')) tmp[n++] = ' ';
      while (k) tmp[n++] = r[--k]; break; }
    case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { char fm[40]; int q = 0; const char *t = st; fm[q++] = '%'; if (plus) fm[q++] = '+'; if (alt) fm[q++] = '#'; if (prec >= 0) { fm[q++] = '.'; if (prec >= 10) fm[q++] = '0' + prec / 10 % 10; fm[q++] = '0' + prec % 10; } fm[q++] = *f; fm[q] = 0; n = sx_fmt_double(tmp, 512, fm, va_arg(ap, double)); break; }
    default: oc(o, '?'); continue;
    }
    int pad = wid - n; if (!left) while (pad-- > 0) oc(o, ' '); for (int i = 0; i < n; i++) oc(o, s[i]); if (left) while (pad-- > 0) oc(o, ' ');
  }
  return (int)o->n;
}
int vfprintf(sxf *f, const char *fm, va_list ap) { if (f->kind != 1) return 0; osink o = {0, 0, 0, f}; return fmtv(&o, fm, ap); }
int fprintf(sxf *f, const char *fm, ...) { if (f->kind != 1) return 0; va_list ap; va_start(ap, fm); int r = vfprintf(f, fm, ap); va_end(ap); return r; }
int printf(const char *fm, ...) { return 0; }
int vprintf(const char *fm, va_list ap) { return 0; }
int vsnprintf(char *b, size_t n, const char *fm, va_list ap) { osink o = {b, n, 0, 0}; int r = fmtv(&o, fm, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return r; }
int vsprintf(char *b, const char *fm, va_list ap) { return vsnprintf(b, 1 << 30, fm, ap); }
int snprintf(char *b, size_t n, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vsnprintf(b, n, fm, ap); va_end(ap); return r; }
int sprintf(char *b, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vsnprintf(b, 1 << 30, fm, ap); va_end(ap); return r; }
int unlink(const char *p) { return 0; } int remove(const char *p) { return 0; } int access(const char *p, int m) { return 0; }
