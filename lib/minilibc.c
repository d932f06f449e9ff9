// C library functions given to the symbolic executor as code (so that symbolic bytes flow through them).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
typedef unsigned char uc;
void sym_end_path(void) __attribute__((noreturn)); void *memset(void *, int, size_t);
void *malloc(size_t); void *memcpy(void *, const void *, size_t);
extern double __nat_strtod(const char *, char **);
extern int __nat_fmtd(char *, size_t, const char *, double);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
// comparisons: the sign of the first difference is built without forking per byte where possible
int strcmp(const char *a, const char *b) { for (;; a++, b++) { uc x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { uc x = *a, y = *b; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
int memcmp(const void *pa, const void *pb, size_t n) { const uc *a = pa, *b = pb; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (int)a[i] - (int)b[i]; return 0; }
int bcmp(const void *pa, const void *pb, size_t n) { const uc *a = pa, *b = pb; int d = 0; for (size_t i = 0; i < n; i++) d |= a[i] ^ b[i]; return d; }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((uc)*a), y = low((uc)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *p, int c, size_t n) { const uc *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (uc)c) return (void *)(s + i); return 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (*h == *n && !strncmp(h, n, l)) return (char *)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int digv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'z') return c - 'a' + 10; if (c >= 'A' && c <= 'Z') return c - 'A' + 10; return 99; }
int *__errno_location(void);
long strtol(const char *s, char **e, int base) {
  const char *p = s; while (isspace((uc)*p)) p++; int neg = 0; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv((uc)p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, ov = 0; unsigned long lim = neg ? 9223372036854775808ul : 9223372036854775807ul;
  for (;; p++) { int d = digv((uc)*p); if (d >= base) break; any = 1; if (v > lim / base || (v == lim / base && (unsigned long)d > lim % base)) { ov = 1; continue; } v = v * base + d; }
  if (e) *e = (char *)(any ? p : s); if (ov) { *__errno_location() = 34; v = lim; } return neg ? (long)(0 - v) : (long)v;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
__attribute__((weak)) double strtod(const char *s, char **e) { return __nat_strtod(s, e); }
__attribute__((weak)) double atof(const char *s) { return __nat_strtod(s, 0); }
void qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) {
  uc *p = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { uc t = p[(j - 1) * w + k]; p[(j - 1) * w + k] = p[j * w + k]; p[j * w + k] = t; }
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  size_t o = 0;
#define PUT(ch) do { char c_ = (ch); if (o + 1 < n) b[o] = c_; o++; } while (0)
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    const char *spec = f; f++; int left = 0, zero = 0, plus = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ' || *f == '#') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (isdigit((uc)*f)) width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((uc)*f)) prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 't' || *f == 'q') { if (*f != 'h') lng = 1; f++; }
    char tmp[400]; int tl = 0; const char *s = tmp;
    switch (*f) {
    case '%': PUT('%'); continue;
    case 'c': tmp[0] = (char)va_arg(ap, int); tl = 1; break;
    case 's': s = va_arg(ap, const char *); if (!s) s = "(null)"; tl = prec >= 0 ? (int)strnlen(s, prec) : (int)strlen(s); break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      unsigned long v; int neg = 0; if (*f == 'd' || *f == 'i') { long x = lng ? va_arg(ap, long) : va_arg(ap, int); neg = x < 0; v = neg ? 0 - (unsigned long)x : (unsigned long)x; } else v = (lng || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      int base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : *f == 'o' ? 8 : 10; char r[72]; int k = 0;
      do { unsigned d = v % base; r[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v); while (k < prec && k < 70) r[k++] = '0';
      if (zero && !left) while (k + (neg || plus) < width && k < 70) r[k++] = '0';
      if (*f == 'p') { tmp[tl++] = '0'; tmp[tl++] = 'x'; } if (neg) tmp[tl++] = '-'; else if (plus) tmp[tl++] = '+'; while (k) tmp[tl++] = r[--k]; break; }
    case 'f': case 'g': case 'e': case 'G': case 'E': { char sp[32]; int k = 0; for (const char *q = spec; q <= f && k < 30; q++) if (*q != 'l') sp[k++] = *q; sp[k] = 0; tl = __nat_fmtd(tmp, sizeof tmp, sp, va_arg(ap, double)); width = 0; break; }
    case 0: f--; continue;
    default: continue;
    }
    if (!left) for (int i = tl; i < width; i++) PUT(' ');
    for (int i = 0; i < tl; i++) PUT(s[i]);
    if (left) for (int i = tl; i < width; i++) PUT(' ');
  }
  if (n) b[o < n ? o : n - 1] = 0; return (int)o;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }

// ---- stdio over an in-memory file system
typedef struct GF { struct VF *f; size_t pos; int eof, mode, ung; } GF;
typedef struct VF { char name[200]; char *d; size_t n, cap; int exists; } VF;
static VF vfs[16]; static VF outf, errf; static int capture_on; extern int __nat_puts(const char *, size_t); int sym_is_symbolic(uint64_t);
static GF g_in = {0, 0, 0, 1, -1}, g_out = {&outf, 0, 0, 2, -1}, g_err = {&errf, 0, 0, 2, -1};
void *stdin = &g_in, *stdout = &g_out, *stderr = &g_err;
void *realloc(void *, size_t); void free(void *);
static VF *vf_find(const char *nm, int create) {
  for (int i = 0; i < 16; i++) if (vfs[i].name[0] && !strcmp(vfs[i].name, nm)) return &vfs[i];
  if (create) for (int i = 0; i < 16; i++) if (!vfs[i].name[0]) { strncpy(vfs[i].name, nm, 199); return &vfs[i]; }
  return 0;
}
static void vf_write(VF *f, size_t pos, const char *s, size_t n) {
  if (pos + n > f->cap) { size_t c = (pos + n) * 2 + 4096; f->d = realloc(f->d, c); memset(f->d + f->cap, 0, c - f->cap); f->cap = c; }
  memcpy(f->d + pos, s, n); if (pos + n > f->n) f->n = pos + n;
}
void sym_file(const char *nm, const void *d, uint64_t n) { VF *f = vf_find(nm, 1); f->exists = 1; f->n = 0; vf_write(f, 0, d, n); }
char *sym_file_get(const char *nm, uint64_t *n) { VF *f = vf_find(nm, 0); if (!f || !f->exists) return 0; vf_write(f, f->n, "", 1); f->n--; *n = f->n; return f->d; }
void sym_capture(int on) { capture_on = on; if (on) outf.n = 0; }
char *sym_captured(uint64_t *n) { vf_write(&outf, outf.n, "", 1); outf.n--; *n = outf.n; return outf.d; }
static size_t gwrite(GF *g, const char *s, size_t n) {
  if (!g) return 0; if (g == &g_out || g == &g_err) { if (g == &g_out && capture_on) { vf_write(&outf, outf.n, s, n); } __nat_puts(s, n); return n; }
  if (!(g->mode & 2)) return 0; vf_write(g->f, g->pos, s, n); g->pos += n; return n;
}
void *fopen(const char *nm, const char *md) {
  int w = md[0] == 'w', a = md[0] == 'a', plus = strchr(md, '+') != 0; if (!strcmp(nm, "/dev/null")) { GF *g = malloc(sizeof *g); static VF nul; nul.n = 0; g->f = &nul; g->pos = 0; g->eof = 0; g->mode = 3; g->ung = -1; return g; }
  VF *f = vf_find(nm, w || a); if (!f || (!f->exists && !w && !a)) return 0; f->exists = 1; if (w) f->n = 0;
  GF *g = malloc(sizeof *g); g->f = f; g->pos = a ? f->n : 0; g->eof = 0; g->mode = (w || a) ? (plus ? 3 : 2) : (plus ? 3 : 1); g->ung = -1; return g;
}
void *fopen64(const char *nm, const char *md) { return fopen(nm, md); }
void *freopen(const char *nm, const char *md, void *o) { (void)o; return fopen(nm, md); }
int fclose(void *p) { if (p && p != &g_in && p != &g_out && p != &g_err) free(p); return 0; }
int fgetc(void *p) { GF *g = p; if (g->ung >= 0) { int c = g->ung; g->ung = -1; return c; } if (!(g->mode & 1) || !g->f || g->pos >= g->f->n) { g->eof = 1; return -1; } return (uc)g->f->d[g->pos++]; }
int getc(void *p) { return fgetc(p); }
int _IO_getc(void *p) { return fgetc(p); }
int ungetc(int c, void *p) { ((GF *)p)->ung = c; return c; }
size_t fread(void *b, size_t s, size_t n, void *p) { GF *g = p; size_t want = s * n; if (!want) return 0; if (!(g->mode & 1) || !g->f) { g->eof = 1; return 0; } size_t av = g->f->n - g->pos, t = want < av ? want : av; if (g->pos > g->f->n) t = 0; memcpy(b, g->f->d + g->pos, t); g->pos += t; if (t < want) g->eof = 1; return t / s; }
char *fgets(char *b, int n, void *p) { int i = 0; while (i < n - 1) { int c = fgetc(p); if (c < 0) break; b[i++] = c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
size_t fwrite(const void *b, size_t s, size_t n, void *p) { size_t r = gwrite(p, b, s * n); return s ? r / s : 0; }
int fputs(const char *s, void *p) { gwrite(p, s, strlen(s)); return 1; }
int fputc(int c, void *p) { char b = c; gwrite(p, &b, 1); return (uc)b; }
int putc(int c, void *p) { return fputc(c, p); }
int _IO_putc(int c, void *p) { return fputc(c, p); }
int putchar(int c) { return fputc(c, stdout); }
int puts(const char *s) { if (capture_on || __nat_puts("", 0)) { fputs(s, stdout); fputc('\n', stdout); } return 1; }
int fseek(void *p, long o, int w) { GF *g = p; g->pos = w == 0 ? o : w == 1 ? g->pos + o : g->f->n + o; g->eof = 0; g->ung = -1; return 0; }
long ftell(void *p) { return ((GF *)p)->pos; }
void rewind(void *p) { fseek(p, 0, 0); }
int feof(void *p) { return ((GF *)p)->eof; }
int ferror(void *p) { (void)p; return 0; }
void clearerr(void *p) { ((GF *)p)->eof = 0; }
int fflush(void *p) { (void)p; return 0; }
int fileno(void *p) { return p == &g_in ? 0 : p == &g_out ? 1 : p == &g_err ? 2 : 3; }
int remove(const char *nm) { VF *f = vf_find(nm, 0); if (!f) return -1; f->exists = 0; f->n = 0; return 0; }
int unlink(const char *nm) { return remove(nm); }
int vfprintf(void *p, const char *f, va_list ap) {
  if ((p == &g_out || p == &g_err) && !(p == &g_out && capture_on) && !__nat_puts("", 0)) return 0;
  va_list a2; va_copy(a2, ap); char tmp[512]; int r = vsnprintf(tmp, sizeof tmp, f, ap); if (r < (int)sizeof tmp) gwrite(p, tmp, r); else { char *b = malloc(r + 1); vsnprintf(b, r + 1, f, a2); gwrite(p, b, r); free(b); } va_end(a2); return r;
}
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int fprintf(void *p, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(p, f, ap); va_end(ap); return r; }
extern void __nat_exit(int) __attribute__((noreturn));
static void (*exit_hook)(int);
void sym_on_exit(void (*f)(int)) { exit_hook = f; }
void exit(int c) { if (exit_hook) { void (*f)(int) = exit_hook; exit_hook = 0; f(c); sym_end_path(); } __nat_exit(c); }
// only the conversions gkc uses: %Nd, %lg, %s and literals
int __isoc99_sscanf(const char *s, const char *f, ...) {
  va_list ap; va_start(ap, f); int got = 0; const char *p = s;
  for (; *f; f++) {
    if (isspace((uc)*f)) { while (isspace((uc)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) break; p++; continue; }
    f++; int w = 0; while (isdigit((uc)*f)) w = w * 10 + *f++ - '0'; if (!w) w = 1000; while (*f == 'l') f++;
    if (*f == 'd') { while (isspace((uc)*p)) p++; int neg = 0, n = 0, any = 0; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; n++; } long v = 0; while (n < w && isdigit((uc)*p)) { v = v * 10 + (*p - '0'); p++; n++; any = 1; } if (!any) { if (!*p && !got) got = -1; break; } *va_arg(ap, int *) = (int)(neg ? -v : v); got++; }
    else if (*f == 'g' || *f == 'f') { char *e; double d = strtod(p, &e); if (e == p) break; *va_arg(ap, double *) = d; p = e; got++; }
    else if (*f == 's') { char *d = va_arg(ap, char *); while (isspace((uc)*p)) p++; if (!*p) break; int n = 0; while (*p && !isspace((uc)*p) && n < w) { *d++ = *p++; n++; } *d = 0; got++; }
    else break;
  }
  va_end(ap); return got;
}
long clock(void) { static long t; return t += 25000; } // deterministic processor time: 25 ms per look at the clock (also in lib/replay.c)
