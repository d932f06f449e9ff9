// Native side of sym.h: replays recorded values against the real build.
#define _DEFAULT_SOURCE
#include "sym.h"
#include <signal.h>
#include <unistd.h>
static FILE *in, *obs; static int params_n = -1; static uint64_t params[16];
static void init(void) {
  if (in) return; const char *p = getenv("SYM_INPUT"); in = fopen(p ? p : "/dev/null", "r"); if (!in) { fprintf(stderr, "no SYM_INPUT\n"); _exit(44); }
  p = getenv("SYM_OBS"); if (p) obs = fopen(p, "w");
}
static uint64_t next(const char *name) {
  init(); char nm[256]; int w; unsigned long long v; if (fscanf(in, "%255s %d %llu", nm, &w, &v) != 3) { fprintf(stderr, "REPLAY-SHORT: no value for %s\n", name); fflush(0); _exit(45); }
  if (strcmp(nm, name)) { fprintf(stderr, "REPLAY-MISMATCH: want %s, recorded %s\n", name, nm); fflush(0); _exit(46); }
  return v;
}
uint64_t sym_bits(const char *name, int bits) { (void)bits; return next(name); }
int64_t sym_range(const char *name, int64_t lo, int64_t hi) { (void)hi; return lo + (int64_t)next(name); }
void sym_bytes(const char *name, void *buf, uint64_t n) { for (uint64_t i = 0; i < n; i++) { char b[256]; snprintf(b, sizeof b, "%s[%llu]", name, (unsigned long long)i); ((unsigned char *)buf)[i] = next(b); } }
int64_t sym_pick(const char *name, const int64_t *arr, int n) { uint64_t i = next(name); return arr[i < (uint64_t)n ? i : n - 1]; }
int sym_choose(const char *name, int n) { if (n <= 1) return 0; return (int)next(name); }
void sym_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(0); _exit(43); } }
void sym_assert_(int c, const char *msg) { if (!c) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", msg); fflush(0); _exit(42); } }
void sym_fail_(const char *msg) { fprintf(stderr, "REPLAY-VIOLATION: %s\n", msg); fflush(0); _exit(42); }
void sym_observe(uint64_t v) { init(); if (obs) { fprintf(obs, "%llu\n", (unsigned long long)v); fflush(obs); } }
void sym_cover(int id) { (void)id; }
uint64_t sym_param(int i, uint64_t d) {
  if (params_n < 0) { params_n = 0; const char *p = getenv("SYM_PARAMS"); if (p) { char *e; while (*p && params_n < 16) { params[params_n++] = strtoull(p, &e, 0); p = *e ? e + 1 : e; } } }
  return i < params_n ? params[i] : d;
}
int sym_feasible_(int c) { (void)c; return (int)next("feasible"); }
void sym_budget(uint64_t n) { (void)n; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t v) { (void)v; return 0; }
void sym_must_terminate(uint64_t n) { (void)n; alarm(20); }
static char *slurp(const char *nm, uint64_t *n) { FILE *f = fopen(nm, "rb"); if (!f) return 0; fseek(f, 0, SEEK_END); long l = ftell(f); rewind(f); char *b = malloc(l + 1); *n = fread(b, 1, l, f); b[*n] = 0; fclose(f); return b; }
void sym_file(const char *nm, const void *d, uint64_t n) { FILE *f = fopen(nm, "wb"); fwrite(d, 1, n, f); fclose(f); }
char *sym_file_get(const char *nm, uint64_t *n) { return slurp(nm, n); }
static int savedfd = -1;
void sym_capture(int on) { fflush(stdout); if (on) { if (savedfd < 0) savedfd = dup(1); FILE *f = fopen("sym_stdout", "wb"); dup2(fileno(f), 1); fclose(f); } else if (savedfd >= 0) dup2(savedfd, 1); }
char *sym_captured(uint64_t *n) { fflush(stdout); char *b = slurp("sym_stdout", n); if (!b) { *n = 0; b = calloc(1, 1); } return b; }
static void (*exit_hook)(int); void sym_on_exit(void (*f)(int)) { exit_hook = f; }
static void onexit2_(int c, void *a) { (void)a; if (exit_hook) { void (*f)(int) = exit_hook; exit_hook = 0; f(c); fflush(0); _exit(0); } }
static int exitv; void sym_exit_is_violation(int on) { exitv = on; }
static void onexit_(void) { if (exitv) { fprintf(stderr, "REPLAY-VIOLATION: process exit\n"); fflush(0); _exit(42); } }
void sym_end_path(void) { fflush(0); _exit(0); }
#if defined(__SANITIZE_ADDRESS__)
void __asan_poison_memory_region(void const volatile *p, size_t n); void __asan_unpoison_memory_region(void const volatile *p, size_t n);
void sym_poison(void *p, uint64_t n) { __asan_poison_memory_region(p, n); }
void sym_unpoison(void *p, uint64_t n) { __asan_unpoison_memory_region(p, n); }
#else
void sym_poison(void *p, uint64_t n) { (void)p; (void)n; }
void sym_unpoison(void *p, uint64_t n) { (void)p; (void)n; }
#endif
#ifdef SYM_THREADS
#include "threads.c"
#else
int sym_spawn(void (*f)(void *), void *a) { (void)f; (void)a; return 0; }
void sym_run_threads(int p) { (void)p; }
void sym_yield(void) {}
void sym_spin(void) {}
int sym_tid(void) { return 0; }
void sym_wait(void) {}
void sym_shared(void *p, uint64_t n) { (void)p; (void)n; }
#endif
int main(void) { init(); atexit(onexit_); on_exit(onexit2_, 0); sym_main(); exitv = 0; exit_hook = 0; fflush(0); if (obs) fclose(obs); return 0; }
long clock(void) { static long t; return t += 25000; } // as in lib/minilibc.c
