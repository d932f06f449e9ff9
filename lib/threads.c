// Deterministic replay of a recorded schedule: the scheduling points are the instrumentation calls the compiler's thread pass puts before every access.
#include <ucontext.h>
typedef struct { ucontext_t c; int done, waiting; uint64_t stamp, load; void (*f)(void *); void *a; } T;
static T th[16]; static uint64_t nsw; static int nth = 1, cur, concurrent, ctxLeft, atPoint; static uint64_t writeStamp, shLo[4], shLen[4]; static int nShared; static int isShared(void *p) { for (int i = 0; i < nShared; i++) if ((uint64_t)p - shLo[i] < shLen[i]) return 1; return 0; }
static void pickNext(int mayStay) { int r[16], n = 0, runnable = 0;
  for (int i = 1; i < nth; i++) { if (th[i].done) continue; if (th[i].waiting && th[i].stamp == writeStamp) continue; if (i == cur) runnable = 1; r[n++] = i; }
  int old = cur; if (!n) { for (int i = 1; i < nth; i++) if (!th[i].done) { fprintf(stderr, "REPLAY-VIOLATION: deadlock\n"); fflush(0); _exit(42); } concurrent = 0; cur = 0; swapcontext(&th[old].c, &th[0].c); return; }
  if (runnable && mayStay && ctxLeft <= 0) return;
  int k = n > 1 ? (int)next("sched") : 0; if (runnable && mayStay && r[k] != cur) ctxLeft--; cur = r[k]; th[cur].waiting = 0; if (cur != old) { nsw++; if (mayStay) atPoint = 1; swapcontext(&th[old].c, &th[cur].c); } }
static void point(void) { if (!concurrent) return; if (atPoint) { atPoint = 0; return; } pickNext(1); atPoint = 0; }
static void body(int i) { th[i].f(th[i].a); th[i].done = 1; atPoint = 1; pickNext(0); }
int sym_spawn(void (*f)(void *), void *a) { int i = nth++; getcontext(&th[i].c); th[i].c.uc_stack.ss_sp = malloc(8 << 20); th[i].c.uc_stack.ss_size = 8 << 20; th[i].f = f; th[i].a = a; makecontext(&th[i].c, (void (*)(void))body, 1, i); return i; }
void sym_run_threads(int p) { ctxLeft = p; concurrent = 1; writeStamp = 1; atPoint = 1; pickNext(0); }
void sym_yield(void) { if (!concurrent) return; if (atPoint) { atPoint = 0; return; } uint64_t s = nsw; pickNext(1); if (s == nsw) atPoint = 0; }
static void leave(void) { atPoint = 1; pickNext(0); }
void sym_spin(void) { if (!concurrent) return; th[cur].waiting = 1; th[cur].stamp = th[cur].load; leave(); }
void sym_wait(void) { if (concurrent) leave(); }
int sym_tid(void) { return cur; }
void sym_shared(void *p, uint64_t n) { if (nShared < 4) { shLo[nShared] = (uint64_t)p; shLen[nShared++] = n; } }
static void plain(void *p, int w) { if (concurrent && isShared(p)) { point(); if (w) writeStamp++; else th[cur].load = writeStamp; } }
static void vol(int w) { if (concurrent) { point(); if (w) writeStamp++; else th[cur].load = writeStamp; } }
#define A(n) void __tsan_read##n(void *p) { plain(p, 0); } void __tsan_write##n(void *p) { plain(p, 1); } void __tsan_unaligned_read##n(void *p) { plain(p, 0); } void __tsan_unaligned_write##n(void *p) { plain(p, 1); } \
  void __tsan_volatile_read##n(void *p) { vol(0); } void __tsan_volatile_write##n(void *p) { vol(1); } void __tsan_unaligned_volatile_read##n(void *p) { vol(0); } void __tsan_unaligned_volatile_write##n(void *p) { vol(1); }
A(1) A(2) A(4) A(8) A(16)
#define C(n, t) t __tsan_atomic##n##_compare_exchange_val(volatile t *p, t c, t v, int a, int b) { point(); th[cur].load = writeStamp; t o = *p; if (o == c) { *p = v; writeStamp++; } return o; } \
  t __tsan_atomic##n##_fetch_add(volatile t *p, t v, int a) { vol(1); t o = *p; *p = o + v; return o; } t __tsan_atomic##n##_fetch_sub(volatile t *p, t v, int a) { vol(1); t o = *p; *p = o - v; return o; } \
  t __tsan_atomic##n##_fetch_and(volatile t *p, t v, int a) { vol(1); t o = *p; *p = o & v; return o; } t __tsan_atomic##n##_fetch_or(volatile t *p, t v, int a) { vol(1); t o = *p; *p = o | v; return o; } \
  t __tsan_atomic##n##_exchange(volatile t *p, t v, int a) { vol(1); t o = *p; *p = v; return o; } t __tsan_atomic##n##_load(volatile t *p, int a) { vol(0); return *p; } void __tsan_atomic##n##_store(volatile t *p, t v, int a) { vol(1); *p = v; }
C(8, uint8_t) C(16, uint16_t) C(32, uint32_t) C(64, uint64_t)
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {} void __tsan_atomic_thread_fence(int a) { (void)a; }
void *__tsan_memcpy(void *a, const void *b, size_t n) { return memcpy(a, b, n); } void *__tsan_memset(void *a, int c, size_t n) { return memset(a, c, n); } void *__tsan_memmove(void *a, const void *b, size_t n) { return memmove(a, b, n); }
