// The database lock under every interleaving of a few processes.  params: 0.. one script per thread (digits: 1 read, 2 write; last first), 4 preemptions, 5 how many waits may time out, 6 how many may be interrupted
#include "g.h"
#include <errno.h>
#include <time.h>
#include <unistd.h>
static void *db; enum { MAXT = 5 };
static int nr, nw; static int timeouts, intrs, stopped, conc;
// the kernel's futex: a thread sleeps while the word has the given value, until a wake-up on that address, the timeout or a signal
static struct { int *addr; int woken; } Q[MAXT]; static volatile int tick; // sleeping is one step; only tick is a scheduling point
long syscall(long nr_, ...) { __builtin_va_list ap; __builtin_va_start(ap, nr_); int *addr = __builtin_va_arg(ap, int *); int op = __builtin_va_arg(ap, int); int val = __builtin_va_arg(ap, int); struct timespec *ts = NULL; if ((op & 127) == 0) ts = __builtin_va_arg(ap, struct timespec *); __builtin_va_end(ap); int me = sym_tid();
  sym_assert(nr_ == 202, "another system call"); sym_yield();
  if ((op & 127) == 1) { int n = 0; for (int i = 0; i < MAXT && n < val; i++) if (Q[i].addr == addr && !Q[i].woken) { Q[i].woken = 1; n++; } tick = 1; return n; }
  sym_assert((op & 127) == 0, "another futex operation"); if (*addr != val) { errno = EAGAIN; return -1; }
  sym_assert(conc, "an uncontended lock attempt has to wait"); Q[me].addr = addr; Q[me].woken = 0; int how = 0; // 0 wake-up, 1 timeout, 2 signal
  if (ts && timeouts > 0 && intrs > 0) how = sym_choose("how", 3); else if (ts && timeouts > 0) how = sym_choose("timeout", 2); else if (intrs > 0) how = sym_choose("signal", 2) ? 2 : 0;
  if (how == 1) timeouts--; if (how == 2) intrs--;
  if (how) { sym_wait(); int w = Q[me].woken; Q[me].addr = NULL; if (w) return 0; errno = how == 1 ? ETIMEDOUT : EINTR; return -1; }
  for (;;) { (void)tick; if (Q[me].woken) break; sym_spin(); } Q[me].addr = NULL; return 0; }
static void attempt(int k) {
  if (k == 2) { gint l = wg_start_write(db); if (!l) { stopped++; sym_cover(2); return; } sym_assert(nw == 0 && nr == 0, "a write lock is held together with another lock"); nw++; sym_yield(); sym_assert(nw == 1 && nr == 0, "a write lock is held together with another lock"); nw--; sym_assert(wg_end_write(db, l) == 1, "a write lock cannot be released"); }
  else { gint l = wg_start_read(db); if (!l) { stopped++; sym_cover(2); return; } sym_assert(nw == 0, "a read lock is held together with a write lock"); nr++; if (nr == 2) sym_cover(1); sym_yield(); sym_assert(nw == 0, "a read lock is held together with a write lock"); nr--; sym_assert(wg_end_read(db, l) == 1, "a read lock cannot be released"); } }
static void run(void *a) { for (uintptr_t s = (uintptr_t)a; s; s /= 10) attempt(s % 10); }
void sym_main(void) {
  db = wg_attach_local_database(4000000); if (!db) sym_fail("no db"); db_memsegment_header *h = dbmemsegh(db); timeouts = sym_param(5, 0); intrs = sym_param(6, 0); int t0 = timeouts;
  int cells = 0; for (gint c = h->locks.freelist; c; c = ((lock_queue_node *)offsettoptr(db, c))->next_cell) cells++; sym_assert(cells >= 8, "too few lock cells");
  for (int i = 0; i < 4; i++) { uint64_t s = sym_param(i, 0); if (s) sym_spawn(run, (void *)(uintptr_t)s); }
  conc = 1; sym_run_threads(sym_param(4, 2)); conc = 0; sym_assert(nr == 0 && nw == 0, "counts"); if (t0 == 0) sym_assert(stopped == 0, "a lock attempt that did not time out failed");
  int left = 0; for (gint c = h->locks.freelist; c && left <= cells; c = ((lock_queue_node *)offsettoptr(db, c))->next_cell) left++; sym_assert(left == cells, "lock cells are lost");
  gint a = wg_start_read(db), b = wg_start_read(db); sym_assert(a && b, "the lock is not usable any more"); wg_end_read(db, a); wg_end_read(db, b); a = wg_start_write(db); sym_assert(a != 0, "the lock is not usable any more"); wg_end_write(db, a); sym_cover(0);
}
