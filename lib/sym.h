// Harness API.  Under the symbolic executor these are intrinsics; natively (lib/replay.c) they
// take the values of a recorded counterexample / sample, in the order they were created.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
uint64_t sym_bits(const char *name, int bits);            // unsigned value of that many bits
int64_t sym_range(const char *name, int64_t lo, int64_t hi);
void sym_bytes(const char *name, void *buf, uint64_t n);
int64_t sym_pick(const char *name, const int64_t *arr, int n); // one of arr[], no fork
int sym_choose(const char *name, int n);                  // 0..n-1, forks
void sym_assume(int c);
void sym_assert_(int c, const char *msg);
void sym_fail_(const char *msg) __attribute__((noreturn));
void sym_observe(uint64_t v);                             // compared engine vs native on sampled paths
void sym_cover(int id);                                   // reachability witness
uint64_t sym_param(int i, uint64_t dflt);                 // -p values given by the driver
uint64_t sym_concretize(uint64_t v);
int sym_is_symbolic(uint64_t v);
void sym_must_terminate(uint64_t instrs);                 // exceeding the budget is a violation
void sym_exit_is_violation(int on);
void sym_end_path(void) __attribute__((noreturn));
void sym_poison(void *p, uint64_t n);
void sym_unpoison(void *p, uint64_t n);
void sym_file(const char *name, const void *d, uint64_t n);    // a file the code can open (scratch directory natively)
char *sym_file_get(const char *name, uint64_t *n);         // contents written by the code
void sym_capture(int on);                                  // collect what is printed to stdout
char *sym_captured(uint64_t *n);
void sym_on_exit(void (*f)(int));                          // run f instead of leaving when the code calls exit()
int sym_feasible_(int c);                                   // solver query: can c hold for some value of the symbols?
void sym_budget(uint64_t instrs);                         // paths longer than this are dropped and counted
int sym_spawn(void (*f)(void *), void *arg);
void sym_run_threads(int preemptions);
void sym_yield(void);
void sym_spin(void);
void sym_wait(void);                                       // any thread, this one included, may run next
void sym_shared(void *p, uint64_t n);                      // plain accesses here are scheduling points too
int sym_tid(void);
#define sym_assert(c, msg) sym_assert_((c) ? 1 : 0, msg)
#define sym_feasible(c) sym_feasible_((c) ? 1 : 0)
#define sym_fail(msg) sym_fail_(msg)
void sym_main(void);
