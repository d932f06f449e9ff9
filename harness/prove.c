// The whole prover on families of problems.  Constants k0..k3 of a problem are symbolic (each any of a few constants), so is the
// interpretation (all predicate and function tables over a 2-element domain) in which every clause the prover prints is judged.
// param 0/1: first and last problem, 2/3: first and last strategy; 4: 1 = equality-free function-free set, completeness too; 5: constants per placeholder
#include "pset.h"
void sym_main(void) { sym_budget(150000000);
  int lo = sym_param(0, 0), hi = sym_param(1, sizeof PROB / sizeof *PROB - 1), sl = sym_param(2, 0), sh = sym_param(3, 0), complete = sym_param(4, 0); K = sym_param(5, 2);
  int p = lo + sym_choose("problem", hi - lo + 1), s = sl + sym_choose("strategy", sh - sl + 1); const char *txt = PROB[p]; int ms = 20, md = 4, ml = 5; if (*txt == '@') { ms = atoi(txt + 1); md = txt[4] - '0'; ml = txt[6] - '0'; txt += 8; }
  if (!strncmp(txt, "p", 1) && txt[1] == '0') return;
  const char *q = txt; while (nin < 24) { while (*q == ' ') q++; if (!*q) break; const char *q0 = q; if (!f_clause(&in[nin], &q)) sym_fail("harness: problem text"); nin++; (void)q0; }
  if (pr_import(txt, 20000000)) sym_fail("the problem is rejected");
  patch(pr_db);
  static char guide[400]; snprintf(guide, 400, "{\"print\":1,\"max_seconds\":%d,\"print_level\":50,\"max_size\":%d,\"max_depth\":%d,\"max_length\":%d,%s}", complete ? 0 : s % 2 + 1, ms, md, ml, STRAT[s]);
  sym_capture(1); int r = pr_run(guide, 50); sym_capture(0); sym_observe(r == 0);
  uint64_t n; char *o = sym_captured(&n); int seen = 0;
  f_dom = complete ? K : 2; 
  if (complete) for (int i = 0; i < K; i++) { char c[2] = {'a' + i, 0}; int y = f_symid(c, 0, 0); f_sym[y].have = 1; f_sym[y].v[0] = i; }
  meaning(); int ax = all_true();
  for (uint64_t i = 0; i < n && !complete; i++) if (i == 0 || o[i - 1] == '\n') {
    char *l = o + i, *e = memchr(l, '\n', n - i); if (!e) break; *e = 0;
    if (!strstr(l, "derived by") && strncmp(l, "*** given ", 10) && strncmp(l, "**** given ", 11)) { *e = '\n'; continue; }
    char *c = NULL; for (char *z = l; (z = strstr(z, ": ")); z++) c = z;
    if (c) { FCl d; const char *t = c + 2; int n0 = f_nsym; if (*t && !strstr(t, "$ans") && f_clause(&d, &t) && f_nsym == n0) { seen++; int dt = f_eval(&d);
#ifndef SYMX
        if (ax && !dt) fprintf(stderr, "NOT IMPLIED: %s\n", l);
#endif
        sym_assert(!ax | dt, "a derived clause does not follow from the input"); } } *e = '\n';
  }
  if (seen || complete) sym_cover(0); sym_observe(seen);
  if (r == 0) { sym_assert(!ax, "a proof of a satisfiable problem is reported"); sym_cover(1); }
  else { if (complete) { for (int i = 0; i < 4; i++) pk[i] = (int)sym_concretize((uint64_t)pk[i]); meaning(); sym_assert(sym_feasible(all_true()), "an unsatisfiable problem is not refuted"); } sym_cover(2); }
}
