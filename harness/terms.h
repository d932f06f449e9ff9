// Function-level setup: a local database, a reasoner state, and terms built or parsed from text.
#pragma once
#include "g.h"
static void *t_db; static glb *g;
static void t_init(uint64_t size) {
  t_db = wg_attach_local_database(size); if (!t_db) sym_fail("no database");
  g = wr_glb_new_full(t_db); if (!g) sym_fail("no reasoner state");
  dbmemsegh(t_db)->infrm_mpool = wg_create_mpool(t_db, 100000);
  g->print_initial_parser_result = 0; g->print_generic_parser_result = 0;
  g->build_buffer = NULL; g->build_subst = 0; g->build_calc = 1; g->build_rename = 0; g->build_rewrite = 0;
  g->use_comp_funs = 1; g->use_comp_arithmetic = 1;
}
static gint t_const(const char *s) { return wg_encode_uri(t_db, (char *)s, NULL); }
static gint t_str(const char *s) { return wg_encode_uri(t_db, (char *)s, "#"); }
static gint t_app(const char *f, int n, const gint *args) {
  gptr r = wr_create_term(g, n + 1); if (!r) sym_fail("no term");
  r[RECORD_HEADER_GINTS + g->unify_funpos] = t_const(f);
  for (int i = 0; i < n; i++) r[RECORD_HEADER_GINTS + g->unify_funpos + 1 + i] = args[i];
  return encode_record(t_db, r);
}
static gint t_app1(const char *f, gint a) { return t_app(f, 1, &a); }
static gint t_app2(const char *f, gint a, gint b) { gint v[2] = {a, b}; return t_app(f, 2, v); }
static gint t_app3(const char *f, gint a, gint b, gint c) { gint v[3] = {a, b, c}; return t_app(f, 3, v); }
static gint t_fun(gint t) { return rotp(g, t)[RECORD_HEADER_GINTS + g->unify_funpos]; }
static gint t_arg(gint t, int i) { return rotp(g, t)[RECORD_HEADER_GINTS + g->unify_funpos + 1 + i]; }
static int t_nargs(gint t) { return get_record_len(rotp(g, t)) - g->unify_funpos - 1; }
// the evaluator: a term is evaluated inside a context, the way clause building does it
static gint t_eval(gint t) { return t_arg(wr_build_calc_term(g, t_app1("ctx", t)), 0); }
// did evaluation leave f(args) as it was?
static int t_left(gint r, gint t) {
  if (!isdatarec(t)) return r == t;
  if (!isdatarec(r) || t_fun(r) != t_fun(t) || t_nargs(r) != t_nargs(t)) return 0;
  for (int i = 0; i < t_nargs(t); i++) if (!t_left(t_arg(r, i), t_arg(t, i))) return 0;
  return 1;
}
// clauses from text; t_cl[0..t_ncl-1]
int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, int isincluded);
static gptr t_cl[900]; static int t_ncl;
static void t_parse(const char *txt) {
  char *b = malloc(strlen(txt) + 1); strcpy(b, txt); cvec v = wr_cvec_new(g, 200);
  wr_import_otter_file(g, NULL, b, v, 0); t_ncl = 0;
  for (gint i = 2; i < v[1]; i++) if (t_ncl >= 900) sym_fail("harness: too many clauses"); else t_cl[t_ncl++] = (gptr)v[i];
}
