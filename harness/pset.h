// Problems, strategies, and the meaning of a problem whose constants k0..k3 are symbolic.
#pragma once
#include "prover.h"
#include "fol.h"
static const char *STRAT[] = {
  "\"strategy\":[\"negative_pref\"],\"query_preference\":0", "\"strategy\":[\"positive_pref\"],\"query_preference\":0", "\"strategy\":[\"hyper\"],\"query_preference\":0",
  "\"strategy\":[\"query_focus\"],\"query_preference\":1", "\"strategy\":[\"hardness_pref\"],\"query_preference\":0", "\"strategy\":[\"knuthbendix_pref\"],\"query_preference\":0",
  "\"strategy\":[\"unit\"],\"query_preference\":0", "\"strategy\":[\"double\",\"negative_pref\"],\"query_preference\":2", "\"strategy\":[\"query_focus\",\"triple\"],\"query_preference\":3",
  "\"strategy\":[\"negative_pref\",\"posunitpara\",\"prohibit_nested_para\"],\"query_preference\":0", "\"strategy\":[\"negative_pref\"],\"query_preference\":0,\"instgen\":1", "\"strategy\":[\"negative_pref\"],\"query_preference\":0,\"propgen\":1",
  "\"strategy\":[\"negative_pref\",\"max_weight\",\"hornpref\"],\"query_preference\":4,\"rewrite\":0", "\"strategy\":[\"hyper\",\"max_ground_weight\"],\"query_preference\":0,\"reverse_clauselist\":1"};
static const char *PROB[] = {
#include "problems.h"
};
static FCl in[24]; static int nin; static int K = 2; static int pk[4]; static gint cenc[8];
static void patch(void *db) { // replace placeholders in every term
  gint enc[4]; int used[4] = {0}; for (int i = 0; i < 4; i++) { char n[3] = {'k', '0' + i, 0}; enc[i] = wg_encode_uri(db, n, NULL); }
  for (int i = 0; i < K; i++) { char n[3] = {'a' + i, 0, 0}; cenc[i] = wg_encode_uri(db, n, NULL); }
  gint val[4]; for (int i = 0; i < 4; i++) { char n[3] = {'k', '0' + i, 0}; int occurs = 0; for (int j = 0; j < f_nsym; j++) occurs |= !strcmp(f_sym[j].name, n); if (!occurs) continue; used[i] = 1; pk[i] = (int)sym_range(n, 0, K - 1); gint v = cenc[0]; for (int j = 1; j < K; j++) v = pk[i] == j ? cenc[j] : v; val[i] = v; }
  for (void *r = wg_get_first_raw_record(db); r; r = wg_get_next_raw_record(db, r)) for (int i = 0; i < get_record_len(r); i++) { gint *f = (gint *)r + RECORD_HEADER_GINTS + i; for (int j = 0; j < 4; j++) if (used[j] && *f == enc[j]) { *f = val[j]; break; } }
}
static void meaning(void) { // the same replacement in the interpretation
  for (int i = 0; i < 4; i++) { char n[3] = {'k', '0' + i, 0}; for (int j = 0; j < f_nsym; j++) if (!strcmp(f_sym[j].name, n)) { f_sym[j].have = 1; unsigned r = 0;
    for (int k = 0; k < K; k++) { char c[2] = {'a' + k, 0}; int s = f_symid(c, 0, 0); f_intern(s); r |= (-(unsigned)(pk[i] == k)) & f_sym[s].v[0]; } f_sym[j].v[0] = r; } }
}
static int all_true(void) { int t = 1; for (int i = 0; i < nin; i++) t &= f_eval(&in[i]); return t; }
