// Queries.  params: 0 table, 1 index, 2 number of arguments, 3 mode (0 arguments, 1 match record too, 2 row limit, 3 wg_find_record), 4 conditions (0 all, 1 inequalities, 2 three of them)
#include "g.h"
#include "Db/dbquery.h"
static void *db;
#define MAXR 240
static void *rec[MAXR]; static int64_t v[MAXR][3]; static int len[MAXR], live[MAXR]; static int n;
static const int CO[6] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
static int holds(int c, int64_t a, int64_t b) { switch (c) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a > b; case 4: return a <= b; default: return a >= b; } }
static void row(int l, int64_t a, int64_t b) { void *r = wg_create_raw_record(db, l); if (!r) sym_fail("no record"); rec[n] = r; len[n] = l; live[n] = 1; v[n][0] = n; v[n][1] = a; v[n][2] = b; for (int i = 0; i < l; i++) wg_set_new_field(db, r, i, wg_encode_int(db, v[n][i])); n++; }
static void mkindex(int ix) { gint one = 1, two = 2; (void)one;
  if (ix == 1 || ix == 2) sym_assert(wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "no index"); if (ix == 2) sym_assert(wg_create_index(db, two, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "no index");
  if (ix == 3 || ix == 4) { gint m[3] = {wg_encode_var(db, 0), wg_encode_var(db, 1), wg_encode_int(db, 1)}; sym_assert(wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, m, 3) == 0, "no template index"); if (ix == 4) sym_assert(wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "no index"); } }
void sym_main(void) {
  db = wg_attach_local_database(4000000); if (!db) sym_fail("no db"); int tab = sym_param(0, 0), ix = sym_param(1, 0), na = sym_param(2, 1), mode = sym_param(3, 0), ineq = sym_param(4, 0); int N = tab == 0 ? 12 : tab == 1 ? 0 : tab == 2 ? 60 : tab == 3 ? 14 : tab == 4 ? 130 : tab == 6 ? 22 : 9; int64_t top = 0;
  int half = N / 2; for (int i = 0; i < N; i++) { if (i == half) mkindex(ix); int64_t a = tab == 2 || tab == 6 ? 10 * (1 + (i * 7) % (tab == 6 ? 11 : 30)) : tab == 4 ? 10 * (1 + (i * 7) % 13) : tab == 5 ? 20 : 10 * (1 + (i * 5) % 7), b = i % 3; row(tab == 3 && i % 3 == 1 ? 2 : tab == 3 && i % 5 == 2 ? 1 : 3, a, b); if (i >= half) wg_index_add_rec(db, rec[i]); if (a > top) top = a; }
  if (N == 0) mkindex(ix);
  if (tab == 5) for (int i = 0; i < N; i++) { live[i] = 0; sym_assert(wg_delete_record(db, rec[i]) == 0, "deleting fails"); } // emptied table
  if (tab == 3) { live[3] = 0; sym_assert(wg_delete_record(db, rec[3]) == 0, "deleting fails"); }
  wg_query_arg A[4]; int64_t av[4]; int ac[4], ao[4]; int64_t C[64]; int nc = 0; for (int64_t x = 5; x <= top + 10 && nc < 64; x += top > 200 ? 10 : 5) C[nc++] = x; if (nc < 2) { C[0] = 10; C[1] = 20; nc = 2; }
  int64_t E[64]; int ne = 0; for (int i = 1; i < nc; i += 2) E[ne++] = C[i];
  static const char *nv[4] = {"x0", "x1", "x2", "x3"}; static const int64_t BV[4] = {0, 1, 2, 7};
  for (int i = 0; i < na; i++) { ac[i] = (ineq == 1 || mode == 1) && i < 2 ? 1 : 1 + sym_choose("col", 2); ao[i] = ineq == 2 ? (int[]){0, 2, 5}[sym_choose("cond", 3)] : ineq ? 2 + sym_choose("cond", 4) : sym_choose("cond", 6); av[i] = ac[i] == 1 ? (i && tab == 6 ? sym_pick(nv[i], E, ne) : sym_pick(nv[i], C, nc)) : sym_pick(nv[i], BV, 4); A[i].column = ac[i]; A[i].cond = CO[ao[i]]; A[i].value = wg_encode_query_param_int(db, av[i]); }
  gint m[3] = {0, 0, 0}; int ml = 0; int64_t mv[3]; int mw[3] = {0, 0, 0};
  if (mode == 1) { ml = na ? 3 : 1 + sym_choose("ml", 3); for (int i = 0; i < ml; i++) { mw[i] = na && i == 0 ? 1 : sym_choose("wild", 2); if (mw[i]) m[i] = wg_encode_var(db, i); else { mv[i] = i == 0 ? sym_range("m0", 0, N) : i == 1 ? sym_pick("m1", C, nc) : sym_pick("m2", BV, 4); m[i] = wg_encode_query_param_int(db, mv[i]); } } }
  char want[MAXR]; int cnt = 0; for (int i = 0; i < n; i++) { int w = live[i]; for (int k = 0; k < na && w; k++) w = len[i] > ac[k] && holds(ao[k], v[i][ac[k]], av[k]); for (int k = 0; k < ml && w; k++) if (!mw[k]) w = len[i] > k && v[i][k] == mv[k]; want[i] = w; cnt += w; }
  char got[MAXR]; memset(got, 0, MAXR); int g = 0; void *r;
  if (mode == 3) { r = NULL; while ((r = wg_find_record(db, ac[0], CO[ao[0]], A[0].value, r))) { int s = -1; for (int i = 0; i < n; i++) if (rec[i] == r) s = i; sym_assert(s >= 0 && want[s], "a search returns a row that does not match"); sym_assert(!got[s], "a search returns a row twice"); got[s] = 1; g++; sym_cover(1); } sym_assert(g == cnt, "a search misses a matching row"); sym_cover(0); return; }
  int64_t lim = 0; wg_query *q; if (mode == 2) { lim = sym_choose("limit", 5); lim = lim == 3 ? 64 : lim == 4 ? 63 : lim; q = wg_make_query_rc(db, ml ? m : NULL, ml, na ? A : NULL, na, lim); } else q = wg_make_query(db, ml ? m : NULL, ml, na ? A : NULL, na);
  sym_assert(q != NULL, "no query can be made");
  while ((r = wg_fetch(db, q))) { int s = -1; for (int i = 0; i < n; i++) if (rec[i] == r) s = i; sym_assert(s >= 0 && want[s], "a query returns a row that does not match"); sym_assert(!got[s], "a query returns a row twice"); got[s] = 1; g++; sym_cover(1); }
  sym_assert(lim && lim < cnt ? g == lim : g == cnt, "a query misses a matching row"); wg_free_query(db, q); for (int i = 0; i < na; i++) wg_free_query_param(db, A[i].value); sym_cover(0);
}
