// The integer map and the set used by queries and imports.  params: 0 kind (0 map, 1 set), 1 number of fixed keys, 2 spacing pattern, 3 symbolic keys
#include "g.h"
static int64_t base(int i, int pat) { return pat == 0 ? 8 * (i + 1) : pat == 1 ? ((int64_t)i + 1) << 20 : pat == 2 ? (int64_t)(i + 1) * -77777777777LL : pat == 3 ? (i + 1) * 4 + ((int64_t)(i & 3) << 40) : (int64_t)1 << (i % 62 + 1) | (i / 62); }
void sym_main(void) {
  void *db = NULL; int k = sym_param(0, 0), nb = sym_param(1, 30), pat = sym_param(2, 0), ns = sym_param(3, 2); static int64_t key[2000]; static uint64_t val[2000]; int n = 0;
  void *t = k ? wg_dhash_init(db, nb + ns) : wg_ginthash_init(db); sym_assert(t != NULL, "no table"); int split = sym_choose("when", 3); int at = split == 0 ? 0 : split == 1 ? nb / 2 : nb;
  int64_t C[60]; int nc = 0; for (int i = 0; i < 50; i++) C[nc++] = i < 25 ? base(nb + i, pat) : base(i * 3 % nb, pat); C[nc++] = -1; C[nc++] = 1; C[nc++] = INT64_MIN; C[nc++] = INT64_MAX; C[nc++] = (int64_t)1 << 32;
  for (int i = 0; i <= nb; i++) { if (i == at) for (int s = 0; s < ns; s++) { int64_t x = C[sym_choose("k", nc)]; if (!k) { for (int j = 0; j < nb; j++) if (x == base(j, pat)) sym_end_path(); for (int j = 0; j < n; j++) if (key[j] == x) sym_end_path(); } key[n] = x; val[n] = sym_bits("v", 64); sym_assert((k ? wg_dhash_addkey(db, t, x) : wg_ginthash_addkey(db, t, x, val[n])) == 0, "a key cannot be stored"); n++; }
    if (i < nb) { key[n] = base(i, pat); val[n] = 1000 + i; sym_assert((k ? wg_dhash_addkey(db, t, key[n]) : wg_ginthash_addkey(db, t, key[n], val[n])) == 0, "a key cannot be stored"); n++; } }
  for (int i = 0; i < n; i++) { if (k) sym_assert(wg_dhash_haskey(db, t, key[i]) == 1, "a stored key is not found"); else { gint v = 5; sym_assert(wg_ginthash_getkey(db, t, key[i], &v) == 0, "a stored key is not found"); sym_assert((uint64_t)v == val[i], "another value than the stored one is returned"); } }
  for (int qi = 0; qi < nc; qi++) { int64_t q = C[qi]; int in = 0; for (int i = 0; i < n; i++) in |= key[i] == q; gint v = 77; int got = k ? (int)wg_dhash_haskey(db, t, q) : wg_ginthash_getkey(db, t, q, &v) == 0; sym_assert(got == in, "a key is found exactly when it was not stored"); if (!k && !got) sym_assert(v == 77, "the result of a failed lookup is changed"); if (got) sym_cover(1); else sym_cover(0); }
  if (k) wg_dhash_free(db, t); else wg_ginthash_free(db, t);
}
