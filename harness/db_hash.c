// Hash indexes.  param 0: 0 symbolic values, one hash chain; 1 sequences of inserts and deletes of rows of different lengths,
// param 1: symbolic operations, 2: number of indexed columns, 3: rows present before the index is made, 4: 1 = with a match record
#include "g.h"
static void *db; static gint idx;
enum { I, S, D, U, V, C, DT, TM, F, NUL, NK };
typedef struct { int t; int64_t v; char s[4]; char x[4]; } Val;
static gint enc(Val *v) { switch (v->t) { case I: return wg_encode_int(db, v->v); case S: return wg_encode_str(db, v->s, NULL); case D: { double d; memcpy(&d, &v->v, 8); return wg_encode_double(db, d); } case U: return wg_encode_uri(db, v->s, v->x[0] ? v->x : NULL); case V: return wg_encode_var(db, v->v); case C: return wg_encode_char(db, (char)v->v); case DT: return wg_encode_date(db, (int)v->v); case TM: return wg_encode_time(db, (int)v->v); case F: return wg_encode_fixpoint(db, v->v / 10000.0); } return 0; }
static int same(Val *a, Val *b) { if (a->t != b->t) return 0; if (a->t == NUL) return 1; if (a->t == S || a->t == U) { int r = 1; for (int i = 0; i < 4; i++) { r &= a->s[i] == b->s[i]; if (a->t == U) r &= a->x[i] == b->x[i]; } return r; } return a->v == b->v; }
#define MAXR 24
#define MAXC 5
static void *rec[MAXR]; static Val val[MAXR][MAXC]; static int len[MAXR]; static char live[MAXR]; static int n, nc, cols[3] = {1, 3, 4}; static int tmpl;
static void mk(int l, int index) { void *r = wg_create_raw_record(db, l); sym_assert(r != NULL, "no record"); for (int i = 0; i < l; i++) wg_set_new_field(db, r, i, enc(&val[n][i])); rec[n] = r; len[n] = l; live[n] = 1; n++; if (index) sym_assert(wg_index_add_rec(db, r) >= -1, "adding a row to the index fails"); }
static int indexed(int i) { if (!live[i] || len[i] <= cols[nc - 1]) return 0; if (tmpl && !(val[i][0].t == I && val[i][0].v == 2)) return 0; return 1; }
static void lookup(Val *q) { gint k[3]; for (int c = 0; c < nc; c++) k[c] = enc(&q[c]); gint l = wg_search_hash(db, idx, k, nc); int cnt[MAXR] = {0}; sym_assert(l >= 0, "a hash lookup fails"); int g = 0;
  for (; l > 0; ) { gcell *cell = (gcell *)offsettoptr(db, l); int f = -1; for (int i = 0; i < n; i++) if (live[i] && ptrtooffset(db, rec[i]) == cell->car) f = i; sym_assert(f >= 0, "a hash lookup returns something that is not a row"); cnt[f]++; l = cell->cdr; sym_assert(++g < 100, "the list of rows does not end"); }
  for (int i = 0; i < n; i++) if (live[i]) { int w = indexed(i); for (int c = 0; c < nc && w; c++) w &= same(&val[i][cols[c]], &q[c]); if (cnt[i] > 1) sym_fail("a hash lookup returns a row twice"); if (cnt[i]) { sym_assert(w, "a hash lookup returns a row with other values"); sym_cover(1); } else sym_assert(!w, "a hash lookup misses a row"); } }
static void symval(const char *nm, Val *v, int ty) { memset(v, 0, sizeof *v); v->t = ty; if (ty == S) { v->s[0] = (char)sym_bits(nm, 8); sym_assume(v->s[0] != 0); } else if (ty == U) { v->s[0] = (char)sym_bits(nm, 8); v->x[0] = (char)sym_bits(nm, 8); sym_assume(v->s[0] != 0 && v->x[0] != 0); }
  else if (ty == C) v->v = (char)sym_bits(nm, 7); else if (ty == DT || ty == TM) v->v = sym_range(nm, 0, 1 << 22); else if (ty == F) v->v = 12345; else if (ty == V) v->v = sym_range(nm, 0, (int64_t)1 << 58); else if (ty != NUL) v->v = (int64_t)sym_bits(nm, 64); }
static void set(Val *v, int k) { memset(v, 0, sizeof *v); static const char *T[] = {"a", "ab", "b", ""}; k %= 12; if (k < 5) { static const int64_t N[] = {1, 0, -1, ((int64_t)1 << 32) + 1, (int64_t)1 << 40}; v->t = I; v->v = N[k]; } else if (k < 9) { v->t = S; strcpy(v->s, T[k - 5]); } else if (k == 9) { v->t = U; strcpy(v->s, "a"); } else if (k == 10) { v->t = U; strcpy(v->s, "b"); strcpy(v->x, "a"); } else v->t = NUL; }
static void mkidx(void) { gint c[3] = {1, 3, 4}, m[2]; m[0] = wg_encode_int(db, 2); m[1] = wg_encode_var(db, 0); sym_assert(wg_create_multi_index(db, c, nc, WG_INDEX_TYPE_HASH, tmpl ? m : NULL, tmpl ? 2 : 0) == 0, "no index"); idx = wg_multi_column_to_index_id(db, c, nc, WG_INDEX_TYPE_HASH, tmpl ? m : NULL, tmpl ? 2 : 0); sym_assert(idx > 0, "the index is not found"); }
void sym_main(void) {
  db = wg_attach_local_database(4000000); if (!db) sym_fail("no db"); int mode = sym_param(0, 0), ops = sym_param(1, 3), before = sym_param(3, 0); nc = sym_param(2, 2); tmpl = sym_param(4, 0);
  if (mode == 0) { dbmemsegh(db)->strhash_area_header.arraylength = 1; mkidx(); ((wg_index_header *)offsettoptr(db, idx))->ctl.h.hasharea.arraylength = 1; int t0 = sym_choose("t", NK); 
    for (int i = 0; i < ops; i++) { for (int c = 0; c < MAXC; c++) { memset(&val[n][c], 0, sizeof(Val)); val[n][c].t = NUL; } for (int c = 0; c < nc; c++) { int ty = c == 0 ? t0 : i == 1 && sym_choose("u", 2) ? S : I; symval("v", &val[n][cols[c]], ty); } mk(5, 1); }
    Val q[3]; symval("q", &q[0], t0); symval("q", &q[1], I); symval("q", &q[2], I); lookup(q); int d = sym_choose("del", ops); live[d] = 0; sym_assert(wg_delete_record(db, rec[d]) == 0, "deleting fails"); for (int i = 0; i < ops; i++) { Val w[3]; for (int c = 0; c < nc; c++) w[c] = val[i][cols[c]]; lookup(w); } sym_cover(0); return; }
  for (int i = 0; i < 12; i++) { if (i == before) mkidx(); for (int c = 0; c < MAXC; c++) set(&val[n][c], c == 0 ? i % 3 + 1 : c == 1 ? i * 5 : i * 7 + c); memset(&val[n][0], 0, sizeof(Val)); val[n][0].t = I; val[n][0].v = 1 + i % 3; mk(2 + i % 4, i >= before); } if (before >= 12) mkidx();
  for (int s = 0; s < ops; s++) { int op = sym_choose("op", 2); if (op) { int L[MAXR], nl = 0; for (int i = 0; i < n; i++) if (live[i]) L[nl++] = i; int d = L[sym_choose("del", nl)]; live[d] = 0; sym_assert(wg_delete_record(db, rec[d]) == 0, "deleting fails"); } else { for (int c = 0; c < MAXC; c++) set(&val[n][c], c * 3); val[n][0].t = I; val[n][0].v = 1 + sym_choose("f", 2); set(&val[n][1], sym_choose("k", 12)); int l = 2 + sym_choose("len", 4); mk(l, 1); }
    for (int i = 0; i < n; i++) if (len[i] > cols[nc - 1]) { Val w[3]; for (int c = 0; c < nc; c++) w[c] = val[i][cols[c]]; lookup(w); if (w[0].t == I) { w[0].v ^= (int64_t)1 << 32; lookup(w); } } for (int i = 0; i < 12; i++) { Val q[3]; for (int c = 0; c < 3; c++) set(&q[c], i + c * 5); lookup(q); set(&q[1], 11); set(&q[2], 11); lookup(q); } }
  sym_cover(0);
}
