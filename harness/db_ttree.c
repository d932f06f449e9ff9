// T-tree indexes.  params: 0 initial key pattern, 1 number of initial rows, 2 rows present before the index is made,
// 3 number of symbolic operations, 4: 1 = keys of several types, 5: mass deletion before the symbolic operations
#include "g.h"
static void *db; static gint idx; static wg_index_header *hdr; static int mixed;
#define MAXR 200
static void *rec[MAXR]; static gint key[MAXR]; static int64_t kv[MAXR]; static char live[MAXR]; static int n;
static gint enc(int64_t v) { if (!mixed) return wg_encode_int(db, v); int t = (int)(v % 5); char b[64]; if (t == 0) return 0; if (t == 1) return wg_encode_int(db, v * 1000003); if (t == 2) { snprintf(b, 64, "s%d", (int)v); return wg_encode_str(db, b, NULL); } if (t == 3) return wg_encode_double(db, v * 0.5 - 7); snprintf(b, 64, "http://example.org/a rather long uri number %d", (int)v); return wg_encode_uri(db, b, "p"); }
static void mk(int64_t v, int index) { gint e = enc(v); void *r = wg_create_raw_record(db, 3); sym_assert(r != NULL, "no record"); wg_set_new_field(db, r, 0, wg_encode_int(db, n)); wg_set_new_field(db, r, 1, e); wg_set_new_field(db, r, 2, wg_encode_int(db, 7)); rec[n] = r; key[n] = e; kv[n] = v; live[n] = 1; n++; if (index) sym_assert(wg_index_add_rec(db, r) >= -1, "adding a row to the index fails"); }
static int cmpk(int i, gint k, int64_t v) { if (!mixed) return kv[i] < v ? -1 : kv[i] > v; gint c = wg_compare(db, key[i], k, 4); return c == WG_EQUAL ? 0 : c == WG_LESSTHAN ? -1 : 1; }
static int cmp(int i, int j) { return cmpk(i, key[j], kv[j]); }
static int ser(gint off) { return (int)wg_decode_int(db, wg_get_field(db, offsettoptr(db, off), 0)); }
static void del(int i) { live[i] = 0; sym_cover(1); sym_assert(wg_delete_record(db, rec[i]) == 0, "deleting a record fails"); }
static void sound(void) { // the chain of nodes holds every row once, in order
  gint no = hdr->ctl.t.offset_min_node, last = 0; int cnt = 0, nodes = 0; char seen[MAXR]; memset(seen, 0, MAXR); int ps = -1; int nl = 0; for (int i = 0; i < n; i++) nl += live[i];
  while (no) { struct wg_tnode *t = offsettoptr(db, no); sym_assert(++nodes <= MAXR, "the chain of index nodes does not end"); sym_assert(t->pred_offset == last, "the backward chain of index nodes is broken"); sym_assert(t->number_of_elements >= 0 && t->number_of_elements <= WG_TNODE_ARRAY_SIZE && (t->number_of_elements || nodes == 1), "an index node has an impossible number of elements");
    for (int i = 0; i < t->number_of_elements; i++) { int s = ser(t->array_of_values[i]); sym_assert(s >= 0 && s < n && live[s] && rec[s] == offsettoptr(db, t->array_of_values[i]), "the index refers to something that is not a row"); sym_assert(!seen[s], "the index holds a row twice"); seen[s] = 1; cnt++; if (ps >= 0) sym_assert(cmp(ps, s) <= 0, "the index is not in key order"); ps = s; }
    last = no; no = t->succ_offset; }
  sym_assert(cnt == nl, "the index lacks a row"); sym_assert(last == hdr->ctl.t.offset_max_node, "the last index node is recorded wrongly"); }
static int bound(gint k, int right, gint *off) { gint r; *off = right ? wg_search_ttree_rightmost(db, hdr->ctl.t.offset_root_node, k, &r, NULL) : wg_search_ttree_leftmost(db, hdr->ctl.t.offset_root_node, k, &r, NULL); return (int)r; }
static void lookup(int64_t v) { gint k = enc(v); // found exactly when present; the bounds enclose exactly the rows with that key
  int c = 0; for (int i = 0; i < n; i++) if (live[i] && cmpk(i, k, v) == 0) c++;
  gint o = wg_search_ttree_index(db, idx, k); sym_assert((o > 0) == (c > 0), "an index lookup finds a key exactly when it is not there"); if (o > 0) { int s = ser(o); sym_assert(live[s] && cmpk(s, k, v) == 0, "an index lookup returns a wrong row"); }
  if (c) { gint a, b; sym_assert(bound(k, 0, &a) == REALLY_BOUNDING_NODE && bound(k, 1, &b) == REALLY_BOUNDING_NODE, "the node holding a key is not found"); int sa = (int)wg_search_tnode_first(db, a, k, 1), sb = (int)wg_search_tnode_last(db, b, k, 1); sym_assert(sa >= 0 && sb >= 0, "a key is not found in its node"); int m = 1, guard = 0; gint x = a; int s = sa; while (!(x == b && s == sb)) { struct wg_tnode *t = offsettoptr(db, x); if (++s >= t->number_of_elements) { x = t->succ_offset; s = 0; } m++; sym_assert(x && ++guard < 300, "the right end of a key is left of its left end"); } sym_assert(m == c, "a scan of a key returns a wrong number of rows"); sym_cover(2); } }
void sym_main(void) {
  db = wg_attach_local_database(4000000); if (!db) sym_fail("no db"); int pat = sym_param(0, 0), nb = sym_param(1, 20), before = sym_param(2, 0), ops = sym_param(3, 2); mixed = sym_param(4, 0);
  int64_t *K = calloc(8, nb + 1); for (int i = 0; i < nb; i++) K[i] = pat == 0 ? 10 * (i + 1) : pat == 1 ? 10 * (nb - i) : pat == 2 ? 10 * ((i & 1) ? nb - i / 2 : 1 + i / 2) : pat == 3 ? 10 * (1 + (i * 7) % nb) : pat == 4 ? 10 * (1 + i % 3) : 10 * (1 + (i * i * 5 + i) % 11);
  for (int i = 0; i < before; i++) mk(K[i], 0);
  sym_assert(wg_create_index(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "no index"); idx = wg_column_to_index_id(db, 1, WG_INDEX_TYPE_TTREE, NULL, 0); sym_assert(idx > 0, "the index is not found"); hdr = offsettoptr(db, idx);
  for (int i = before; i < nb; i++) mk(K[i], 1);
  sound(); int64_t top = 10 * nb + 10; int64_t C[80]; int nc = 0; for (int64_t v = 5; v <= top && nc < 80; v += (top > 400 ? 20 : 5)) C[nc++] = v;
  int md = sym_param(5, 0), n0 = n; for (int i = 0; i < n0; i++) if (md == 1 ? i < n0 * 3 / 4 : md == 2 ? i % 8 != 3 : md == 3 ? i > n0 / 4 : md == 4 ? (i * 11) % 17 > 4 : 0) { del(i); if (i % 3 == 0) sound(); } if (md) sound();
  for (int o = 0; o < ops; o++) { int kind = sym_choose("op", 2); if (kind == 0) mk(mixed ? (int64_t)sym_choose("k", 9) * 13 : sym_pick("k", C, nc), 1); else { int nl = 0, L[MAXR]; for (int i = 0; i < n; i++) if (live[i]) L[nl++] = i; if (!nl) sym_end_path(); del(L[sym_choose("d", nl)]); } sound(); }
  for (int i = n - 1; i >= 0 && i > n - 3; i--) lookup(kv[i]); lookup(5); lookup(10); lookup(10 * (nb / 2)); lookup(10 * nb); lookup(10 * nb + 100);
  // remove everything, in two orders
  int ord = pat & 1; for (int s = 0; s < n; s++) { int i = ord ? n - 1 - s : s; if (live[i]) { del(i); if (s % 4 == 0) sound(); } } sound(); lookup(kv[0]); mk(42, 1); sound(); lookup(42); sym_cover(0);
}
