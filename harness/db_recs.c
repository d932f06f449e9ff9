// Record creation, field setting, deletion and scans.  params: 0 rows made first, 1 symbolic operations, 2 size set, 3 value kinds, 4 churn (rows deleted before the symbolic operations)
#include "g.h"
static void *db; enum { MAXR = 160, MAXL = 40 };
static void *rec[MAXR]; static int len[MAXR], live[MAXR], raw[MAXR], n; static gint off[MAXR];
typedef struct { int t; int64_t i; int s, x; } V; static V val[MAXR][8]; static int nv[MAXR]; // the first nv fields are set, the rest are null
static int kinds;
static void text(char *b, int s) { static const char *T[] = {"short", "a string that is clearly longer than any inline form", "another string, also too long to be stored inside a field, and longer", ""}; strcpy(b, T[s]); }
static void setf(int r, int f, V v) { gint e; char b[128]; switch (v.t) {
    case 0: e = wg_encode_int(db, v.i); break; case 1: e = wg_encode_double(db, (double)v.i * 0.5); break; case 2: text(b, v.s); e = wg_encode_str(db, b, v.x ? "et" : NULL); break;
    case 3: text(b, v.s); e = wg_encode_uri(db, b, v.x ? "http://some.prefix.example.org/of/uris#" : NULL); break; case 4: text(b, v.s); e = wg_encode_blob(db, b, NULL, (int)strlen(b)); break; default: e = wg_encode_record(db, rec[v.s]); }
  sym_assert(e != WG_ILLEGAL, "a value cannot be encoded"); sym_assert(wg_set_new_field(db, rec[r], f, e) == 0, "setting a field fails"); val[r][f] = v; }
static void chk(int r) { sym_assert(wg_get_record_len(db, rec[r]) == len[r], "a record changed its length");
  for (int f = 0; f < len[r]; f++) { gint e = wg_get_field(db, rec[r], f); int ty = wg_get_field_type(db, rec[r], f); if (f >= nv[r]) { sym_assert(e == 0 && ty == WG_NULLTYPE, "a field that was never set has a value"); if (f > nv[r] + 3 && f < len[r] - 3) f = len[r] - 4; continue; } V v = val[r][f]; char b[128];
    switch (v.t) { case 0: sym_assert(ty == WG_INTTYPE && wg_decode_int(db, e) == v.i, "an integer field changed"); break; case 1: sym_assert(ty == WG_DOUBLETYPE && wg_decode_double(db, e) == (double)v.i * 0.5, "a real field changed"); break;
      case 2: text(b, v.s); sym_assert(ty == WG_STRTYPE && !strcmp(wg_decode_str(db, e), b), "a string field changed"); { char *l = wg_decode_str_lang(db, e); sym_assert(v.x ? l && !strcmp(l, "et") : !l || !*l, "the language of a string field changed"); } break;
      case 3: text(b, v.s); sym_assert(ty == WG_URITYPE && !strcmp(wg_decode_uri(db, e), b), "a URI field changed"); { char *l = wg_decode_uri_prefix(db, e); sym_assert(v.x ? l && !strcmp(l, "http://some.prefix.example.org/of/uris#") : !l || !*l, "the prefix of a URI field changed"); } break;
      case 4: text(b, v.s); sym_assert(ty == WG_BLOBTYPE && wg_decode_blob_len(db, e) == (int)strlen(b) && !memcmp(wg_decode_blob(db, e), b, strlen(b)), "a blob field changed"); break;
      default: sym_assert(ty == WG_RECORDTYPE && wg_decode_record(db, e) == rec[v.s], "a record field changed"); } } }
static void all(void) { int nl = 0, nr = 0; for (int i = 0; i < n; i++) if (live[i]) { nl++; nr += raw[i] ? 1 : 1; chk(i); }
  for (int w = 0; w < 2; w++) { char seen[MAXR]; memset(seen, 0, MAXR); int c = 0; void *r = w ? wg_get_first_raw_record(db) : wg_get_first_record(db); while (r) { int s = -1; for (int i = 0; i < n; i++) if (live[i] && rec[i] == r) s = i; sym_assert(s >= 0, "a scan visits something that is not a record"); sym_assert(!seen[s], "a scan visits a record twice"); seen[s] = 1; c++; r = w ? wg_get_next_raw_record(db, r) : wg_get_next_record(db, r); } sym_assert(c == nl, "a scan misses a record"); } }
static int make(int l, int israw, int nset, V *v) { void *r = israw ? wg_create_raw_record(db, l) : wg_create_record(db, l); sym_assert(r != NULL, "no record can be created"); gint o = ptrtooffset(db, r); for (int i = 0; i < n; i++) if (live[i]) sym_assert(o + (l + RECORD_HEADER_GINTS) * 8 <= off[i] || off[i] + (len[i] + RECORD_HEADER_GINTS) * 8 <= o, "two records overlap"); rec[n] = r; off[n] = o; len[n] = l; live[n] = 1; raw[n] = israw; nv[n] = nset; n++; for (int f = 0; f < nset; f++) setf(n - 1, f, v[f]); return n - 1; }
static void del(int i) { sym_assert(wg_delete_record(db, rec[i]) == 0, "deleting a record fails"); live[i] = 0; }
void sym_main(void) {
  db = wg_attach_local_database(4000000); if (!db) sym_fail("no db"); dbmemsegh(db)->strhash_area_header.arraylength = 1; int nb = sym_param(0, 4), ops = sym_param(1, 2), ss = sym_param(2, 0); kinds = sym_param(3, 0); int churn = sym_param(4, 0); static const int S[4][4] = {{1, 2, 3, 5}, {3, 60, 61, 5}, {4, 500, 900, 3}, {1, 3, 4, 130}};
  for (int i = 0; i < nb; i++) { int l = S[ss][i % 4]; V v[8]; int m = l < 3 ? l : 3; for (int f = 0; f < m; f++) { v[f].t = kinds == 0 ? (i + f) % 2 : kinds == 1 ? 2 + (i + f) % 3 : f == 1 && i > 0 ? 5 : (i + f) % 5; v[f].i = i == 0 && f == 0 ? (int64_t)1 << 40 : (int64_t)(i * 7919 + f) << (f * 20); if (v[f].t == 1) v[f].i = i * 10 + f; v[f].s = v[f].t == 5 ? i - 1 : (i * 3 + f) % 3; v[f].x = (i + f) & 1; if (v[f].t == 4) { v[f].x = 0; } } make(l, i % 3 == 2, m, v); }
  all(); if (churn) for (int i = nb - 1; i >= 0; i--) if (churn == 1 ? i % 2 : churn == 2 ? i > 1 : (i * 5) % 7 < 4) del(i); if (churn) all();
  for (int o = 0; o < ops; o++) { int k = sym_choose("op", 2), nl = 0, L[MAXR]; for (int i = 0; i < n; i++) if (live[i]) L[nl++] = i;
    if (k == 0) { int l = S[ss][o ? sym_choose("len", 2) * 2 : sym_choose("len", 4)]; V v[8]; int m = l < 2 ? l : 2; for (int f = 0; f < m; f++) { v[f].t = kinds == 0 ? (int)sym_choose("kind", 2) : kinds == 1 ? f ? 2 + (v[0].t - 1) % 3 : 2 + (int)sym_choose("kind", 3) : f == 0 ? 5 : 2; if (v[f].t == 5 && !nl) v[f].t = 0; v[f].i = v[f].t == 0 ? (o ? 0 : f ? (int64_t)0x123456789abcdefLL : (int64_t)sym_bits("v", 64)) : 77 * (f + 1); v[f].x = v[f].t == 2 && f; v[f].s = v[f].t == 5 ? L[sym_choose("to", nl)] : v[f].t >= 2 ? f ? 1 : (int)sym_choose("s", 3) : 0; } make(l, sym_choose("raw", 2), m, v); sym_cover(1); }
    else { if (!nl) sym_end_path(); int i = L[sym_choose("d", nl)]; for (int r = 0; r < n; r++) if (live[r]) for (int f = 0; f < nv[r]; f++) if (val[r][f].t == 5 && val[r][f].s == i) sym_end_path(); del(i); sym_cover(2); }
    all(); }
  sym_cover(0);
}
