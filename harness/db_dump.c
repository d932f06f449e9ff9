// Dumping and loading a database.  params: 0 mode (0 there and back, 1 truncated, 2 altered, 3 altered near the end, 4 while another process writes), 1 rows, 2 value kinds, 3 size of the other database, 4 preemptions
#include "g.h"
gint wg_dump(void *, char *); gint wg_import_dump(void *, char *); gint wg_check_dump(void *, char *, gint *, gint *);
static void *db; static int rows; static const char *T[] = {"short", "a string that is clearly longer than any inline form", "another string, also too long to be stored inside a field, and longer", ""};
static int64_t num; static int ch, kinds;
static int k_of(int i, int f) { return kinds == 0 ? (i + f) % 3 : kinds == 1 ? 2 + (i + f) % 4 : (i + 2 * f) % 9; }
static gint val(void *d, int i, int f, void *prev) { switch (k_of(i, f)) { case 0: return wg_encode_int(d, i == 0 ? num : (int64_t)i * 7919 + f); case 1: return wg_encode_double(d, (i * 3 + f) * 0.5); case 2: return wg_encode_str(d, (char *)T[(i + f) % 4], f & 1 ? "et" : NULL);
    case 3: return wg_encode_uri(d, (char *)T[1 + (i + f) % 2], f & 1 ? "http://some.prefix.example.org/of/uris#" : NULL); case 4: return wg_encode_blob(d, (char *)T[1], NULL, 20 + i % 20); case 5: return wg_encode_char(d, (char)(i ? 65 + i % 26 : ch)); case 6: return wg_encode_date(d, 700000 + i); case 7: return wg_encode_time(d, 1000 * i + f); default: return prev ? wg_encode_record(d, prev) : wg_encode_null(d, NULL); } }
static gint at[400];
static void fill(void *d, int from, int to) { void *prev = NULL; for (int i = from; i < to; i++) { int l = 1 + i % 5; void *r = i % 4 == 3 ? wg_create_raw_record(d, l) : wg_create_record(d, l); sym_assert(r != NULL, "no record"); if (d == db) at[i] = ptrtooffset(d, r); for (int f = 0; f < l; f++) { gint e = val(d, i, f, prev); sym_assert(e != WG_ILLEGAL, "a value cannot be encoded"); wg_set_new_field(d, r, f, e); } prev = r; } }
static int same(void *d, gint e, int i, int f, void *prev) { int ty = wg_get_encoded_type(d, e); switch (k_of(i, f)) { case 0: return ty == WG_INTTYPE && wg_decode_int(d, e) == (i == 0 ? num : (int64_t)i * 7919 + f); case 1: return ty == WG_DOUBLETYPE && wg_decode_double(d, e) == (i * 3 + f) * 0.5;
    case 2: { char *l = wg_decode_str_lang(d, e); return ty == WG_STRTYPE && !strcmp(wg_decode_str(d, e), T[(i + f) % 4]) && (f & 1 ? l && !strcmp(l, "et") : !l || !*l); } case 3: { char *l = wg_decode_uri_prefix(d, e); return ty == WG_URITYPE && !strcmp(wg_decode_uri(d, e), T[1 + (i + f) % 2]) && (f & 1 ? l && !strcmp(l, "http://some.prefix.example.org/of/uris#") : !l || !*l); }
    case 4: return ty == WG_BLOBTYPE && wg_decode_blob_len(d, e) == 20 + i % 20 && !memcmp(wg_decode_blob(d, e), T[1], 20 + i % 20); case 5: return ty == WG_CHARTYPE && (unsigned char)wg_decode_char(d, e) == (unsigned char)(i ? 65 + i % 26 : ch); case 6: return ty == WG_DATETYPE && wg_decode_date(d, e) == 700000 + i; case 7: return ty == WG_TIMETYPE && wg_decode_time(d, e) == 1000 * i + f;
    default: return prev ? ty == WG_RECORDTYPE && wg_decode_record(d, e) == prev : ty == WG_NULLTYPE; } }
static void holds(void *d, int from, int n) { int c = 0; void *r = wg_get_first_raw_record(d), *prev = NULL; while (r) { c++; r = wg_get_next_raw_record(d, r); } sym_assert(c == n - from, "there are more or fewer records than before");
  for (int i = from; i < n; i++) { r = offsettoptr(d, at[i]); int l = 1 + i % 5; sym_assert(wg_get_record_len(d, r) == l, "a record has another length"); for (int f = 0; f < l; f++) sym_assert(same(d, wg_get_field(d, r, f), i, f, prev), "a field has another value"); prev = r; } }
static gint total; static void writer(void *a) { (void)a; gint l = wg_start_write(db); if (l) { void *r = wg_create_record(db, 3); wg_set_new_field(db, r, 0, wg_encode_int(db, 12345)); sym_yield(); for (int i = 0; i < 30; i++) { r = wg_create_record(db, 200); sym_assert(r != NULL, "no record"); wg_set_new_field(db, r, 199, wg_encode_str(db, (char *)T[1], NULL)); if (i % 8 == 7) sym_yield(); } total = 31; wg_end_write(db, l); } }
static gint dres = 99; static void dumper(void *a) { (void)a; dres = wg_dump(db, "a.dmp"); }
long syscall(long nr_, ...) { __builtin_va_list ap; __builtin_va_start(ap, nr_); int *addr = __builtin_va_arg(ap, int *); int op = __builtin_va_arg(ap, int); int val_ = __builtin_va_arg(ap, int); __builtin_va_end(ap); if ((op & 127) == 1) return 0; for (;;) { if (*(volatile int *)addr != val_) return 0; sym_spin(); } }
void sym_main(void) {
  int mode = sym_param(0, 0); rows = sym_param(1, 10); kinds = sym_param(2, 0); int64_t other = sym_param(3, 2000000); db = wg_attach_local_database(2000000); if (!db) sym_fail("no db"); dbmemsegh(db)->strhash_area_header.arraylength = 1; gint mn = -1, mx = -1; uint64_t n; char *b;
  num = (int64_t)1 << 62; ch = 66; fill(db, 0, rows); gint *full = NULL; if (mode == 0 && sym_param(4, 0) == 3) { sym_assert(wg_create_index(db, 0, WG_INDEX_TYPE_TTREE, NULL, 0) == 0, "no index"); void *g[20]; for (int i = 0; i < 20; i++) { g[i] = wg_create_raw_record(db, 3 + i % 4); wg_set_new_field(db, g[i], 0, wg_encode_int(db, 100 + i)); wg_index_add_rec(db, g[i]); } for (int i = 0; i < 20; i += 1) sym_assert(wg_delete_record(db, g[i]) == 0, "deleting fails"); }
  void *r0 = wg_get_first_raw_record(db); for (int f = 0; r0 && f < 1; f++) if (k_of(0, f) == 0) full = (gint *)offsettoptr(db, decode_fullint_offset(wg_get_field(db, r0, f)));
  if (mode == 4) { gint f0 = dbmemsegh(db)->free; (void)f0; sym_spawn(dumper, NULL); sym_spawn(writer, NULL); sym_run_threads(sym_param(4, 2)); sym_assert(dres == 0, "dumping fails"); sym_assert(wg_check_dump(db, "a.dmp", &mn, &mx) == 0, "a dump made while another process writes is damaged");
    void *d2 = wg_attach_local_database(2000000); sym_assert(wg_import_dump(d2, "a.dmp") == 0, "a dump cannot be loaded"); int c = 0; void *r = wg_get_first_raw_record(d2); while (r) { c++; r = wg_get_next_raw_record(d2, r); } sym_assert(c == rows || c == rows + 31, "a dump holds half of what another process wrote"); sym_cover(c == rows ? 0 : 1);
    r = wg_get_first_raw_record(d2); while (r) { if (wg_get_record_len(d2, r) == 200) { sym_assert(wg_get_field_type(d2, r, 199) == WG_STRTYPE && !strcmp(wg_decode_str(d2, wg_get_field(d2, r, 199)), T[1]), "a field has another value"); } r = wg_get_next_raw_record(d2, r); } return; }
  sym_assert(wg_dump(db, "a.dmp") == 0, "dumping fails"); b = sym_file_get("a.dmp", &n); sym_assert(b != NULL && (gint)n == dbmemsegh(db)->free, "a dump has another size"); if (mode) { static char x[64]; sprintf(x, "size %ld", (long)n); }
  if (mode == 0) { sym_assert(!memcmp(b + sizeof(db_memsegment_header), (char *)dbmemseg(db) + sizeof(db_memsegment_header), 4000), "a dump has other bytes"); holds(db, 0, rows);
    if (kinds == 1) { sym_assert(wg_check_dump(db, "a.dmp", &mn, &mx) == 0, "a good dump is refused"); sym_assert(mn == (gint)n && mx == dbmemsegh(db)->size, "sizes"); }
    if (full) { num = (int64_t)sym_bits("num", 64); memcpy(b + ((char *)full - (char *)dbmemseg(db)), &num, 8); sym_file("a.dmp", b, n); }
    if (!other) other = dbmemsegh(db)->free + 8 * (sym_choose("slack", 3) - 1);
    void *d2 = wg_attach_local_database(other); if (!d2) sym_fail("no db"); gint s2 = dbmemsegh(d2)->size; if (sym_choose("used", 2)) fill(d2, 3, 9);
    gint r = wg_import_dump(d2, "a.dmp"); if (dbmemsegh(db)->free > s2) { sym_assert(r != 0, "a dump that does not fit is loaded"); sym_cover(1); return; }
    sym_assert(r == 0, "a dump cannot be loaded"); sym_assert(dbmemsegh(d2)->size == s2, "the size of the segment changed"); holds(d2, 0, rows); gint l = wg_start_write(d2); sym_assert(l != 0, "the loaded database cannot be locked"); wg_end_write(d2, l);
    if (sym_param(4, 0) == 3) { void *x = wg_create_raw_record(d2, 2); sym_assert(x != NULL, "no record"); wg_set_new_field(d2, x, 0, wg_encode_int(d2, 777)); sym_assert(wg_index_add_rec(d2, x) == 0, "the loaded index cannot be used"); sym_assert(wg_find_record_int(d2, 0, WG_COND_EQUAL, 777, NULL) == x, "the loaded index does not find a row"); sym_assert(wg_find_record_int(d2, 0, WG_COND_EQUAL, 103, NULL) == NULL, "the loaded index finds a deleted row"); wg_delete_record(d2, x); }
    if (!sym_param(3, 1)) { sym_cover(0); return; } void *q = wg_create_record(d2, 3); sym_assert(q != NULL, "no record can be created after loading"); sym_assert(wg_delete_record(d2, q) == 0, "deleting fails"); holds(d2, 0, rows); fill(d2, 0, 3); sym_cover(0); return; }
  if (mode == 1) { static const int H = sizeof(db_memsegment_header); int64_t cuts[] = {0, 1, 23, 24, H - 1, H, 4096, 8191, 8192, 8193, 16383, 16384, (int64_t)n / 2, (int64_t)n - 8, (int64_t)n - 1}; int k = sym_choose("cut", 15); sym_file("a.dmp", b, cuts[k]); sym_assert(wg_check_dump(db, "a.dmp", &mn, &mx) != 0, "a truncated dump is accepted"); void *d2 = wg_attach_local_database(other); sym_assert(wg_import_dump(d2, "a.dmp") != 0, "a truncated dump is loaded"); if (sym_choose("longer", 2)) { char *c = malloc(n + 9000); memcpy(c, b, n); memset(c + n, 0, 9000); static const int L[3] = {1, 8, 9000}; sym_file("b.dmp", c, n + L[sym_choose("more", 3)]); sym_assert(wg_check_dump(db, "b.dmp", &mn, &mx) != 0, "a dump with something appended is accepted"); } sym_cover(0); return; }
  if (mode == 2) { int64_t pos = sym_choose("where", 24); pos = pos < 10 ? pos * 4 + 1 : pos < 16 ? sizeof(db_memsegment_header) - 3 + pos : pos < 19 ? 8190 + (pos - 16) : pos < 22 ? (int64_t)n - (pos - 18) : (pos - 21) * (int64_t)n / 3; static const unsigned char M[3] = {1, 0x80, 0xff}; b[pos] ^= M[sym_choose("mask", 3)]; sym_file("a.dmp", b, n); sym_assert(wg_check_dump(db, "a.dmp", &mn, &mx) != 0, "an altered dump is accepted"); sym_cover(0); return; }
  if (mode == 3) { int back = 1 + sym_choose("back", (int)sym_param(4, 3)); uint8_t v = sym_bits("byte", 8), o = b[n - back]; sym_assume(v != o); b[n - back] = v; sym_file("a.dmp", b, n); sym_assert(wg_check_dump(db, "a.dmp", &mn, &mx) != 0, "an altered dump is accepted"); sym_cover(0); }
}
