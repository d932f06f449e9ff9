// Encode, type and decode for every scalar type.  param 0: type
#include "g.h"
static void *db;
void sym_main(void) {
  db = wg_attach_local_database(2000000); if (!db) sym_fail("no db"); int k = sym_param(0, 0);
  if (k == 0) { uint64_t b = sym_bits("double", 64); double d; memcpy(&d, &b, 8); gint e = wg_encode_double(db, d); sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_DOUBLETYPE, "a double gets a wrong type");
    double r = wg_decode_double(db, e); uint64_t c; memcpy(&c, &r, 8); sym_assert(c == b, "a double does not survive encoding"); sym_observe(c); }
  else if (k == 1) { unsigned char c = (unsigned char)sym_bits("char", 8); gint e = wg_encode_char(db, (char)c); sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_CHARTYPE, "a char gets a wrong type"); unsigned char r = (unsigned char)wg_decode_char(db, e); sym_assert(r == c, "a char does not survive encoding"); sym_observe(r); }
  else if (k == 2) { int d = (int)sym_bits("date", 32); gint e = wg_encode_date(db, d); if (d >= -128*255*255 && d <= 128*255*255) { sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_DATETYPE, "a date gets a wrong type"); sym_assert(wg_decode_date(db, e) == d, "a date does not survive encoding"); sym_cover(1); } sym_observe(e); }
  else if (k == 3) { int d = (int)sym_bits("time", 32); gint e = wg_encode_time(db, d); if (d >= 0 && d <= 8640000) { sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_TIMETYPE, "a time gets a wrong type"); sym_assert(wg_decode_time(db, e) == d, "a time does not survive encoding"); sym_cover(1); } sym_observe(e); }
  else if (k == 4) { // fixpoint: every multiple of 1/10000 survives exactly; numbers beyond +-800 are refused
    int blk = sym_choose("block", 26); int64_t C[80]; int nc = 0; for (int i = 0; i < 80; i++) { int64_t x = blk == 0 ? i - 40 : blk == 1 ? 8000000 - i : blk == 2 ? -8000000 + i : blk == 3 ? (i - 40) * 10000 : blk < 16 ? (1 << (blk + 6)) - 40 + i : -(1 << (blk - 4)) - 40 + i; if (x >= -8000000 && x <= 8000000) C[nc++] = x; } int n = (int)sym_pick("n", C, nc); double d = (double)n / 10000.0; gint e = wg_encode_fixpoint(db, d); sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_FIXPOINTTYPE, "a fixpoint number gets a wrong type");
    double r = wg_decode_fixpoint(db, e); sym_assert(r == d, "a fixpoint number does not survive encoding"); }
  else if (k == 6) { int64_t v = (int64_t)sym_bits("var", 64); gint e = wg_encode_var(db, v); if (v >= 0 && v < ((int64_t)1 << 59)) { sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_VARTYPE && wg_decode_var(db, e) == v, "a variable does not survive encoding"); sym_cover(1); } sym_observe(e); }
  else if (k == 7) { void *r[3]; for (int i = 0; i < 3; i++) { r[i] = wg_create_record(db, 1 + i); gint e = wg_encode_record(db, r[i]); sym_assert(e != WG_ILLEGAL && wg_get_encoded_type(db, e) == WG_RECORDTYPE && wg_decode_record(db, e) == r[i], "a record reference does not survive encoding"); } sym_assert(wg_encode_null(db, NULL) == 0 && wg_get_encoded_type(db, 0) == WG_NULLTYPE && wg_decode_null(db, 0) == NULL, "null does not survive encoding"); }
  else if (k == 8) { int64_t x = (int64_t)sym_bits("x", 64), y = (int64_t)sym_bits("y", 64); gint a = wg_encode_int(db, x), b = wg_encode_int(db, y); sym_assert(wg_decode_int(db, a) == x && wg_decode_int(db, b) == y, "an integer is changed by encoding another one"); 
    uint64_t q = sym_bits("d", 64); double d; memcpy(&d, &q, 8); gint c = wg_encode_double(db, d); wg_free_encoded(db, a); gint e = wg_encode_int(db, y); sym_assert(wg_decode_int(db, b) == y && wg_decode_int(db, e) == y, "an integer is changed by freeing another one"); double r = wg_decode_double(db, c); uint64_t w; memcpy(&w, &r, 8); sym_assert(w == q, "a double is changed by freeing an integer"); }
  sym_cover(0);
}
