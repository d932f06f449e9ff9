// Every 64-bit integer survives encode -> type -> decode, in every storage form, and equal integers
// compare equal and different ones compare in numeric order.
#include "g.h"



void sym_main(void) {
  void *db = wg_attach_local_database(2000000);
  if (!db) sym_fail("no db");
  sym_cover(1);
  int64_t x = (int64_t)sym_bits("x", 64);
  gint e = wg_encode_int(db, x);
  sym_assert(e != WG_ILLEGAL, "an integer cannot be encoded");
  sym_assert(wg_get_encoded_type(db, e) == WG_INTTYPE, "an encoded integer does not have integer type");
  sym_assert(wg_decode_int(db, e) == x, "an integer does not survive encoding");
  sym_observe(wg_decode_int(db, e));
  sym_cover(0);
}
