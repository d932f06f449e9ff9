// $less/$lesseq/$greater/$greatereq (and equality of numbers) against the mathematical order.
// param 0: operand kinds (0 int,int  1 real,real  2 int,real  3 real,int)
#include "terms.h"
#include <math.h>
void sym_main(void) {
  t_init(3000000);
  int kind = sym_param(0, 0);
  int64_t ai = 0, bi = 0; double ad = 0, bd = 0; gint x, y;
  int aint = kind == 0 || kind == 2, bint = kind == 0 || kind == 3;
  uint64_t u;
  if (aint) { ai = kind == 0 ? (int64_t)sym_bits("a", 64) : sym_range("a", -(1L << 53), 1L << 53); ad = (double)ai; x = wg_encode_int(t_db, ai); }
  else { u = sym_bits("a", 64); memcpy(&ad, &u, 8); sym_assume(isfinite(ad)); x = wg_encode_double(t_db, ad); }
  if (bint) { bi = kind == 0 ? (int64_t)sym_bits("b", 64) : sym_range("b", -(1L << 53), 1L << 53); bd = (double)bi; y = wg_encode_int(t_db, bi); }
  else { u = sym_bits("b", 64); memcpy(&bd, &u, 8); sym_assume(isfinite(bd)); y = wg_encode_double(t_db, bd); }
  int lt = kind == 0 ? ai < bi : ad < bd, eq = kind == 0 ? ai == bi : ad == bd;
  static char *OPS[] = {"$less", "$lesseq", "$greater", "$greatereq"};
  int op = sym_choose("op", 4);
  gint r = t_eval(t_app2(OPS[op], x, y));
  int want = op == 0 ? lt : op == 1 ? lt | eq : op == 2 ? !lt & !eq : !lt;
  if (r == ACONST_TRUE) { sym_assert(want, "a comparison of numbers is evaluated to true although it is false"); sym_cover(0); }
  else if (r == ACONST_FALSE) { sym_assert(!want, "a comparison of numbers is evaluated to false although it is true"); sym_cover(1); }
  else sym_fail("a comparison of two numbers is left unevaluated");
  sym_observe(r);
  if (kind < 2) {                 // = on two integers or two reals
    gint e = t_eval(t_app2("=", x, y));
    if (kind == 0) sym_assert(e == (eq ? ACONST_TRUE : ACONST_FALSE), "equality of two integers is evaluated wrongly");
    else { if (e == ACONST_TRUE) sym_assert(eq, "different reals are evaluated to be equal"); else sym_assert(e == ACONST_FALSE, "equality of two reals is left unevaluated"); }
  }
}
