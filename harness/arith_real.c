// Real arithmetic and the conversions.  param 0: operation, param 1: operand kinds for binary ones
#include "terms.h"
#include <math.h>
static const int64_t INTS[] = {0, 1, -1, 1000, -7, (1L << 53) + 1, INT64_MIN};
static int coarse;   // so many low mantissa bits are zero
static double rdbl(const char *n) { uint64_t u = sym_bits(n, 64); if (coarse) u &= ~((1UL << coarse) - 1); double d; memcpy(&d, &u, 8); sym_assume(isfinite(d)); return d; }
static const char *OPS[] = {"$sum", "$difference", "$product", "$quotient", "$to_int", "$floor", "$ceiling", "$truncate", "$round", "$to_real", "$uminus", "$is_int", "$is_real", "$is_number", "$quotient_e", "$quotient_t", "$quotient_f"};
void sym_main(void) {
  t_init(3000000);
  int op = sym_param(0, 0), kinds = sym_param(1, 0);
  coarse = op == 3 || op >= 14 ? 40 : op == 8 ? 32 : 0; if (sym_param(2, 0)) coarse = op == 3 || op >= 8 ? 30 : 0; gint x, y = 0; double ad, bd = 0; int64_t ai = 0; int isint = kinds & 1;
  if (isint) { ai = op >= 9 && op < 14 ? (int64_t)sym_bits("a", 64) : INTS[sym_choose("ai", 7)]; ad = (double)ai; x = wg_encode_int(t_db, ai); } else { ad = rdbl("a"); x = wg_encode_double(t_db, ad); }
  int binary = op < 4 || op >= 14;
  if (op >= 14) sym_assume(fabs(ad) < 1e15 && fabs(ad) > 1e-3);
  if (binary) {
    if (kinds & 2) { int64_t bi = INTS[sym_choose("bi", op >= 14 ? 3 : 7)]; bd = (double)bi; y = wg_encode_int(t_db, bi); } else { bd = rdbl("b"); y = wg_encode_double(t_db, bd); }
    if (op == 3) { static double C[] = {0.0, -0.0, 1.0, -2.0, 0.1, 3.0, 1e300, 5e-324}; if (!(kinds & 2)) { bd = C[sym_choose("bc", 8)]; y = wg_encode_double(t_db, bd); } }
    if (op >= 14) { static double C[] = {0.0, -0.0, 1.0, -2.0, 0.5, -0.5, 8.0}; if (!(kinds & 2)) { bd = C[sym_choose("bc", 7)]; y = wg_encode_double(t_db, bd); } }
  }
  gint t = binary ? t_app2(OPS[op], x, y) : t_app1(OPS[op], x);
  gint r = t_eval(t); gint ty = wg_get_encoded_type(t_db, r);
  if (op >= 11 && op < 14) {
    int want = op == 11 ? isint : op == 12 ? !isint : 1;
    sym_assert(r == (want ? ACONST_TRUE : ACONST_FALSE), "a number type test gives a wrong answer"); sym_cover(0); return;
  }
  if (op < 4 || op == 9 || op == 10) {
    if (op == 10 && isint) { if (t_left(r, t)) sym_assert(ai == INT64_MIN, "negation left unevaluated"); else sym_assert(ty == WG_INTTYPE && wg_decode_int(t_db, r) == (int64_t)(0 - (uint64_t)ai), "integer negation is wrong"); sym_cover(0); return; }
    double want = op == 0 ? ad + bd : op == 1 ? ad - bd : op == 2 ? ad * bd : op == 3 ? ad / bd : op == 9 ? ad : -ad;
    if (t_left(r, t)) { sym_assert(!isfinite(want) || (op == 3 && bd == 0), "a real operation with a finite value is left unevaluated"); sym_cover(1); return; }
    sym_assert(ty == WG_DOUBLETYPE, "a real operation gives no real");
    double got = wg_decode_double(t_db, r);
    sym_assert(got == want, "a real operation gives a wrong value");
    uint64_t o; memcpy(&o, &got, 8); sym_observe(got == 0 ? 0 : o);
    sym_cover(0); return;
  }
  // conversions to integers, quotients of reals
  double q = ad;
  if (op >= 14) {
    if (bd == 0) { sym_assert(t_left(r, t), "division by zero got a value"); return; }
    q = ad / bd;
  }
  if (t_left(r, t)) { sym_assert(!(q > -9.2e18 && q < 9.2e18), "a conversion with a representable value is left unevaluated"); sym_cover(1); return; }
  sym_assert(ty == WG_INTTYPE, "a conversion to integer gives no integer");
  int64_t v = wg_decode_int(t_db, r); sym_observe(v);
  if (isint && op < 14) { sym_assert(v == ai, "a conversion of an integer changes it"); sym_cover(0); return; }
  double f = floor(q), c = ceil(q), want;
  switch (op) {
  case 4: case 5: case 16: want = f; break;
  case 6: want = c; break;
  case 7: case 15: want = q < 0 ? c : f; break;
  case 14: want = bd > 0 ? f : c; break;
  default:
    sym_assert((double)v == f || (double)v == c, "rounding goes past a neighbouring integer");
    if (f != c && q - f < c - q) sym_assert((double)v == f, "rounding goes the wrong way");
    if (f != c && q - f > c - q) sym_assert((double)v == c, "rounding goes the wrong way");
    sym_cover(0); return;
  }
  sym_assert((double)v == want, "a conversion to integer gives a wrong value"); sym_cover(0);
}
