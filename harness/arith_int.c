// Evaluation of the integer functions on symbolic integers, against exact integer arithmetic.
// param 0: operator; param 1: operand shape
#include "terms.h"
static const char *OPS[] = {"$sum", "$difference", "$product", "$quotient", "$quotient_e", "$quotient_t", "$quotient_f", "$remainder_e", "$remainder_t", "$remainder_f", "$uminus", "+", "-", "*", "/", "$remainder"};
void sym_main(void) {
  t_init(3000000);
  int op = sym_param(0, 0), shape = sym_param(1, 0);
  int64_t a, b;
  if (shape == 0) { a = sym_bits("a", 64); b = sym_bits("b", 64); }
  else if (shape == 1) { a = sym_range("a", -2048, 2047); b = sym_range("b", -63, 63); }
  else if (shape == 2) { static const int64_t B[] = {0, 1, -1, 2, -2, INT64_MIN, 1L << 31, -(1L << 31)};
    a = sym_bits("a", 64); b = B[sym_choose("b", 8)]; }
  else if (shape == 4) { static const int64_t A[] = {INT64_MIN, INT64_MAX - 1023, 9007199254740992L - 512, -9007199254740992L - 512, 1L << 62, (1L << 31) - 512, (1L << 61) - 512, -(1L << 61) - 512};
    static const int64_t B[] = {3, -3, 7, -7, 10, -10, INT64_MAX, -INT64_MAX, 4294967297L, -4294967297L, 9007199254740993L, -9007199254740993L};
    a = A[sym_choose("a", 8)] + sym_bits("a", 10); b = B[sym_choose("b", 12)]; }
  else { static const int64_t A[] = {INT64_MIN, INT64_MAX, INT64_MIN + 1, (1L << 53) + 1, -(1L << 53) - 1, 1L << 62, INT64_MAX - 1, 9007199254740995L};
    a = A[sym_choose("a", 8)]; b = sym_range("b", -300, 300); }
  if (sym_choose("swap", shape == 3 || op == 2 || op == 13 ? 2 : 1)) { int64_t t = a; a = b; b = t; }
  gint x = wg_encode_int(t_db, a), y = wg_encode_int(t_db, b);
  gint t = op == 10 ? t_app1(OPS[op], x) : t_app2(OPS[op], x, y);
  gint r = t_eval(t);
  __int128 want = 0; int def = 1; __int128 A = a, B = b;
  int64_t q = 0, m = 0; int64_t mag = b < 0 ? -b : b; __int128 Q;   // truncating quotient and remainder
  if (op >= 3 && op != 10 && op < 11 || op >= 14) { if (!b) def = 0; else if (b == -1) { q = -a; m = 0; } else { q = a / b; m = a % b; } }
  Q = b == -1 ? -A : (__int128)q;
  int dn = 0; if (m && ((m < 0) != (b < 0))) dn = 1;
  switch (op) {
  case 0: case 11: want = A + B; break;
  case 1: case 12: want = A - B; break;
  case 2: case 13: want = A * B; break;
  case 10: want = -A; break;
  case 3: case 5: case 14: want = Q; break;
  case 4: want = m < 0 ? (b > 0 ? Q - 1 : Q + 1) : Q; break;
  case 6: want = dn ? Q - 1 : Q; break;
  case 7: case 15: want = m < 0 ? m + (__int128)(b < 0 ? -B : B) : m; break;
  case 8: want = m; break;
  case 9: want = dn ? (__int128)m + B : m; break;
  }
  if (t_left(r, t)) {            // left unevaluated: allowed only where there is no 64-bit value
    sym_assert(!def || want > INT64_MAX || want < INT64_MIN, "an integer operation with a representable value is left unevaluated");
    sym_cover(1);
  } else {
    sym_assert(wg_get_encoded_type(t_db, r) == WG_INTTYPE, "an integer operation gives something that is no integer");
    sym_assert(def, "division by zero got a value");
    sym_assert(wg_decode_int(t_db, r) == want, "an integer operation gives a wrong value");
    sym_observe(wg_decode_int(t_db, r));
    sym_cover(0);
  }
}
