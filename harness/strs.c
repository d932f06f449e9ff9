// $strlen, $substr, $substrat on distinct symbols with arbitrary characters and any position.
// param 0: operation (0 strlen, 1 substr, 2 substrat), 1/2: longest lengths, 3: argument kinds
#include "terms.h"
static char *PH_A[] = {"", "Q", "QW", "QWE", "QWER"}, *PH_B[] = {"", "Z", "ZX", "ZXC", "ZXCV", "ZXCVB", "ZXCVBN"};
static gint mk(int distinct, char *ph, const char *nm, unsigned char *c, int n) {
  gint t = distinct ? t_str(ph) : t_const(n ? ph : "nonempty"); if (!n) return t;
  char *s = wg_decode_uri(t_db, t); sym_bytes(nm, c, n);
  for (int i = 0; i < n; i++) { sym_assume(c[i] != 0); s[i] = c[i]; } return t;
}
void sym_main(void) {
  t_init(3000000);
  int op = sym_param(0, 0), la = sym_choose("la", sym_param(1, 3) + 1), lb = op ? sym_choose("lb", sym_param(2, 4) + 1) : 0, kinds = sym_param(3, 3);
  unsigned char a[8], b[8];
  gint x = mk(kinds & 1, PH_A[la], "a", a, la), y = mk(kinds & 2, PH_B[lb], "b", b, lb);
  if (op == 0) {
    gint t = t_app1("$strlen", x), r = t_eval(t);
    if (kinds & 1) { sym_assert(wg_get_encoded_type(t_db, r) == WG_INTTYPE && wg_decode_int(t_db, r) == la, "$strlen is wrong"); sym_cover(0); }
    else { sym_assert(t_left(r, t), "$strlen of something that is no string got a value"); sym_cover(0); }
    return;
  }
  int64_t pos = 0; gint t, z = 0;
  if (op == 2) { pos = sym_bits("pos", 64); z = wg_encode_int(t_db, pos); t = t_app3("$substrat", x, y, z); } else t = t_app2("$substr", x, y);
  gint r = t_eval(t);
  if (kinds != 3) { sym_assert(t_left(r, t), "a substring test of something that is no string got a value"); sym_cover(0); return; }
  int want = 0;
  for (int p = 0; p + la <= lb; p++) { int m = 1; for (int i = 0; i < la; i++) m &= a[i] == b[p + i]; if (op == 2) m &= pos == p; want |= m; }
  if (r == ACONST_TRUE) { sym_assert(want, "a substring test is evaluated to true although it is false"); sym_cover(0); }
  else if (r == ACONST_FALSE) { sym_assert(!want, "a substring test is evaluated to false although it is true"); sym_cover(1); }
  else sym_fail("a substring test of two strings is left unevaluated");
  sym_observe(r);
}
