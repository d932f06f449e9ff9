// Numeric tokens of the text and JSON syntaxes: digits are symbolic.
// params 0: 0 logic text 1 JSON, 1/2: fewest and most digits, 3: 0 integers 1 reals (digits before the point 1/2, after it 4), 5: digits of the exponent, 6: 1 = fixed leading digits
#include "terms.h"
#include "Builtparser/jsparse.h"
static const char *TEXT[] = {"p(~)|q.", "p(~).", "r. p(f(b,~,1)) | q.", "cnf(c,axiom,(p(~)|q)).", "fof(c,axiom,(p(~)|q)).", "q <= p(f(~)).", "a=~."};
static const char *JSON[] = {"[[\"p\",~],\"|\",[\"q\"]]", "[[[\"p\",~]]]", "[[[\"p\",[\"f\",\"b\",~,1]],[\"q\"]]]", "{\"@logic\":[[\"p\",~],\"or\",\"q\"]}", "[[\"a\",\"=\",~]]"};
static char tok[64]; static int tlen, real; static double dval; static int ncalls;
static char isnum(char c) { return (c >= '0' && c <= '9') || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-'; }
// what the C library makes of the token is some number; of anything else, a number that is not it
double strtod(const char *s, char **e) {
  int n = 0, same = 1; while (isnum(s[n])) n++;
  if (e) *e = (char *)s + n; ncalls++;
  if (n != tlen) return 777.25; for (int i = 0; i < n; i++) same &= s[i] == tok[i];
  return same ? dval : 777.25;
}
double atof(const char *s) { return strtod(s, NULL); }
static void digits(const char *nm, char *w, int n) { for (int i = 0; i < n; i++) { unsigned d = (unsigned)sym_bits(nm, 4); sym_assume(d <= 9); w[i] = (char)(0x30 | d); } }
static const char *PRE[] = {"", "0", "429496", "2147483", "1234567890123", "9223372036854775", "9223372036854774", "9999999999999999", "18446744073709551", "92233720368547758", "00000000000000000000", "100000000000000000000000000000000000000"};
static gint found; static int nfound;
static void look(gint t) {
  if (isdatarec(t)) { gptr r = rotp(g, t); int n = get_record_len(r); for (int i = 0; i < n; i++) if (i >= g->unify_firstuseterm) look(r[RECORD_HEADER_GINTS + i]); return; }
  gint ty = wg_get_encoded_type(t_db, t); if (ty == WG_INTTYPE && wg_decode_int(t_db, t) == 1 && !real && nfound) return; // the pattern's own 1
  if (ty == WG_INTTYPE || ty == WG_DOUBLETYPE || ty == WG_STRTYPE || ty == WG_DATETYPE || ty == WG_TIMETYPE || ty == WG_CHARTYPE || ty == WG_FIXPOINTTYPE) { if (!nfound) found = t; nfound++; }
}
static void left(int c) { sym_fail("import of a number ended the process"); }
void sym_main(void) {
  int js = (int)sym_param(0, 0), lo = (int)sym_param(1, 1), hi = (int)sym_param(2, 1); real = (int)sym_param(3, 0); int fd = (int)sym_param(4, 1), ex = (int)sym_param(5, 0), pl = (int)sym_param(6, 0);
  t_init(6000000); dbmemsegh(t_db)->strhash_area_header.arraylength = 1;
  int n = lo + (hi > lo ? sym_choose("digits", hi - lo + 1) : 0), neg = js ? sym_choose("sign", 2) : 0, k = 0;
  if (neg) tok[k++] = '-';
  int d0 = k; const char *pre = pl ? PRE[1 + sym_choose("prefix", 11)] : ""; if (js && *pre == '0') sym_end_path(); strcpy(tok + k, pre); k += (int)strlen(pre);
  char *w = tok + k; digits("digit", w, n); k += n; n += (int)strlen(pre);
  if (js && n > 1) sym_assume(tok[d0] != '0');
  if (real) { if (fd) { tok[k++] = '.'; w = tok + k; digits("fraction", w, fd); k += fd; }
    if (ex) { tok[k++] = "eE"[sym_choose("e", 2)]; int sg = sym_choose("exponent sign", 3); if (sg) tok[k++] = "+-"[sg - 1]; w = tok + k; digits("exponent", w, ex); k += ex; }
    uint64_t b = sym_bits("value", 64); sym_assume((b >> 52 & 2047) != 2047); memcpy(&dval, &b, 8); }
  tlen = k;
  const char *t = js ? JSON[sym_choose("text", 5)] : TEXT[sym_choose("text", 7)]; char *b = malloc(strlen(t) + 80), *d = b;
  for (; *t; t++) if (*t == '~') { memcpy(d, tok, tlen); d += tlen; } else *d++ = *t; *d = 0;
  // the value of the digits
  uint64_t v = 0, top = INT64_MAX; int over = 0; for (int i = d0; i < d0 + n; i++) { unsigned x = tok[i] & 15; over |= v > (uint64_t)INT64_MAX / 10 | (v == (uint64_t)INT64_MAX / 10 & x > 7 + neg); v = v * 10 + x; }
  int fits = !over & (v <= top), min = !over & neg & (v == top + 1);
  sym_on_exit(left); sym_must_terminate(200000000);
  sym_capture(1); cvec c = wr_cvec_new(g, 200); int ai = 0, r; t_ncl = 0;
  if (getenv("SHOW")) puts(b);
  if (js) r = wr_import_js_file(g, "string", b, c, 0, 0, &ai, 0); else r = wr_import_otter_file(g, "dir/string", b, c, 0);
  sym_capture(0);
  if (r) { sym_assert(real ? 0 : !fits, "a number that can be represented is rejected"); sym_cover(1); return; }
  for (gint i = 2; i < c[1]; i++) { gptr cl = (gptr)c[i];
    if (wg_rec_is_rule_clause(t_db, cl)) for (int a = 0; a < wg_count_clause_atoms(t_db, cl); a++) look(wg_get_rule_clause_atom(t_db, cl, a)); else look(encode_record(t_db, cl)); }
  if (!nfound) { sym_assert(g->parse_errmsg != NULL, "a number disappears without an error message"); sym_assert(real ? 0 : !fits, "a number that can be represented is rejected"); sym_cover(1); return; }
  gint ty = wg_get_encoded_type(t_db, found);
  if (real) { sym_assert(ty == WG_DOUBLETYPE, "a real is not read as a real"); double x = wg_decode_double(t_db, found); uint64_t xb, vb; memcpy(&xb, &x, 8); memcpy(&vb, &dval, 8); sym_assert(xb == vb, "a real token is read as another number"); }
  else { sym_assert(fits | min, "an integer that does not fit is accepted"); sym_assert(ty == WG_INTTYPE, "an integer is not read as an integer"); uint64_t m = v; if (neg) m = -m; sym_assert((uint64_t)wg_decode_int(t_db, found) == m, "an integer token is read as another number"); }
  sym_cover(0);
}
