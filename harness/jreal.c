// Real tokens of JSON input, which are printed and read again on their way into the database: which of the listed tokens, its sign, and the text around it vary.
#include "terms.h"
#include "Builtparser/jsparse.h"
static const char *JSON[] = {"[[\"p\",~],\"|\",[\"q\"]]", "[[[\"p\",~]]]", "[[[\"p\",[\"f\",\"b\",~,1]],[\"q\"]]]", "{\"@logic\":[[\"p\",~],\"or\",\"q\"]}", "[[\"a\",\"=\",~]]"};
#define T(x) {#x, x}
static const struct { const char *s; double v; } TOK[] = { T(0.0), T(1.0), T(1.5), T(0.1), T(0.0000001), T(123456789.123456789), T(1e-9), T(1E5), T(2.5e+3), T(1e100), T(1.7976931348623157e308), T(2.2250738585072014e-308), T(9007199254740993.0), T(0.30000000000000004), T(3.141592653589793), T(9223372036854775807.0), T(1e22), T(1e23), T(0.1234567890123456789012345678901234567890123456789), T(100000000000000000000000000000000000000000.0), T(4.35), T(1e0), T(12345678.0000001) };
static gint found; static int nfound;
static void look(gint t) {
  if (isdatarec(t)) { gptr r = rotp(g, t); int n = get_record_len(r); for (int i = g->unify_firstuseterm; i < n; i++) look(r[RECORD_HEADER_GINTS + i]); return; }
  gint ty = wg_get_encoded_type(t_db, t); if (ty == WG_DOUBLETYPE) { found = t; nfound++; }
}
static void left(int c) { sym_fail("import of a number ended the process"); }
void sym_main(void) {
  t_init(6000000); dbmemsegh(t_db)->strhash_area_header.arraylength = 1;
  int k = sym_choose("token", (int)(sizeof(TOK) / sizeof(*TOK))), neg = sym_choose("sign", 2); const char *t = JSON[sym_choose("text", 5)]; static char b[300]; char *d = b;
  for (; *t; t++) if (*t == '~') { if (neg) *d++ = '-'; strcpy(d, TOK[k].s); d += strlen(d); } else *d++ = *t; *d = 0;
  sym_on_exit(left); cvec c = wr_cvec_new(g, 200); int ai = 0, r; if (getenv("SHOW")) puts(b);
  r = wr_import_js_file(g, "string", b, c, 0, 0, &ai, 0); sym_assert(r == 0, "a real number that can be represented is rejected");
  for (gint i = 2; i < c[1]; i++) { gptr cl = (gptr)c[i];
    if (wg_rec_is_rule_clause(t_db, cl)) for (int a = 0; a < wg_count_clause_atoms(t_db, cl); a++) look(wg_get_rule_clause_atom(t_db, cl, a)); else look(encode_record(t_db, cl)); }
  sym_assert(nfound > 0, "a real is not read as a real");
  double x = wg_decode_double(t_db, found), v = neg ? -TOK[k].v : TOK[k].v; sym_assert(!memcmp(&x, &v, 8), "a real token is read as another number"); sym_cover(0);
}
