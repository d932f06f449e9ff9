// Clauses printed in the plain or JSON syntax and read again: some bytes of a name, string, number or variable are arbitrary.
// params 0: pattern (or first), 1: last pattern, 2: arbitrary bytes, 3: 0 text in, printed as text; 1 text in, printed as TPTP; 2 JSON in, printed as JSON; 3 text in, printed as JSON, 4: what precedes the arbitrary bytes
#include "terms.h"
#include "Builtparser/jsparse.h"
int wr_strprint_clause(glb *g, gptr rec, char **buf, int *len, int pos);
static const char *TEXT[] = {"p('~')|q(b).", "'~'(a)|q(b).", "p(\"~\",c).", "p(~)|q(b).", "p(f('~',X),X)|-p(X).", "'~'|q(b).", "a='~'|q(b).", "'~'(c)!=X|q(X,Y).", "-'~'(X,\"a b\").", "p('~'(c))|-q(X).", "p(g(\"~\")).", "q(X~,X).", "p(~).", "q(~(X),~)|-~."};
static const char *JSON[] = {"[[[\"p\",\"~\"],[\"q\",\"b\"]]]", "[[[\"~\",\"a\"],[\"q\",\"b\"]]]", "[[[\"p\",\"#:~\"],[\"q\",\"?:X\"]]]", "[[[\"p\",[\"f\",\"~\",\"?:X\"],\"?:X\"],[\"-p\",\"?:X\"]]]", "[[\"a\",\"=\",\"~\"]]", "[[[\"-~\",\"?:X\",\"b\"]]]", "[[[\"p\",[\"~\",\"b\"]]]]", "[[[\"q\",\"?:X~\",\"?:X\"]]]", "[[[\"p\",~,[\"f\",\"b\"]]]]"};
static const char *BEFORE[] = {"", "a", "A", "1", "b", "ab ", "?:", "#:", "http://", "-", "\\", "'", "\\\"", "0"};
static int va[20], vb[20], nv;
static int same(gint a, gint b) {
  if (isdatarec(a) != isdatarec(b)) return 0;
  if (isdatarec(a)) { gptr x = rotp(g, a), y = rotp(g, b); int n = get_record_len(x); if (get_record_len(y) != n) return 0; for (int i = g->unify_firstuseterm; i < n; i++) if (!same(x[RECORD_HEADER_GINTS + i], y[RECORD_HEADER_GINTS + i])) return 0; return 1; }
  gint ty = wg_get_encoded_type(t_db, a);
  if (wg_get_encoded_type(t_db, b) != ty) return 0;
  if (ty == WG_VARTYPE) { int x = (int)wg_decode_var(t_db, a), y = (int)wg_decode_var(t_db, b); for (int i = 0; i < nv; i++) if (va[i] == x || vb[i] == y) return va[i] == x && vb[i] == y; if (nv == 20) sym_fail("harness: variables"); va[nv] = x; vb[nv++] = y; return 1; }
  if (ty == WG_INTTYPE) return wg_decode_int(t_db, a) == wg_decode_int(t_db, b);
  if (ty == WG_DOUBLETYPE) return wg_decode_double(t_db, a) == wg_decode_double(t_db, b);
  if (ty == WG_STRTYPE) return !strcmp(wg_decode_str(t_db, a), wg_decode_str(t_db, b));
  if (ty == WG_URITYPE) { char *p = wg_decode_uri_prefix(t_db, a), *q = wg_decode_uri_prefix(t_db, b); if (!p) p = ""; if (!q) q = ""; return !strcmp(wg_decode_uri(t_db, a), wg_decode_uri(t_db, b)) && !strcmp(p, q); }
  return a == b;
}
static int natoms(gptr c) { return wg_rec_is_rule_clause(t_db, c) ? (int)wg_count_clause_atoms(t_db, c) : 1; }
static int neg(gptr c, int i) { return wg_rec_is_rule_clause(t_db, c) && wg_atom_meta_is_neg(t_db, wg_get_rule_clause_atom_meta(t_db, c, i)); }
static gint atom(gptr c, int i) { return wg_rec_is_rule_clause(t_db, c) ? wg_get_rule_clause_atom(t_db, c, i) : encode_record(t_db, c); }
static int clsame(gptr a, gptr b) { int n = natoms(a); if (natoms(b) != n || n > 2) return 0;
  for (int sw = 0; sw < n; sw++) { nv = 0; int ok = 1; for (int i = 0; i < n; i++) { int j = sw ? 1 - i : i; ok = ok && neg(a, i) == neg(b, j) && same(atom(a, i), atom(b, j)); } if (ok) return 1; } return 0; }
static void left(int c) { sym_fail("the process ended"); }
void sym_main(void) {
  int lo = (int)sym_param(0, 0), hi = (int)sym_param(1, 0), n = (int)sym_param(2, 1), form = (int)sym_param(3, 0), js = form == 2, jo = form >= 2, pre = (int)sym_param(4, 0);
  t_init(6000000); dbmemsegh(t_db)->strhash_area_header.arraylength = 1;
  const char *t = (js ? JSON : TEXT)[lo + (hi > lo ? sym_choose("pattern", hi - lo + 1) : 0)], *be = BEFORE[pre < 0 ? sym_choose("before", 14) : pre];
  char w[8]; sym_bytes("byte", w, n); for (int i = 0; i < n; i++) sym_assume(w[i] != 0); if (!*be) sym_assume(w[0] != '$');
  char *b = malloc(300), *d = b; for (; *t; t++) if (*t == '~') { strcpy(d, be); d += strlen(be); memcpy(d, w, n); d += n; } else *d++ = *t; *d = 0;
  if (getenv("SHOW")) puts(b);
  sym_on_exit(left); sym_must_terminate(400000000); sym_capture(1);
  cvec c = wr_cvec_new(g, 50), c2 = wr_cvec_new(g, 50); int ai = 0, r = js ? wr_import_js_file(g, "string", b, c, 0, 0, &ai, 0) : wr_import_otter_file(g, "dir/string", b, c, 0);
  if (r || g->parse_errmsg || c[1] != 3) { sym_capture(0); sym_cover(1); return; }
  gptr cl = (gptr)c[2]; int len = 400; char *buf = malloc(len); buf[0] = 0; g->print_json = jo; g->print_clauses_json = jo; g->print_tptp = g->print_clauses_tptp = form == 1; g->print_clause_detaillevel = 1; 
  int e = wr_strprint_clause(g, cl, &buf, &len, 0); sym_assert(e >= 0, "a clause cannot be printed"); e = (int)strlen(buf);
  char *b2 = malloc(e + 10); if (jo) { b2[0] = '['; memcpy(b2 + 1, buf, e); strcpy(b2 + 1 + e, "]"); } else { memcpy(b2, buf, e); strcpy(b2 + e, e && buf[e - 1] == '.' ? "" : "."); }
  if (getenv("SHOW")) { sym_capture(0); puts(b2); sym_capture(1); }
  ai = 0; r = jo ? wr_import_js_file(g, "string", b2, c2, 0, 0, &ai, 0) : wr_import_otter_file(g, "dir/string", b2, c2, 0);
  sym_capture(0);
  sym_assert(!r && !g->parse_errmsg && c2[1] == 3, "a printed clause is not read as a clause");
  sym_assert(clsame(cl, (gptr)c2[2]), "a printed clause is read as another clause");
  sym_cover(0);
}
