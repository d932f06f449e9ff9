// wg_compare / WG_COMPARE on pairs of encoded values of every type.  param 0: 0 same type, 1 different types, 2 and 3 records
#include "g.h"
static void *db;
enum { INT, DBL, CHR, DATE, TIM, FIX, VAR, STR, LANG, URI, URIP, XML, BLOB, REC, NT };
static const int TY[NT] = {WG_INTTYPE, WG_DOUBLETYPE, WG_CHARTYPE, WG_DATETYPE, WG_TIMETYPE, WG_FIXPOINTTYPE, WG_VARTYPE, WG_STRTYPE, WG_STRTYPE, WG_URITYPE, WG_URITYPE, WG_XMLLITERALTYPE, WG_BLOBTYPE, WG_RECORDTYPE};
typedef struct { int t; gint e; int64_t i; double d; unsigned char s[48], x[4]; int n, hasx; } V;
static int sgn(int64_t a, int64_t b) { return (a > b) - (a < b); }
static int lex(const unsigned char *a, int na, const unsigned char *b, int nb) { int r = 0, done = 0; for (int i = 0; i < (na < nb ? na : nb); i++) { int c = (a[i] > b[i]) - (a[i] < b[i]); r = done ? r : c; done |= c != 0; } return done ? r : sgn(na, nb); }
static void mk(V *v, int t, const char *nm, int n) {
  v->t = t; v->hasx = 0; v->n = 0; char q[16]; snprintf(q, 16, "%s_x", nm);
  switch (t) {
    case INT: v->i = (int64_t)sym_bits(nm, 64); v->e = wg_encode_int(db, v->i); break;
    case DBL: { uint64_t b = sym_bits(nm, 64); memcpy(&v->d, &b, 8); sym_assume(v->d == v->d); v->e = wg_encode_double(db, v->d); break; }
    case CHR: v->i = (int64_t)sym_bits(nm, 8); v->e = wg_encode_char(db, (char)v->i); break;
    case DATE: v->i = sym_range(nm, -8000000, 8000000); v->e = wg_encode_date(db, (int)v->i); break;
    case TIM: v->i = sym_range(nm, 0, 8640000); v->e = wg_encode_time(db, (int)v->i); break;
    case FIX: { static const int64_t F[] = {-8000000, -7999999, -10001, -10000, -9999, -1, 0, 1, 2, 99, 9999, 10000, 10001, 12345, 7999999, 8000000}; v->i = sym_pick(nm, F, 16); v->e = wg_encode_fixpoint(db, (double)v->i / 10000.0); break; }
    case VAR: v->i = sym_range(nm, 0, 1 << 20); v->e = wg_encode_var(db, v->i); break;
    case REC: { void *r = wg_create_record(db, 1); wg_set_new_field(db, r, 0, wg_encode_int(db, sym_range(nm, 0, 100))); v->e = wg_encode_record(db, r); break; }
    default: {
      for (int i = 0; i < n; i++) v->s[i] = 'm'; int p[2] = {n > 20 ? 31 : 0, n - 1};
      for (int k = 0; k < 2 && n; k++) if (p[k] < n) { v->s[p[k]] = (unsigned char)sym_bits(nm, 8); if (t != BLOB) sym_assume(v->s[p[k]] != 0); }
      v->n = n; v->s[n] = 0; char *x = NULL; if (t == LANG || t == URIP || t == XML || t == BLOB) { v->x[0] = (unsigned char)sym_bits(q, 8); sym_assume(v->x[0] != 0); v->x[1] = 0; v->hasx = 1; x = (char *)v->x; }
      v->e = t == STR || t == LANG ? wg_encode_str(db, (char *)v->s, x) : t == XML ? wg_encode_xmlliteral(db, (char *)v->s, x) : t == BLOB ? wg_encode_blob(db, (char *)v->s, x, n) : wg_encode_uri(db, (char *)v->s, x);
    }
  }
  sym_assert(v->e != WG_ILLEGAL, "a value cannot be encoded");
}
static int oracle(V *a, V *b) {
  switch (TY[a->t]) {
    case WG_DOUBLETYPE: return (a->d > b->d) - (a->d < b->d);
    case WG_INTTYPE: case WG_CHARTYPE: case WG_DATETYPE: case WG_TIMETYPE: case WG_FIXPOINTTYPE: case WG_VARTYPE: return sgn(a->i, b->i);
    case WG_URITYPE: case WG_XMLLITERALTYPE: { int r = lex(a->x, a->hasx, b->x, b->hasx); return r ? r : lex(a->s, a->n, b->s, b->n); }
    default: return lex(a->s, a->n, b->s, b->n);
  }
}
static int cmp(gint a, gint b) { gint r = WG_COMPARE(db, a, b); return r == WG_EQUAL ? 0 : r == WG_GREATER ? 1 : r == WG_LESSTHAN ? -1 : 7; }
static gint rec(const char *nm, int depth, int *flat, int *nf) { // a record of 0-2 integers, nested
  int n = (int)sym_choose(nm, 3); if (depth == 0 && n == 0) n = 1; void *r = wg_create_record(db, n); flat[(*nf)++] = n;
  for (int i = 0; i < n; i++) { if (depth && i == n - 1) wg_set_new_field(db, r, i, rec(nm, depth - 1, flat, nf)); else { int64_t v = sym_range(nm, -5, 200); flat[(*nf)++] = (int)v; wg_set_new_field(db, r, i, wg_encode_int(db, v)); } }
  return wg_encode_record(db, r);
}
void sym_main(void) {
  db = wg_attach_local_database(2000000); if (!db) sym_fail("no db"); dbmemsegh(db)->strhash_area_header.arraylength = 1; static V a, b;
  int mode = sym_param(0, 0);
  if (mode == 0) { static const int L[] = {1, 2, 33, 34, 0}; int t = sym_choose("type", REC), u = t; if (t == STR || t == URI) u = t + sym_choose("extra", 2); int str = TY[t] >= WG_STRTYPE && TY[t] <= WG_BLOBTYPE; int na = str ? L[sym_choose("la", t == BLOB ? 4 : 5)] : 0, nb = str ? L[sym_choose("lb", t == BLOB ? 4 : 5)] : 0;
    mk(&a, t, "a", na); mk(&b, u, "b", nb); int w = oracle(&a, &b), c = cmp(a.e, b.e), d = cmp(b.e, a.e); sym_assert(c == w, "two values compare differently from their natural order"); sym_assert(d == -w, "comparing in the other direction gives another order"); sym_assert(cmp(a.e, a.e) == 0, "a value differs from itself"); sym_observe(w); sym_cover(0); }
  else if (mode == 1) { static V r[NT]; int sg[16][16]; // the order of two types is fixed, and has no cycles
    int R[] = {INT, DBL, CHR, DATE, TIM, FIX, VAR, STR, URIP, XML, BLOB, REC}; int n = 12; 
    for (int i = 0; i < n; i++) { r[i].t = R[i]; r[i].e = i == 0 ? wg_encode_int(db, 5) : i == 1 ? wg_encode_double(db, 2.5) : i == 2 ? wg_encode_char(db, 'c') : i == 3 ? wg_encode_date(db, 700000) : i == 4 ? wg_encode_time(db, 10) : i == 5 ? wg_encode_fixpoint(db, 1.5) : i == 6 ? wg_encode_var(db, 3) : i == 7 ? wg_encode_str(db, "s", NULL) : i == 8 ? wg_encode_uri(db, "u", "p") : i == 9 ? wg_encode_xmlliteral(db, "x", "t") : i == 10 ? wg_encode_blob(db, "b", "t", 1) : wg_encode_record(db, wg_create_record(db, 1)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sg[i][j] = cmp(r[i].e, r[j].e);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i != j) sym_assert((sg[i][j] == 1 || sg[i][j] == -1) && sg[i][j] == -sg[j][i], "values of different types are not ordered"); for (int k = 0; k < n; k++) sym_assert(!(sg[i][j] == 1 && sg[j][k] == 1 && sg[i][k] != 1), "the order of the types is not transitive"); }
    for (int i = 0; i < n; i++) { gint z = wg_encode_null(db, NULL); sym_assert(cmp(z, r[i].e) == -cmp(r[i].e, z) && cmp(z, r[i].e) != 0 && cmp(z, r[i].e) != 7 && cmp(z, r[i].e) == cmp(z, r[0].e), "null is not ordered consistently"); }
    int i = sym_choose("i", n), j = sym_choose("j", n); sym_assume(i < j); mk(&a, R[i], "a", 2); mk(&b, R[j], "b", 2); sym_assert(cmp(a.e, b.e) == sg[i][j] && cmp(b.e, a.e) == sg[j][i], "the order of values of different types depends on the values"); sym_cover(0); }
  else if (mode == 3) { // records whose fields are stored apart although equal
    static const char *nm[2][3] = {{"a0", "a1", "a2"}, {"b0", "b1", "b2"}}; int n = 2 + sym_choose("n", 2); gint e[2]; int64_t v[2][3]; int kind[3]; kind[0] = sym_choose("k0", n == 2 ? 4 : 1); kind[1] = kind[0] ? 0 : 1; kind[2] = 0;
    for (int s = 0; s < 2; s++) { void *r = wg_create_record(db, n); for (int i = 0; i < n; i++) { int64_t x = v[s][i] = kind[i] == 0 ? sym_range(nm[s][i], 0, 9) : sym_choose(nm[s][i], 3); gint f;
        if (kind[i] == 0) f = wg_encode_int(db, ((int64_t)1 << 61) + x); else if (kind[i] == 1) f = wg_encode_double(db, 2.5 + (double)x); else if (kind[i] == 2) { char t[41]; memset(t, 'k', 40); t[40] = 0; t[38] = (char)('a' + x); f = wg_encode_str(db, t, NULL); } else { void *q = wg_create_record(db, 2); wg_set_new_field(db, q, 0, wg_encode_double(db, 1.5)); wg_set_new_field(db, q, 1, wg_encode_int(db, x)); f = wg_encode_record(db, q); }
        wg_set_new_field(db, r, i, f); } e[s] = wg_encode_record(db, r); }
    int w = 0; for (int i = n - 1; i >= 0; i--) { int c = sgn(v[0][i], v[1][i]); w = c ? c : w; }
    sym_assert(cmp(e[0], e[1]) == w && cmp(e[1], e[0]) == -w, "records compare differently from their fields"); sym_cover(0); }
  else { int fa[16], fb[16], na = 0, nb = 0, dep = sym_choose("depth", 3); gint x = rec("a", dep, fa, &na), y = rec("b", dep, fb, &nb); 
    int w = 0, done = 0; for (int i = 0; i < na && i < nb; i++) { int c = sgn(fa[i], fb[i]); w = done ? w : c; done |= c != 0; } 
    int c = cmp(x, y), d = cmp(y, x); sym_assert(c == w, "records compare differently from their length and fields"); sym_assert(d == -w, "comparing in the other direction gives another order"); sym_observe(w); sym_cover(0); }
}
