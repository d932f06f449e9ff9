// Strings of every type: encode, decode, interning and deletion.  All strings share one hash bucket, so
// every comparison the string table makes is between symbolic texts.
// param 0: 0 round trip, 1 interning of two values, 2 deletion keeps referenced strings; 1: longest length, 2: natural buckets
#include "g.h"
static void *db; static int LEN[] = {0, 1, 2, 7, 8, 9, 30, 31, 32, 33, 39, 40, 47};
enum { STR, STRL, XML, URI, URIP, BLOB, NT };
typedef struct { int t, n, m, hasx; unsigned char s[64], x[64]; gint e; } Sv;
static void text(const char *nm, unsigned char *b, int n, int zero) { // a few arbitrary characters, the others fixed
  for (int i = 0; i < n; i++) b[i] = 'a' + i % 26; b[n] = 0;
  int p[3] = {0, n / 2, n - 1}; for (int k = 0; k < 3 && n > 0; k++) { unsigned char c = (unsigned char)sym_bits(nm, 8); if (!zero) sym_assume(c != 0); b[p[k]] = c; }
}
static gint enc(Sv *v) {
  char *x = v->hasx ? (char *)v->x : NULL, *s = (char *)v->s;
  switch (v->t) { case STR: return wg_encode_str(db, s, NULL); case STRL: return wg_encode_str(db, s, x); case XML: return wg_encode_xmlliteral(db, s, x); case URI: return wg_encode_uri(db, s, NULL); case URIP: return wg_encode_uri(db, s, x); default: return wg_encode_blob(db, s, x, v->n); }
}
static int ty(int t) { return t <= STRL ? WG_STRTYPE : t == XML ? WG_XMLLITERALTYPE : t == BLOB ? WG_BLOBTYPE : WG_URITYPE; }
static int eqn(const unsigned char *a, const unsigned char *b, int n) { int r = 1; for (int i = 0; i < n; i++) r &= a[i] == b[i]; return r; }
static void check(Sv *v, const char *msg) {
  char *s, *x; gint n, xn, cn, xc; char buf[80], xb[80]; sym_assert(wg_get_encoded_type(db, v->e) == ty(v->t), "a string value gets a wrong type");
  switch (ty(v->t)) {
    case WG_STRTYPE: s = wg_decode_str(db, v->e); n = wg_decode_str_len(db, v->e); x = wg_decode_str_lang(db, v->e); xn = wg_decode_str_lang_len(db, v->e); cn = wg_decode_str_copy(db, v->e, buf, 80); xc = wg_decode_str_lang_copy(db, v->e, xb, 80); break;
    case WG_XMLLITERALTYPE: s = wg_decode_xmlliteral(db, v->e); n = wg_decode_xmlliteral_len(db, v->e); x = wg_decode_xmlliteral_xsdtype(db, v->e); xn = wg_decode_xmlliteral_xsdtype_len(db, v->e); cn = wg_decode_xmlliteral_copy(db, v->e, buf, 80); xc = wg_decode_xmlliteral_xsdtype_copy(db, v->e, xb, 80); break;
    case WG_URITYPE: s = wg_decode_uri(db, v->e); n = wg_decode_uri_len(db, v->e); x = wg_decode_uri_prefix(db, v->e); xn = wg_decode_uri_prefix_len(db, v->e); cn = wg_decode_uri_copy(db, v->e, buf, 80); xc = wg_decode_uri_prefix_copy(db, v->e, xb, 80); break;
    default: s = wg_decode_blob(db, v->e); n = wg_decode_blob_len(db, v->e); x = wg_decode_blob_type(db, v->e); xn = wg_decode_blob_type_len(db, v->e); cn = wg_decode_blob_copy(db, v->e, buf, 80); xc = wg_decode_blob_type_copy(db, v->e, xb, 80);
  }
  int blob = v->t == BLOB; sym_assert(s != NULL && n == v->n, msg); sym_assert(eqn((unsigned char *)s, v->s, v->n + !blob), msg);
  sym_assert(cn == v->n && eqn((unsigned char *)buf, v->s, v->n + !blob), msg);
  if (v->hasx) { sym_assert(x != NULL && xn == v->m && eqn((unsigned char *)x, v->x, v->m + 1), msg); sym_assert(xc == v->m && eqn((unsigned char *)xb, v->x, v->m + 1), msg); } else sym_assert(x == NULL && xn == 0 && xc == 0, msg);
}
static void mk(Sv *v, int t, int n, int m, const char *nm) { v->t = t; v->n = n; v->m = m; v->hasx = (t == STRL || t == XML || t == URIP || t == BLOB) && m >= 0; text(nm, v->s, n, t == BLOB); if (v->hasx) text("extra", v->x, m, 0); }
static int same(Sv *a, Sv *b) { if (ty(a->t) != ty(b->t) || a->n != b->n || a->hasx != b->hasx || (a->hasx && a->m != b->m)) return 0; int r = eqn(a->s, b->s, a->n); if (a->hasx) r &= eqn(a->x, b->x, a->m); return r; }
static int lenopt(const char *nm, int max) { return LEN[sym_choose(nm, max)]; }
void sym_main(void) {
  db = wg_attach_local_database(2000000); if (!db) sym_fail("no db"); int mode = sym_param(0, 0), max = sym_param(1, 3);
  if (!sym_param(2, 0)) dbmemsegh(db)->strhash_area_header.arraylength = 1;
  static Sv a, b, c;
  if (mode == 0) {
    int t = sym_choose("type", NT), n = lenopt("len", 13); int m = t == STR || t == URI ? -1 : (int[]){0, 1, 31, 32, 40}[sym_choose("extralen", 5)]; if (t == BLOB && n == 0) n = 3;
    wg_encode_uri(db, "other", NULL); wg_encode_uri(db, "other2", "pre");
    mk(&a, t, n, m, "s"); a.e = enc(&a); sym_assert(a.e != WG_ILLEGAL, "a string cannot be encoded"); check(&a, "a string does not survive encoding"); sym_observe(a.n); sym_cover(0);
    wg_encode_uri(db, "third", NULL); wg_encode_str(db, "fourth", NULL); check(&a, "a string is changed by encoding others");
  } else if (mode == 1) {
    int ta = sym_choose("ta", NT), tb = sym_choose("tb", NT); int L[] = {1, 2, 33, 40}; int n = L[sym_choose("len", max)], n2 = sym_choose("longer", 2) ? n + 1 : n; int m = sym_choose("extra", 2) ? 1 : -1, m2 = sym_choose("xb", 2) ? 1 : -1;
    if (ta == STR || ta == URI) sym_assume(m == -1); if (tb == STR || tb == URI) sym_assume(m2 == -1); 
    mk(&a, ta, n, m, "a"); mk(&b, tb, n2, m2, "b"); a.e = enc(&a); b.e = enc(&b); gint a2 = enc(&a), b2 = enc(&b);
    int interned = !(ty(a.t) == WG_STRTYPE && !a.hasx && a.n < 32);
    if (interned) sym_assert(a2 == a.e && (b.n < 32 && ty(b.t) == WG_STRTYPE && !b.hasx || b2 == b.e), "the same string is stored twice");
    int w = same(&a, &b);
    if (a.e == b.e) { sym_assert(w, "different strings get the same encoded value"); sym_cover(0); } else { if (interned) sym_assert(!w, "equal strings get different encoded values"); sym_cover(1); }
    check(&a, "a string is changed by encoding another"); check(&b, "a string does not survive encoding");
  } else { // natural buckets, a few values at a time: the characters come from a set that hashes to many different buckets
    static const int T[] = {STRL, XML, URIP, BLOB}; int t = T[sym_choose("type", 4)]; static const int64_t C[] = {'a', 0xc3, 'Z', 0x7f, 1, 0x80, 0xff, ' '};
    a.t = b.t = t; a.n = b.n = sym_choose("len", 2) ? 33 : 3; a.m = b.m = 1; a.hasx = b.hasx = 1; for (int i = 0; i < a.n; i++) a.s[i] = b.s[i] = 'a' + i % 26; a.x[0] = b.x[0] = 'x'; a.x[1] = b.x[1] = 0;
    int w = sym_choose("where", 3); Sv *v[2] = {&a, &b}; for (int i = 0; i < 2; i++) { unsigned char ch = (unsigned char)sym_pick(i ? "d" : "c", C, 8); if (w == 0) v[i]->s[0] = ch; else if (w == 1) v[i]->s[v[i]->n - 1] = ch; else v[i]->x[0] = ch; }
    a.e = enc(&a); for (int i = 0; i < 6; i++) { char nm[8] = {'o', 'a' + i, 0}; wg_encode_uri(db, nm, "p"); wg_encode_str(db, nm, "en"); } b.e = enc(&b); gint a2 = enc(&a), b2 = enc(&b);
    sym_assert(a2 == a.e && b2 == b.e, "the same string is stored twice"); sym_assert((a.e == b.e) == same(&a, &b), "encoded strings are equal exactly when the strings are"); check(&a, "a string is changed by encoding another"); check(&b, "a string does not survive encoding"); sym_cover(0);
  }
}
