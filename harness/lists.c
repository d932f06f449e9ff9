// Lists and type tests: $first, $rest, $is_list, $is_distinct, $is_atom, and equality of list terms whose
// elements are symbolic integers, strings, constants and variables.
#include "terms.h"
// element kinds: 0 integer (symbolic), 1 string s, 2 string t, 3 constant c, 4 constant d, 5 variable, 6 nil, 7 f(c), 8 [integer], 9 real
static gint elem(int k, const char *nm, int64_t *v) {
  switch (k) { case 0: *v = sym_bits(nm, 64); return wg_encode_int(t_db, *v); case 1: return t_str("s"); case 2: return t_str("t"); case 3: return t_const("c"); case 4: return t_const("d");
    case 5: return encode_var(1); case 6: return t_const("$nil"); case 7: return t_app1("f", t_const("c")); case 9: return wg_encode_double(t_db, 2.5);
    default: *v = sym_bits(nm, 64); return t_app2("$list", wg_encode_int(t_db, *v), t_const("$nil")); }
}
// can the two be equal / are they surely equal, given that numbers, strings and lists are distinct values
static void rel(int k, int64_t v, int l, int64_t w, int *can, int *must) {
  int typed = k != 3 && k != 4 && k != 5 && k != 7, typed2 = l != 3 && l != 4 && l != 5 && l != 7;
  if (!typed || !typed2) { *can = 1; *must = k == l; return; }
  if (k != l) { *can = *must = 0; return; }
  if (k == 0 || k == 8) { *can = *must = v == w; return; }
  *can = *must = 1;
}
void sym_main(void) {
  t_init(3000000);
  int mode = sym_param(0, 0);
  if (mode == 0) {              // unary
    int k = sym_choose("kind", 11); int64_t v = 0; gint e = k == 10 ? t_app2("$list", t_const("c"), encode_var(2)) : elem(k, "v", &v);
    int islist = k == 6 || k == 8 || k == 10, isstr = k == 1 || k == 2, isnum = k == 0 || k == 9, unknown = k == 3 || k == 4 || k == 5 || k == 7;
    gint t = t_app1("$is_list", e), r = t_eval(t);
    if (r == ACONST_TRUE) sym_assert(islist, "$is_list holds of something that is no list");
    else if (r == ACONST_FALSE) sym_assert(isstr || isnum, "$is_list is false for a possible list");
    else { sym_assert(t_left(r, t), "$is_list is evaluated to a strange value"); sym_assert(unknown, "$is_list of a list, number or string is left unevaluated"); }
    t = t_app1("$is_distinct", e), r = t_eval(t);
    if (r == ACONST_TRUE) sym_assert(isstr, "$is_distinct holds of something that is no string");
    else if (r == ACONST_FALSE) sym_assert(isnum || islist, "$is_distinct is false for a possible string");
    else { sym_assert(t_left(r, t), "$is_distinct is evaluated to a strange value"); sym_assert(unknown || k == 6, "$is_distinct of a list, number or string is left unevaluated"); }
    t = t_app1("$is_atom", e), r = t_eval(t);
    if (r == ACONST_TRUE) sym_assert(k != 8 && k != 10 && k != 7 && k != 5, "$is_atom holds of a compound term or a variable");
    else if (r == ACONST_FALSE) sym_assert(k == 8 || k == 10, "$is_atom is false for something that is no list");
    else sym_assert(t_left(r, t), "$is_atom is evaluated to a strange value");
    t = t_app1("$first", e), r = t_eval(t);
    if (k == 8) sym_assert(wg_get_encoded_type(t_db, r) == WG_INTTYPE && wg_decode_int(t_db, r) == v, "$first is wrong");
    else if (k == 10) sym_assert(r == t_const("c"), "$first is wrong");
    else sym_assert(t_left(r, t), "$first of something that is no nonempty list got a value");
    t = t_app1("$rest", e), r = t_eval(t);
    if (k == 8) sym_assert(r == t_const("$nil"), "$rest is wrong");
    else if (k == 10) sym_assert(r == encode_var(2), "$rest is wrong");
    else sym_assert(t_left(r, t), "$rest of something that is no nonempty list got a value");
    sym_cover(0); return;
  }
  int64_t v[2][2] = {{0}}; int k[2][2]; gint l[2]; int len[2];
  for (int i = 0; i < 2; i++) {
    len[i] = mode == 1 ? 1 : sym_choose("len", 3);
    for (int j = 0; j < len[i]; j++) k[i][j] = sym_choose(i ? "kb" : "ka", mode == 1 ? 10 : 6);
    gint t = t_const("$nil");
    for (int j = len[i] - 1; j >= 0; j--) t = t_app2("$list", elem(k[i][j], i ? "vb" : "va", &v[i][j]), t);
    l[i] = t;
  }
  gint a = l[0], b = l[1];
  if (mode == 3) { a = t_arg(l[0], 0); }
  int can = 1, must = 1;
  if (len[0] != len[1]) can = must = 0;
  else for (int j = 0; j < len[0]; j++) { int c, m; rel(k[0][j], v[0][j], k[1][j], v[1][j], &c, &m); can &= c; must &= m; }
  gint r = t_eval(t_app2("=", a, b));
  if (r == ACONST_TRUE) { sym_assert(must, "an equation between lists that may differ is evaluated to true"); sym_cover(0); }
  else if (r == ACONST_FALSE) { sym_assert(!can, "an equation between lists that may be equal is evaluated to false"); sym_cover(1); }
  else {
    int ground = 1; for (int i = 0; i < 2; i++) for (int j = 0; j < len[i]; j++) ground &= k[i][j] != 3 && k[i][j] != 4 && k[i][j] != 5 && k[i][j] != 7;
    sym_assert(!ground || len[0] != len[1], "an equation between lists of plain values is left unevaluated");
  }
  sym_observe(r);
}
