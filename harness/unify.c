// Unification and matching of all pairs of terms of bounded shape, against an independent textbook unifier.
// param 0: arguments of the two outer terms, 1: shapes per argument, 2: leaf set, 3: 0 unify 1 match 2 equal
#include "terms.h"
enum { NN = 64, CONST = 100 };
typedef struct { int fun; int n; int a[3]; int var; int kind; int64_t val; } Nd;   // fun -1: leaf: variable, or constant (kind, value)
static Nd nd[NN]; static int nn; static gint cell[NN];
static int NV, used, nkinds; static gint V[4]; static int bind_[4];
#define S(x) (nd[x].var)
static int ceq(int x, int y) { return nd[x].kind == nd[y].kind && nd[x].val == nd[y].val; }
static int deref(int x) { while (nd[x].fun < 0 && S(x) < NV && bind_[S(x)] >= 0) x = bind_[S(x)]; return x; }
static int isv(int x) { return nd[x].fun < 0 && S(x) < NV; }
static int occurs(int v, int x) { x = deref(x); if (isv(x)) return S(x) == v; for (int i = 0; i < nd[x].n; i++) if (occurs(v, nd[x].a[i])) return 1; return 0; }
static int unify(int x, int y) {
  x = deref(x); y = deref(y);
  if (isv(x)) { if (isv(y) && S(x) == S(y)) return 1; if (occurs(S(x), y)) return 0; bind_[S(x)] = y; return 1; }
  if (isv(y)) { if (occurs(S(y), x)) return 0; bind_[S(y)] = x; return 1; }
  if (nd[x].fun < 0 || nd[y].fun < 0) return nd[x].fun < 0 && nd[y].fun < 0 && ceq(x, y);
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0;
  for (int i = 0; i < nd[x].n; i++) if (!unify(nd[x].a[i], nd[y].a[i])) return 0;
  return 1;
}
// structural equality without bindings / one-way matching
static int same(int x, int y) {
  if (nd[x].fun < 0 || nd[y].fun < 0) return nd[x].fun < 0 && nd[y].fun < 0 && (S(x) < NV || S(y) < NV ? S(x) == S(y) : ceq(x, y));
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0;
  for (int i = 0; i < nd[x].n; i++) if (!same(nd[x].a[i], nd[y].a[i])) return 0;
  return 1;
}
static int match(int x, int y) {
  if (isv(x)) { if (bind_[S(x)] < 0) { bind_[S(x)] = y; return 1; } return same(bind_[S(x)], y); }
  if (nd[x].fun < 0) return same(x, y);
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0;
  for (int i = 0; i < nd[x].n; i++) if (!match(nd[x].a[i], nd[y].a[i])) return 0;
  return 1;
}
static gint F[3]; static char *FN[] = {"f", "g", "h"};
// constants: an integer (any), a real (any), a symbol, a string
static int mkleaf(void) {
  int i = nn++; nd[i].fun = -1; nd[i].n = 0; int lim = used < NV ? used + 1 : NV; int k = sym_choose("leaf", lim + nkinds);
  if (k < lim) { nd[i].var = k; if (k == used) used++; cell[i] = V[k]; return i; }
  nd[i].var = CONST; k -= lim; nd[i].kind = k; nd[i].val = 0;
  if (k == 0) { nd[i].val = (int64_t)sym_bits("int", 64); cell[i] = wg_encode_int(t_db, nd[i].val); }
  else if (k == 1) cell[i] = t_const("a");
  else if (k == 2) { nd[i].val = sym_range("real", -100, 100); cell[i] = wg_encode_double(t_db, (double)nd[i].val); }
  else cell[i] = t_str("a");
  return i;
}
static int mkapp(int f, int n, int *a) { int i = nn++; nd[i].fun = f; nd[i].n = n; gint c[3]; for (int k = 0; k < n; k++) { nd[i].a[k] = a[k]; c[k] = cell[a[k]]; } cell[i] = t_app(FN[f], n, c); return i; }
static int mk(int shapes, int depth) {
  int k = sym_choose("shape", shapes), a[3];
  if (k == 0) return mkleaf();
  if (k == 1) { a[0] = depth ? mk(shapes, depth - 1) : mkleaf(); return mkapp(0, 1, a); }
  if (k == 2) { a[0] = mkleaf(); a[1] = mkleaf(); return mkapp(1, 2, a); }
  a[0] = mkleaf(); return mkapp(1, 1, a);              // same symbol, other arity
}
// the code's bindings, read through the public accessor
static gint full(gint t, int fuel) {
  if (fuel <= 0) sym_fail("unification leaves a cyclic binding");
  if (isvar(t)) { gint v = wr_varval(t, g->varbanks); if (isvar(v)) return v; return full(v, fuel - 1); }
  if (!isdatarec(t)) return t;
  gint c[3]; int n = t_nargs(t); for (int i = 0; i < n; i++) c[i] = full(t_arg(t, i), fuel - 1);
  gptr r = wr_create_term(g, n + 1); r[RECORD_HEADER_GINTS + g->unify_funpos] = t_fun(t); for (int i = 0; i < n; i++) r[RECORD_HEADER_GINTS + g->unify_funpos + 1 + i] = c[i]; return encode_record(t_db, r);
}
static int peq(gint a, gint b) {     // structural comparison of finished terms
  if (a == b) return 1; if (isvar(a) || isvar(b)) return 0;
  if (!isdatarec(a) || !isdatarec(b)) { if (isdatarec(a) || isdatarec(b)) return 0; int ta = wg_get_encoded_type(t_db, a); if (ta != wg_get_encoded_type(t_db, b)) return 0;
    if (ta == WG_INTTYPE) return wg_decode_int(t_db, a) == wg_decode_int(t_db, b); if (ta == WG_DOUBLETYPE) return wg_decode_double(t_db, a) == wg_decode_double(t_db, b); return 0; }
  if (t_fun(a) != t_fun(b) || t_nargs(a) != t_nargs(b)) return 0;
  for (int i = 0; i < t_nargs(a); i++) if (!peq(t_arg(a, i), t_arg(b, i))) return 0; return 1;
}
// the oracle's most general unifier applied to a term of the code
static int nodeof(gint t) { for (int v = 0; v < NV; v++) if (t == V[v]) return v; return -1; }
static gint cellof(int x) { x = deref(x); if (nd[x].fun < 0) return cell[x]; gint c[3]; for (int i = 0; i < nd[x].n; i++) c[i] = cellof(nd[x].a[i]); return t_app(FN[nd[x].fun], nd[x].n, c); }
static gint apply(gint t) {
  if (isvar(t)) { int v = nodeof(t); if (v < 0) sym_fail("unification binds to an unknown variable"); return bind_[v] >= 0 ? cellof(bind_[v]) : t; }
  if (!isdatarec(t)) return t;
  gint c[3]; int n = t_nargs(t); for (int i = 0; i < n; i++) c[i] = apply(t_arg(t, i));
  gptr r = wr_create_term(g, n + 1); r[RECORD_HEADER_GINTS + g->unify_funpos] = t_fun(t); for (int i = 0; i < n; i++) r[RECORD_HEADER_GINTS + g->unify_funpos + 1 + i] = c[i]; return encode_record(t_db, r);
}
void sym_main(void) {
  t_init(4000000);
  int n = sym_param(0, 2), shapes = sym_param(1, 3), set = sym_param(2, 0), mode = sym_param(3, 0), depth = sym_param(4, 0);
  V[0] = encode_var(0); V[1] = encode_var(1); V[2] = encode_var(NROF_VARSINBANK + 1); V[3] = encode_var(2 * NROF_VARSINBANK);
  NV = set == 2 ? 0 : set == 1 ? 2 : set == 3 ? 4 : 3; nkinds = set == 0 || set == 3 ? 1 : set == 1 ? 2 : 4;
  for (int i = 0; i < 4; i++) bind_[i] = -1;
  int x[3], y[3];
  for (int i = 0; i < n; i++) { x[i] = mk(shapes, depth); y[i] = mk(shapes, depth); }
  int X = mkapp(2, n, x), Y = mkapp(2, n, y);
  wr_clear_all_varbanks(g); g->varstack[1] = 2;
  if (mode == 0) {
    int r = wr_unify_term(g, cell[X], cell[Y], 1) ? 1 : 0; sym_observe(r);
    int w = unify(X, Y);
    if (r) sym_assert(w, "terms that have no unifier are unified"); else sym_assert(!w, "unifiable terms are not unified");
    if (r) {
      sym_assert(peq(full(cell[X], 12), full(cell[Y], 12)), "the unifier does not make the terms equal");
      for (int v = 0; v < NV; v++) sym_assert(peq(apply(full(V[v], 12)), apply(V[v])), "the unifier is not most general");
      sym_cover(0);
    } else sym_cover(1);
  } else if (mode == 1) {
    int r = wr_match_term(g, cell[X], cell[Y], 1) ? 1 : 0; sym_observe(r);
    int w = match(X, Y);
    if (r) sym_assert(w, "a term that is no instance is matched"); else sym_assert(!w, "an instance is not matched");
    if (r) for (int v = 0; v < NV; v++) {
      gint b = g->varbanks[decode_var(V[v])];
      if (bind_[v] < 0) sym_assert(b == UNASSIGNED, "matching binds a variable of the instance");
      else { int z = bind_[v]; sym_assert(b != UNASSIGNED && peq(b, cell[z]), "matching binds a wrong term"); }
    }
    sym_cover(r ? 0 : 1);
  } else {
    int r = wr_equal_term(g, cell[X], cell[Y], 1) ? 1 : 0; sym_observe(r); gint eqencx; 
    int r2 = WR_EQUAL_TERM(g, cell[X], cell[Y], 1) ? 1 : 0;
    int w = same(X, Y);
    sym_assert(r == r2, "the two equality tests disagree");
    if (r) sym_assert(w, "different terms are equal"); else sym_assert(!w, "equal terms are different");
    sym_assert(wr_varbanks_are_clear(g, g->varbanks), "an equality test binds a variable");
    sym_cover(r ? 0 : 1); return;
  }
  wr_clear_varstack(g, g->varstack);
  sym_assert(wr_varbanks_are_clear(g, g->varbanks), "bindings survive clearing the variable stack");
}
