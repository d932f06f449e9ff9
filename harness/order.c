// The ordering of terms (equation orientation) and of literals (literal selection): all pairs and triples of bounded terms.
// params 0: 0 pair laws, 1 triples of terms, 2 literals of clauses, 3 instances of terms, 4 instances of literals
//        1: kinds of leaves (bits 0 variables 1 integer 2 large integer 3 real 4 constant a 5 constant b 6 string), 2: depth, 3: kinds of applications (bits 0 f/1 1 g/2 2 f/2)
#include "terms.h"
enum { NN = 120 };
typedef struct { int fun, n, a[3], kind; int64_t val; } Nd;   // fun -1: leaf; kind 0 variable
static Nd nd[NN]; static int nn; static gint cell[NN]; static char *FN[] = {"f", "g", "p", "q"}; static int LK, AK, nv, NVARS = 2;
static int mknode(int fun, int n, int *a) { int i = nn++; if (nn >= NN) sym_fail("harness: nodes"); nd[i].fun = fun; nd[i].n = n; gint c[3]; for (int k = 0; k < n; k++) { nd[i].a[k] = a[k]; c[k] = cell[a[k]]; } cell[i] = t_app(FN[fun], n, c); return i; }
static int leaf(int kind, int64_t val, gint c) { int i = nn++; if (nn >= NN) sym_fail("harness: nodes"); nd[i].fun = -1; nd[i].n = 0; nd[i].kind = kind; nd[i].val = val; cell[i] = c; return i; }
static int mkleaf(void) {
  int list[8], n = 0; for (int k = 0; k < 7; k++) if (LK >> k & 1) list[n++] = k;
  int k = list[n > 1 ? sym_choose("leaf", n) : 0]; int64_t v;
  switch (k) {
    case 0: { int lim = nv < NVARS ? nv + 1 : NVARS; int x = lim > 1 ? sym_choose("variable", lim) : 0; if (x == nv) nv++; return leaf(0, x, encode_var(NROF_VARSINBANK + x)); }
    case 1: v = sym_range("int", -10000000, 10000000); return leaf(1, v, wg_encode_int(t_db, v));
    case 2: v = sym_range("big", 1LL << 61, (1LL << 61) + 3); return leaf(1, v, wg_encode_int(t_db, v));
    case 3: v = sym_range("real", -2, 2); return leaf(2, v, wg_encode_double(t_db, (double)v));
    case 4: return leaf(3, 0, t_const("a")); case 5: return leaf(4, 0, t_const("b")); default: return leaf(5, 0, t_str("a"));
  }
}
static int mk(int depth) {
  int list[4], n = 1; list[0] = 0; if (depth > 0) for (int k = 0; k < 3; k++) if (AK >> k & 1) list[n++] = k + 1;
  int k = list[n > 1 ? sym_choose("shape", n) : 0], a[3]; if (!k) return mkleaf();
  a[0] = mk(depth - 1); if (k == 1) return mknode(0, 1, a); a[1] = mk(depth - 1); return mknode(k == 2 ? 1 : 0, 2, a);
}
static int same(int x, int y) {
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0; if (nd[x].fun < 0) return nd[x].kind == nd[y].kind && nd[x].val == nd[y].val;
  for (int i = 0; i < nd[x].n; i++) if (!same(nd[x].a[i], nd[y].a[i])) return 0; return 1;
}
static int occurs(int x, int y) { for (int i = 0; i < nd[y].n; i++) if (same(x, nd[y].a[i]) || occurs(x, nd[y].a[i])) return 1; return 0; }
static int sub[4];                                                    // the substitution
static int inst(int x) { if (nd[x].fun < 0) return nd[x].kind == 0 ? sub[nd[x].val] : x; int a[3]; for (int i = 0; i < nd[x].n; i++) a[i] = inst(nd[x].a[i]); return mknode(nd[x].fun, nd[x].n, a); }
static int ord(int x, int y) { int r = wr_order_eqterms(g, cell[x], cell[y], NULL); sym_observe(r); sym_assert(r >= 0 && r <= 3, "unknown result of a comparison"); return r; }
static gptr clause(int n, int *l) {
  gptr c = wr_create_rule_clause(g, n); for (int i = 0; i < n; i++) { rotp(g, cell[l[i]])[RECORD_META_POS] = RECORD_META_NOTDATA | RECORD_META_ATOM; wr_set_rule_clause_atom(g, c, i, cell[l[i]]); wr_set_rule_clause_atom_meta(g, c, i, encode_smallint(0)); }
  wr_calc_clause_meta(g, c, NULL); return c;
}
// bit i: literal i is kept
static int allowed(int n, int *l) { gptr c = clause(n, l); wr_calc_clause_knuthbendix_resolvability(g, c, NULL); int m = 0; for (int i = 0; i < n; i++) m |= (g->tmp_resolvability_vec[i + 1] ? 1 : 0) << i; sym_observe(m); return m; }
static int smaller(int x, int y) { int l[2] = {x, y}; int m = allowed(2, l); return !(m & 1); }
static int lit(int d) { int a[1]; a[0] = mk(d); return mknode(2 + (AK >> 3 & 1 ? sym_choose("predicate", 2) : 0), 1, a); }
void sym_main(void) {
  t_init(4000000); int mode = sym_param(0, 0), D = sym_param(2, 1); LK = sym_param(1, 3); AK = sym_param(3, 3);
  for (int i = 0; i < 2; i++) { t_const(i ? "b" : "a"); t_const(FN[i]); } t_const("p"); t_const("q");
  wr_clear_all_varbanks(g); g->varstack[1] = 2; g->tmp_unify_vc = g->varstack + 1;
  if (mode == 0) {
    int s = mk(D), t = mk(D), r = ord(s, t), q = ord(t, s), a[2], b[2];
    sym_assert(q == (r == 1 ? 2 : r == 2 ? 1 : r), "the ordering of terms is not antisymmetric");
    if (same(s, t)) sym_assert(r != 1 && r != 2, "a term is smaller than itself");
    if (occurs(s, t)) { sym_assert(r == 2, "a term is not smaller than one it is part of"); }
    if (r == 1) {
      a[0] = s; b[0] = t; sym_assert(ord(mknode(0, 1, a), mknode(0, 1, b)) == 1, "the ordering is lost inside a function");
      a[1] = b[1] = leaf(3, 0, t_const("a")); sym_assert(ord(mknode(1, 2, a), mknode(1, 2, b)) == 1, "the ordering is lost inside a function");
      sym_cover(0);
    } else sym_cover(1);
  } else if (mode == 1) {
    int s = mk(D), t = mk(D), u = mk(D); int r1 = ord(s, t); sym_assume(r1 == 1); int r2 = ord(t, u); sym_assume(r2 == 1);
    sym_assert(ord(s, u) == 1, "the ordering of terms is not transitive"); sym_cover(0);
  } else if (mode == 3) {
    int s = mk(D), t = mk(D); int r = ord(s, t); sym_assume(r == 1 || r == 2); sym_assume(nv > 0);
    for (int i = 0; i < nv; i++) sub[i] = -1; int k = nv; for (int i = 0; i < k; i++) { NVARS = 2; sub[i] = mk(1); }
    int s1 = inst(s), t1 = inst(t); sym_assert(ord(s1, t1) == r, "the ordering changes under a substitution");
    for (int i = 0; i < k; i++) if (nd[sub[i]].fun >= 0 || nd[sub[i]].kind != 0 ) { } 
    sym_cover(0);
  } else if (mode == 2) {
    int l[3]; for (int i = 0; i < 3; i++) l[i] = lit(D); int m = allowed(3, l), w = 0;
    sym_assert(m != 0, "no literal of a clause may be resolved upon");
    for (int i = 0; i < 3; i++) { int ok = 1; for (int j = 0; j < 3; j++) if (j != i) { int s1 = smaller(l[i], l[j]); if (s1) { ok = 0; sym_assert(!smaller(l[j], l[i]), "two literals are smaller than each other"); sym_assert(!same(l[i], l[j]), "a literal is smaller than itself"); } } w |= ok << i; }
    sym_assert(m == w, "the literals that may be resolved upon are not the maximal ones"); sym_cover(0);
  } else {
    int l[2]; l[0] = lit(D); l[1] = lit(D); int r = smaller(l[0], l[1]); sym_assume(r); sym_assume(nv > 0);
    int k = nv; for (int i = 0; i < k; i++) sub[i] = mk(1);
    int a = inst(l[0]), b = inst(l[1]); sym_assert(smaller(a, b), "the ordering of literals changes under a substitution"); sym_cover(0);
  }
}
