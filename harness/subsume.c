// Subsumption of pairs of clauses against an independent matcher of literals to distinct literals, with the
// metas, the literal order and the banks of variables the prover gives to given and active clauses.
// params 0: literals of the general clause, 1: of the specific one (base-4 digits, last literal first, after a leading 1:
//   0 p, 1 -p, 2 q, 3 -q), 2: kinds of arguments general, 3: specific (bits 0 variable 1 integer 2 f(variable) 3 f(integer) 4 constant 5 g(integer, variable) 6 f(f(...)) 7 g(1,g(1,...))),
// 4: arity, 5: 0 given against active, 1 active against given
#include "terms.h"
enum { NN = 1400 };
typedef struct { int fun, n, a[3], var; int64_t val; } Nd;       // fun -1: variable (var>=0), integer (var -1), constant (var -2)
typedef struct { int n, atom[6], neg[6]; gptr rec; gint blk[CLMETABLOCK_ELS]; } Cl;
static Nd nd[NN]; static int nn, bind_[8]; static gint cell[NN]; static char *FN[] = {"f", "g", "p", "q"};
static int mknode(int fun, int n, int *a) { int i = nn++; if (nn >= NN) sym_fail("harness: nodes"); nd[i].fun = fun; nd[i].n = n; gint c[3]; for (int k = 0; k < n; k++) { nd[i].a[k] = a[k]; c[k] = cell[a[k]]; } cell[i] = t_app(FN[fun], n, c); return i; }
static int leaf(int var, int64_t val, gint c) { int i = nn++; nd[i].fun = -1; nd[i].n = 0; nd[i].var = var; nd[i].val = val; cell[i] = c; return i; }
static int *usedv; static int firstv, bank;
static int mkvar(void) { int lim = *usedv < 3 ? *usedv + 1 : 3; int k = sym_choose("variable", lim); if (k == *usedv) ++*usedv; return leaf(firstv + k, 0, encode_var(bank * NROF_VARSINBANK + k)); }
static int mkint(void) { int64_t v = sym_range("int", 0, 3); return leaf(-1, v, wg_encode_int(t_db, v)); }
static int mkarg(int kinds) {
  int list[8], n = 0; for (int k = 0; k < 8; k++) if (kinds >> k & 1) list[n++] = k;
  int k = list[n > 1 ? sym_choose("kind", n) : 0], a[3];
  if (k == 0) return mkvar(); if (k == 1) return mkint(); if (k == 4) return leaf(-2, 0, t_const("a"));
  if (k == 2) { a[0] = mkvar(); return mknode(0, 1, a); } if (k == 3) { a[0] = mkint(); return mknode(0, 1, a); }
  if (k == 5) { a[0] = mkint(); a[1] = mkvar(); return mknode(1, 2, a); }
  static const short len[] = {1, 3, 7, 29, 30, 31, 125, 126, 127, 128, 251, 252, 253, 254, 255, 256}; int m = len[sym_choose("depth", 16)], x = sym_choose("end", 2) ? mkvar() : leaf(-1, 1, wg_encode_int(t_db, 1));
  if (k == 6) while (m--) { a[0] = x; x = mknode(0, 1, a); } else while (m--) { a[0] = leaf(-1, 1, wg_encode_int(t_db, 1)); a[1] = x; x = mknode(1, 2, a); }   // f(f(...)), g(1,g(1,...))
  return x;
}
static int same(int x, int y) {
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0; if (nd[x].fun < 0) return nd[x].var == nd[y].var && nd[x].val == nd[y].val;
  for (int i = 0; i < nd[x].n; i++) if (!same(nd[x].a[i], nd[y].a[i])) return 0; return 1;
}
static int match(int x, int y) {
  if (nd[x].fun < 0 && nd[x].var >= 0) { int v = nd[x].var; if (bind_[v] < 0) { bind_[v] = y; return 1; } return same(bind_[v], y); }
  if (nd[x].fun < 0 || nd[y].fun < 0) return same(x, y);
  if (nd[x].fun != nd[y].fun || nd[x].n != nd[y].n) return 0;
  for (int i = 0; i < nd[x].n; i++) if (!match(nd[x].a[i], nd[y].a[i])) return 0; return 1;
}
static int subs(Cl *c, Cl *d, int i, unsigned used) {
  if (i == c->n) return 1; int keep[8]; memcpy(keep, bind_, sizeof keep);
  for (int j = 0; j < d->n; j++) if (!(used >> j & 1) && c->neg[i] == d->neg[j]) { if (match(c->atom[i], d->atom[j]) && subs(c, d, i + 1, used | 1u << j)) return 1; memcpy(bind_, keep, sizeof keep); }
  return 0;
}
static int hasvar(int x) { if (nd[x].fun < 0) return nd[x].var >= 0; for (int i = 0; i < nd[x].n; i++) if (hasvar(nd[x].a[i])) return 1; return 0; }
static void mkclause(Cl *c, int pat, int kinds, int ar, int bk, int fv) {
  int uv = 0; usedv = &uv; bank = bk; firstv = fv; c->n = 0;
  while (pat > 1) { int d = pat & 3, a[3]; pat >>= 2; for (int i = 0; i < ar; i++) a[i] = mkarg(kinds); c->atom[c->n] = mknode(2 + (d >> 1), ar, a); c->neg[c->n++] = d & 1; }
  for (int i = 0; i < c->n; i++) rotp(g, cell[c->atom[i]])[RECORD_META_POS] = RECORD_META_NOTDATA | RECORD_META_ATOM;
  if (c->n == 1 && !c->neg[0] && !hasvar(c->atom[0])) {   // read as a fact
    c->rec = wr_convert_atom_fact_clause(g, rotp(g, cell[c->atom[0]]), 0); wr_calc_clause_meta(g, c->rec, c->blk); return;
  }
  c->rec = wr_create_rule_clause(g, c->n);
  for (int i = 0; i < c->n; i++) { wr_set_rule_clause_atom(g, c->rec, i, cell[c->atom[i]]); wr_set_rule_clause_atom_meta(g, c->rec, i, c->neg[i] ? ATOM_META_NEG : encode_smallint(0)); }
  wr_calc_clause_meta(g, c->rec, c->blk); wr_sort_cl(g, c->rec); wr_calc_clause_meta(g, c->rec, c->blk);
}
void sym_main(void) {
  t_init(4000000); static Cl c, d; int back = sym_param(5, 0);
  mkclause(&c, sym_param(0, 4), sym_param(2, 3), sym_param(4, 1), back ? 1 : 2, 0);
  mkclause(&d, sym_param(1, 20), sym_param(3, 3), sym_param(4, 1), back ? 2 : 1, 4);
  for (int i = 0; i < 8; i++) bind_[i] = -1;
  int w = subs(&c, &d, 0, 0);
  wr_clear_all_varbanks(g); g->varstack[1] = 2; g->instgen_strat = 0;
  int r = wr_subsume_cl(g, c.rec, d.rec, 1) ? 1 : 0; sym_observe(r);
  if (r) sym_assert(w, "a clause that is no instance of the other is subsumed"); else sym_assert(!w, "a subsumed clause is not recognised");
  sym_assert(wr_varbanks_are_clear(g, g->varbanks), "bindings survive a subsumption test");
  if (w) sym_assert(wr_clmetablock_can_subsume(g, c.blk, d.blk), "the prefilter rejects a subsumer");
  sym_cover(r ? 0 : 1);
}
