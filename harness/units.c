// The unit, double, active-unit, atom and clause hashes: what was stored is found again, nothing else is.
// params 0: 0 unit cut/subsume 1 active units 2 hashes of equal terms 3 atom occurrences 4 clause hash 5 term lists
//        1: stored units, 2: kinds of arguments (bits 0 variable 1 integer (any) 2 real 3 constant 4 string 5 nested 6 integer (listed)), 3: one bucket, 4: arity
#include "terms.h"
int wr_atom_cut_and_subsume(glb*, gint, gint, cvec*, int);
typedef struct { int kind; int64_t v; int n; int64_t v2; } Arg;
typedef struct { int pred, neg, n; Arg a[3]; gint atom; gptr cl; } Unit;
static int KINDS, AR, nvars;
static gint cellof(Arg *a) {
  switch (a->kind) { case 0: return encode_var(NROF_VARSINBANK + a->v); case 1: case 6: return wg_encode_int(t_db, a->v); case 2: return wg_encode_double(t_db, (double)a->v / 4); case 3: return t_const(a->v ? "b" : "a");
    case 4: return t_str(a->v ? "b" : "a"); case 5: return t_app1(a->v ? "g" : "f", a->v2 == 0 ? t_const("a") : a->v2 == 1 ? encode_var(NROF_VARSINBANK) : wg_encode_int(t_db, a->v2)); }
  return 0;
}
static void mkarg(Arg *a) {
  int list[8], n = 0; for (int k = 0; k < 7; k++) if (KINDS >> k & 1) list[n++] = k;
  a->kind = list[n > 1 ? sym_choose("kind", n) : 0]; a->v2 = 0;
  static const int64_t pick[] = {0, 1, -1, 52000, 2147483647, -2147483647LL - 1, 4294967296LL, 1LL << 61, (1LL << 61) + 1, INT64_MIN, INT64_MAX, 51997};
  switch (a->kind) { case 0: a->v = sym_choose("var", 2); break; case 1: { int64_t w = sym_param(5, 0); if (!w) a->v = (int64_t)sym_bits("int", 64); else { static const int64_t base[] = {0, 1LL << 32, 1LL << 61}; a->v = base[sym_choose("base", 3)] + sym_range("offset", -w, w); } } break; case 2: a->v = sym_param(5, 0) ? sym_range("real4", -sym_param(5, 0), sym_param(5, 0)) : sym_range("real4", -40000, 40000); break; case 3: case 4: a->v = sym_choose("name", 2); break;
    case 5: a->v = sym_choose("fun", 2); a->v2 = sym_choose("inner", 3); break; default: a->v = pick[sym_choose("listed", 12)]; }
}
static gint build(Unit *u) { gint c[3]; for (int i = 0; i < u->n; i++) c[i] = cellof(&u->a[i]); gint t = t_app(u->pred ? "q" : "p", u->n, c); rotp(g, t)[RECORD_META_POS] = RECORD_META_NOTDATA | RECORD_META_ATOM; return t; }
static void mkunit(Unit *u, int signs) { u->pred = 0; u->neg = signs ? sym_choose("negative", 2) : 0; u->n = AR; for (int i = 0; i < AR; i++) mkarg(&u->a[i]); u->atom = build(u); }
static int same(Unit *x, Unit *y) { int r = x->pred == y->pred && x->n == y->n; for (int i = 0; i < x->n && r; i++) { int ks = x->a[i].kind == y->a[i].kind || ((x->a[i].kind == 1 || x->a[i].kind == 6) && (y->a[i].kind == 1 || y->a[i].kind == 6)); r = ks && x->a[i].v == y->a[i].v && x->a[i].v2 == y->a[i].v2; } return r; }
static int ground(Unit *u) { for (int i = 0; i < u->n; i++) if (u->a[i].kind == 0 || (u->a[i].kind == 5 && u->a[i].v2 == 1)) return 0; return 1; }
static gint store(Unit *u, int n, Unit *more) {   // as a clause of the prover
  if (n == 1 && !u->neg && ground(u) && sym_choose("fact", 2)) u->cl = wr_convert_atom_fact_clause(g, rotp(g, u->atom), 0);
  else { u->cl = wr_create_rule_clause(g, n); for (int i = 0; i < n; i++) { Unit *w = i ? &more[i - 1] : u; wr_set_rule_clause_atom(g, u->cl, i, w->atom); wr_set_rule_clause_atom_meta(g, u->cl, i, w->neg ? ATOM_META_NEG : encode_smallint(0)); } }
  gint blk[CLMETABLOCK_ELS]; return wr_calc_clause_meta(g, u->cl, blk);
}
static void onebucket(gint h) { if (sym_param(3, 0)) rotp(g, h)[0] = 2; }
void sym_main(void) {
  t_init(4000000); int mode = sym_param(0, 0), n = sym_param(1, 2); KINDS = sym_param(2, 8); AR = sym_param(4, 1); static Unit u[6], q;
  wr_clear_all_varbanks(g); g->varstack[1] = 2; g->tmp_unify_vc = g->varstack + 1; g->instgen_strat = 0;
  onebucket(g->hash_pos_groundunits); onebucket(g->hash_neg_groundunits); onebucket(g->hash_pos_active_groundunits); onebucket(g->hash_neg_active_groundunits); onebucket(g->hash_atom_occurrences);
  if (mode == 2) {
    mkunit(&q, 0); gint other = build(&q); gint h1 = wr_lit_hash(g, q.atom), h2 = wr_lit_hash(g, other); sym_observe(h1);
    sym_assert(h1 == h2, "equal atoms have different hashes"); sym_assert(h1 >= 0, "a hash is negative"); int hi = (int)h1; sym_assert(hi == h1, "a hash does not fit the tables");
    gint a1 = t_arg(q.atom, 0), a2 = t_arg(other, 0); gint b1 = wr_term_basehash(g, a1); if (!isdatarec(a1)) { sym_assert(b1 == wr_term_basehash(g, a2), "equal constants have different hashes"); sym_assert(b1 >= 1 && b1 < NROF_CLTERM_HASHVEC_ELS - 1, "a hash is outside its table"); }
    gint c1 = wr_term_complexhash(g, NULL, 3, q.atom), c2 = wr_term_complexhash(g, NULL, 3, other); sym_assert(c1 == c2, "equal atoms have different position hashes"); sym_assert(c1 >= 0 && c1 < NROF_CLTERM_HASHVEC_ELS, "a position hash is outside its table");
    sym_cover(0); return;
  }
  if (mode == 0 || mode == 1) {
    int same_pol = 0, opp = 0;
    for (int i = 0; i < n; i++) { mkunit(&u[i], 1); gint meta = store(&u[i], 1, NULL); if (mode == 0) wr_add_cl_to_unithash(g, u[i].cl, meta); else wr_add_cl_to_active_unithash(g, u[i].cl); }
    mkunit(&q, 1); for (int i = 0; i < n; i++) if ((mode == 0 || ground(&u[i])) && same(&u[i], &q)) { if (u[i].neg == q.neg) same_pol = 1; else opp = 1; }
    if (mode == 0) {
      cvec fb = NULL; int r = wr_atom_cut_and_subsume(g, q.atom, q.neg ? ATOM_META_NEG : encode_smallint(0), &fb, 1); sym_observe(r);
      sym_assert(r == (same_pol ? -1 : opp ? 1 : 0), same_pol ? "a stored unit is not found" : opp ? "a stored unit of the other polarity is not found" : "an atom that was not stored is found");
      fb = NULL; int r2 = wr_atom_cut_and_subsume(g, q.atom, q.neg ? ATOM_META_NEG : encode_smallint(0), &fb, 0); sym_assert(r2 == opp, "the lookup of a unit of the other polarity fails");
      if (r2 == 1) { int ok = 0; for (int i = 0; i < n; i++) ok |= u[i].neg != q.neg && (gptr)fb == u[i].cl && same(&u[i], &q); sym_assert(ok, "the lookup returns another clause"); }
    } else { int r = wr_active_subsumed_lit(g, q.atom, q.neg); sym_observe(r); if (r) sym_assert(same_pol, "an atom that was not stored is found"); else sym_assert(!same_pol, "a stored unit is not found"); }
    sym_cover(same_pol ? 0 : opp ? 1 : 2);
  } else if (mode == 3) {
    int want[2] = {0, 0}, have = 0;
    for (int i = 0; i < n; i++) { mkunit(&u[i], 1); u[i].cl = (gptr)(gint)(1000 + i); wr_push_atomhash(g, rotp(g, g->hash_atom_occurrences), wr_lit_hash(g, u[i].atom), u[i].atom, u[i].cl, 0, u[i].neg); }
    mkunit(&q, 0); gint *nd = wr_find_atomhash_bucketnode(g, rotp(g, g->hash_atom_occurrences), q.atom, wr_lit_hash(g, q.atom));
    for (int i = 0; i < n; i++) if (same(&u[i], &q)) { have = 1; want[u[i].neg]++; }
    if (!have) { sym_assert(!nd, "occurrences of an atom that does not occur are found"); sym_cover(1); return; }
    sym_assert(nd != NULL, "the occurrences of an atom are not found"); if (!nd) return;
    for (int neg = 0; neg < 2; neg++) { cvec v = (cvec)nd[neg ? ATOMHASH_NEGCLAUSES_POS : ATOMHASH_POSCLAUSES_POS]; int c = 0; if (v) for (int j = 2; j < v[1]; j++) { int id = (int)v[j] - 1000; c++; sym_assert(id >= 0 && id < n && u[id].neg == neg && same(&u[id], &q), "an occurrence list holds another clause"); } sym_assert(c == want[neg], "an occurrence of an atom is lost"); }
    sym_cover(0);
  } else {
    vec h = rotp(g, g->hash_para_terms); int want = 0, got = 0;
    for (int i = 0; i < n; i++) { mkunit(&u[i], 0); u[i].cl = wr_create_rule_clause(g, 1); if (wr_clterm_add_hashlist(g, h, wr_term_basehash(g, t_arg(u[i].atom, 0)), u[i].atom, u[i].cl)) sym_fail("storing a term fails"); }
    mkunit(&q, 0); gint qh = wr_term_basehash(g, t_arg(q.atom, 0)); for (int i = 0; i < n; i++) want += same(&u[i], &q);
    gint node = wr_clterm_hashlist_start(g, h, qh); sym_assert(qh >= 1 && qh < VEC_LEN(h), "a hash is outside its table"); int steps = 0;
    while (node != 0) { sym_assert(++steps <= n, "a list of terms is too long"); if (steps > n) return; gptr p = otp(t_db, node); int hit = -1; for (int i = 0; i < n; i++) if (p[CLTERM_HASHNODE_TERM_POS] == u[i].atom) hit = i; sym_assert(hit >= 0, "a list of terms holds something that was not stored"); if (hit >= 0) { sym_assert(rotp(g, p[CLTERM_HASHNODE_CL_POS]) == u[hit].cl, "a term is listed with another clause"); got += same(&u[hit], &q); } node = wr_clterm_hashlist_next(g, h, node); }
    sym_assert(got == want, "a stored term is not found"); sym_cover(want ? 0 : 1);
  }
}
