// The clauses made from a formula: their models are models of the formula, and whenever the formula is true in an
// interpretation the new symbols can be interpreted so that the clauses are true too.
// params 0: syntax (0 fof axiom 1 fof conjecture 2 plain formula), 1: index of the formula pattern, 2: kinds of binary connectives offered
#include "terms.h"
#include "fol.h"
int wr_import_js_file(glb*, char*, char*, cvec, int, int, int*, int);
// patterns, prefix notation: B chosen connective, N chosen negation, - negation, & | = > < ^ V A connectives, Qv chosen quantifier, !v ?v quantifiers,
// p s u w: propositions; q t unary, r binary, e equality, g equality g(v1)=v2, k: q(c), T F constants
static const char *PAT[] = {
  /*0*/ "BNBpsNu", "BpNBsNp", "=N=psNu", "BBpTBFs",
  /*4*/ "QxBNqxNk", "BQxqxQxtx", "QxBqxp", "QxQyrxy", "QxNQyNrxy",
  /*9*/ "QxBqxQyrxy", "QxBQyrxyqx", "QxQyBqxty", "QxQyBrxyqx", "NQxBqxNQytx",
  /*14*/ "QxBqxQxtx", "QxBqxQxBtxqx", "QxQyexy", "QxQyBexyqx", "Qxgxx", "QxQygxy",
  /*20*/ "Bqxp", "Bqxtx", "BqxQxtx", "BQyrxyqx", "rxy",
  /*25*/ "||&ps&uw&&pu&sw", "||&ps&uw||&su&pw&sp", "==ps=uw", "^^ps=uw", "QxB=qxp=txs",
  /*30*/ "|B&ps&uwB&pu&sw", "!x|&&qxp&txs|&qxs&txp", "!x!y?zBrxzryz", "?x!y?zBrxyryz", "!x?y|rxyQzryz",
  /*35*/ "!xBTBqxF", "BNTNF", "QxQyBBqxtyp", "?x?yBqxty", "!x?yBqx?zryz", "QxBBqxtxBqxs",
  /*41*/ "QxQyBrxyryx", "QxQyBNrxyNQzrzx", "!x|=qxp|=txs=pu", "Qx=qxQyrxy", "Qx^QyrxyQytx", "!y|Qx&qxtyQx|txqy",
  /*47*/ "|||&&ps&uw&&pu&sw&&pw&su&&ps&us", "-|&=ps=uw&=pu=sw", "!x|&=qxp=txs&=qxs=txp", "!x!y|&=qxty=txs&=qys=txp",
  /*51*/ "QxBqxQyBrxyQxBqxrxy", "QxQyBNrxyQxBqxNrxy", "QxQyQzBrxyryz", "QxBQyrxyQyryx", "NQxBQyBrxytyNqx", "QxBNQyrxyQygxy", "!x?y!z?xBrxyrzx", "!x?yB?xrxy!yrxy", "QxBTBqxQyBFrxy", "BQxqxNQxtx", "BBpsBuw", "=Qxqx=Qytyp",
  /*63*/ "BBBpsuBwNp",
  /*64: shapes of the JSON syntax */ "QxIqxtxQyrxy", "IQxqxBpsu", "QxLjxtxp", "QxQyLjxdxyrxy", "QxMqxtxNp", "KpBsuQxqx", "LIpsuwKpsu", "QxIjxtxs", "LjxdxyIqxtyrxy", "QxKqxQyrxyLjxps",
  /*74: list terms, in atoms that end up in several clauses */ "QxQyBmxymyx", "QxQy=qxmxy", "Qx^mxxNtx", "=Qxqx=Qymyyp", "!x|&mxctxs|&qxsmxc",
  /*79: four quantifiers */ "!x?y!z?vBBrxyrzvNexv", "QxQyQzQv&|rxyrzv-exv", "?x!y?z!vB=rxyrzvrxv", "!x!y?z?vBBrxzryvrzv",
  /*83: a quoted constant with the name of a variable (text only) */ "QxBqxn", "QxBnQyrxy", "NQxQyBqxBnty", "QxQyBoxqy", "QxBoxQyoy"
};
#define NPAT (int)(sizeof PAT / sizeof *PAT)
typedef struct { char op, v; int l, r, s; char a, b; } Frm;
static Frm fr[60]; static int nfr; static const char *pp_; static char tx[900]; static int syntax, fsym[16], nf0;
static void out(const char *s) { strcat(tx, s); }
static void outc(char c) { char b[2] = {c, 0}; out(b); }
static int js, plainvars;
static void outv(char c) { if (js) { out(plainvars ? "\"" : "\"?:"); outc(c - 'a' + 'A'); outc('"'); } else outc(c - 'a' + 'A'); }
static void outt(char c) { if (c == 'c') out(js ? "\"c\"" : "c"); else outv(c); }
static int addsym(const char *n, int ar, int pred) { return f_symid(n, ar, pred); }
static int gen(void) {
  int me = nfr++; if (nfr > 59) sym_fail("harness: formula too big"); Frm *f = &fr[me]; char c = *pp_++; memset(f, 0, sizeof *f);
  static const char *bins = "&|>=^<VA", *txt[] = {"&", "|", "=>", "<=>", "<~>", "<=", "~|", "~&"};
  if (c == 'N') { if (!sym_choose("negated", 2)) { nfr--; return gen(); } c = '-'; }
  if (c == '-') { f->op = '-'; out(js ? "[\"not\"," : "~ ("); f->l = gen(); out(js ? "]" : ")"); return me; }
  if (c == 'Q') c = sym_choose("exists", 2) ? '?' : '!';
  if (c == '!' || c == '?') { f->op = c; f->v = *pp_++; if (js) { out(c == '!' ? "[\"forall\",[" : "[\"exists\",["); outv(f->v); out("],"); f->l = gen(); out("]"); return me; } outc(c); out(" ["); outv(f->v); out("] : ("); f->l = gen(); out(")"); return me; }
  if (c == 'B') c = bins[sym_choose("connective", sym_param(2, 4))];
  const char *q = strchr(bins, c);
  if (q) { f->op = c; if (js) { out("["); f->l = gen(); out(",\""); out(c == '&' && sym_choose("word", 2) ? "and" : txt[q - bins]); out("\","); f->r = gen(); out("]"); return me; } out("("); f->l = gen(); out(") "); out(txt[q - bins]); out(" ("); f->r = gen(); out(")"); return me; }
  if (c == 'I') { // if a b then c : (a & b) => c
    f->op = '>'; int k = nfr++; out("[\"if\","); memset(&fr[k], 0, sizeof *f); fr[k].op = '&'; fr[k].l = gen(); out(","); fr[k].r = gen(); out(",\"then\","); f->l = k; f->r = gen(); out("]"); return me; }
  if (c == 'L' || c == 'M' || c == 'K') { // three parts: a list of disjuncts, an infix disjunction, an infix conjunction
    f->op = c == 'K' ? '&' : '|'; const char *sp = c == 'L' ? "," : c == 'M' ? ",\"|\"," : ",\"&\","; int k = nfr++; memset(&fr[k], 0, sizeof *f); fr[k].op = f->op; out("["); fr[k].l = gen(); out(sp); fr[k].r = gen(); out(sp); f->l = k; f->r = gen(); out("]"); return me; }
  if (c == 'j') { f->op = '-'; f->l = nfr++; Frm *h = &fr[f->l]; memset(h, 0, sizeof *h); h->op = 'a'; h->s = addsym("q", 1, 1); h->a = *pp_++; out("[\"-q\","); outv(h->a); out("]"); return me; }
  if (c == 'd') { f->op = '-'; f->l = nfr++; Frm *h = &fr[f->l]; memset(h, 0, sizeof *h); h->op = 'e'; h->a = *pp_++; h->b = *pp_++; if (js) out("["); outv(h->a); out(js ? ",\"!=\"," : " != "); outv(h->b); if (js) out("]"); return me; }
  f->op = 'a'; char nm[2] = {c, 0};
  switch (c) { case 'T': f->op = 'T'; out(js ? "true" : "$true"); return me; case 'F': f->op = 'F'; out(js ? "false" : "$false"); return me;
    case 'p': case 's': case 'u': case 'w': f->s = addsym(nm, 0, 1); if (js) out("[\""); out(nm); if (js) out("\"]"); return me;
    case 'q': case 't': f->s = addsym(nm, 1, 1); f->a = *pp_++; if (js) out("[\""); out(nm); out(js ? "\"," : "("); outv(f->a); out(js ? "]" : ")"); return me;
    case 'r': f->s = addsym(nm, 2, 1); f->a = *pp_++; f->b = *pp_++; out(js ? "[\"r\"," : "r("); outv(f->a); out(","); outv(f->b); out(js ? "]" : ")"); return me;
    case 'm': f->op = 'm'; f->s = addsym("m", 1, 1); f->l = addsym("$list", 2, 0); f->r = addsym("$nil", 0, 0); addsym("c", 0, 0); f->a = *pp_++; f->b = *pp_++; out(js ? "[\"m\",{\"@list\":[" : "m(["); outt(f->a); out(","); outt(f->b); out(js ? "]}]" : "])"); return me;
    case 'n': f->s = addsym("q", 1, 1); f->l = addsym("X", 0, 0); f->op = 'k'; out("q('X')"); return me;
    case 'o': f->s = addsym("r", 2, 1); f->l = addsym("X", 0, 0); f->op = 'o'; f->a = *pp_++; out("r('X',"); outv(f->a); out(")"); return me;
    case 'k': f->s = addsym("q", 1, 1); f->l = addsym("c", 0, 0); f->op = 'k'; out(js ? "[\"q\",\"c\"]" : "q(c)"); return me;
    case 'e': f->op = 'e'; f->a = *pp_++; f->b = *pp_++; if (js) out("["); outv(f->a); out(js ? ",\"=\"," : " = "); outv(f->b); if (js) out("]"); return me;
    case 'g': f->op = 'g'; f->s = addsym("g", 1, 0); f->a = *pp_++; f->b = *pp_++; out(js ? "[[\"g\"," : "g("); outv(f->a); out(js ? "],\"=\"," : ") = "); outv(f->b); if (js) out("]"); return me; }
  sym_fail("harness: bad pattern"); return 0;
}
static int env[128];
static int lst(unsigned char *L, int a, int b) { int r = 0; for (int i = 0; i < 4; i++) r |= L[i] & (a == i >> 1) & (b == (i & 1)); return r; }
static int truth(int i) {
  Frm *f = &fr[i]; int l, r;
  switch (f->op) { case '-': return 1 ^ truth(f->l); case '!': case '?': { int save = env[(int)f->v], a; env[(int)f->v] = 0; a = truth(f->l); env[(int)f->v] = 1; r = truth(f->l); env[(int)f->v] = save; return f->op == '!' ? a & r : a | r; }
    case 'T': return 1; case 'F': return 0; case 'a': { FSym *y = &f_sym[f->s]; return y->v[y->ar == 0 ? 0 : y->ar == 1 ? env[(int)f->a] : env[(int)f->a] * 2 + env[(int)f->b]]; }
    case 'm': { int n = f_sym[f->r].v[0], cs = f_symid("c", 0, 0), x = f->a == 'c' ? f_sym[cs].v[0] : env[(int)f->a], y = f->b == 'c' ? f_sym[cs].v[0] : env[(int)f->b]; int e2 = lst(f_sym[f->l].v, y, n), e1 = lst(f_sym[f->l].v, x, e2); FSym *q = &f_sym[f->s]; return (q->v[0] & (1 ^ e1)) | (q->v[1] & e1); }
    case 'k': { FSym *y = &f_sym[f->s]; int cv = f_sym[f->l].v[0]; return (y->v[0] & (1 ^ cv)) | (y->v[1] & cv); }
    case 'o': { FSym *y = &f_sym[f->s]; int cv = f_sym[f->l].v[0], a = env[(int)f->a]; return (y->v[a] & (1 ^ cv)) | (y->v[2 + a] & cv); }
    case 'e': return env[(int)f->a] == env[(int)f->b]; case 'g': return f_sym[f->s].v[env[(int)f->a]] == env[(int)f->b]; }
  l = truth(f->l); r = truth(f->r);
  switch (f->op) { case '&': return l & r; case '|': return l | r; case '>': return (1 ^ l) | r; case '<': return l | (1 ^ r); case '=': return 1 ^ l ^ r; case '^': return l ^ r; case 'V': return 1 ^ (l | r); default: return 1 ^ (l & r); }
}
// clause records to clauses with a meaning
static gint cvv[F_MAXV];
static int cv(FCl *c, gint t, int pred) {
  int me = f_mk(c); if (c->bad) return 0;
  if (isvar(t)) { int v = 0; while (v < c->nv && cvv[v] != t) v++; if (v == c->nv) { if (v >= F_MAXV) { c->bad = 1; return 0; } cvv[c->nv++] = t; } c->nd[me].var = v; return me; }
  gint f = t; int n = 0; if (isdatarec(t)) { f = t_fun(t); n = t_nargs(t); }
  if (n > 4) { c->bad = 1; return 0; }
  char *nm = wg_get_encoded_type(t_db, f) == WG_URITYPE ? wg_decode_uri(t_db, f) : NULL; if (!nm) { c->bad = 1; return 0; }
  if (pred && n == 1 && (!strcmp(nm, "$pr") || !strcmp(nm, "$p"))) { gint a = t_arg(t, 0); c->nd[me].sym = f_symid(wg_decode_uri(t_db, a), 0, 1); return me; }
  for (int i = 0; i < n; i++) { int x = cv(c, t_arg(t, i), 0); c->nd[me].a[c->nd[me].n++] = x; if (c->bad) return 0; }
  c->nd[me].sym = f_symid(nm, n, pred); return me;
}
static FCl C[900];
static void clause(FCl *c, gptr r) {
  memset(c, 0, sizeof *c);
  if (wg_rec_is_rule_clause(t_db, r)) { int n = wg_count_clause_atoms(t_db, r); for (int i = 0; i < n; i++) { if (c->n >= F_MAXL) { c->bad = 1; return; } gint a = wg_get_rule_clause_atom(t_db, r, i); c->lit[c->n] = cv(c, a, 1); c->neg[c->n++] = wg_atom_meta_is_neg(t_db, wg_get_rule_clause_atom_meta(t_db, r, i)) ? 1 : 0; } }
  else { c->lit[0] = cv(c, rpto(g, r), 1); c->neg[0] = 0; c->n = 1; }
  if (c->bad) sym_fail("harness: a clause is too big");
}
static int all(void) { int ok = 1; for (int i = 0; i < t_ncl; i++) ok &= f_eval(&C[i]); return ok; }
void sym_main(void) {
  t_init(3000000); f_dom = 2; syntax = sym_param(0, 0); int pat; pp_ = PAT[(pat = sym_param(1, 0)) + sym_choose("pattern", sym_param(3, 1))];
  js = syntax >= 3; if (js && syntax < 5) plainvars = 0; if (syntax == 5) { plainvars = 1; }
  out(syntax == 0 ? "fof(a,axiom,(" : syntax == 1 ? "fof(a,conjecture,(" : syntax == 4 ? "[{\"@role\":\"conjecture\",\"@logic\":" : syntax == 5 ? "[{\"@name\":\"n\",\"@logic\":" : syntax == 3 ? "[" : ""); gen(); out(syntax < 2 ? "))." : syntax == 2 ? "." : syntax == 3 ? "]" : "}]");
  int neg = syntax == 1 || syntax == 4;
  for (int i = 0; i < f_nsym; i++) f_intern(i); nf0 = f_nsym; if (getenv("SHOW")) printf("%s\n", tx);
  if (js) { cvec v = wr_cvec_new(g, 200); int ai = 0; wr_import_js_file(g, "string", tx, v, 0, 0, &ai, 0); t_ncl = 0; for (gint i = 2; i < v[1]; i++) t_cl[t_ncl++] = (gptr)v[i]; }
  else t_parse(tx);
   sym_assert(!g->parse_errflag, "a well-formed formula is refused");
  for (int i = 0; i < t_ncl; i++) clause(&C[i], t_cl[i]);
  // variables left free are universally quantified
  int F = 1; for (int k = 0; k < 8; k++) { env['x'] = k & 1; env['y'] = k >> 1 & 1; env['z'] = k >> 2; F &= truth(0); } if (neg) F ^= 1;
  int Cl = all(); sym_assert((1 ^ Cl) | F, neg ? "the clauses can be true when the negated conjecture is false" : "the clauses can be true when the formula is false");
  long combos = 1; for (int i = nf0; i < f_nsym && combos < 5000; i++) if (strcmp(f_sym[i].name, "=")) combos <<= 1 << f_sym[i].ar;
  const char *m2 = neg ? "the clauses cannot be true although the negated conjecture is" : "the clauses cannot be true although the formula is";
  if (combos < 5000) {
    int any = 0; for (long k = 0; k < combos; k++) { long x = k; for (int i = nf0; i < f_nsym; i++) if (strcmp(f_sym[i].name, "=")) for (int j = 0; j < 1 << f_sym[i].ar; j++) { f_sym[i].v[j] = x & 1; x >>= 1; } any |= all(); }
    sym_assert((1 ^ F) | any, m2);
  } else if (F) {   // many new symbols: one path for every interpretation, and a query for the new symbols
    for (int i = 0; i < nf0; i++) { int n = 1 << f_sym[i].ar; for (int j = 0; j < n; j++) f_sym[i].v[j] = sym_concretize(f_sym[i].v[j]); }
    sym_assert(sym_feasible(all()), m2); sym_cover(2);
  }
  sym_observe(t_ncl); sym_cover(0); if (f_nsym > nf0 + 1) sym_cover(1);
}
