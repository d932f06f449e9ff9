// First-order clauses read from text, and their meaning in a finite interpretation whose predicate and
// function tables are symbolic.  Everything here is independent of the code under test.
#pragma once
#include "sym.h"
#define F_MAXN 90
#define F_MAXL 16
#define F_MAXV 8
typedef struct { short var; short sym; short n; short a[4]; } FNode;     // var>=0: variable
typedef struct { FNode nd[F_MAXN]; short nn; short lit[F_MAXL], neg[F_MAXL]; short n, nv; char vn[F_MAXV][20]; int bad; } FCl;
typedef struct { char name[28]; short ar; short pred; unsigned char v[128]; int have; int fixed; } FSym;
static FSym f_sym[160]; static int f_nsym; static int f_dom = 2;
static int f_symid(const char *nm, int ar, int pred) {
  for (int i = 0; i < f_nsym; i++) if (!strcmp(f_sym[i].name, nm) && f_sym[i].ar == ar && f_sym[i].pred == pred) return i;
  if (f_nsym >= 160) sym_fail("harness: too many symbols");
  FSym *s = &f_sym[f_nsym]; strncpy(s->name, nm, 27); s->ar = ar; s->pred = pred; s->have = 0; s->fixed = 0; return f_nsym++;
}
static const char *f_p;
static void f_ws(void) { while (*f_p == ' ' || *f_p == '\n' || *f_p == '\t') f_p++; }
static int f_tokch(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '$' || c == '?' || c == ':' || c == '#' || (c == '+' || c == '*' || c == '/'); }
static void f_tok(char *o) {
  int k = 0; if (*f_p == '\'') { do { o[k++] = *f_p++; } while (*f_p && *f_p != '\'' && k < 26); if (*f_p) o[k++] = *f_p++; o[k] = 0; return; }
  if (*f_p == '=' ) { o[k++] = *f_p++; o[k] = 0; return; }
  if (*f_p == '-' && f_p[1] >= '0' && f_p[1] <= '9') o[k++] = *f_p++;
  while (f_tokch(*f_p) && k < 26) { o[k++] = *f_p++; if (*f_p == '.' && f_p[1] >= '0' && f_p[1] <= '9') o[k++] = *f_p++; } o[k] = 0;
}
static int f_term(FCl *c, int pred);
static int f_mk(FCl *c) { if (c->nn >= F_MAXN) { c->bad = 1; return 0; } FNode *n = &c->nd[c->nn]; n->var = -1; n->n = 0; return c->nn++; }
static int f_term(FCl *c, int pred) {
  char t[32]; f_ws(); f_tok(t); if (!t[0]) { c->bad = 1; return 0; }
  int me = f_mk(c); 
  if (!pred && ((t[0] >= 'A' && t[0] <= 'Z') || t[0] == '?')) {
    int v = 0; while (v < c->nv && strcmp(c->vn[v], t)) v++; if (v == c->nv) { if (c->nv >= F_MAXV) { c->bad = 1; return 0; } strncpy(c->vn[c->nv++], t, 19); }
    c->nd[me].var = v; return me;
  }
  if (pred && !strcmp(t, "$pr") && *f_p == '(') { f_p++; f_ws(); f_tok(t); f_ws(); if (*f_p != ')') { c->bad = 1; return 0; } f_p++; c->nd[me].sym = f_symid(t, 0, 1); return me; }
  if (*f_p == '(') { f_p++; for (;;) { int x = f_term(c, 0); if (c->nd[me].n < 4) c->nd[me].a[c->nd[me].n++] = x; else c->bad = 1; if (c->bad) return 0; f_ws(); if (*f_p == ',') { f_p++; continue; } if (*f_p == ')') { f_p++; break; } c->bad = 1; return 0; } }
  c->nd[me].sym = f_symid(t, c->nd[me].n, pred); return me;
}
// one clause up to '.'; returns 0 when the text is not a clause.  Accepts a=b, a!=b, =(a,b), -p, ~p, false.
static int f_clause(FCl *c, const char **pp) {
  f_p = *pp; memset(c, 0, sizeof *c); 
  for (;;) {
    f_ws(); int neg = 0; while ((*f_p == '-' || *f_p == '~') ) { neg ^= 1; f_p++; f_ws(); }
    if (!strncmp(f_p, "false", 5) && !f_tokch(f_p[5])) { f_p += 5; } else {
    const char *save = f_p; int sn = c->nn, sv = c->nv; 
    int l; 
    // try "term = term" first
    int t1 = f_term(c, 0); f_ws(); int iseq = 0; if (!c->bad && (*f_p == '=' && f_p[1] != '(')) { iseq = 1; f_p++; } else if (!c->bad && f_p[0] == '!' && f_p[1] == '=') { iseq = 1; neg ^= 1; f_p += 2; }
    if (iseq) { int t2 = f_term(c, 0); l = f_mk(c); if (c->bad) return 0; c->nd[l].n = 2; c->nd[l].a[0] = t1; c->nd[l].a[1] = t2; c->nd[l].sym = f_symid("=", 2, 1); }
    else { f_p = save; c->nn = sn; c->nv = sv; c->bad = 0; l = f_term(c, 1); if (c->bad) return 0; }
    if (c->n >= F_MAXL) { c->bad = 1; return 0; } c->lit[c->n] = l; c->neg[c->n] = neg; c->n++; }
    f_ws(); if (*f_p == '|') { f_p++; continue; } if (*f_p == '.') f_p++; else if (*f_p && *f_p != '\n') { c->bad = 1; return 0; } break;
  }
  *pp = f_p; return 1;
}
static void f_intern(int s) { // give a symbol its table
  FSym *y = &f_sym[s]; if (y->have) return; y->have = 1; int n = 1; for (int i = 0; i < y->ar; i++) n *= f_dom; if (n > 128) sym_fail("harness: table too big");
  if (y->pred && !strcmp(y->name, "=")) return;
  for (int i = 0; i < n; i++) { char nm[64]; snprintf(nm, 64, "%s/%d.%d", y->name, y->ar, i); for (char *q = nm; *q; q++) if (*q == ' ') *q = '_'; y->v[i] = y->pred ? sym_bits(nm, 1) : (unsigned char)sym_range(nm, 0, f_dom - 1); }
}
static int f_eval_t(FCl *c, int nd, const int *asg) {
  FNode *n = &c->nd[nd]; if (n->var >= 0) return asg[n->var]; FSym *y = &f_sym[n->sym];
  if (y->pred && y->name[0] == '=' && !y->name[1]) return f_eval_t(c, n->a[0], asg) == f_eval_t(c, n->a[1], asg);
  if (y->pred && !strcmp(y->name, "$true")) return 1; if (y->pred && !strcmp(y->name, "$false")) return 0;
  int idx = 0, size = 1; for (int i = 0; i < n->n; i++) { idx = idx * f_dom + f_eval_t(c, n->a[i], asg); size *= f_dom; }
  f_intern(n->sym); unsigned r = 0; for (int i = 0; i < size; i++) { unsigned m = -(unsigned)(idx == i); r |= m & y->v[i]; } return (int)r;
}
static int f_eval(FCl *c) { // true in the interpretation (all variables universally quantified)
  int tot = 1; for (int i = 0; i < c->nv; i++) tot *= f_dom; int ok = 1;
  for (int k = 0; k < tot; k++) { int asg[F_MAXV], x = k; for (int i = 0; i < c->nv; i++) { asg[i] = x % f_dom; x /= f_dom; } int t = 0; for (int l = 0; l < c->n; l++) t |= f_eval_t(c, c->lit[l], asg) ^ c->neg[l]; ok &= t; }
  return ok;
}
