// Printed proofs and answers.  Every step marked as input is equivalent to an input clause, every derived step is implied by the
// steps it cites, the last step is the empty clause or the reported answer; reported answers are implied by the input.
// param 0/1: first and last problem, 2/3: first and last strategy, 4: 1 = no answer may be missing, 5: constants per placeholder, 6: most answers, 7: 1 = TPTP form, 2 = JSON form
#include "pset.h"
static const char *QUEST[] = {
/*0*/"-q(X,Y) | $ans(X). -p(X) | q(X,X). p(a) | p(k0). p(k1). q(k2,a). ",
/*1*/"-q(X,Y) | $ans(X,Y). q(X,Y) | -p(X) | -p(Y). p(k0) | r(k1). -r(X) | p(X). p(k2). ",
/*2*/"-p(X) | $ans(X). p(X) | -q(X,k0). q(X,a) | -q(a,X). q(a,b) | p(k1). q(k2,a). ",
/*3*/"-p(X) | -q(X,Y) | $ans(Y). p(k0). p(k1) | r. -r. q(a,k2). q(b,a) | p(b). q(X,k3) | -p(X). ",
/*4*/"-anc(a,X) | $ans(X). anc(X,Y) | -par(X,Y). anc(X,Z) | -par(X,Y) | -anc(Y,Z). par(a,k0). par(k1,b). par(b,k2). ",
/*5*/"-p(X) | $ans(X). -s(X) | $ans(X). p(k0) | s(k1). -p(a) | s(b). p(X) | -r(X). r(k2). ",
// 6-: with equality and functions
/*6*/"-p(X) | $ans(X). p(g(k0)). g(a)=b. p(X) | q(X,X). -q(k1,b) | r. -r. ",
/*7*/"-q(f(X),Y) | $ans(X,Y). q(f(k0),a) | q(f(b),k1). q(f(f(a)),X) | -p(X). p(k2). a=f(b). ",
/*8*/"-e(X,k0) | $ans(X). e(X,X). e(f(X),Y) | -e(X,g(Y)). g(k1)=a. f(b)=k2. e(X,Y) | -e(Y,X). ",
/*9*/"-p(X) | $ans(X). -p(X) | X=a | X=b. p(k0) | p(k1). k2=b. p(X) | -r(X,Y). r(k1,a). ",
// 10-: some of them contradictory without the question, so that there are proofs without an answer
/*10*/"-p(X) | $ans(X). p(k0). p(a). q(k1). -q(b). -p(k2). ",
/*11*/"-p(X) | $ans(X). p(a) | p(k0). q(k1). -q(X) | r(X). -r(a). -p(k2) | s. -s. p(b). ",
};
typedef struct { FCl c; int id, npar, par[12], prop; } Step; // prop: a step over the numbers of propositional variables
static Step st[60]; static int nst; static FCl ans[12]; static int nans;
static int equivalent(FCl *d) { for (int i = 0; i < nin; i++) if (!sym_feasible(f_eval(d) != f_eval(&in[i]))) return 1; return 0; }
static int onlyans(FCl *c) { for (int i = 0; i < c->n; i++) if (strncmp(f_sym[c->nd[c->lit[i]].sym].name, "$ans", 4) || c->neg[i]) return 0; return 1; }
static int basis(int i) { if (!st[i].prop) return f_eval(&st[i].c); int r = 1; for (int a = 0; a < st[i].npar; a++) r &= basis(st[i].par[a]); return r; }
// the TPTP and JSON forms are rewritten to the plain one, line by line, before the steps are judged
static char *jq; static char *jo; static int jbad;
static void jput(const char *t) { while (*t) *jo++ = *t++; }
static void jstr(int negok) { // a JSON string: a symbol or ?:variable
  if (*jq != '"') { jbad = 1; return; } jq++; if (!strncmp(jq, "?:", 2)) { jq += 2; jput("V"); } if (*jq == '-' && !negok) jbad = 1;
  while (*jq && *jq != '"' && *jq != '\\') *jo++ = *jq++; if (*jq != '"') jbad = 1; else jq++; }
static void jterm(void) {
  if (*jq == '"') { jstr(0); return; } if (*jq != '[') { jbad = 1; return; } jq++; jstr(1); int k = 0;
  while (*jq == ',' && !jbad) { jq++; while (*jq == ' ') jq++; jput(k++ ? "," : "("); jterm(); } if (k) jput(")"); if (*jq != ']') jbad = 1; else jq++; }
static void jlit(void) {
  int d = 0; char *e = jq; const char *op = NULL; if (!strncmp(jq, "[\"=\", ", 7)) op = "=", d = 7; else if (!strncmp(jq, "[\"=\",", 6)) op = "=", d = 6; else if (!strncmp(jq, "[\"-=\", ", 8)) op = "!=", d = 8; else if (!strncmp(jq, "[\"-=\",", 7)) op = "!=", d = 7; (void)e;
  if (!op) { jterm(); return; } jq += d; jterm(); while (*jq == ' ') jq++; if (*jq != ',') { jbad = 1; return; } jq++; while (*jq == ' ') jq++; jput(op); jterm(); if (*jq != ']') jbad = 1; else jq++; }
static void jclause(void) { // [lit, lit] or false
  if (!strncmp(jq, "false", 5)) { jput("false"); jq += 5; return; } if (*jq != '[') { jbad = 1; return; } jq++;
  for (int k = 0; !jbad; k++) { while (*jq == ' ') jq++; if (k) jput(" | "); jlit(); if (*jq == ',') { jq++; continue; } if (*jq == ']') { jq++; break; } jbad = 1; } }
static char canon[30000];
static char *plain(char *o, uint64_t n, uint64_t *m, int form) {
  jo = canon; int inp = 0, open = 0;
  for (uint64_t i = 0; i < n; i++) if (i == 0 || o[i - 1] == '\n') {
    if (jo - canon > 28000) sym_fail("harness: output too long");
    char *l = o + i, *e = memchr(l, '\n', n - i); if (!e) break; *e = 0; jq = l;
    if (form == 1) {
      if (!strncmp(l, "answer: ", 8)) { sym_assert(l[8] == '(' && e[-1] == ')', "a TPTP answer is not in parentheses"); jput("answer: "); for (char *q = l + 9; q < e - 1; q++) *jo++ = *q == '~' ? '-' : *q; jput("\n"); }
      else if (!strncmp(l, "% SZS output start", 18)) jput("proof:\n");
      else if (!strncmp(l, "cnf('", 5)) { jput(""); char *b; strtol(l + 5, &b, 10); jq = l + 5; while (jq < b) *jo++ = *jq++;
        sym_assert(!strncmp(b, "', plain, (", 11), "a TPTP proof step does not have the form of an annotated formula"); char *c = b + 10, *k = e - 1;
        int last = *k == '.' ; if (last) sym_assert(k[-1] == ')', "a TPTP proof step is not closed"), k--; else sym_assert(*k == ',', "a TPTP proof step ends in the middle");
        // the source comes on the next line of a derived step
        jput(": ["); if (last) jput("in,axiom");
        else { char *s = e + 1, *f = memchr(s, '\n', n - (s - o)); sym_assert(f != NULL && !strncmp(s, "  inference(", 12) && !strncmp(f - 4, "']))."+1, 4), "a TPTP inference record is malformed"); char *q = f - 4; while (q > s && *q != '[') q--; jput("mp"); int dep = 0; 
          for (q++; q < f - 4; q++) { if (*q == '\'') dep ^= 1; else if (dep) { if (q[-1] == '\'') jput(","); *jo++ = *q; } else sym_assert(*q == ',', "a TPTP parent list is malformed"); } }
        jput("] "); sym_assert(*c == '(' && k[-1] == ')', "a TPTP clause is not in parentheses"); int d = 0; for (char *q = c; q < k; q++) { d += *q == '('; d -= *q == ')'; sym_assert(d > 0 || q == k - 1, "a TPTP clause is not in parentheses"); } sym_assert(d == 0, "a TPTP clause has unbalanced parentheses");
        if (k - c == 8 && !strncmp(c, "($false)", 8)) jput("false"); else for (char *q = c + 1; q < k - 1; q++) *jo++ = *q == '~' ? '-' : *q; jput("\n"); }
      else if (!strncmp(l, "  inference(", 12)) { }
      else if (!strncmp(l, "% SZS output end", 16)) jput("\n");
    } else {
      if (!strncmp(l, "\"answer\": ", 10)) { jq = l + 10; jput("answer: "); jclause(); sym_assert(!jbad && jq[0] == ',' && !jq[1], "a JSON answer is malformed"); jput(".\n"); }
      else if (!strcmp(l, "\"proof\":")) { jput("proof:\n"); inp = 1; open = 1; }
      else if (inp && !strcmp(l, "[")) { }
      else if (inp && l[0] == '[' && l[1] >= '0' && l[1] <= '9') { sym_assert(open, "a JSON proof step is not separated from the one before"); char *b; strtol(l + 1, &b, 10); for (char *q = l + 1; q < b; q++) *jo++ = *q;
        jput(": "); jq = b + 2; sym_assert(b[0] == ',' && b[1] == ' ' && *jq == '[', "a JSON proof step is malformed"); int d = 0, in = !strncmp(jq, "[\"in\"", 5); jput("["); for (;; jq++) { sym_assert(*jq != 0, "a JSON proof step is malformed"); if (*jq == '[') d++; if (*jq == ']') d--; if (d == 0) break; if (*jq == '"' || *jq == '[' || *jq == ']' || *jq == ' ') continue; if (d == 2 && !in && *jq == ',') { jput("."); continue; } *jo++ = *jq; }
        jput("] "); sym_assert(jq[1] == ',' && jq[2] == ' ', "a JSON proof step is malformed"); jq += 3; jclause(); sym_assert(!jbad && *jq == ']', "a JSON proof step has a malformed clause"); open = jq[1] == ','; sym_assert(open ? !jq[2] : !jq[1], "a JSON proof step is malformed"); jput("\n"); }
      else if (inp) { sym_assert(!open && (!strcmp(l, "]}") || !strcmp(l, "]},")), "a JSON proof is not closed"); jput("\n"); inp = 0; }
    }
    *e = '\n';
  }
  *jo = 0; *m = jo - canon; return canon;
}
static int complete, mx, form; static const char *txt;
static void check(int r) {
  sym_capture(0); sym_on_exit(NULL); sym_observe(r == 0);
  uint64_t n; char *o = sym_captured(&n);
  if (getenv("SHOW")) printf("%s\n%.*s\nresult %d\n", txt, (int)n, o, r);
  if (form) { o = plain(o, n, &n, form); if (getenv("SHOW")) printf("%s", o); }
  f_dom = complete ? K : 2;
  if (complete) for (int i = 0; i < K; i++) { char c[2] = {'a' + i, 0}; int y = f_symid(c, 0, 0); f_sym[y].have = 1; f_sym[y].v[0] = i; }
  meaning(); f_symid("$pr", 1, 0); f_symid("=", 2, 0); f_symid("=", 2, 1); int ax = all_true(), proofs = 0, inproof = 0, n0 = f_nsym, pending = 0, ended = 0;
  for (uint64_t i = 0; i < n; i++) if (i == 0 || o[i - 1] == '\n') {
    char *l = o + i, *e = memchr(l, '\n', n - i); if (!e) break; *e = 0;
    if (!strncmp(l, "answer: ", 8)) { const char *t = l + 8; sym_assert(nans < 12 && f_clause(&ans[nans], &t) && f_nsym == n0, "an answer is not a clause over the input's symbols"); sym_assert(!ax | f_eval(&ans[nans]), "a reported answer does not follow from the input"); sym_assert(onlyans(&ans[nans]), "a reported answer is more than an answer"); nans++; pending = 1; }
    else if (!strcmp(l, "proof:")) { inproof = 1; nst = 0; proofs++; }
    else if (inproof && !*l) { // end of a proof
      inproof = 0; sym_assert(nst > 0, "an empty proof"); FCl *z = &st[nst - 1].c;
      if (pending) { sym_assert(onlyans(z) && !sym_feasible(f_eval(z) != f_eval(&ans[nans - 1])), "the last step of a proof is not the answer"); pending = 0; }
      else sym_assert(z->n == 0, "the last step of a proof is not the empty clause");
      ended++;
    } else if (inproof) {
      if (nst == 60) sym_fail("harness: proof too long");
      Step *x = &st[nst]; char *b; memset(x, 0, sizeof *x); x->id = (int)strtol(l, &b, 10); sym_assert(x->id == nst + 1 && *b == ':', "proof steps are not numbered in order");
      char *k = strchr(b, '['), *ke = k ? strchr(k, ']') : NULL; sym_assert(k && ke, "a proof step without its source");
      int isin = !strncmp(k, "[in,", 4) || !strncmp(k, "[in]", 4);
      if (!isin) for (char *c = strchr(k, ','); c && c < ke; c = strchr(c + 1, ',')) { char *d = c + 1; while (*d == ' ') d++; if (*d >= '0' && *d <= '9') { int pn = atoi(d); sym_assert(pn >= 1 && pn <= nst, "a proof step cites a step that is not before it"); if (x->npar < 12) x->par[x->npar++] = pn - 1; } }
      const char *t = ke + 1; while (*t == ' ') t++;
      if (!isin && !strncmp(k, "[inst,", 6) && (*t == '-' || (*t >= '0' && *t <= '9'))) { x->prop = 1; nst++; *e = '\n'; continue; }
      int isf = !strcmp(t, "false"); if (!isf) sym_assert(f_clause(&x->c, &t) && f_nsym == n0, "a proof step is not a clause over the input's symbols"); else x->c.n = 0;
      if (isin) sym_assert(equivalent(&x->c), "a proof step marked as input is not an input clause");
      else { sym_assert(x->npar > 0, "a derived proof step cites no step"); int pa = 1; for (int a = 0; a < x->npar; a++) pa &= basis(x->par[a]); sym_assert(!pa | (isf ? 0 : f_eval(&x->c)), "a proof step does not follow from the steps it cites"); }
      nst++;
    }
    *e = '\n';
  }
  sym_assert(!inproof && !pending && ended == proofs, "a proof is cut short");
  sym_assert(mx > 1 && proofs > 0 ? 1 : (r == 0) == (proofs > 0), "the verdict and the presence of a proof disagree"); sym_observe(proofs); sym_observe(nans);
  sym_cover(proofs ? 0 : 2); if (nans > 1) sym_cover(1);
  if (complete && nans < mx) { // every definite answer has been reported
    for (int i = 0; i < 4; i++) pk[i] = (int)sym_concretize((uint64_t)pk[i]); meaning(); ax = all_true();
    for (int y = 0; y < f_nsym; y++) if (!strcmp(f_sym[y].name, "$ans") && f_sym[y].pred) { int ar = f_sym[y].ar, tot = 1; for (int a = 0; a < ar; a++) tot *= K;
      for (int k = 0; k < tot; k++) { int have = 0;
        for (int a = 0; a < nans; a++) if (ans[a].n == 1) { FCl *c = &ans[a]; int ok = 1, bind[F_MAXV]; for (int v = 0; v < F_MAXV; v++) bind[v] = -1;
          for (int z = 0, d = tot; z < ar; z++) { d /= K; int want = k / d % K; FNode *m = &c->nd[c->nd[c->lit[0]].a[z]]; if (m->var >= 0) { if (bind[m->var] >= 0 && bind[m->var] != want) ok = 0; bind[m->var] = want; } else ok &= f_sym[m->sym].v[0] == want && f_sym[m->sym].ar == 0; }
          have |= ok; }
        int idx = k; if (!have) { f_intern(y); sym_assert(sym_feasible(ax & (f_sym[y].v[idx] == 0)), "an entailed answer is not reported"); } } }
  }
}
static void left(int c) { check(c); sym_end_path(); }
void sym_main(void) { sym_budget(150000000);
  int lo = sym_param(0, 0), hi = sym_param(1, 0), sl = sym_param(2, 0), sh = sym_param(3, 0); complete = sym_param(4, 0), mx = sym_param(6, 1); K = sym_param(5, 2);
  int p = lo + sym_choose("problem", hi - lo + 1), s = sl + sym_choose("strategy", sh - sl + 1); txt = p >= 100 ? QUEST[p - 100] : PROB[p]; int ms = 20, md = 4, ml = 5; if (*txt == '@') { ms = atoi(txt + 1); md = txt[4] - '0'; ml = txt[6] - '0'; txt += 8; }
  const char *q = txt; while (nin < 24) { while (*q == ' ') q++; if (!*q) break; if (!f_clause(&in[nin], &q)) sym_fail("harness: problem text"); nin++; }
  if (pr_import(txt, 20000000)) sym_fail("the problem is rejected");
  patch(pr_db); form = (int)sym_param(7, 0); dbmemsegh(pr_db)->tptp = form == 1; dbmemsegh(pr_db)->json = form == 2;
  static char guide[400]; snprintf(guide, 400, "{\"print\":1,\"max_seconds\":%d,\"print_level\":15,\"max_answers\":%d,\"max_size\":%d,\"max_depth\":%d,\"max_length\":%d,%s}", complete ? 0 : s % 2 + 1, mx, ms, md, ml, STRAT[s]);
  pr_outname = NULL; sym_on_exit(left); sym_capture(1); int r = pr_run(guide, 15); check(r);
}
