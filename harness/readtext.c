// Reading text: whatever the bytes are, import returns, with no invalid access, abort or exit.
// params 0: 0 logic text 1 JSON, 1: which surrounding text, 2: arbitrary bytes, 3: 0 inserted 1 replacing, 4: positions from, 5: to (0: all)
//        6: a long token of about that many characters instead of arbitrary bytes
#include "terms.h"
#include "Builtparser/jsparse.h"
static const char *TEXT[] = {
  "",
  "p(a).",
  "fof(n,axiom,! [X] : (p(X) => ? [Y] : q(X,Y))).",
  "cnf(c,axiom,(p(X)|~q('a b',\"s\"))).",
  "p(1+2,3.5)|-a=b|X!=[1,c].",
  "/* c */ % x\np(2012-12-12,10:11:12)@0.5.",
  "fof(f(a),conjecture,~(a<=>b&c|d<~>e)).",
  "include('Axioms/x.ax').",
  "q(\"\"(X),f(''))|p([\"\"(a)]).",
};
static const char *JSON[] = {
  "",
  "[[\"p\",\"a\"]]",
  "[\"forall\",[\"X\"],[[\"p\",\"X\"],\"=>\",[\"exists\",[\"Y\"],[\"-q\",\"Y\",1,2.5]]]]",
  "{\"@id\":\"a\",\"@type\":\"c\",\"b\":[1,null,true],\"d\":{\"e\":\"f\"}}",
  "{\"@name\":\"n\",\"@role\":\"axiom\",\"@logic\":[[\"p\",\"?:X\"],\"&\",[\"?:X\",\"=\",\"b\"]]}",
  "[[\"if\",\"a\",\"b\",\"then\",\"c\",\"d\"],{\"@question\":[\"q\",\"?:Z\"]}]",
  "{\"@context\":{\"@vocab\":\"http:\\/\\/x\"},\"@graph\":[{\"a\":\"b\\u0041\"}]}",
  "[\"not\",[\"a\",\"<~>\",[\"b\",\"~&\",\"$true\"]]]",
  "[[\"p\",\"\\ud800\\\\?\\udc00\"]]",
  "[{\"@include\":\"x\"},[\"@list\",\"$list\",[\"and\"],[]]]",
};
// a token of many characters: @ is where it goes
static const char *LTEXT[] = { "p(@).", "p('@').", "p(\"@\").", "fof('@',axiom,p).", "fof(n,'@',p).", "@.", "p(X@,X@b) | q(X@).", "@(a) => ? [Y] : @(Y).", "fof('@',conjecture,! [X] : ? [Y] : p(X,Y)).", "p(?@).", "include('@').", "% @\np.", "p('a\\n@').", "/* @ */ p.", "cnf('@','@',p).", "a=@." };
static const char *LJSON[] = { "[[\"p\",\"@\"]]", "[[\"@\",\"a\"]]", "{\"@name\":\"@\",\"@logic\":[\"p\"]}", "{\"@id\":\"@\",\"b\":\"c\"}", "{\"@id\":\"a\",\"@type\":\"@\"}", "{\"@\":\"b\"}", "{\"a\":\"@\"}", "{\"@context\":{\"@vocab\":\"@\",\"b\":\"@\"},\"b\":\"c\",\"c\":\"b\"}", "{\"@context\":{\"x\":\"@\"},\"x:y\":\"x:z\",\"@type\":\"x:t\"}", "[[\"-@\",\"?:@\"],[\"~@\",\"?:@\"]]", "{\"@name\":\"@\",\"@role\":\"axiom\",\"@logic\":[\"forall\",[\"X\"],[\"exists\",[\"Y\"],[\"p\",\"X\",\"Y\"]]]}", "{\"@name\":\"@\",\"@logic\":[\"and\",\"a\",\"=>\",\"b\"]}", "{\"@name\":\"@\",\"@role\":\"@\",\"@logic\":[\"a\"]}", "[[\"p\",@]]", "[\"@\",\"and\",\"b\",\"or\",\"@\"]", "{\"@context\":{\"@base\":\"@\"},\"@id\":\"@\",\"@graph\":[{\"a\":\"b\"}]}" };
static const int LEN[] = {1, 49, 50, 99, 100, 101, 199, 255, 256, 499, 511, 512, 799, 800, 898, 899, 900, 901, 949, 950, 988, 989, 990, 991, 992, 993, 994, 995, 996, 997, 998, 999, 1000, 1001, 1010, 1022, 1023, 1024, 1025, 1026, 1999, 2000, 2047, 2048, 2049, 3000};
static void left(int c) { sym_fail("import of text ended the process"); }
void sym_main(void) {
  int js = (int)sym_param(0, 0), w = (int)sym_param(1, 0), n = (int)sym_param(2, 1), rep = (int)sym_param(3, 0), lo = (int)sym_param(4, 0), hi = (int)sym_param(5, 0);
  t_init(6000000);
  dbmemsegh(t_db)->strhash_area_header.arraylength = 1;
  char *b;
  if (sym_param(6, 0)) {
    if (w > 15) w = sym_choose("text", 16);
    const char *t = (js ? LJSON : LTEXT)[w], *base = t; int L = LEN[sym_choose("length", (int)(sizeof(LEN) / sizeof(int)))]; char c = "a1A/\\"[sym_choose("character", 5)], *d = b = malloc(4 * 3001 + 300);
    for (; *t; t++) if (*t == '@' && !(t > base && t[-1] == '"' && t[1] >= 'a' && t[1] <= 'z')) { memset(d, c, L); d += L; } else *d++ = *t;
    *d = 0;
  } else {
  const char *t = (js ? JSON : TEXT)[w]; int len = (int)strlen(t), pos, top = rep ? len - n : len;
  if (hi && hi < top) top = hi;
  pos = lo + (top > lo ? sym_choose("position", top - lo + 1) : 0);
  b = malloc(len + n + 1); memcpy(b, t, pos);
  sym_bytes("byte", b + pos, n); for (int i = 0; i < n; i++) sym_assume(b[pos + i] != 0);
  strcpy(b + pos + n, t + pos + (rep ? n : 0));
  }
  sym_on_exit(left); sym_must_terminate(400000000);
  cvec v = wr_cvec_new(g, 200); int ai = 0, r;
  if (sym_param(7, 0)) puts(b);
  if (js) r = wr_import_js_file(g, "string", b, v, 0, 0, &ai, 0); else r = wr_import_otter_file(g, "dir/string", b, v, 0);
  sym_assert(r == 0 || r == 1, "import returns neither success nor an error");
  sym_cover(r ? 1 : 0);
}
