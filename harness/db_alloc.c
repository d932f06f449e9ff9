// The allocator.  param 0: area (0 data records, 1 long strings, 2 fixed-length areas), param 1: number of steps,
// params 2..: sizes (in words) an allocation can choose from.  The contents of live objects are symbolic.
#include "g.h"
static void *db; static db_area_header *A;
#define MAXO 24
static gint off[MAXO], len[MAXO]; static int64_t cont[MAXO][3]; static char live[MAXO]; static int no, nrec; static int64_t fill;
static void contents(void) { for (int i = 0; i < no; i++) if (live[i]) { int w[3] = {1, len[i] / 2, len[i] - 1}; for (int k = 0; k < 3; k++) if (k == 0 || w[k] != w[k - 1]) sym_assert(dbfetch(db, off[i] + 8 * w[k]) == cont[i][k], "the contents of a live object changed"); } }
static int inbucket(gint o, gint b) { int n = 0; for (gint x = A->freebuckets[b]; x; x = dbfetch(db, x + 8)) { if (x == o) n++; if (++n > 100) break; if (x == o) return 1; } return 0; }
static void walk(void) { // every subarea is tiled exactly by objects with consistent headers
  int nfree = 0; gint dv = A->freebuckets[DVBUCKET], dvs = A->freebuckets[DVSIZEBUCKET]; int seendv = 0, seenlive = 0;
  for (int s = 0; s <= A->last_subarea_index; s++) { gint p = A->subarea_array[s].alignedoffset, e = p + A->subarea_array[s].alignedsize; int prev = 0; // 0 used 1 free 2 dv
    sym_assert(p >= A->subarea_array[s].offset && e <= A->subarea_array[s].offset + A->subarea_array[s].size, "the usable part of a subarea is not inside it");
    sym_assert(dbfetch(db, p) == makespecialusedobjectsize(MIN_VARLENOBJ_SIZE), "the start marker of a subarea is damaged"); p += MIN_VARLENOBJ_SIZE; e -= MIN_VARLENOBJ_SIZE;
    while (p < e) { gint h = dbfetch(db, p), n;
      if (isfreeobject(h)) { n = getfreeobjectsize(h); sym_assert(prev == 0, "free neighbours are not merged"); nfree++; sym_assert(n >= MIN_VARLENOBJ_SIZE && p + n <= e && getfreeobjectsize(dbfetch(db, p + n - 8)) == n, "a free object has a wrong size"); sym_assert(inbucket(p, wg_freebuckets_index(db, n)), "a free object is missing from its free list"); prev = 1; }
      else if (isspecialusedobject(h)) { n = getspecialusedobjectsize(h); sym_assert(p == dv && n == dvs, "the designated victim is recorded wrongly"); sym_assert(prev == 0, "free neighbours are not merged"); seendv++; prev = 2; }
      else { n = getusedobjectsize(h); int k = -1; for (int i = 0; i < no; i++) if (live[i] && off[i] == p) k = i; sym_assert(k >= 0, "memory is lost: neither live nor free"); sym_assert(getusedobjectwantedgintsnr(h) == len[k], "a live object has a wrong recorded length"); sym_assert((int)isnormalusedobjectprevfree(h) == (prev == 1), "the previous-is-free mark of an object is wrong"); seenlive++; prev = 0; }
      sym_assert(n >= MIN_VARLENOBJ_SIZE && !(n & 7), "an object has an impossible size"); p += n; }
    sym_assert(p == e && dbfetch(db, e) == makespecialusedobjectsize(MIN_VARLENOBJ_SIZE), "the objects of a subarea do not tile it exactly"); }
  int nl = 0; for (int i = 0; i < no; i++) nl += live[i]; sym_assert(seenlive == nl && seendv == (dv != 0), "a live object or the designated victim is outside the area");
  int nb = 0; for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR; b++) { gint pr = 0; for (gint x = A->freebuckets[b]; x; x = dbfetch(db, x + 8)) { nb++; sym_assert(nb <= nfree, "a free list holds something that is not free"); if (pr) sym_assert(dbfetch(db, x + 16) == pr, "the back link of a free list is wrong"); pr = x; } }
  sym_assert(nb == nfree, "free lists and free objects differ");
}
static void alloc(int n) { gint o = wg_alloc_gints(db, A, n); sym_assert(o > 0 && !(o & 7), "allocation failed although memory is left"); if (no >= MAXO) sym_fail("too many"); int in = 0;
  for (int s = 0; s <= A->last_subarea_index; s++) if (o >= A->subarea_array[s].alignedoffset && o + 8 * n <= A->subarea_array[s].alignedoffset + A->subarea_array[s].alignedsize) in = 1; sym_assert(in, "an object is outside its area");
  for (int i = 0; i < no; i++) if (live[i]) sym_assert(o + 8 * n <= off[i] || o >= off[i] + 8 * len[i], "two live objects overlap");
  off[no] = o; len[no] = n; live[no] = 1; int w[3] = {1, n / 2, n - 1}; for (int j = 1; j < n; j++) dbstore(db, o + 8 * j, 0x1111 * (no + 1)); char nm[8] = "c0"; nm[1] += no; int64_t v = (int64_t)sym_bits(nm, 64); for (int k = 0; k < 3; k++) { cont[no][k] = v + w[k]; dbstore(db, o + 8 * w[k], cont[no][k]); } no++; }
static void frees(int i) { sym_assert(wg_free_object(db, A, off[i]) == 0, "freeing a live object fails"); live[i] = 0; sym_cover(1); }
static void fixed(void) { // fixed-length areas: an allocation past the first subarea, then symbolic frees and allocations
  int k = sym_choose("area", 5); db_memsegment_header *h = dbmemsegh(db); db_area_header *as[5] = {&h->listcell_area_header, &h->shortstr_area_header, &h->word_area_header, &h->doubleword_area_header, &h->tnode_area_header}; A = as[k]; int sz = A->objlength, n = INITIAL_SUBAREA_SIZE / sz + 3;
  static gint o[2000]; gint e0 = wg_alloc_fixlen_object(db, A); sym_assert(e0 > 0, "allocation fails"); int cnt = 0; o[cnt++] = e0; for (int i = 1; i < n; i++) { o[cnt] = wg_alloc_fixlen_object(db, A); sym_assert(o[cnt] > 0, "allocation fails although memory is left"); cnt++; }
  int nops = sym_param(1, 5); uint64_t *val = calloc(8, 2000); for (int i = 0; i < cnt; i++) { val[i] = 77 * i + 1; for (int j = 0; j < sz; j += 8) dbstore(db, o[i] + j, val[i] + j); }
  int cand[4] = {0, 1, cnt - 4, cnt - 1}; char dead[2000] = {0};
  for (int s = 0; s < nops; s++) { int c = sym_choose("op", 5); if (c == 4) { gint x = wg_alloc_fixlen_object(db, A); sym_assert(x > 0, "allocation fails although memory is left"); int in = 0; for (int a = 0; a <= A->last_subarea_index; a++) { gint b = A->subarea_array[a].alignedoffset; if (x >= b && x + sz <= b + A->subarea_array[a].alignedsize) { in = 1; sym_assert((x - b) % sz == 0, "a fixed-length object straddles two slots"); } } sym_assert(in, "an object is outside its area");
      for (int i = 0; i < cnt; i++) if (!dead[i]) sym_assert(x + sz <= o[i] || x >= o[i] + sz, "two live objects overlap"); o[cnt] = x; dead[cnt] = 0; val[cnt] = sym_bits("v", 64); for (int j = 0; j < sz; j += 8) dbstore(db, x + j, val[cnt] + j); cnt++; }
    else { int i = cand[c]; if (dead[i]) sym_end_path(); dead[i] = 1; sym_cover(1); if (k == 0) wg_free_listcell(db, o[i]); else if (k == 1) wg_free_shortstr(db, o[i]); else if (k == 2) wg_free_word(db, o[i]); else if (k == 3) wg_free_doubleword(db, o[i]); else wg_free_tnode(db, o[i]); } }
  for (int i = 0; i < cnt; i++) if (!dead[i]) for (int j = 0; j < sz; j += 8) sym_assert(dbfetch(db, o[i] + j) == (gint)(val[i] + j), "the contents of a live object changed"); sym_cover(0); }
void sym_main(void) {
  db = wg_attach_local_database(2000000); if (!db) sym_fail("no db"); int ar = sym_param(0, 0), st = sym_param(1, 6); if (ar == 2) { fixed(); return; }
  A = ar ? &dbmemsegh(db)->longstr_area_header : &dbmemsegh(db)->datarec_area_header; int ns = 0, sz[8]; while (ns < 8 && sym_param(3 + ns, 0)) { sz[ns] = sym_param(3 + ns, 0); ns++; }
  int first = sym_param(2, 3);
  for (int s = 0; s < st; s++) { int nl = 0, L[MAXO]; for (int i = 0; i < no; i++) if (live[i]) L[nl++] = i; int op = sym_choose("op", s < first ? ns : ns + nl); if (op < ns) alloc(sz[op]); else frees(L[op - ns]); walk(); }
  contents(); for (int i = 0; i < no; i++) if (live[i]) { frees(i); walk(); contents(); }
  // everything is free again: the largest object the first subareas can hold fits without extending the area
  int ls = A->last_subarea_index; gint big = 0; for (int s = 0; s <= ls; s++) if (A->subarea_array[s].alignedsize > big) big = A->subarea_array[s].alignedsize; int n = (big - 2 * MIN_VARLENOBJ_SIZE) / 8; gint o = wg_alloc_gints(db, A, n); sym_assert(o > 0 && A->last_subarea_index == ls, "freed memory is not reusable"); sym_cover(0);
}
