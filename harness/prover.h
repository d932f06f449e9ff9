// Runs the whole prover on a text under a given strategy.
#pragma once
#include "g.h"
int wg_import_otter_string(void *db, char* instr, int iskb, int* informat);
int wg_import_js_string(void *db, char* instr, int iskb, int* informat, int askpolarity, int* askinfo, int is_streaming);
int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat, char* outfilename, char* guidestr);
static void *pr_db; static char *pr_out; static uint64_t pr_outn; static int pr_exit; static char *pr_outname = "/dev/null";
// 0: proof found; 1: search space exhausted; other: see wg_run_reasoner
static int pr_import(const char *txt, uint64_t size) {
  pr_db = wg_attach_local_database(size); if (!pr_db) sym_fail("no database"); int inf = 0;
  return wg_import_otter_string(pr_db, (char *)txt, 0, &inf);
}
static int pr_run(const char *guide, int printlevel) {
  dbmemsegh(pr_db)->printlevel = printlevel; dbmemsegh(pr_db)->max_forks = 0; dbmemsegh(pr_db)->max_seconds = 0;
  int r = wg_run_reasoner(pr_db, "t", NULL, 0, pr_outname, (char *)guide); return r;
}
