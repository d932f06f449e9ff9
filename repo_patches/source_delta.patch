From d03d7e29ddc2cac32a7aee8a6a56e82eed78700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 01/45] fix: evaluate $is_list, $is_atom and $is_distinct as
 tests instead of as $first

---
 Reasoner/build.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..6384a99 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
-- 
2.43.0


From e8b38819dc9a3e4645946b7e8ee92bd8c0807cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 02/45] fix: numerically equal integers and reals satisfy
 $lesseq and $greatereq

---
 Reasoner/build.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 6384a99..03e9040 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1294,6 +1294,7 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (ad==bd) return ifequal; // numerically equal, like 1 and 1.0
     if (isless) {
       if (ad < bd) return ACONST_TRUE;
       else return ACONST_FALSE; 
-- 
2.43.0


From 5e098fbef3d97ca7257b4f69136af2b39b03fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 03/45] fix: exact quotients and remainders of the Euclidean,
 truncating and flooring kind

---
 Reasoner/build.c | 84 ++++++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 03e9040..ffad523 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -89,6 +89,44 @@ static int wr_gint_mul_checked(gint a,gint b,gint* result) {
   return 1;
 }
 
+/* Exact integer division: the quotient and remainder of the truncating, 
+   flooring or Euclidean kind asked for by a quotient/remainder comp.
+   Returns 0 if the result cannot be represented. */
+
+static int wr_gint_divide_checked(int comp,gint a,gint b,gint* quotient,gint* remainder) {
+  gint q,r;
+
+  if (!b) return 0;
+  if (b==-1) {
+    *remainder=0;
+    if (a==(gint)INTPTR_MIN) {
+      *quotient=0;
+      return (comp==COMP_FUN_REMAINDER_E || comp==COMP_FUN_REMAINDER_T || 
+              comp==COMP_FUN_REMAINDER_F);
+    }
+    *quotient=0-a;
+    return 1;
+  }
+  q=a/b;
+  r=a%b;
+  if (comp==COMP_FUN_QUOTIENT_E || comp==COMP_FUN_REMAINDER_E) {
+    if (r<0) {
+      // remainder is never negative
+      if (b>0) { q=q-1; r=r+b; }
+      else { q=q+1; r=r-b; }
+    }
+  } else if (comp==COMP_FUN_QUOTIENT_F || comp==COMP_FUN_REMAINDER_F) {
+    if (r && ((r<0)!=(b<0))) {
+      // remainder has the sign of the divisor
+      q=q-1;
+      r=r+b;
+    }
+  }
+  *quotient=q;
+  *remainder=r;
+  return 1;
+}
+
 static int wr_double_to_gint_checked(double value,gint* result) {
   if (!isfinite(value) ||
       (long double)value<(long double)INTPTR_MIN ||
@@ -1310,7 +1348,7 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
   gint len;
   gint a,b;
   gint atype, btype;
-  gint ai,bi,ri;
+  gint ai,bi,ri,itmp;
   double ad,bd,rd;
    
   //printf("wr_compute_fun_arith2 called\n");
@@ -1342,32 +1380,14 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         ri=ai / bi;
         break;  
       case COMP_FUN_QUOTIENT_E:
-        if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;  
       case COMP_FUN_QUOTIENT_T:
-        if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
       case COMP_FUN_QUOTIENT_F:
-        if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (!wr_gint_divide_checked(comp,ai,bi,&ri,&itmp)) return encode_record(db,tptr);
         break;   
       case COMP_FUN_REMAINDER_E:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;  
       case COMP_FUN_REMAINDER_T:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;   
       case COMP_FUN_REMAINDER_F:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (!wr_gint_divide_checked(comp,ai,bi,&itmp,&ri)) return encode_record(db,tptr);
         break;      
       default:
         return encode_record(db,tptr);
@@ -1396,8 +1416,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1414,24 +1434,12 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         return wg_encode_int(g->local_db,ri);
         break;  
       case COMP_FUN_REMAINDER_E:       
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);        
-        break;  
       case COMP_FUN_REMAINDER_T:        
+      case COMP_FUN_REMAINDER_F:        
         if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
-          return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        return wg_encode_int(g->local_db,ri);
-        break;   
-      case COMP_FUN_REMAINDER_F:
-        if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
+            !wr_double_to_gint_checked(bd,&bi) ||
+            !wr_gint_divide_checked(comp,ai,bi,&itmp,&ri))
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
         return wg_encode_int(g->local_db,ri);
         break;      
       default: 
-- 
2.43.0


From 474909539a6ea230dbe428a22fc1e61224e4705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:32 +0000
Subject: [PATCH 04/45] fix: $substrat compares the whole string, and substring
 tests apply to distinct symbols only

---
 Reasoner/build.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index ffad523..f843fd7 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1468,6 +1468,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // defined for distinct symbols only
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
@@ -1478,16 +1480,17 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       else return ACONST_TRUE;
       break;
     case COMP_FUN_IS_SUBSTRAT: 
+      if (len<(g->unify_firstuseterm)+4) return encode_record(db,tptr);
       c=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)+1];
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
+      if (ci<0) return ACONST_FALSE;
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
+      if (ci>len) return ACONST_FALSE;
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      if (len2+ci>len) return ACONST_FALSE;
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From 31f2ab19a66c6eabddd80ecf81aaec1b3852bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:39 +0000
Subject: [PATCH 05/45] fix: matching a constant against a compound term must
 not decode the constant as a record

---
 Reasoner/unify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..0533f4e 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant, not equal to y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // x is a constant, not equal to y
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -481,6 +483,8 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 0;  
+    if (isvar(y)) return 1;
+    return 2; // x is a constant, not equal to y
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
-- 
2.43.0


From 8125dbad4ec81acb343239c9f67b97a859428972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 06/45] fix: reject dates and times that do not exist, and
 years outside the supported range

---
 Db/dbdata.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index c629d81..d6f1591 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1838,8 +1838,8 @@ int wg_strp_iso_date(void* db, char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
-  res=ymd_to_scalar(yr,mo,day);
+  if (sres<3) return -1;
+  res=wg_ymd_to_date(db,yr,mo,day);
   return res;
 }
 
@@ -1852,21 +1852,31 @@ int wg_strp_iso_time(void* db, char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
-  return hr*(60*60*100)+min*(60*100)+sec*100+prt;
+  if (sres<3) return -1;
+  return wg_hms_to_time(db,hr,min,sec,prt);
 }
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
-  return ymd_to_scalar(yr,mo,day);
+  static const int monthdays[12]={31,28,31,30,31,30,31,31,30,31,30,31};
+  long scalar;
+
+  if (yr<1 || mo<1 || mo>12 || day<1) return -1;
+  if (day>monthdays[mo-1] && !(mo==2 && day==29 && isleap(yr))) return -1;
+  scalar=ymd_to_scalar(yr,mo,day);
+  if (!fits_date(scalar)) return -1;
+  return (int)scalar;
 }
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
+  int time;
+
+  if (hr<0 || hr>24 || min<0 || min>59 || sec<0 || sec>59 || prt<0 || prt>99)
     return -1;
-  return hr*(60*60*100)+min*(60*100)+sec*100+prt;
+  time=hr*(60*60*100)+min*(60*100)+sec*100+prt;
+  if (!fits_time(time)) return -1; // 24:00:00 is the last one
+  return time;
 }
 
 
-- 
2.43.0


From 5dee1781a22ba597c98c09c802f886855cc789e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 07/45] hook: VERIF_SMALL_TABLES shrinks the hash tables in
 verification builds

---
 Reasoner/glb.h | 1377 ++++++++++++++++++++++++------------------------
 1 file changed, 693 insertions(+), 684 deletions(-)

diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index c4651e3..95ac0bd 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -1,684 +1,693 @@
-/*
-*
-* Copyright (c) Tanel Tammet 2004-2019
-*
-* Contact: tanel.tammet@gmail.com                 
-*
-* This file is part of GKC
-*
-* GKC is free software: you can redistribute it and/or modify
-* it under the terms of the GNU Affero General Public License as published by
-* the Free Software Foundation, either version 3 of the License, or
-* (at your option) any later version.
-* 
-* GKC is distributed in the hope that it will be useful,
-* but WITHOUT ANY WARRANTY; without even the implied warranty of
-* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-* GNU General Public License for more details.
-* 
-* You should have received a copy of the GNU Affero General Public License
-* along with GKC.  If not, see <http://www.gnu.org/licenses/>.
-*
-*/
-
-
- /** @file glb.h
- *  Reasoner globals.
- *
- */
-
-
-#ifndef DEFINED_GLB_H
-#define DEFINED_GLB_H
-
-#ifdef _WIN32
-#define WIN32_LEAN_AND_MEAN
-#include <windows.h>
-#endif
-
-#include <time.h>
-#include <stdio.h>
-#include <stdint.h>
-
-#include "types.h"
-#include "arithinst.h"
-
-
-#define NROF_DYNALLOCINITIAL_ELS    10000000
-
-#ifdef __EMSCRIPTEN__
-
-#define NROF_QUEUE_TERMBUF_ELS      40000000 // 40 M of int els
-#define NROF_HYPER_TERMBUF_ELS       5000000 // 5 M of int els                             
-#define NROF_ACTIVE_TERMBUF_ELS     10000000 // 10 M of int els
-#define NROF_GIVEN_TERMBUF_ELS       1000000 // 1 M of gint els
-#define NROF_DERIVED_TERMBUF_ELS     1000000 // 1 M of gint els
-#define NROF_SIMPLIFIED_TERMBUF_ELS  1000000 // 1 M of gint els
-
-#else
-
-#define NROF_GIVEN_TERMBUF_ELS      10000000 // 10 M of gint els
-#define NROF_DERIVED_TERMBUF_ELS    10000000 // 10 M of gint els
-#define NROF_SIMPLIFIED_TERMBUF_ELS 10000000 // 10 M of gint els
-
-#ifdef _WIN32
-#ifdef _WIN64
-#define NROF_QUEUE_TERMBUF_ELS   200000000
-#define NROF_HYPER_TERMBUF_ELS   100000000
-#define NROF_ACTIVE_TERMBUF_ELS  100000000
-#else
-#define NROF_QUEUE_TERMBUF_ELS    20000000
-#define NROF_HYPER_TERMBUF_ELS    10000000                              
-#define NROF_ACTIVE_TERMBUF_ELS   20000000 
-#endif
-#else
-#define NROF_QUEUE_TERMBUF_ELS   200000000  // 200 M of gint els
-#define NROF_HYPER_TERMBUF_ELS   100000000  // 100 M of gint els
-#define NROF_ACTIVE_TERMBUF_ELS  100000000  // 100 M of gint els
-#endif
-#endif
-
-#define NROF_CUT_CLVEC_ELS   100
-#define NROF_REWRITE_CLVEC_ELS  10000
-#define NROF_HYPER_QUEUE_ELS 100000
-
-#define NROF_VARBANKS   5 
-#define NROF_VARSINBANK 1000
-#define FIRST_UNREAL_VAR_NR ((NROF_VARBANKS-1)*NROF_VARSINBANK)
-
-#define NROF_WEIGHTQUEUE_ELS 200
-#define NROF_CLTERM_HASHVEC_ELS       1000000 // was 1000000
-#define NROF_ACTIVE_UNIT_HASHVEC_ELS  1000000 // was 1000000
-#define NROF_CLTERM_HASHNODESVEC_ELS 10000000 // 10 M used if MALLOC_HASHNODES not set
-
-#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 1000000
-
-
-
-#define TERMHASH_INITIAL_BUCKETSIZE 4
-#define ATOMHASH_INITIAL_BUCKETSIZE 4
-
-#define MAX_CLAUSE_LEN 1000
-#define INITIAL_SORTVEC_LEN 10
-#define INITIAL_CLTMPVEC_LEN 10
-#define INITIAL_VARTMPVEC_LEN 10
-#define INITIAL_URITMPVEC_LEN 1000
-
-#define INITIAL_ANSWERS_LEN 1000
-
-#define MAX_CLPRIOR 10000 // priorities differentiated in a priority queue for picking clauses
-/*
-#define NROF_PRIORQUEUES 4
-#define GOAL_
-*/
-
-#define MALLOC_HASHNODES // if defined, use malloc for hashnodes, else alloc from g->hash_nodes
-//#undef MALLOC_HASHNODES
-
-// prop
-
-#define NROF_PROP_VARVALS_ELS 1000000
-#define NROF_PROP_CLAUSES_ELS 1000000
-
-// /opt/lingeling/lingeling --verbose=-1 -T 1 /opt/lingeling/tst2.txt > out.txt
-// s UNSATISFIABLE
-// s SATISFIABLE
-
-#define DEFAULT_PROP_SOLVER_NAME "/opt/gkc/Prop/kissat-rel-3.0.0/build/kissat"
-#define DEFAULT_PROP_FILE_NAME "/tmp/gkc_prop_inXXXXXX"
-#define DEFAULT_PROP_SOLVER_OUTFILE_NAME "/tmp/gkc_prop_outXXXXXX"
-
-#define MAX_FILENAME_LEN 80
-
-#define MAX_GUIDETEXT_LEN 500
-
-#define SINE_K_VALUES_SIZE 10000000 // bytestring 10 mbyte
-
-// #define SHARED_DERIVED  // if set, keep some clauses over different passes
-
-/* ======== Structures ========== */
-
-/** glb contains global values for requests.
-* 
-* requests should use a single global variable g, which
-* is a pointer to glb structure.
-* 
-*/
-
-typedef struct glb {
-  
-  void* db;             /**< mem database used as a base for offset: either kb_db or child_db here */
-  void* kb_db;          /**< shared-mem knowledge base */
-  void* child_db;       /**< local child db: if kb_db present, then child_db->kb_db is set to this */
-  gint db_offset;       /**< offset of the db ptr */
-  gint inkb;            /**< 1 if g struct is inside shared kb, 0 otherwise */
-  void* kb_g;            /**< if external shared mem kb_db is present, then the g ptr inside kb_db, else NULL */ 
-  void* local_db;        /** this will be set to local db in any case in rmain.c */  
-  char* filename;       /**< input filename */
-  char* outfilename;       /**< output filename */
-
-  /* === shared data block === */
-  
-  gint initial_cl_list; /**< offset of the initial clause list in a shared db */
-  gint shared_clid_next; /** next id of the clause */
-
-  cveco clbuilt;        /**< vector containing built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  cveco clactive;      /**< vector containing active clauses, newest last.  */
-  cveco clactivesubsume; /**< vector containing active clauses with metainfo for subsumption */
-  
-  cveco clpickstack;   /**< vector containing built clause stack to be selected as given before using queue (hyperres eg) */
-  cveco clqueue;        /**< vector containing kept clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  gint clqueue_given;  /**< index of next clause to be taken from clqueue */     
-  gint clpickpriorqueue;  /**< priority queue for picking clauses as as given, maybe interleaved with clqueue */
-
-  gint clpick_queues;   /**< vec of several queue structures */
-  gint clpick_given;    /**< index of next queue to be taken from vec of queues */
-
-#ifdef SHARED_DERIVED    
-  cveco shared_clbuilt;   /**< vector containing shared built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  gint shared_hash_neg_groundunits; /**< shared hash structure for cutting off with negative ground unit clauses */
-  gint shared_hash_pos_groundunits; /**< shared hash structure for cutting off with positive ground unit clauses */
-#endif
-
-  gint hash_neg_groundunits; /**< hash structure for cutting off with negative ground unit clauses */
-  gint hash_pos_groundunits; /**< hash structure for cutting off with positive ground unit clauses */
-
-  gint hash_neg_grounddoubles; /**< hash structure for cutting off with negative ground double clauses */
-  gint hash_pos_grounddoubles; /**< hash structure for cutting off with positive ground double clauses */
-
-  gint hash_neg_active_groundunits; /**< hash structure for subsuming with negative ground unit clauses in active */
-  gint hash_pos_active_groundunits; /**< hash structure for subsuming with positive ground unit clauses in active */
-
-  gint hash_atom_occurrences; /**< hash structure for atom occurrences, used for unit propagation */
-
-  //veco clweightqueue;
-  veco hash_neg_atoms;  /**< hash structure for all negative literals in active clauses inside all clauses  */
-  veco hash_pos_atoms;  /**< hash structure for all positive literals in active clauses inside all clauses  */
-  veco hash_neg_units;  /**< hash structure for all negative literals in unit active clauses  */
-  veco hash_pos_units;  /**< hash structure for all positive literals in unit active clauses  */
-  //veco hash_units;      /**< hash structure for: initialized, but not really used */
-  veco hash_para_terms; /**< hash structure for paramodulating from: terms here will be unified with newly given eq clauses */
-  veco hash_eq_terms;   /**< hash structure for paramodulation into: equality args here will be unified with given clause subterms */
-  veco hash_rewrite_terms; /**< hash structure for left sides of rewrite rules (oriented equalities) */
- 
-#ifndef MALLOC_HASHNODES  
-  cvec hash_nodes;      /**< area for allocating hash nodes from **/
-#endif
-
-  /* prop reasoning stuff */
-
-  gint prop_counter; // set to the next prop integer to take: max prop var + 1
-  int use_prop_constant; // normally set to 0: else 1 to use prop const for all vars
-  gint prop_constant; // the constant to replace all vars for instantiation iff use_prop_constant!=0
-
-  veco prop_hash_atoms; // hash struct for keeping ints corresponding to grounded atoms 
-  veco prop_hash_clauses; // hash struct for keeping all derived clauses for equal-clause subsumption
-  cveco prop_varvals; // array for assigned prop values (0 unknown, 1 true, -1 false)
-  cveco prop_groundings; // array or atom / term pairs for all prop vars
-  cveco prop_clauses; // array for all prop clauses worth keeping
-  cveco prop_varval_clauses; // array for clauses for all assigned prop values, at same indexes
-
-  char* prop_file_name; // file name to dump prop vars to
-  char* prop_solver_name; // solver name to call
-  char* prop_solver_outfile_name; // file name for solver to store the redil
-
-  /* == local data block === */
-       
-  gint local_clid_next; /** next id of the clause */     
-  gint proof_found;
-  gptr proof_answer;
-  gint proof_history;
-  gint alloc_err; // set to 1 in case of alloc errors: should cancel search  
-  
-  vec varbanks; // 0: input (passive), 1: given clause renamed, 
-                // 2: active clauses, 3: derived clauses, 
-                // 4: tmp rename area (vals always UNASSIGNED, never set to other vals!)
-  cvec varstack;                  
-
-  cvec xcountedvarlist;
-  cvec ycountedvarlist;
-    
-  //int tmp_build_weight;
-  //vec tmp1_cl_vec;
-  //vec tmp2_cl_vec;
-  
-  vec tmp_litinf_vec;  // used by subsumption and by prop instantiation
-  vec tmp_hardnessinf_vec; // used by hardness calc
-  vec tmp_resolvability_vec; // used for resolvability of literals
-  vec tmp_sort_vec; // used for sorting the initial clause list
-
-  cvec given_termbuf;
-  cvec simplified_termbuf;
-  cvec derived_termbuf;    
-  cvec queue_termbuf;
-  cvec hyper_termbuf;
-  cvec active_termbuf;
-
-  cvec cut_clvec; // used for storing cutters of a derived clause
-  cvec rewrite_clvec; // used for storing rewriters of a clause
-  cvec hyper_queue; // storing partially derived clauses during hyperres for picking as given
-  cvec answers; // storing answer/proof pairs
-  char* sine_k_values; // k-values bytestring indexed by clause id: each byte contains k 
-  gint sine_k_bytes; // length of sine_k_values bytestring
-  char* backsubsume_values;
-  gint backsubsume_bytes; //
-  char* sine_uri_k_values; // k-values bytestring indexed by uri id: each byte contains k 
-  gint sine_uri_k_bytes; // length of sine_uri_k_values bytestring
-
-
-  cvec tmp_clinfo; // used for storing additional clause info while ordering for knuth-bendix
-  cvec tmp_varinfo; // used for storing additional var info while ordering for knuth-bendix 
-  cvec tmp_uriinfo; // used for storing uri info in a clause while doing sine
-
-  /* parser configuration */
-  
-  int parse_caps_as_var;
-  int parse_question_as_var;
-  int parse_newpred_strat; // introduce new predicates during distribution phase of clausification?
-  int store_fof_skolem_steps; 
-  int store_fof_source; 
-
-  /* parser temporary vars set by parser */
-
-  int parse_is_included_file;
-  char* parse_skolem_prefix;  
-  //int parse_skolem_nr; // moved to dballoc.h
-  char* parse_newpred_prefix; 
-  //int int parse_newpred_nr; // moved to dballoc.h
-  char* parse_errmsg;
-  int parse_errflag;
-  
-  /* unification/matching configuration */
-  
-  int unify_samelen;      // 1 if unifiable terms need not have same length, 0 otherwise
-  int unify_maxuseterms;  // max nr of rec elems unified one after another: t1,t2,t3 gives 3
-                          // 0 if no limit 
-  int unify_firstuseterm; // rec pos where we start to unify 
-  int unify_funpos;       // rec pos of a fun/pred uri
-  int unify_funarg1pos;   // rec pos of a fun/pred first arg
-  int unify_funarg2pos;   // rec pos of a fun/pred second arg
-  int unify_footerlen;    // obligatory amount of unused gints to add to end of each created term 
-  
-  /* strategy selection */
-  
-  //int max_forks;
-  int sine_strat; // 0 if none, 1 if weak, 2 if strong
-  int sine_strat_used; // 0 if not actually used, 1 if used: set automatically by analyze if sine_strat!=0
-  int sine_order_strat; // 0 if none, 1 if on
-  int required_answer_nr;
-  int pick_given_queue_ratio;
-  int pick_given_queue_ratio_counter;
-  int next_pick_given_queue_block_nr;
-
-  int cl_depth_penalty;
-  int cl_length_penalty;
-  int var_weight;
-  int repeat_var_weight;
-  int atom_poseq_penalty;
-  int use_max_ground_weight;
-  int use_max_weight;  
-
-  int cl_maxkeep_weightlimit;
-  int cl_maxkeep_sizelimit;
-  int cl_maxkeep_depthlimit;
-  int cl_maxkeep_lengthlimit;
-
-  int cl_pick_queue_strategy; // how to spread clauses between different queues: 0 
-                              // 0: one only,
-                              // 1: exactly as marked, 
-                              // 2: make non-included axioms assumptions and positive conjecture part assumptions
-                              // 3: only fully negative clauses of goal made goal and no assumptions (ie made axioms)
-
-  int use_hornpref;
-  int use_posweightdoublepref;
-  int use_negweightdoublepref;
-
-  /* dynamically changed limits */
-
-  int max_run_seconds;
-  int max_seconds;
-  int max_run_dseconds;
-  int max_dseconds;
-  int cl_keep_weightlimit;
-  int cl_keep_sizelimit;
-  int cl_keep_depthlimit;
-  int cl_keep_lengthlimit;
-  
-  int reverse_clauselist_strat; // initially reverse clause list, do not sort (only for non-query)
-  int queryfocus_strat;
-  int queryfocusneg_strat;
-  int hyperres_strat;
-  int relaxed_hyperres_strat;
-  int goalweight_normal_strat; // if 1, normal initial weights are applied, else special low weights
-  int unit_active_strat;    // if 1, make all units active for sos strategies
-  int weightorder_strat;          // clause ordering for resolvability of literals
-  int negpref_strat;          // clause ordering for resolvability of literals
-  int pospref_strat;          // clause ordering for resolvability of literals
-  int knuthbendixpref_strat;  // clause ordering for resolvability of literals
-  int hardnesspref_strat;     // clause ordering for resolvability of literals
-  int res_shortarglen_limit; // max non-ans len of the shortest res argument (generalization of unit)
-  int res_arglen_limit; // if non-zero, do not resolve upon longer clauses and do not ever para
-  int res_strict_arglen_limit; // if non-zero,  do para on units if res_arglen_limit<2
-  int posunitpara_strat;
-  int rewrite_only_strat; // if non-zero, do not store para terms: only store demodulators
-  int instgen_strat;
-  int propgen_strat;
-  int back_subsume;
-  int forward_subsume_derived;
-  int propagate;
-  int use_equality_strat; // general strategy
-  int use_equality; // current principle
-  int use_comp_funs_strat; // general strategy
-  int use_comp_funs; // current principle
-  int use_comp_arithmetic; // current principle for arithmetic
-  int arith_instantiation; // 0 off, 1 conservative, 2 stronger
-  int arith_inst_max_vars;
-  int arith_inst_candidate_limit;
-  int arith_inst_probe_limit;
-  int arith_inst_keep_limit;
-  int arith_inst_depth_limit;
-  int arith_inst_global_limit;
-  unsigned int arith_inst_explicit_mask;
-  int have_nonground_arithmetic;
-  int use_rewrite_terms_strat; // general strategy
-  int have_rewrite_terms; // observation  
-  int use_strong_unit_cutoff; 
-  int use_strong_duplicates; // iff 1, then unique var based duplicate removal
-  int prohibit_nested_para;  
-  int prohibit_unordered_para;
-  int prohibit_deep_para;
-
-
-  int max_proofs;
-  int store_history;
-  int endgame_mode; 
-
-  /*  printout configuration */
-  
-
-  int print_flag;
-  int print_json;
-  int print_tptp;
-  int print_clauses_json;
-  int print_clauses_tptp;
-  int print_proof_tptp;
-  int print_level_flag;
-  int print_derived;
-  int print_clause_history;
-  int print_history_extra;  
-  int print_fof_conversion_proof;
-  
-  int parser_print_level;
-  int print_initial_parser_result;
-  int print_generic_parser_result;
-  
-  int print_initial_active_list;
-  int print_initial_passive_list;
-  
-  int print_given_interval_trace;
-  int print_initial_given_cl;
-  int print_final_given_cl;
-  int print_active_cl;
-  int print_litterm_selection;
-  int print_partial_derived_cl;
-  int print_derived_cl;
-  int print_derived_subsumed_cl;
-  int print_derived_precut_cl;
-  
-  int print_clause_detaillevel;
-  int print_runs;
-  int print_stats;
-  int print_datastructs;
-  int print_sine;
-  
-  /* tmp variables */
-  
-  gint* tmp_unify_vc;       // var count in unification
-  gint  tmp_unify_occcheck; // occcheck necessity in unification (changes)
-  gint  tmp_unify_do_occcheck;
-  gint  tmp_rewrites; // count of rewrites during one clause simplification
-  char* tmp_printbuf; // temporary buffer for printing, malloced as needed
-  int arith_inst_probe_active;
-  int tmp_arithinst_calc_count;
-  int tmp_arithinst_deleted_lits;
-  int tmp_arithinst_tautology;
-
-  int arith_inst_global_candidate_count;
-  wr_arith_value arith_inst_global_candidates[WR_ARITH_MAX_GLOBAL_VALUES];
-  wr_arith_cache_entry* arith_inst_cache;
-  int arith_inst_cache_size;
-  int arith_inst_cache_saturated;
-
-  /* build control: changed in code */
-  
-  int  build_rewrite; // current switch: to rewrite or not during building
-  gint build_subst;    // subst var values into vars
-  gint build_calc;     // do fun and pred calculations
-  gint build_dcopy;    // copy nonimmediate data (vs return ptr)
-  gptr build_buffer;   // build everything into tmp buffer (vs main area)
-                       // points to NULL or given_termbuf, derived_termbuf etc
-  
-  gint build_rename;   // do var renaming
-  gint build_rename_maxseenvnr; // tmp var for var renaming
-  gint build_rename_vc;    // tmp var for var renaming
-  gptr build_rename_bank;  // points to bank of created vars
-  gint build_rename_banknr; // nr of bank of created vars  
-
-  /* statistics */
-  
-  int stat_wr_mallocs;
-  int stat_wr_callocs;
-  int stat_wr_reallocs;
-  int stat_wr_frees;
-  gint stat_wr_malloc_bytes;
-  gint stat_wr_calloc_bytes;
-  gint stat_wr_realloc_bytes;
-  gint stat_wr_realloc_freebytes;
-  
-  int stat_built_cl;
-  int stat_derived_cl;
-  int stat_derived_partial_hyper_cl;
-  int stat_binres_derived_cl;
-  int stat_instgen_derived_cl;
-  int stat_arithinst_clauses_scanned;
-  int stat_arithinst_frontiers;
-  int stat_arithinst_candidates;
-  int stat_arithinst_probes;
-  int stat_arithinst_calculated;
-  int stat_arithinst_rejected_no_progress;
-  int stat_arithinst_rejected_tautology;
-  int stat_arithinst_rejected_cache;
-  int stat_arithinst_rejected_budget;
-  int stat_arithinst_truncated;
-  int stat_arithinst_kept;
-  int stat_arithinst_proofs;
-  int stat_prop_inst_derived_cl;
-  int stat_propagated_derived_cl;
-  int stat_factor_derived_cl;
-  int stat_para_derived_cl;
-  int stat_kept_cl;
-  int stat_made_rewriters;
-  
-  int stat_hyperres_partial_cl;
-  int stat_tautologies_discarded;
-  int stat_weight_discarded_building;
-  int stat_weight_discarded_cl;
-  int stat_internlimit_discarded_cl;
-  int stat_internlimit_discarded_para;
-  int stat_given_candidates;
-  int stat_given_candidates_hyper;
-  int stat_given_candidates_at_endgame; 
-  int stat_given_used;  
-  int stat_given_used_at_endgame; 
-  int stat_simplified;
-  int stat_simplified_given;
-  int stat_simplified_derived;
-  int stat_backward_subsumed;
-  int stat_propagated_subsumed;
-  int stat_forward_subsumed;
-  int stat_derived_cut;
-  int stat_derived_rewritten;
-  int stat_clsubs_attempted;
-  gint stat_clsubs_top_meta_attempted;
-  gint stat_clsubs_top_meta_failed;
-  gint stat_clsubs_top_meta_nonpref_attempted;
-  gint stat_clsubs_top_meta_nonpref_succeeded;
-  gint stat_clsubs_top_meta_pref_attempted;
-  gint stat_clsubs_top_meta_pref_succeeded;
-  gint stat_clsubs_top_meta_pref1_succeeded;
-  gint stat_clsubs_top_meta_pref2_succeeded;
-  gint stat_clsubs_top_meta_pref3_succeeded;  
-  int stat_clsubs_meta_attempted;
-  int stat_clsubs_meta_failed;
-  int stat_clsubs_predsymbs_attempted;
-  int stat_clsubs_unit_attempted;
-  int stat_clsubs_full_attempted;
-  int stat_clsubs_fact_groundunit_found;
-  int stat_clsubs_rule_groundunit_found;
-  int stat_forwardsubs_attempted;
-  int stat_lit_hash_added;
-  int stat_lit_hash_computed;
-  int stat_lit_hash_match_found;
-  int stat_lit_hash_match_miss;
-  int stat_prop_hash_match_miss;
-  int stat_lit_hash_cut_ok;  
-  int stat_lit_strong_cut_ok;
-  int stat_lit_hash_subsume_ok;
-  int stat_atom_hash_added;
-  int stat_atom_hash_computed;
-  int stat_atom_hash_match_found;
-  int stat_atom_hash_match_miss;
-  
-  int log_level;
-
-  int tmp1;
-  int tmp2;
-  int tmp3;
-  int tmp4;
-  int tmp5;
-
-  int tmp6;
-  int tmp7;
-  int tmp8;
-  int tmp9;
-
-  /* input clause set analysis */
-
-  int in_has_fof;
-  int in_has_nonground_arithmetic;
-
-  int in_clause_count;
-  int in_rule_clause_count;
-  int in_fact_clause_count;
-  int in_answer_clause_count;
-  int in_ground_clause_count;
-  int in_unit_clause_count;
-  int in_horn_clause_count;
-  int in_pos_clause_count;
-  int in_neg_clause_count;
-  int in_poseq_clause_count;
-  int in_negeq_clause_count;
-  int in_unitposeq_clause_count;
-  int in_chain_clause_count;
-  int in_min_length;
-  int in_max_length;
-  int in_min_depth;
-  int in_max_depth;
-  int in_min_size;
-  int in_max_size;
-  int in_min_vars;
-  int in_max_vars;
-  float in_average_length;
-  float in_average_depth;
-  int in_predicate_count;
-  int in_funsymb_count;
-  int in_extaxiom_count;
-  int in_axiom_count;
-  int in_assumption_count;
-  int in_goal_count;
-  int in_neg_goal_count;
-  int in_pos_goal_count;
-  int in_posunit_goal_count;
-  int in_max_const_ucount;
-  gint in_max_occ_const;
-
-  int sin_clause_count;
-  int sin_rule_clause_count;
-  int sin_fact_clause_count;
-  int sin_answer_clause_count;
-  int sin_ground_clause_count;
-  int sin_unit_clause_count;
-  int sin_horn_clause_count;
-  int sin_pos_clause_count;
-  int sin_neg_clause_count;
-  int sin_poseq_clause_count;
-  int sin_negeq_clause_count;
-  int sin_unitposeq_clause_count;
-  int sin_chain_clause_count;
-  int sin_min_length;
-  int sin_max_length;
-  int sin_min_depth;
-  int sin_max_depth;
-  int sin_min_size;
-  int sin_max_size;
-  int sin_min_vars;
-  int sin_max_vars;
-  float sin_average_length;
-  float sin_average_depth;
-  int sin_predicate_count;
-  int sin_funsymb_count;
-  int sin_extaxiom_count;
-  int sin_axiom_count;
-  int sin_assumption_count;
-  int sin_goal_count;
-  int sin_neg_goal_count;
-  int sin_pos_goal_count;
-  int sin_posunit_goal_count;
-  int sin_max_const_ucount;
-  gint sin_max_occ_const;
-  int sin_has_nonground_arithmetic;
-
-  /* run averages and measures */
-  
-  int current_run_nr;
-  int current_fork_nr;
-  double avg_kept_weight;
-  float passed_ratio;
-  clock_t allruns_start_clock;
-  //clock_t allruns_end_clock;
-  clock_t run_start_clock;
-  //clock_t run_end_clock;  
-  char guidetext[MAX_GUIDETEXT_LEN];
-
-} glb;
-
-
-
-/* === Protos for funs in glb.c === */
-
-
-glb* wr_glb_new_full(void* db);
-glb* wr_glb_new_simple(void* db);
-
-int wr_glb_free(glb* g);
-
-int wr_glb_init_simple(glb* g);
-
-int wr_glb_init_shared_simple(glb* g);
-int wr_glb_init_shared_complex(glb* g);
-int wr_glb_init_seq_shared_complex(glb* g);
-int wr_glb_free_shared_simple(glb* g);
-int wr_glb_free_shared_complex(glb* g);
-
-int wr_glb_init_local_simple(glb* g);
-int wr_glb_init_local_complex(glb* g);
-int wr_glb_init_seq_local_complex(glb* g);
-int wr_glb_free_local_simple(glb* g);
-int wr_glb_free_local_complex(glb* g);
-
-void wr_print_glb_memarea(glb* g, gptr p);
-void wr_check_cl_memarea(glb* g, gptr xptr);
-
-void wr_hashlists_explore(glb* g);
-
-#endif
+/*
+*
+* Copyright (c) Tanel Tammet 2004-2019
+*
+* Contact: tanel.tammet@gmail.com                 
+*
+* This file is part of GKC
+*
+* GKC is free software: you can redistribute it and/or modify
+* it under the terms of the GNU Affero General Public License as published by
+* the Free Software Foundation, either version 3 of the License, or
+* (at your option) any later version.
+* 
+* GKC is distributed in the hope that it will be useful,
+* but WITHOUT ANY WARRANTY; without even the implied warranty of
+* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+* GNU General Public License for more details.
+* 
+* You should have received a copy of the GNU Affero General Public License
+* along with GKC.  If not, see <http://www.gnu.org/licenses/>.
+*
+*/
+
+
+ /** @file glb.h
+ *  Reasoner globals.
+ *
+ */
+
+
+#ifndef DEFINED_GLB_H
+#define DEFINED_GLB_H
+
+#ifdef _WIN32
+#define WIN32_LEAN_AND_MEAN
+#include <windows.h>
+#endif
+
+#include <time.h>
+#include <stdio.h>
+#include <stdint.h>
+
+#include "types.h"
+#include "arithinst.h"
+
+
+#define NROF_DYNALLOCINITIAL_ELS    10000000
+
+#ifdef __EMSCRIPTEN__
+
+#define NROF_QUEUE_TERMBUF_ELS      40000000 // 40 M of int els
+#define NROF_HYPER_TERMBUF_ELS       5000000 // 5 M of int els                             
+#define NROF_ACTIVE_TERMBUF_ELS     10000000 // 10 M of int els
+#define NROF_GIVEN_TERMBUF_ELS       1000000 // 1 M of gint els
+#define NROF_DERIVED_TERMBUF_ELS     1000000 // 1 M of gint els
+#define NROF_SIMPLIFIED_TERMBUF_ELS  1000000 // 1 M of gint els
+
+#else
+
+#define NROF_GIVEN_TERMBUF_ELS      10000000 // 10 M of gint els
+#define NROF_DERIVED_TERMBUF_ELS    10000000 // 10 M of gint els
+#define NROF_SIMPLIFIED_TERMBUF_ELS 10000000 // 10 M of gint els
+
+#ifdef _WIN32
+#ifdef _WIN64
+#define NROF_QUEUE_TERMBUF_ELS   200000000
+#define NROF_HYPER_TERMBUF_ELS   100000000
+#define NROF_ACTIVE_TERMBUF_ELS  100000000
+#else
+#define NROF_QUEUE_TERMBUF_ELS    20000000
+#define NROF_HYPER_TERMBUF_ELS    10000000                              
+#define NROF_ACTIVE_TERMBUF_ELS   20000000 
+#endif
+#else
+#define NROF_QUEUE_TERMBUF_ELS   200000000  // 200 M of gint els
+#define NROF_HYPER_TERMBUF_ELS   100000000  // 100 M of gint els
+#define NROF_ACTIVE_TERMBUF_ELS  100000000  // 100 M of gint els
+#endif
+#endif
+
+#define NROF_CUT_CLVEC_ELS   100
+#define NROF_REWRITE_CLVEC_ELS  10000
+#define NROF_HYPER_QUEUE_ELS 100000
+
+#define NROF_VARBANKS   5 
+#define NROF_VARSINBANK 1000
+#define FIRST_UNREAL_VAR_NR ((NROF_VARBANKS-1)*NROF_VARSINBANK)
+
+#define NROF_WEIGHTQUEUE_ELS 200
+#define NROF_CLTERM_HASHVEC_ELS       1000000 // was 1000000
+#define NROF_ACTIVE_UNIT_HASHVEC_ELS  1000000 // was 1000000
+#define NROF_CLTERM_HASHNODESVEC_ELS 10000000 // 10 M used if MALLOC_HASHNODES not set
+
+#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 1000000
+
+#ifdef VERIF_SMALL_TABLES // verification builds only: same code, fewer buckets
+#undef NROF_CLTERM_HASHVEC_ELS
+#define NROF_CLTERM_HASHVEC_ELS 5000
+#undef NROF_ACTIVE_UNIT_HASHVEC_ELS
+#define NROF_ACTIVE_UNIT_HASHVEC_ELS 5000
+#undef NROF_ATOM_OCCURRENCES_HASHVEC_ELS
+#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 5000
+#endif
+
+
+
+#define TERMHASH_INITIAL_BUCKETSIZE 4
+#define ATOMHASH_INITIAL_BUCKETSIZE 4
+
+#define MAX_CLAUSE_LEN 1000
+#define INITIAL_SORTVEC_LEN 10
+#define INITIAL_CLTMPVEC_LEN 10
+#define INITIAL_VARTMPVEC_LEN 10
+#define INITIAL_URITMPVEC_LEN 1000
+
+#define INITIAL_ANSWERS_LEN 1000
+
+#define MAX_CLPRIOR 10000 // priorities differentiated in a priority queue for picking clauses
+/*
+#define NROF_PRIORQUEUES 4
+#define GOAL_
+*/
+
+#define MALLOC_HASHNODES // if defined, use malloc for hashnodes, else alloc from g->hash_nodes
+//#undef MALLOC_HASHNODES
+
+// prop
+
+#define NROF_PROP_VARVALS_ELS 1000000
+#define NROF_PROP_CLAUSES_ELS 1000000
+
+// /opt/lingeling/lingeling --verbose=-1 -T 1 /opt/lingeling/tst2.txt > out.txt
+// s UNSATISFIABLE
+// s SATISFIABLE
+
+#define DEFAULT_PROP_SOLVER_NAME "/opt/gkc/Prop/kissat-rel-3.0.0/build/kissat"
+#define DEFAULT_PROP_FILE_NAME "/tmp/gkc_prop_inXXXXXX"
+#define DEFAULT_PROP_SOLVER_OUTFILE_NAME "/tmp/gkc_prop_outXXXXXX"
+
+#define MAX_FILENAME_LEN 80
+
+#define MAX_GUIDETEXT_LEN 500
+
+#define SINE_K_VALUES_SIZE 10000000 // bytestring 10 mbyte
+
+// #define SHARED_DERIVED  // if set, keep some clauses over different passes
+
+/* ======== Structures ========== */
+
+/** glb contains global values for requests.
+* 
+* requests should use a single global variable g, which
+* is a pointer to glb structure.
+* 
+*/
+
+typedef struct glb {
+  
+  void* db;             /**< mem database used as a base for offset: either kb_db or child_db here */
+  void* kb_db;          /**< shared-mem knowledge base */
+  void* child_db;       /**< local child db: if kb_db present, then child_db->kb_db is set to this */
+  gint db_offset;       /**< offset of the db ptr */
+  gint inkb;            /**< 1 if g struct is inside shared kb, 0 otherwise */
+  void* kb_g;            /**< if external shared mem kb_db is present, then the g ptr inside kb_db, else NULL */ 
+  void* local_db;        /** this will be set to local db in any case in rmain.c */  
+  char* filename;       /**< input filename */
+  char* outfilename;       /**< output filename */
+
+  /* === shared data block === */
+  
+  gint initial_cl_list; /**< offset of the initial clause list in a shared db */
+  gint shared_clid_next; /** next id of the clause */
+
+  cveco clbuilt;        /**< vector containing built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  cveco clactive;      /**< vector containing active clauses, newest last.  */
+  cveco clactivesubsume; /**< vector containing active clauses with metainfo for subsumption */
+  
+  cveco clpickstack;   /**< vector containing built clause stack to be selected as given before using queue (hyperres eg) */
+  cveco clqueue;        /**< vector containing kept clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  gint clqueue_given;  /**< index of next clause to be taken from clqueue */     
+  gint clpickpriorqueue;  /**< priority queue for picking clauses as as given, maybe interleaved with clqueue */
+
+  gint clpick_queues;   /**< vec of several queue structures */
+  gint clpick_given;    /**< index of next queue to be taken from vec of queues */
+
+#ifdef SHARED_DERIVED    
+  cveco shared_clbuilt;   /**< vector containing shared built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  gint shared_hash_neg_groundunits; /**< shared hash structure for cutting off with negative ground unit clauses */
+  gint shared_hash_pos_groundunits; /**< shared hash structure for cutting off with positive ground unit clauses */
+#endif
+
+  gint hash_neg_groundunits; /**< hash structure for cutting off with negative ground unit clauses */
+  gint hash_pos_groundunits; /**< hash structure for cutting off with positive ground unit clauses */
+
+  gint hash_neg_grounddoubles; /**< hash structure for cutting off with negative ground double clauses */
+  gint hash_pos_grounddoubles; /**< hash structure for cutting off with positive ground double clauses */
+
+  gint hash_neg_active_groundunits; /**< hash structure for subsuming with negative ground unit clauses in active */
+  gint hash_pos_active_groundunits; /**< hash structure for subsuming with positive ground unit clauses in active */
+
+  gint hash_atom_occurrences; /**< hash structure for atom occurrences, used for unit propagation */
+
+  //veco clweightqueue;
+  veco hash_neg_atoms;  /**< hash structure for all negative literals in active clauses inside all clauses  */
+  veco hash_pos_atoms;  /**< hash structure for all positive literals in active clauses inside all clauses  */
+  veco hash_neg_units;  /**< hash structure for all negative literals in unit active clauses  */
+  veco hash_pos_units;  /**< hash structure for all positive literals in unit active clauses  */
+  //veco hash_units;      /**< hash structure for: initialized, but not really used */
+  veco hash_para_terms; /**< hash structure for paramodulating from: terms here will be unified with newly given eq clauses */
+  veco hash_eq_terms;   /**< hash structure for paramodulation into: equality args here will be unified with given clause subterms */
+  veco hash_rewrite_terms; /**< hash structure for left sides of rewrite rules (oriented equalities) */
+ 
+#ifndef MALLOC_HASHNODES  
+  cvec hash_nodes;      /**< area for allocating hash nodes from **/
+#endif
+
+  /* prop reasoning stuff */
+
+  gint prop_counter; // set to the next prop integer to take: max prop var + 1
+  int use_prop_constant; // normally set to 0: else 1 to use prop const for all vars
+  gint prop_constant; // the constant to replace all vars for instantiation iff use_prop_constant!=0
+
+  veco prop_hash_atoms; // hash struct for keeping ints corresponding to grounded atoms 
+  veco prop_hash_clauses; // hash struct for keeping all derived clauses for equal-clause subsumption
+  cveco prop_varvals; // array for assigned prop values (0 unknown, 1 true, -1 false)
+  cveco prop_groundings; // array or atom / term pairs for all prop vars
+  cveco prop_clauses; // array for all prop clauses worth keeping
+  cveco prop_varval_clauses; // array for clauses for all assigned prop values, at same indexes
+
+  char* prop_file_name; // file name to dump prop vars to
+  char* prop_solver_name; // solver name to call
+  char* prop_solver_outfile_name; // file name for solver to store the redil
+
+  /* == local data block === */
+       
+  gint local_clid_next; /** next id of the clause */     
+  gint proof_found;
+  gptr proof_answer;
+  gint proof_history;
+  gint alloc_err; // set to 1 in case of alloc errors: should cancel search  
+  
+  vec varbanks; // 0: input (passive), 1: given clause renamed, 
+                // 2: active clauses, 3: derived clauses, 
+                // 4: tmp rename area (vals always UNASSIGNED, never set to other vals!)
+  cvec varstack;                  
+
+  cvec xcountedvarlist;
+  cvec ycountedvarlist;
+    
+  //int tmp_build_weight;
+  //vec tmp1_cl_vec;
+  //vec tmp2_cl_vec;
+  
+  vec tmp_litinf_vec;  // used by subsumption and by prop instantiation
+  vec tmp_hardnessinf_vec; // used by hardness calc
+  vec tmp_resolvability_vec; // used for resolvability of literals
+  vec tmp_sort_vec; // used for sorting the initial clause list
+
+  cvec given_termbuf;
+  cvec simplified_termbuf;
+  cvec derived_termbuf;    
+  cvec queue_termbuf;
+  cvec hyper_termbuf;
+  cvec active_termbuf;
+
+  cvec cut_clvec; // used for storing cutters of a derived clause
+  cvec rewrite_clvec; // used for storing rewriters of a clause
+  cvec hyper_queue; // storing partially derived clauses during hyperres for picking as given
+  cvec answers; // storing answer/proof pairs
+  char* sine_k_values; // k-values bytestring indexed by clause id: each byte contains k 
+  gint sine_k_bytes; // length of sine_k_values bytestring
+  char* backsubsume_values;
+  gint backsubsume_bytes; //
+  char* sine_uri_k_values; // k-values bytestring indexed by uri id: each byte contains k 
+  gint sine_uri_k_bytes; // length of sine_uri_k_values bytestring
+
+
+  cvec tmp_clinfo; // used for storing additional clause info while ordering for knuth-bendix
+  cvec tmp_varinfo; // used for storing additional var info while ordering for knuth-bendix 
+  cvec tmp_uriinfo; // used for storing uri info in a clause while doing sine
+
+  /* parser configuration */
+  
+  int parse_caps_as_var;
+  int parse_question_as_var;
+  int parse_newpred_strat; // introduce new predicates during distribution phase of clausification?
+  int store_fof_skolem_steps; 
+  int store_fof_source; 
+
+  /* parser temporary vars set by parser */
+
+  int parse_is_included_file;
+  char* parse_skolem_prefix;  
+  //int parse_skolem_nr; // moved to dballoc.h
+  char* parse_newpred_prefix; 
+  //int int parse_newpred_nr; // moved to dballoc.h
+  char* parse_errmsg;
+  int parse_errflag;
+  
+  /* unification/matching configuration */
+  
+  int unify_samelen;      // 1 if unifiable terms need not have same length, 0 otherwise
+  int unify_maxuseterms;  // max nr of rec elems unified one after another: t1,t2,t3 gives 3
+                          // 0 if no limit 
+  int unify_firstuseterm; // rec pos where we start to unify 
+  int unify_funpos;       // rec pos of a fun/pred uri
+  int unify_funarg1pos;   // rec pos of a fun/pred first arg
+  int unify_funarg2pos;   // rec pos of a fun/pred second arg
+  int unify_footerlen;    // obligatory amount of unused gints to add to end of each created term 
+  
+  /* strategy selection */
+  
+  //int max_forks;
+  int sine_strat; // 0 if none, 1 if weak, 2 if strong
+  int sine_strat_used; // 0 if not actually used, 1 if used: set automatically by analyze if sine_strat!=0
+  int sine_order_strat; // 0 if none, 1 if on
+  int required_answer_nr;
+  int pick_given_queue_ratio;
+  int pick_given_queue_ratio_counter;
+  int next_pick_given_queue_block_nr;
+
+  int cl_depth_penalty;
+  int cl_length_penalty;
+  int var_weight;
+  int repeat_var_weight;
+  int atom_poseq_penalty;
+  int use_max_ground_weight;
+  int use_max_weight;  
+
+  int cl_maxkeep_weightlimit;
+  int cl_maxkeep_sizelimit;
+  int cl_maxkeep_depthlimit;
+  int cl_maxkeep_lengthlimit;
+
+  int cl_pick_queue_strategy; // how to spread clauses between different queues: 0 
+                              // 0: one only,
+                              // 1: exactly as marked, 
+                              // 2: make non-included axioms assumptions and positive conjecture part assumptions
+                              // 3: only fully negative clauses of goal made goal and no assumptions (ie made axioms)
+
+  int use_hornpref;
+  int use_posweightdoublepref;
+  int use_negweightdoublepref;
+
+  /* dynamically changed limits */
+
+  int max_run_seconds;
+  int max_seconds;
+  int max_run_dseconds;
+  int max_dseconds;
+  int cl_keep_weightlimit;
+  int cl_keep_sizelimit;
+  int cl_keep_depthlimit;
+  int cl_keep_lengthlimit;
+  
+  int reverse_clauselist_strat; // initially reverse clause list, do not sort (only for non-query)
+  int queryfocus_strat;
+  int queryfocusneg_strat;
+  int hyperres_strat;
+  int relaxed_hyperres_strat;
+  int goalweight_normal_strat; // if 1, normal initial weights are applied, else special low weights
+  int unit_active_strat;    // if 1, make all units active for sos strategies
+  int weightorder_strat;          // clause ordering for resolvability of literals
+  int negpref_strat;          // clause ordering for resolvability of literals
+  int pospref_strat;          // clause ordering for resolvability of literals
+  int knuthbendixpref_strat;  // clause ordering for resolvability of literals
+  int hardnesspref_strat;     // clause ordering for resolvability of literals
+  int res_shortarglen_limit; // max non-ans len of the shortest res argument (generalization of unit)
+  int res_arglen_limit; // if non-zero, do not resolve upon longer clauses and do not ever para
+  int res_strict_arglen_limit; // if non-zero,  do para on units if res_arglen_limit<2
+  int posunitpara_strat;
+  int rewrite_only_strat; // if non-zero, do not store para terms: only store demodulators
+  int instgen_strat;
+  int propgen_strat;
+  int back_subsume;
+  int forward_subsume_derived;
+  int propagate;
+  int use_equality_strat; // general strategy
+  int use_equality; // current principle
+  int use_comp_funs_strat; // general strategy
+  int use_comp_funs; // current principle
+  int use_comp_arithmetic; // current principle for arithmetic
+  int arith_instantiation; // 0 off, 1 conservative, 2 stronger
+  int arith_inst_max_vars;
+  int arith_inst_candidate_limit;
+  int arith_inst_probe_limit;
+  int arith_inst_keep_limit;
+  int arith_inst_depth_limit;
+  int arith_inst_global_limit;
+  unsigned int arith_inst_explicit_mask;
+  int have_nonground_arithmetic;
+  int use_rewrite_terms_strat; // general strategy
+  int have_rewrite_terms; // observation  
+  int use_strong_unit_cutoff; 
+  int use_strong_duplicates; // iff 1, then unique var based duplicate removal
+  int prohibit_nested_para;  
+  int prohibit_unordered_para;
+  int prohibit_deep_para;
+
+
+  int max_proofs;
+  int store_history;
+  int endgame_mode; 
+
+  /*  printout configuration */
+  
+
+  int print_flag;
+  int print_json;
+  int print_tptp;
+  int print_clauses_json;
+  int print_clauses_tptp;
+  int print_proof_tptp;
+  int print_level_flag;
+  int print_derived;
+  int print_clause_history;
+  int print_history_extra;  
+  int print_fof_conversion_proof;
+  
+  int parser_print_level;
+  int print_initial_parser_result;
+  int print_generic_parser_result;
+  
+  int print_initial_active_list;
+  int print_initial_passive_list;
+  
+  int print_given_interval_trace;
+  int print_initial_given_cl;
+  int print_final_given_cl;
+  int print_active_cl;
+  int print_litterm_selection;
+  int print_partial_derived_cl;
+  int print_derived_cl;
+  int print_derived_subsumed_cl;
+  int print_derived_precut_cl;
+  
+  int print_clause_detaillevel;
+  int print_runs;
+  int print_stats;
+  int print_datastructs;
+  int print_sine;
+  
+  /* tmp variables */
+  
+  gint* tmp_unify_vc;       // var count in unification
+  gint  tmp_unify_occcheck; // occcheck necessity in unification (changes)
+  gint  tmp_unify_do_occcheck;
+  gint  tmp_rewrites; // count of rewrites during one clause simplification
+  char* tmp_printbuf; // temporary buffer for printing, malloced as needed
+  int arith_inst_probe_active;
+  int tmp_arithinst_calc_count;
+  int tmp_arithinst_deleted_lits;
+  int tmp_arithinst_tautology;
+
+  int arith_inst_global_candidate_count;
+  wr_arith_value arith_inst_global_candidates[WR_ARITH_MAX_GLOBAL_VALUES];
+  wr_arith_cache_entry* arith_inst_cache;
+  int arith_inst_cache_size;
+  int arith_inst_cache_saturated;
+
+  /* build control: changed in code */
+  
+  int  build_rewrite; // current switch: to rewrite or not during building
+  gint build_subst;    // subst var values into vars
+  gint build_calc;     // do fun and pred calculations
+  gint build_dcopy;    // copy nonimmediate data (vs return ptr)
+  gptr build_buffer;   // build everything into tmp buffer (vs main area)
+                       // points to NULL or given_termbuf, derived_termbuf etc
+  
+  gint build_rename;   // do var renaming
+  gint build_rename_maxseenvnr; // tmp var for var renaming
+  gint build_rename_vc;    // tmp var for var renaming
+  gptr build_rename_bank;  // points to bank of created vars
+  gint build_rename_banknr; // nr of bank of created vars  
+
+  /* statistics */
+  
+  int stat_wr_mallocs;
+  int stat_wr_callocs;
+  int stat_wr_reallocs;
+  int stat_wr_frees;
+  gint stat_wr_malloc_bytes;
+  gint stat_wr_calloc_bytes;
+  gint stat_wr_realloc_bytes;
+  gint stat_wr_realloc_freebytes;
+  
+  int stat_built_cl;
+  int stat_derived_cl;
+  int stat_derived_partial_hyper_cl;
+  int stat_binres_derived_cl;
+  int stat_instgen_derived_cl;
+  int stat_arithinst_clauses_scanned;
+  int stat_arithinst_frontiers;
+  int stat_arithinst_candidates;
+  int stat_arithinst_probes;
+  int stat_arithinst_calculated;
+  int stat_arithinst_rejected_no_progress;
+  int stat_arithinst_rejected_tautology;
+  int stat_arithinst_rejected_cache;
+  int stat_arithinst_rejected_budget;
+  int stat_arithinst_truncated;
+  int stat_arithinst_kept;
+  int stat_arithinst_proofs;
+  int stat_prop_inst_derived_cl;
+  int stat_propagated_derived_cl;
+  int stat_factor_derived_cl;
+  int stat_para_derived_cl;
+  int stat_kept_cl;
+  int stat_made_rewriters;
+  
+  int stat_hyperres_partial_cl;
+  int stat_tautologies_discarded;
+  int stat_weight_discarded_building;
+  int stat_weight_discarded_cl;
+  int stat_internlimit_discarded_cl;
+  int stat_internlimit_discarded_para;
+  int stat_given_candidates;
+  int stat_given_candidates_hyper;
+  int stat_given_candidates_at_endgame; 
+  int stat_given_used;  
+  int stat_given_used_at_endgame; 
+  int stat_simplified;
+  int stat_simplified_given;
+  int stat_simplified_derived;
+  int stat_backward_subsumed;
+  int stat_propagated_subsumed;
+  int stat_forward_subsumed;
+  int stat_derived_cut;
+  int stat_derived_rewritten;
+  int stat_clsubs_attempted;
+  gint stat_clsubs_top_meta_attempted;
+  gint stat_clsubs_top_meta_failed;
+  gint stat_clsubs_top_meta_nonpref_attempted;
+  gint stat_clsubs_top_meta_nonpref_succeeded;
+  gint stat_clsubs_top_meta_pref_attempted;
+  gint stat_clsubs_top_meta_pref_succeeded;
+  gint stat_clsubs_top_meta_pref1_succeeded;
+  gint stat_clsubs_top_meta_pref2_succeeded;
+  gint stat_clsubs_top_meta_pref3_succeeded;  
+  int stat_clsubs_meta_attempted;
+  int stat_clsubs_meta_failed;
+  int stat_clsubs_predsymbs_attempted;
+  int stat_clsubs_unit_attempted;
+  int stat_clsubs_full_attempted;
+  int stat_clsubs_fact_groundunit_found;
+  int stat_clsubs_rule_groundunit_found;
+  int stat_forwardsubs_attempted;
+  int stat_lit_hash_added;
+  int stat_lit_hash_computed;
+  int stat_lit_hash_match_found;
+  int stat_lit_hash_match_miss;
+  int stat_prop_hash_match_miss;
+  int stat_lit_hash_cut_ok;  
+  int stat_lit_strong_cut_ok;
+  int stat_lit_hash_subsume_ok;
+  int stat_atom_hash_added;
+  int stat_atom_hash_computed;
+  int stat_atom_hash_match_found;
+  int stat_atom_hash_match_miss;
+  
+  int log_level;
+
+  int tmp1;
+  int tmp2;
+  int tmp3;
+  int tmp4;
+  int tmp5;
+
+  int tmp6;
+  int tmp7;
+  int tmp8;
+  int tmp9;
+
+  /* input clause set analysis */
+
+  int in_has_fof;
+  int in_has_nonground_arithmetic;
+
+  int in_clause_count;
+  int in_rule_clause_count;
+  int in_fact_clause_count;
+  int in_answer_clause_count;
+  int in_ground_clause_count;
+  int in_unit_clause_count;
+  int in_horn_clause_count;
+  int in_pos_clause_count;
+  int in_neg_clause_count;
+  int in_poseq_clause_count;
+  int in_negeq_clause_count;
+  int in_unitposeq_clause_count;
+  int in_chain_clause_count;
+  int in_min_length;
+  int in_max_length;
+  int in_min_depth;
+  int in_max_depth;
+  int in_min_size;
+  int in_max_size;
+  int in_min_vars;
+  int in_max_vars;
+  float in_average_length;
+  float in_average_depth;
+  int in_predicate_count;
+  int in_funsymb_count;
+  int in_extaxiom_count;
+  int in_axiom_count;
+  int in_assumption_count;
+  int in_goal_count;
+  int in_neg_goal_count;
+  int in_pos_goal_count;
+  int in_posunit_goal_count;
+  int in_max_const_ucount;
+  gint in_max_occ_const;
+
+  int sin_clause_count;
+  int sin_rule_clause_count;
+  int sin_fact_clause_count;
+  int sin_answer_clause_count;
+  int sin_ground_clause_count;
+  int sin_unit_clause_count;
+  int sin_horn_clause_count;
+  int sin_pos_clause_count;
+  int sin_neg_clause_count;
+  int sin_poseq_clause_count;
+  int sin_negeq_clause_count;
+  int sin_unitposeq_clause_count;
+  int sin_chain_clause_count;
+  int sin_min_length;
+  int sin_max_length;
+  int sin_min_depth;
+  int sin_max_depth;
+  int sin_min_size;
+  int sin_max_size;
+  int sin_min_vars;
+  int sin_max_vars;
+  float sin_average_length;
+  float sin_average_depth;
+  int sin_predicate_count;
+  int sin_funsymb_count;
+  int sin_extaxiom_count;
+  int sin_axiom_count;
+  int sin_assumption_count;
+  int sin_goal_count;
+  int sin_neg_goal_count;
+  int sin_pos_goal_count;
+  int sin_posunit_goal_count;
+  int sin_max_const_ucount;
+  gint sin_max_occ_const;
+  int sin_has_nonground_arithmetic;
+
+  /* run averages and measures */
+  
+  int current_run_nr;
+  int current_fork_nr;
+  double avg_kept_weight;
+  float passed_ratio;
+  clock_t allruns_start_clock;
+  //clock_t allruns_end_clock;
+  clock_t run_start_clock;
+  //clock_t run_end_clock;  
+  char guidetext[MAX_GUIDETEXT_LEN];
+
+} glb;
+
+
+
+/* === Protos for funs in glb.c === */
+
+
+glb* wr_glb_new_full(void* db);
+glb* wr_glb_new_simple(void* db);
+
+int wr_glb_free(glb* g);
+
+int wr_glb_init_simple(glb* g);
+
+int wr_glb_init_shared_simple(glb* g);
+int wr_glb_init_shared_complex(glb* g);
+int wr_glb_init_seq_shared_complex(glb* g);
+int wr_glb_free_shared_simple(glb* g);
+int wr_glb_free_shared_complex(glb* g);
+
+int wr_glb_init_local_simple(glb* g);
+int wr_glb_init_local_complex(glb* g);
+int wr_glb_init_seq_local_complex(glb* g);
+int wr_glb_free_local_simple(glb* g);
+int wr_glb_free_local_complex(glb* g);
+
+void wr_print_glb_memarea(glb* g, gptr p);
+void wr_check_cl_memarea(glb* g, gptr xptr);
+
+void wr_hashlists_explore(glb* g);
+
+#endif
-- 
2.43.0


From 0bf57e18dd96efa9126d15a4ef0dda808a56cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:37 +0000
Subject: [PATCH 08/45] fix: wg_free_object compared the offset instead of the
 size of the previous free object

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 546e8db..dca9ccb 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1263,7 +1263,7 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     prevobjectsize=getfreeobjectsize(dbfetch(db,(object-sizeof(gint))));
     prevobject=object-prevobjectsize;
     prevobjecthead=dbfetch(db,prevobject);
-    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobject)!=prevobjectsize) {
+    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobjecthead)!=prevobjectsize) {
       show_dballoc_error(db,"wg_free_object notices corruption: previous object is not ok free object");
       return -4; // corruption noticed
     }
-- 
2.43.0


From 014dd1ec812f21853b2c3e3f6f317b44710ed29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 09/45] fix: allocating an exact fit from a varlen bucket left
 the next object marked as following a free one

---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index dca9ccb..796ae1c 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1015,6 +1015,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
         if (nextel!=0) dbstore(db,nextel+2*sizeof(gint),dbaddr(db,&freebuckets[i]));
         // prev elem cannot be free (no consecutive free elems)
         dbstore(db,res,makeusedobjectsizeprevused(wantedbytes)); // store wanted size to the returned object
+        /* next object should be marked as "prev used" */
+        nextobject=res+usedbytes;
+        tmp=dbfetch(db,nextobject);
+        if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
         return res;
       } else if (size>=usedbytes+MIN_VARLENOBJ_SIZE) {
         // found one somewhat larger: now split and store the rest
-- 
2.43.0


From fc081000af5b722a3174df83a6d81ad8940a2bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 10/45] fix: a designated victim moved to a free list on area
 extension was not marked as free for its next object

---
 Db/dballoc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 796ae1c..2527b70 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -716,6 +716,9 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
       freebuckets[dvindex]=dv; // store offset to correct bucket
+      // mark the next used object as following a free object
+      if (isnormalusedobject(dbfetch(db,dv+dvsize)))
+        dbstore(db,dv+dvsize,makeusedobjectsizeprevfree(dbfetch(db,dv+dvsize)));
       //printf("in init_subarea_freespace: \n PUSHED DV WITH SIZE %d TO FREELIST TO BUCKET %d:\n",
       //        dvsize,dvindex);
       //show_bucket_freeobjects(db,freebuckets[dvindex]);
-- 
2.43.0


From c2a175fffef81bc49b1565e0fda6bafce78eb85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 11/45] fix: an object freed between the designated victim and
 a free object was not merged with the latter

---
 Db/dballoc.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2527b70..4897b71 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1299,6 +1299,22 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     // should merge with a previous dv
     object=freebuckets[DVBUCKET];
     size=size+freebuckets[DVSIZEBUCKET]; // increase size to cover dv as well
+    // a following free object is merged as well: remove it from its freelist
+    nextobject=object+size;
+    nextobjecthead=dbfetch(db,nextobject);
+    if (isfreeobject(nextobjecthead)) {
+      size=size+getfreeobjectsize(nextobjecthead);
+      nextnextptr=dbfetch(db,nextobject+sizeof(gint));
+      nextprevptr=dbfetch(db,nextobject+2*sizeof(gint));
+      nextindex=wg_freebuckets_index(db,getfreeobjectsize(nextobjecthead));
+      if (freebuckets[nextindex]==nextobject) freebuckets[nextindex]=nextnextptr;
+      else dbstore(db,nextprevptr+sizeof(gint),nextnextptr);
+      if (nextnextptr!=0) dbstore(db,nextnextptr+2*sizeof(gint),nextprevptr);
+      // set the next used object mark to prev-used
+      nextobject=object+size;
+      tmp=dbfetch(db,nextobject);
+      if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
+    }
     // modify dv size information in area header: dv will extend to freed object
     freebuckets[DVSIZEBUCKET]=size;
     // store dv size and marker to dv head
-- 
2.43.0


From 6514f41a1d24a2bbda7e65cfcba8afdaa7e415ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 12/45] hook: keep the CRLF line ends of glb.h

---
 Reasoner/glb.h | 1386 ++++++++++++++++++++++++------------------------
 1 file changed, 693 insertions(+), 693 deletions(-)

diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index 95ac0bd..e4969b7 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -1,693 +1,693 @@
-/*
-*
-* Copyright (c) Tanel Tammet 2004-2019
-*
-* Contact: tanel.tammet@gmail.com                 
-*
-* This file is part of GKC
-*
-* GKC is free software: you can redistribute it and/or modify
-* it under the terms of the GNU Affero General Public License as published by
-* the Free Software Foundation, either version 3 of the License, or
-* (at your option) any later version.
-* 
-* GKC is distributed in the hope that it will be useful,
-* but WITHOUT ANY WARRANTY; without even the implied warranty of
-* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-* GNU General Public License for more details.
-* 
-* You should have received a copy of the GNU Affero General Public License
-* along with GKC.  If not, see <http://www.gnu.org/licenses/>.
-*
-*/
-
-
- /** @file glb.h
- *  Reasoner globals.
- *
- */
-
-
-#ifndef DEFINED_GLB_H
-#define DEFINED_GLB_H
-
-#ifdef _WIN32
-#define WIN32_LEAN_AND_MEAN
-#include <windows.h>
-#endif
-
-#include <time.h>
-#include <stdio.h>
-#include <stdint.h>
-
-#include "types.h"
-#include "arithinst.h"
-
-
-#define NROF_DYNALLOCINITIAL_ELS    10000000
-
-#ifdef __EMSCRIPTEN__
-
-#define NROF_QUEUE_TERMBUF_ELS      40000000 // 40 M of int els
-#define NROF_HYPER_TERMBUF_ELS       5000000 // 5 M of int els                             
-#define NROF_ACTIVE_TERMBUF_ELS     10000000 // 10 M of int els
-#define NROF_GIVEN_TERMBUF_ELS       1000000 // 1 M of gint els
-#define NROF_DERIVED_TERMBUF_ELS     1000000 // 1 M of gint els
-#define NROF_SIMPLIFIED_TERMBUF_ELS  1000000 // 1 M of gint els
-
-#else
-
-#define NROF_GIVEN_TERMBUF_ELS      10000000 // 10 M of gint els
-#define NROF_DERIVED_TERMBUF_ELS    10000000 // 10 M of gint els
-#define NROF_SIMPLIFIED_TERMBUF_ELS 10000000 // 10 M of gint els
-
-#ifdef _WIN32
-#ifdef _WIN64
-#define NROF_QUEUE_TERMBUF_ELS   200000000
-#define NROF_HYPER_TERMBUF_ELS   100000000
-#define NROF_ACTIVE_TERMBUF_ELS  100000000
-#else
-#define NROF_QUEUE_TERMBUF_ELS    20000000
-#define NROF_HYPER_TERMBUF_ELS    10000000                              
-#define NROF_ACTIVE_TERMBUF_ELS   20000000 
-#endif
-#else
-#define NROF_QUEUE_TERMBUF_ELS   200000000  // 200 M of gint els
-#define NROF_HYPER_TERMBUF_ELS   100000000  // 100 M of gint els
-#define NROF_ACTIVE_TERMBUF_ELS  100000000  // 100 M of gint els
-#endif
-#endif
-
-#define NROF_CUT_CLVEC_ELS   100
-#define NROF_REWRITE_CLVEC_ELS  10000
-#define NROF_HYPER_QUEUE_ELS 100000
-
-#define NROF_VARBANKS   5 
-#define NROF_VARSINBANK 1000
-#define FIRST_UNREAL_VAR_NR ((NROF_VARBANKS-1)*NROF_VARSINBANK)
-
-#define NROF_WEIGHTQUEUE_ELS 200
-#define NROF_CLTERM_HASHVEC_ELS       1000000 // was 1000000
-#define NROF_ACTIVE_UNIT_HASHVEC_ELS  1000000 // was 1000000
-#define NROF_CLTERM_HASHNODESVEC_ELS 10000000 // 10 M used if MALLOC_HASHNODES not set
-
-#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 1000000
-
-#ifdef VERIF_SMALL_TABLES // verification builds only: same code, fewer buckets
-#undef NROF_CLTERM_HASHVEC_ELS
-#define NROF_CLTERM_HASHVEC_ELS 5000
-#undef NROF_ACTIVE_UNIT_HASHVEC_ELS
-#define NROF_ACTIVE_UNIT_HASHVEC_ELS 5000
-#undef NROF_ATOM_OCCURRENCES_HASHVEC_ELS
-#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 5000
-#endif
-
-
-
-#define TERMHASH_INITIAL_BUCKETSIZE 4
-#define ATOMHASH_INITIAL_BUCKETSIZE 4
-
-#define MAX_CLAUSE_LEN 1000
-#define INITIAL_SORTVEC_LEN 10
-#define INITIAL_CLTMPVEC_LEN 10
-#define INITIAL_VARTMPVEC_LEN 10
-#define INITIAL_URITMPVEC_LEN 1000
-
-#define INITIAL_ANSWERS_LEN 1000
-
-#define MAX_CLPRIOR 10000 // priorities differentiated in a priority queue for picking clauses
-/*
-#define NROF_PRIORQUEUES 4
-#define GOAL_
-*/
-
-#define MALLOC_HASHNODES // if defined, use malloc for hashnodes, else alloc from g->hash_nodes
-//#undef MALLOC_HASHNODES
-
-// prop
-
-#define NROF_PROP_VARVALS_ELS 1000000
-#define NROF_PROP_CLAUSES_ELS 1000000
-
-// /opt/lingeling/lingeling --verbose=-1 -T 1 /opt/lingeling/tst2.txt > out.txt
-// s UNSATISFIABLE
-// s SATISFIABLE
-
-#define DEFAULT_PROP_SOLVER_NAME "/opt/gkc/Prop/kissat-rel-3.0.0/build/kissat"
-#define DEFAULT_PROP_FILE_NAME "/tmp/gkc_prop_inXXXXXX"
-#define DEFAULT_PROP_SOLVER_OUTFILE_NAME "/tmp/gkc_prop_outXXXXXX"
-
-#define MAX_FILENAME_LEN 80
-
-#define MAX_GUIDETEXT_LEN 500
-
-#define SINE_K_VALUES_SIZE 10000000 // bytestring 10 mbyte
-
-// #define SHARED_DERIVED  // if set, keep some clauses over different passes
-
-/* ======== Structures ========== */
-
-/** glb contains global values for requests.
-* 
-* requests should use a single global variable g, which
-* is a pointer to glb structure.
-* 
-*/
-
-typedef struct glb {
-  
-  void* db;             /**< mem database used as a base for offset: either kb_db or child_db here */
-  void* kb_db;          /**< shared-mem knowledge base */
-  void* child_db;       /**< local child db: if kb_db present, then child_db->kb_db is set to this */
-  gint db_offset;       /**< offset of the db ptr */
-  gint inkb;            /**< 1 if g struct is inside shared kb, 0 otherwise */
-  void* kb_g;            /**< if external shared mem kb_db is present, then the g ptr inside kb_db, else NULL */ 
-  void* local_db;        /** this will be set to local db in any case in rmain.c */  
-  char* filename;       /**< input filename */
-  char* outfilename;       /**< output filename */
-
-  /* === shared data block === */
-  
-  gint initial_cl_list; /**< offset of the initial clause list in a shared db */
-  gint shared_clid_next; /** next id of the clause */
-
-  cveco clbuilt;        /**< vector containing built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  cveco clactive;      /**< vector containing active clauses, newest last.  */
-  cveco clactivesubsume; /**< vector containing active clauses with metainfo for subsumption */
-  
-  cveco clpickstack;   /**< vector containing built clause stack to be selected as given before using queue (hyperres eg) */
-  cveco clqueue;        /**< vector containing kept clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  gint clqueue_given;  /**< index of next clause to be taken from clqueue */     
-  gint clpickpriorqueue;  /**< priority queue for picking clauses as as given, maybe interleaved with clqueue */
-
-  gint clpick_queues;   /**< vec of several queue structures */
-  gint clpick_given;    /**< index of next queue to be taken from vec of queues */
-
-#ifdef SHARED_DERIVED    
-  cveco shared_clbuilt;   /**< vector containing shared built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
-  gint shared_hash_neg_groundunits; /**< shared hash structure for cutting off with negative ground unit clauses */
-  gint shared_hash_pos_groundunits; /**< shared hash structure for cutting off with positive ground unit clauses */
-#endif
-
-  gint hash_neg_groundunits; /**< hash structure for cutting off with negative ground unit clauses */
-  gint hash_pos_groundunits; /**< hash structure for cutting off with positive ground unit clauses */
-
-  gint hash_neg_grounddoubles; /**< hash structure for cutting off with negative ground double clauses */
-  gint hash_pos_grounddoubles; /**< hash structure for cutting off with positive ground double clauses */
-
-  gint hash_neg_active_groundunits; /**< hash structure for subsuming with negative ground unit clauses in active */
-  gint hash_pos_active_groundunits; /**< hash structure for subsuming with positive ground unit clauses in active */
-
-  gint hash_atom_occurrences; /**< hash structure for atom occurrences, used for unit propagation */
-
-  //veco clweightqueue;
-  veco hash_neg_atoms;  /**< hash structure for all negative literals in active clauses inside all clauses  */
-  veco hash_pos_atoms;  /**< hash structure for all positive literals in active clauses inside all clauses  */
-  veco hash_neg_units;  /**< hash structure for all negative literals in unit active clauses  */
-  veco hash_pos_units;  /**< hash structure for all positive literals in unit active clauses  */
-  //veco hash_units;      /**< hash structure for: initialized, but not really used */
-  veco hash_para_terms; /**< hash structure for paramodulating from: terms here will be unified with newly given eq clauses */
-  veco hash_eq_terms;   /**< hash structure for paramodulation into: equality args here will be unified with given clause subterms */
-  veco hash_rewrite_terms; /**< hash structure for left sides of rewrite rules (oriented equalities) */
- 
-#ifndef MALLOC_HASHNODES  
-  cvec hash_nodes;      /**< area for allocating hash nodes from **/
-#endif
-
-  /* prop reasoning stuff */
-
-  gint prop_counter; // set to the next prop integer to take: max prop var + 1
-  int use_prop_constant; // normally set to 0: else 1 to use prop const for all vars
-  gint prop_constant; // the constant to replace all vars for instantiation iff use_prop_constant!=0
-
-  veco prop_hash_atoms; // hash struct for keeping ints corresponding to grounded atoms 
-  veco prop_hash_clauses; // hash struct for keeping all derived clauses for equal-clause subsumption
-  cveco prop_varvals; // array for assigned prop values (0 unknown, 1 true, -1 false)
-  cveco prop_groundings; // array or atom / term pairs for all prop vars
-  cveco prop_clauses; // array for all prop clauses worth keeping
-  cveco prop_varval_clauses; // array for clauses for all assigned prop values, at same indexes
-
-  char* prop_file_name; // file name to dump prop vars to
-  char* prop_solver_name; // solver name to call
-  char* prop_solver_outfile_name; // file name for solver to store the redil
-
-  /* == local data block === */
-       
-  gint local_clid_next; /** next id of the clause */     
-  gint proof_found;
-  gptr proof_answer;
-  gint proof_history;
-  gint alloc_err; // set to 1 in case of alloc errors: should cancel search  
-  
-  vec varbanks; // 0: input (passive), 1: given clause renamed, 
-                // 2: active clauses, 3: derived clauses, 
-                // 4: tmp rename area (vals always UNASSIGNED, never set to other vals!)
-  cvec varstack;                  
-
-  cvec xcountedvarlist;
-  cvec ycountedvarlist;
-    
-  //int tmp_build_weight;
-  //vec tmp1_cl_vec;
-  //vec tmp2_cl_vec;
-  
-  vec tmp_litinf_vec;  // used by subsumption and by prop instantiation
-  vec tmp_hardnessinf_vec; // used by hardness calc
-  vec tmp_resolvability_vec; // used for resolvability of literals
-  vec tmp_sort_vec; // used for sorting the initial clause list
-
-  cvec given_termbuf;
-  cvec simplified_termbuf;
-  cvec derived_termbuf;    
-  cvec queue_termbuf;
-  cvec hyper_termbuf;
-  cvec active_termbuf;
-
-  cvec cut_clvec; // used for storing cutters of a derived clause
-  cvec rewrite_clvec; // used for storing rewriters of a clause
-  cvec hyper_queue; // storing partially derived clauses during hyperres for picking as given
-  cvec answers; // storing answer/proof pairs
-  char* sine_k_values; // k-values bytestring indexed by clause id: each byte contains k 
-  gint sine_k_bytes; // length of sine_k_values bytestring
-  char* backsubsume_values;
-  gint backsubsume_bytes; //
-  char* sine_uri_k_values; // k-values bytestring indexed by uri id: each byte contains k 
-  gint sine_uri_k_bytes; // length of sine_uri_k_values bytestring
-
-
-  cvec tmp_clinfo; // used for storing additional clause info while ordering for knuth-bendix
-  cvec tmp_varinfo; // used for storing additional var info while ordering for knuth-bendix 
-  cvec tmp_uriinfo; // used for storing uri info in a clause while doing sine
-
-  /* parser configuration */
-  
-  int parse_caps_as_var;
-  int parse_question_as_var;
-  int parse_newpred_strat; // introduce new predicates during distribution phase of clausification?
-  int store_fof_skolem_steps; 
-  int store_fof_source; 
-
-  /* parser temporary vars set by parser */
-
-  int parse_is_included_file;
-  char* parse_skolem_prefix;  
-  //int parse_skolem_nr; // moved to dballoc.h
-  char* parse_newpred_prefix; 
-  //int int parse_newpred_nr; // moved to dballoc.h
-  char* parse_errmsg;
-  int parse_errflag;
-  
-  /* unification/matching configuration */
-  
-  int unify_samelen;      // 1 if unifiable terms need not have same length, 0 otherwise
-  int unify_maxuseterms;  // max nr of rec elems unified one after another: t1,t2,t3 gives 3
-                          // 0 if no limit 
-  int unify_firstuseterm; // rec pos where we start to unify 
-  int unify_funpos;       // rec pos of a fun/pred uri
-  int unify_funarg1pos;   // rec pos of a fun/pred first arg
-  int unify_funarg2pos;   // rec pos of a fun/pred second arg
-  int unify_footerlen;    // obligatory amount of unused gints to add to end of each created term 
-  
-  /* strategy selection */
-  
-  //int max_forks;
-  int sine_strat; // 0 if none, 1 if weak, 2 if strong
-  int sine_strat_used; // 0 if not actually used, 1 if used: set automatically by analyze if sine_strat!=0
-  int sine_order_strat; // 0 if none, 1 if on
-  int required_answer_nr;
-  int pick_given_queue_ratio;
-  int pick_given_queue_ratio_counter;
-  int next_pick_given_queue_block_nr;
-
-  int cl_depth_penalty;
-  int cl_length_penalty;
-  int var_weight;
-  int repeat_var_weight;
-  int atom_poseq_penalty;
-  int use_max_ground_weight;
-  int use_max_weight;  
-
-  int cl_maxkeep_weightlimit;
-  int cl_maxkeep_sizelimit;
-  int cl_maxkeep_depthlimit;
-  int cl_maxkeep_lengthlimit;
-
-  int cl_pick_queue_strategy; // how to spread clauses between different queues: 0 
-                              // 0: one only,
-                              // 1: exactly as marked, 
-                              // 2: make non-included axioms assumptions and positive conjecture part assumptions
-                              // 3: only fully negative clauses of goal made goal and no assumptions (ie made axioms)
-
-  int use_hornpref;
-  int use_posweightdoublepref;
-  int use_negweightdoublepref;
-
-  /* dynamically changed limits */
-
-  int max_run_seconds;
-  int max_seconds;
-  int max_run_dseconds;
-  int max_dseconds;
-  int cl_keep_weightlimit;
-  int cl_keep_sizelimit;
-  int cl_keep_depthlimit;
-  int cl_keep_lengthlimit;
-  
-  int reverse_clauselist_strat; // initially reverse clause list, do not sort (only for non-query)
-  int queryfocus_strat;
-  int queryfocusneg_strat;
-  int hyperres_strat;
-  int relaxed_hyperres_strat;
-  int goalweight_normal_strat; // if 1, normal initial weights are applied, else special low weights
-  int unit_active_strat;    // if 1, make all units active for sos strategies
-  int weightorder_strat;          // clause ordering for resolvability of literals
-  int negpref_strat;          // clause ordering for resolvability of literals
-  int pospref_strat;          // clause ordering for resolvability of literals
-  int knuthbendixpref_strat;  // clause ordering for resolvability of literals
-  int hardnesspref_strat;     // clause ordering for resolvability of literals
-  int res_shortarglen_limit; // max non-ans len of the shortest res argument (generalization of unit)
-  int res_arglen_limit; // if non-zero, do not resolve upon longer clauses and do not ever para
-  int res_strict_arglen_limit; // if non-zero,  do para on units if res_arglen_limit<2
-  int posunitpara_strat;
-  int rewrite_only_strat; // if non-zero, do not store para terms: only store demodulators
-  int instgen_strat;
-  int propgen_strat;
-  int back_subsume;
-  int forward_subsume_derived;
-  int propagate;
-  int use_equality_strat; // general strategy
-  int use_equality; // current principle
-  int use_comp_funs_strat; // general strategy
-  int use_comp_funs; // current principle
-  int use_comp_arithmetic; // current principle for arithmetic
-  int arith_instantiation; // 0 off, 1 conservative, 2 stronger
-  int arith_inst_max_vars;
-  int arith_inst_candidate_limit;
-  int arith_inst_probe_limit;
-  int arith_inst_keep_limit;
-  int arith_inst_depth_limit;
-  int arith_inst_global_limit;
-  unsigned int arith_inst_explicit_mask;
-  int have_nonground_arithmetic;
-  int use_rewrite_terms_strat; // general strategy
-  int have_rewrite_terms; // observation  
-  int use_strong_unit_cutoff; 
-  int use_strong_duplicates; // iff 1, then unique var based duplicate removal
-  int prohibit_nested_para;  
-  int prohibit_unordered_para;
-  int prohibit_deep_para;
-
-
-  int max_proofs;
-  int store_history;
-  int endgame_mode; 
-
-  /*  printout configuration */
-  
-
-  int print_flag;
-  int print_json;
-  int print_tptp;
-  int print_clauses_json;
-  int print_clauses_tptp;
-  int print_proof_tptp;
-  int print_level_flag;
-  int print_derived;
-  int print_clause_history;
-  int print_history_extra;  
-  int print_fof_conversion_proof;
-  
-  int parser_print_level;
-  int print_initial_parser_result;
-  int print_generic_parser_result;
-  
-  int print_initial_active_list;
-  int print_initial_passive_list;
-  
-  int print_given_interval_trace;
-  int print_initial_given_cl;
-  int print_final_given_cl;
-  int print_active_cl;
-  int print_litterm_selection;
-  int print_partial_derived_cl;
-  int print_derived_cl;
-  int print_derived_subsumed_cl;
-  int print_derived_precut_cl;
-  
-  int print_clause_detaillevel;
-  int print_runs;
-  int print_stats;
-  int print_datastructs;
-  int print_sine;
-  
-  /* tmp variables */
-  
-  gint* tmp_unify_vc;       // var count in unification
-  gint  tmp_unify_occcheck; // occcheck necessity in unification (changes)
-  gint  tmp_unify_do_occcheck;
-  gint  tmp_rewrites; // count of rewrites during one clause simplification
-  char* tmp_printbuf; // temporary buffer for printing, malloced as needed
-  int arith_inst_probe_active;
-  int tmp_arithinst_calc_count;
-  int tmp_arithinst_deleted_lits;
-  int tmp_arithinst_tautology;
-
-  int arith_inst_global_candidate_count;
-  wr_arith_value arith_inst_global_candidates[WR_ARITH_MAX_GLOBAL_VALUES];
-  wr_arith_cache_entry* arith_inst_cache;
-  int arith_inst_cache_size;
-  int arith_inst_cache_saturated;
-
-  /* build control: changed in code */
-  
-  int  build_rewrite; // current switch: to rewrite or not during building
-  gint build_subst;    // subst var values into vars
-  gint build_calc;     // do fun and pred calculations
-  gint build_dcopy;    // copy nonimmediate data (vs return ptr)
-  gptr build_buffer;   // build everything into tmp buffer (vs main area)
-                       // points to NULL or given_termbuf, derived_termbuf etc
-  
-  gint build_rename;   // do var renaming
-  gint build_rename_maxseenvnr; // tmp var for var renaming
-  gint build_rename_vc;    // tmp var for var renaming
-  gptr build_rename_bank;  // points to bank of created vars
-  gint build_rename_banknr; // nr of bank of created vars  
-
-  /* statistics */
-  
-  int stat_wr_mallocs;
-  int stat_wr_callocs;
-  int stat_wr_reallocs;
-  int stat_wr_frees;
-  gint stat_wr_malloc_bytes;
-  gint stat_wr_calloc_bytes;
-  gint stat_wr_realloc_bytes;
-  gint stat_wr_realloc_freebytes;
-  
-  int stat_built_cl;
-  int stat_derived_cl;
-  int stat_derived_partial_hyper_cl;
-  int stat_binres_derived_cl;
-  int stat_instgen_derived_cl;
-  int stat_arithinst_clauses_scanned;
-  int stat_arithinst_frontiers;
-  int stat_arithinst_candidates;
-  int stat_arithinst_probes;
-  int stat_arithinst_calculated;
-  int stat_arithinst_rejected_no_progress;
-  int stat_arithinst_rejected_tautology;
-  int stat_arithinst_rejected_cache;
-  int stat_arithinst_rejected_budget;
-  int stat_arithinst_truncated;
-  int stat_arithinst_kept;
-  int stat_arithinst_proofs;
-  int stat_prop_inst_derived_cl;
-  int stat_propagated_derived_cl;
-  int stat_factor_derived_cl;
-  int stat_para_derived_cl;
-  int stat_kept_cl;
-  int stat_made_rewriters;
-  
-  int stat_hyperres_partial_cl;
-  int stat_tautologies_discarded;
-  int stat_weight_discarded_building;
-  int stat_weight_discarded_cl;
-  int stat_internlimit_discarded_cl;
-  int stat_internlimit_discarded_para;
-  int stat_given_candidates;
-  int stat_given_candidates_hyper;
-  int stat_given_candidates_at_endgame; 
-  int stat_given_used;  
-  int stat_given_used_at_endgame; 
-  int stat_simplified;
-  int stat_simplified_given;
-  int stat_simplified_derived;
-  int stat_backward_subsumed;
-  int stat_propagated_subsumed;
-  int stat_forward_subsumed;
-  int stat_derived_cut;
-  int stat_derived_rewritten;
-  int stat_clsubs_attempted;
-  gint stat_clsubs_top_meta_attempted;
-  gint stat_clsubs_top_meta_failed;
-  gint stat_clsubs_top_meta_nonpref_attempted;
-  gint stat_clsubs_top_meta_nonpref_succeeded;
-  gint stat_clsubs_top_meta_pref_attempted;
-  gint stat_clsubs_top_meta_pref_succeeded;
-  gint stat_clsubs_top_meta_pref1_succeeded;
-  gint stat_clsubs_top_meta_pref2_succeeded;
-  gint stat_clsubs_top_meta_pref3_succeeded;  
-  int stat_clsubs_meta_attempted;
-  int stat_clsubs_meta_failed;
-  int stat_clsubs_predsymbs_attempted;
-  int stat_clsubs_unit_attempted;
-  int stat_clsubs_full_attempted;
-  int stat_clsubs_fact_groundunit_found;
-  int stat_clsubs_rule_groundunit_found;
-  int stat_forwardsubs_attempted;
-  int stat_lit_hash_added;
-  int stat_lit_hash_computed;
-  int stat_lit_hash_match_found;
-  int stat_lit_hash_match_miss;
-  int stat_prop_hash_match_miss;
-  int stat_lit_hash_cut_ok;  
-  int stat_lit_strong_cut_ok;
-  int stat_lit_hash_subsume_ok;
-  int stat_atom_hash_added;
-  int stat_atom_hash_computed;
-  int stat_atom_hash_match_found;
-  int stat_atom_hash_match_miss;
-  
-  int log_level;
-
-  int tmp1;
-  int tmp2;
-  int tmp3;
-  int tmp4;
-  int tmp5;
-
-  int tmp6;
-  int tmp7;
-  int tmp8;
-  int tmp9;
-
-  /* input clause set analysis */
-
-  int in_has_fof;
-  int in_has_nonground_arithmetic;
-
-  int in_clause_count;
-  int in_rule_clause_count;
-  int in_fact_clause_count;
-  int in_answer_clause_count;
-  int in_ground_clause_count;
-  int in_unit_clause_count;
-  int in_horn_clause_count;
-  int in_pos_clause_count;
-  int in_neg_clause_count;
-  int in_poseq_clause_count;
-  int in_negeq_clause_count;
-  int in_unitposeq_clause_count;
-  int in_chain_clause_count;
-  int in_min_length;
-  int in_max_length;
-  int in_min_depth;
-  int in_max_depth;
-  int in_min_size;
-  int in_max_size;
-  int in_min_vars;
-  int in_max_vars;
-  float in_average_length;
-  float in_average_depth;
-  int in_predicate_count;
-  int in_funsymb_count;
-  int in_extaxiom_count;
-  int in_axiom_count;
-  int in_assumption_count;
-  int in_goal_count;
-  int in_neg_goal_count;
-  int in_pos_goal_count;
-  int in_posunit_goal_count;
-  int in_max_const_ucount;
-  gint in_max_occ_const;
-
-  int sin_clause_count;
-  int sin_rule_clause_count;
-  int sin_fact_clause_count;
-  int sin_answer_clause_count;
-  int sin_ground_clause_count;
-  int sin_unit_clause_count;
-  int sin_horn_clause_count;
-  int sin_pos_clause_count;
-  int sin_neg_clause_count;
-  int sin_poseq_clause_count;
-  int sin_negeq_clause_count;
-  int sin_unitposeq_clause_count;
-  int sin_chain_clause_count;
-  int sin_min_length;
-  int sin_max_length;
-  int sin_min_depth;
-  int sin_max_depth;
-  int sin_min_size;
-  int sin_max_size;
-  int sin_min_vars;
-  int sin_max_vars;
-  float sin_average_length;
-  float sin_average_depth;
-  int sin_predicate_count;
-  int sin_funsymb_count;
-  int sin_extaxiom_count;
-  int sin_axiom_count;
-  int sin_assumption_count;
-  int sin_goal_count;
-  int sin_neg_goal_count;
-  int sin_pos_goal_count;
-  int sin_posunit_goal_count;
-  int sin_max_const_ucount;
-  gint sin_max_occ_const;
-  int sin_has_nonground_arithmetic;
-
-  /* run averages and measures */
-  
-  int current_run_nr;
-  int current_fork_nr;
-  double avg_kept_weight;
-  float passed_ratio;
-  clock_t allruns_start_clock;
-  //clock_t allruns_end_clock;
-  clock_t run_start_clock;
-  //clock_t run_end_clock;  
-  char guidetext[MAX_GUIDETEXT_LEN];
-
-} glb;
-
-
-
-/* === Protos for funs in glb.c === */
-
-
-glb* wr_glb_new_full(void* db);
-glb* wr_glb_new_simple(void* db);
-
-int wr_glb_free(glb* g);
-
-int wr_glb_init_simple(glb* g);
-
-int wr_glb_init_shared_simple(glb* g);
-int wr_glb_init_shared_complex(glb* g);
-int wr_glb_init_seq_shared_complex(glb* g);
-int wr_glb_free_shared_simple(glb* g);
-int wr_glb_free_shared_complex(glb* g);
-
-int wr_glb_init_local_simple(glb* g);
-int wr_glb_init_local_complex(glb* g);
-int wr_glb_init_seq_local_complex(glb* g);
-int wr_glb_free_local_simple(glb* g);
-int wr_glb_free_local_complex(glb* g);
-
-void wr_print_glb_memarea(glb* g, gptr p);
-void wr_check_cl_memarea(glb* g, gptr xptr);
-
-void wr_hashlists_explore(glb* g);
-
-#endif
+/*
+*
+* Copyright (c) Tanel Tammet 2004-2019
+*
+* Contact: tanel.tammet@gmail.com                 
+*
+* This file is part of GKC
+*
+* GKC is free software: you can redistribute it and/or modify
+* it under the terms of the GNU Affero General Public License as published by
+* the Free Software Foundation, either version 3 of the License, or
+* (at your option) any later version.
+* 
+* GKC is distributed in the hope that it will be useful,
+* but WITHOUT ANY WARRANTY; without even the implied warranty of
+* MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+* GNU General Public License for more details.
+* 
+* You should have received a copy of the GNU Affero General Public License
+* along with GKC.  If not, see <http://www.gnu.org/licenses/>.
+*
+*/
+
+
+ /** @file glb.h
+ *  Reasoner globals.
+ *
+ */
+
+
+#ifndef DEFINED_GLB_H
+#define DEFINED_GLB_H
+
+#ifdef _WIN32
+#define WIN32_LEAN_AND_MEAN
+#include <windows.h>
+#endif
+
+#include <time.h>
+#include <stdio.h>
+#include <stdint.h>
+
+#include "types.h"
+#include "arithinst.h"
+
+
+#define NROF_DYNALLOCINITIAL_ELS    10000000
+
+#ifdef __EMSCRIPTEN__
+
+#define NROF_QUEUE_TERMBUF_ELS      40000000 // 40 M of int els
+#define NROF_HYPER_TERMBUF_ELS       5000000 // 5 M of int els                             
+#define NROF_ACTIVE_TERMBUF_ELS     10000000 // 10 M of int els
+#define NROF_GIVEN_TERMBUF_ELS       1000000 // 1 M of gint els
+#define NROF_DERIVED_TERMBUF_ELS     1000000 // 1 M of gint els
+#define NROF_SIMPLIFIED_TERMBUF_ELS  1000000 // 1 M of gint els
+
+#else
+
+#define NROF_GIVEN_TERMBUF_ELS      10000000 // 10 M of gint els
+#define NROF_DERIVED_TERMBUF_ELS    10000000 // 10 M of gint els
+#define NROF_SIMPLIFIED_TERMBUF_ELS 10000000 // 10 M of gint els
+
+#ifdef _WIN32
+#ifdef _WIN64
+#define NROF_QUEUE_TERMBUF_ELS   200000000
+#define NROF_HYPER_TERMBUF_ELS   100000000
+#define NROF_ACTIVE_TERMBUF_ELS  100000000
+#else
+#define NROF_QUEUE_TERMBUF_ELS    20000000
+#define NROF_HYPER_TERMBUF_ELS    10000000                              
+#define NROF_ACTIVE_TERMBUF_ELS   20000000 
+#endif
+#else
+#define NROF_QUEUE_TERMBUF_ELS   200000000  // 200 M of gint els
+#define NROF_HYPER_TERMBUF_ELS   100000000  // 100 M of gint els
+#define NROF_ACTIVE_TERMBUF_ELS  100000000  // 100 M of gint els
+#endif
+#endif
+
+#define NROF_CUT_CLVEC_ELS   100
+#define NROF_REWRITE_CLVEC_ELS  10000
+#define NROF_HYPER_QUEUE_ELS 100000
+
+#define NROF_VARBANKS   5 
+#define NROF_VARSINBANK 1000
+#define FIRST_UNREAL_VAR_NR ((NROF_VARBANKS-1)*NROF_VARSINBANK)
+
+#define NROF_WEIGHTQUEUE_ELS 200
+#define NROF_CLTERM_HASHVEC_ELS       1000000 // was 1000000
+#define NROF_ACTIVE_UNIT_HASHVEC_ELS  1000000 // was 1000000
+#define NROF_CLTERM_HASHNODESVEC_ELS 10000000 // 10 M used if MALLOC_HASHNODES not set
+
+#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 1000000
+
+#ifdef VERIF_SMALL_TABLES // verification builds only: same code, fewer buckets
+#undef NROF_CLTERM_HASHVEC_ELS
+#define NROF_CLTERM_HASHVEC_ELS 5000
+#undef NROF_ACTIVE_UNIT_HASHVEC_ELS
+#define NROF_ACTIVE_UNIT_HASHVEC_ELS 5000
+#undef NROF_ATOM_OCCURRENCES_HASHVEC_ELS
+#define NROF_ATOM_OCCURRENCES_HASHVEC_ELS 5000
+#endif
+
+
+
+#define TERMHASH_INITIAL_BUCKETSIZE 4
+#define ATOMHASH_INITIAL_BUCKETSIZE 4
+
+#define MAX_CLAUSE_LEN 1000
+#define INITIAL_SORTVEC_LEN 10
+#define INITIAL_CLTMPVEC_LEN 10
+#define INITIAL_VARTMPVEC_LEN 10
+#define INITIAL_URITMPVEC_LEN 1000
+
+#define INITIAL_ANSWERS_LEN 1000
+
+#define MAX_CLPRIOR 10000 // priorities differentiated in a priority queue for picking clauses
+/*
+#define NROF_PRIORQUEUES 4
+#define GOAL_
+*/
+
+#define MALLOC_HASHNODES // if defined, use malloc for hashnodes, else alloc from g->hash_nodes
+//#undef MALLOC_HASHNODES
+
+// prop
+
+#define NROF_PROP_VARVALS_ELS 1000000
+#define NROF_PROP_CLAUSES_ELS 1000000
+
+// /opt/lingeling/lingeling --verbose=-1 -T 1 /opt/lingeling/tst2.txt > out.txt
+// s UNSATISFIABLE
+// s SATISFIABLE
+
+#define DEFAULT_PROP_SOLVER_NAME "/opt/gkc/Prop/kissat-rel-3.0.0/build/kissat"
+#define DEFAULT_PROP_FILE_NAME "/tmp/gkc_prop_inXXXXXX"
+#define DEFAULT_PROP_SOLVER_OUTFILE_NAME "/tmp/gkc_prop_outXXXXXX"
+
+#define MAX_FILENAME_LEN 80
+
+#define MAX_GUIDETEXT_LEN 500
+
+#define SINE_K_VALUES_SIZE 10000000 // bytestring 10 mbyte
+
+// #define SHARED_DERIVED  // if set, keep some clauses over different passes
+
+/* ======== Structures ========== */
+
+/** glb contains global values for requests.
+* 
+* requests should use a single global variable g, which
+* is a pointer to glb structure.
+* 
+*/
+
+typedef struct glb {
+  
+  void* db;             /**< mem database used as a base for offset: either kb_db or child_db here */
+  void* kb_db;          /**< shared-mem knowledge base */
+  void* child_db;       /**< local child db: if kb_db present, then child_db->kb_db is set to this */
+  gint db_offset;       /**< offset of the db ptr */
+  gint inkb;            /**< 1 if g struct is inside shared kb, 0 otherwise */
+  void* kb_g;            /**< if external shared mem kb_db is present, then the g ptr inside kb_db, else NULL */ 
+  void* local_db;        /** this will be set to local db in any case in rmain.c */  
+  char* filename;       /**< input filename */
+  char* outfilename;       /**< output filename */
+
+  /* === shared data block === */
+  
+  gint initial_cl_list; /**< offset of the initial clause list in a shared db */
+  gint shared_clid_next; /** next id of the clause */
+
+  cveco clbuilt;        /**< vector containing built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  cveco clactive;      /**< vector containing active clauses, newest last.  */
+  cveco clactivesubsume; /**< vector containing active clauses with metainfo for subsumption */
+  
+  cveco clpickstack;   /**< vector containing built clause stack to be selected as given before using queue (hyperres eg) */
+  cveco clqueue;        /**< vector containing kept clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  gint clqueue_given;  /**< index of next clause to be taken from clqueue */     
+  gint clpickpriorqueue;  /**< priority queue for picking clauses as as given, maybe interleaved with clqueue */
+
+  gint clpick_queues;   /**< vec of several queue structures */
+  gint clpick_given;    /**< index of next queue to be taken from vec of queues */
+
+#ifdef SHARED_DERIVED    
+  cveco shared_clbuilt;   /**< vector containing shared built clauses, newest last. 0: vec len, 1: index of next unused vec elem */
+  gint shared_hash_neg_groundunits; /**< shared hash structure for cutting off with negative ground unit clauses */
+  gint shared_hash_pos_groundunits; /**< shared hash structure for cutting off with positive ground unit clauses */
+#endif
+
+  gint hash_neg_groundunits; /**< hash structure for cutting off with negative ground unit clauses */
+  gint hash_pos_groundunits; /**< hash structure for cutting off with positive ground unit clauses */
+
+  gint hash_neg_grounddoubles; /**< hash structure for cutting off with negative ground double clauses */
+  gint hash_pos_grounddoubles; /**< hash structure for cutting off with positive ground double clauses */
+
+  gint hash_neg_active_groundunits; /**< hash structure for subsuming with negative ground unit clauses in active */
+  gint hash_pos_active_groundunits; /**< hash structure for subsuming with positive ground unit clauses in active */
+
+  gint hash_atom_occurrences; /**< hash structure for atom occurrences, used for unit propagation */
+
+  //veco clweightqueue;
+  veco hash_neg_atoms;  /**< hash structure for all negative literals in active clauses inside all clauses  */
+  veco hash_pos_atoms;  /**< hash structure for all positive literals in active clauses inside all clauses  */
+  veco hash_neg_units;  /**< hash structure for all negative literals in unit active clauses  */
+  veco hash_pos_units;  /**< hash structure for all positive literals in unit active clauses  */
+  //veco hash_units;      /**< hash structure for: initialized, but not really used */
+  veco hash_para_terms; /**< hash structure for paramodulating from: terms here will be unified with newly given eq clauses */
+  veco hash_eq_terms;   /**< hash structure for paramodulation into: equality args here will be unified with given clause subterms */
+  veco hash_rewrite_terms; /**< hash structure for left sides of rewrite rules (oriented equalities) */
+ 
+#ifndef MALLOC_HASHNODES  
+  cvec hash_nodes;      /**< area for allocating hash nodes from **/
+#endif
+
+  /* prop reasoning stuff */
+
+  gint prop_counter; // set to the next prop integer to take: max prop var + 1
+  int use_prop_constant; // normally set to 0: else 1 to use prop const for all vars
+  gint prop_constant; // the constant to replace all vars for instantiation iff use_prop_constant!=0
+
+  veco prop_hash_atoms; // hash struct for keeping ints corresponding to grounded atoms 
+  veco prop_hash_clauses; // hash struct for keeping all derived clauses for equal-clause subsumption
+  cveco prop_varvals; // array for assigned prop values (0 unknown, 1 true, -1 false)
+  cveco prop_groundings; // array or atom / term pairs for all prop vars
+  cveco prop_clauses; // array for all prop clauses worth keeping
+  cveco prop_varval_clauses; // array for clauses for all assigned prop values, at same indexes
+
+  char* prop_file_name; // file name to dump prop vars to
+  char* prop_solver_name; // solver name to call
+  char* prop_solver_outfile_name; // file name for solver to store the redil
+
+  /* == local data block === */
+       
+  gint local_clid_next; /** next id of the clause */     
+  gint proof_found;
+  gptr proof_answer;
+  gint proof_history;
+  gint alloc_err; // set to 1 in case of alloc errors: should cancel search  
+  
+  vec varbanks; // 0: input (passive), 1: given clause renamed, 
+                // 2: active clauses, 3: derived clauses, 
+                // 4: tmp rename area (vals always UNASSIGNED, never set to other vals!)
+  cvec varstack;                  
+
+  cvec xcountedvarlist;
+  cvec ycountedvarlist;
+    
+  //int tmp_build_weight;
+  //vec tmp1_cl_vec;
+  //vec tmp2_cl_vec;
+  
+  vec tmp_litinf_vec;  // used by subsumption and by prop instantiation
+  vec tmp_hardnessinf_vec; // used by hardness calc
+  vec tmp_resolvability_vec; // used for resolvability of literals
+  vec tmp_sort_vec; // used for sorting the initial clause list
+
+  cvec given_termbuf;
+  cvec simplified_termbuf;
+  cvec derived_termbuf;    
+  cvec queue_termbuf;
+  cvec hyper_termbuf;
+  cvec active_termbuf;
+
+  cvec cut_clvec; // used for storing cutters of a derived clause
+  cvec rewrite_clvec; // used for storing rewriters of a clause
+  cvec hyper_queue; // storing partially derived clauses during hyperres for picking as given
+  cvec answers; // storing answer/proof pairs
+  char* sine_k_values; // k-values bytestring indexed by clause id: each byte contains k 
+  gint sine_k_bytes; // length of sine_k_values bytestring
+  char* backsubsume_values;
+  gint backsubsume_bytes; //
+  char* sine_uri_k_values; // k-values bytestring indexed by uri id: each byte contains k 
+  gint sine_uri_k_bytes; // length of sine_uri_k_values bytestring
+
+
+  cvec tmp_clinfo; // used for storing additional clause info while ordering for knuth-bendix
+  cvec tmp_varinfo; // used for storing additional var info while ordering for knuth-bendix 
+  cvec tmp_uriinfo; // used for storing uri info in a clause while doing sine
+
+  /* parser configuration */
+  
+  int parse_caps_as_var;
+  int parse_question_as_var;
+  int parse_newpred_strat; // introduce new predicates during distribution phase of clausification?
+  int store_fof_skolem_steps; 
+  int store_fof_source; 
+
+  /* parser temporary vars set by parser */
+
+  int parse_is_included_file;
+  char* parse_skolem_prefix;  
+  //int parse_skolem_nr; // moved to dballoc.h
+  char* parse_newpred_prefix; 
+  //int int parse_newpred_nr; // moved to dballoc.h
+  char* parse_errmsg;
+  int parse_errflag;
+  
+  /* unification/matching configuration */
+  
+  int unify_samelen;      // 1 if unifiable terms need not have same length, 0 otherwise
+  int unify_maxuseterms;  // max nr of rec elems unified one after another: t1,t2,t3 gives 3
+                          // 0 if no limit 
+  int unify_firstuseterm; // rec pos where we start to unify 
+  int unify_funpos;       // rec pos of a fun/pred uri
+  int unify_funarg1pos;   // rec pos of a fun/pred first arg
+  int unify_funarg2pos;   // rec pos of a fun/pred second arg
+  int unify_footerlen;    // obligatory amount of unused gints to add to end of each created term 
+  
+  /* strategy selection */
+  
+  //int max_forks;
+  int sine_strat; // 0 if none, 1 if weak, 2 if strong
+  int sine_strat_used; // 0 if not actually used, 1 if used: set automatically by analyze if sine_strat!=0
+  int sine_order_strat; // 0 if none, 1 if on
+  int required_answer_nr;
+  int pick_given_queue_ratio;
+  int pick_given_queue_ratio_counter;
+  int next_pick_given_queue_block_nr;
+
+  int cl_depth_penalty;
+  int cl_length_penalty;
+  int var_weight;
+  int repeat_var_weight;
+  int atom_poseq_penalty;
+  int use_max_ground_weight;
+  int use_max_weight;  
+
+  int cl_maxkeep_weightlimit;
+  int cl_maxkeep_sizelimit;
+  int cl_maxkeep_depthlimit;
+  int cl_maxkeep_lengthlimit;
+
+  int cl_pick_queue_strategy; // how to spread clauses between different queues: 0 
+                              // 0: one only,
+                              // 1: exactly as marked, 
+                              // 2: make non-included axioms assumptions and positive conjecture part assumptions
+                              // 3: only fully negative clauses of goal made goal and no assumptions (ie made axioms)
+
+  int use_hornpref;
+  int use_posweightdoublepref;
+  int use_negweightdoublepref;
+
+  /* dynamically changed limits */
+
+  int max_run_seconds;
+  int max_seconds;
+  int max_run_dseconds;
+  int max_dseconds;
+  int cl_keep_weightlimit;
+  int cl_keep_sizelimit;
+  int cl_keep_depthlimit;
+  int cl_keep_lengthlimit;
+  
+  int reverse_clauselist_strat; // initially reverse clause list, do not sort (only for non-query)
+  int queryfocus_strat;
+  int queryfocusneg_strat;
+  int hyperres_strat;
+  int relaxed_hyperres_strat;
+  int goalweight_normal_strat; // if 1, normal initial weights are applied, else special low weights
+  int unit_active_strat;    // if 1, make all units active for sos strategies
+  int weightorder_strat;          // clause ordering for resolvability of literals
+  int negpref_strat;          // clause ordering for resolvability of literals
+  int pospref_strat;          // clause ordering for resolvability of literals
+  int knuthbendixpref_strat;  // clause ordering for resolvability of literals
+  int hardnesspref_strat;     // clause ordering for resolvability of literals
+  int res_shortarglen_limit; // max non-ans len of the shortest res argument (generalization of unit)
+  int res_arglen_limit; // if non-zero, do not resolve upon longer clauses and do not ever para
+  int res_strict_arglen_limit; // if non-zero,  do para on units if res_arglen_limit<2
+  int posunitpara_strat;
+  int rewrite_only_strat; // if non-zero, do not store para terms: only store demodulators
+  int instgen_strat;
+  int propgen_strat;
+  int back_subsume;
+  int forward_subsume_derived;
+  int propagate;
+  int use_equality_strat; // general strategy
+  int use_equality; // current principle
+  int use_comp_funs_strat; // general strategy
+  int use_comp_funs; // current principle
+  int use_comp_arithmetic; // current principle for arithmetic
+  int arith_instantiation; // 0 off, 1 conservative, 2 stronger
+  int arith_inst_max_vars;
+  int arith_inst_candidate_limit;
+  int arith_inst_probe_limit;
+  int arith_inst_keep_limit;
+  int arith_inst_depth_limit;
+  int arith_inst_global_limit;
+  unsigned int arith_inst_explicit_mask;
+  int have_nonground_arithmetic;
+  int use_rewrite_terms_strat; // general strategy
+  int have_rewrite_terms; // observation  
+  int use_strong_unit_cutoff; 
+  int use_strong_duplicates; // iff 1, then unique var based duplicate removal
+  int prohibit_nested_para;  
+  int prohibit_unordered_para;
+  int prohibit_deep_para;
+
+
+  int max_proofs;
+  int store_history;
+  int endgame_mode; 
+
+  /*  printout configuration */
+  
+
+  int print_flag;
+  int print_json;
+  int print_tptp;
+  int print_clauses_json;
+  int print_clauses_tptp;
+  int print_proof_tptp;
+  int print_level_flag;
+  int print_derived;
+  int print_clause_history;
+  int print_history_extra;  
+  int print_fof_conversion_proof;
+  
+  int parser_print_level;
+  int print_initial_parser_result;
+  int print_generic_parser_result;
+  
+  int print_initial_active_list;
+  int print_initial_passive_list;
+  
+  int print_given_interval_trace;
+  int print_initial_given_cl;
+  int print_final_given_cl;
+  int print_active_cl;
+  int print_litterm_selection;
+  int print_partial_derived_cl;
+  int print_derived_cl;
+  int print_derived_subsumed_cl;
+  int print_derived_precut_cl;
+  
+  int print_clause_detaillevel;
+  int print_runs;
+  int print_stats;
+  int print_datastructs;
+  int print_sine;
+  
+  /* tmp variables */
+  
+  gint* tmp_unify_vc;       // var count in unification
+  gint  tmp_unify_occcheck; // occcheck necessity in unification (changes)
+  gint  tmp_unify_do_occcheck;
+  gint  tmp_rewrites; // count of rewrites during one clause simplification
+  char* tmp_printbuf; // temporary buffer for printing, malloced as needed
+  int arith_inst_probe_active;
+  int tmp_arithinst_calc_count;
+  int tmp_arithinst_deleted_lits;
+  int tmp_arithinst_tautology;
+
+  int arith_inst_global_candidate_count;
+  wr_arith_value arith_inst_global_candidates[WR_ARITH_MAX_GLOBAL_VALUES];
+  wr_arith_cache_entry* arith_inst_cache;
+  int arith_inst_cache_size;
+  int arith_inst_cache_saturated;
+
+  /* build control: changed in code */
+  
+  int  build_rewrite; // current switch: to rewrite or not during building
+  gint build_subst;    // subst var values into vars
+  gint build_calc;     // do fun and pred calculations
+  gint build_dcopy;    // copy nonimmediate data (vs return ptr)
+  gptr build_buffer;   // build everything into tmp buffer (vs main area)
+                       // points to NULL or given_termbuf, derived_termbuf etc
+  
+  gint build_rename;   // do var renaming
+  gint build_rename_maxseenvnr; // tmp var for var renaming
+  gint build_rename_vc;    // tmp var for var renaming
+  gptr build_rename_bank;  // points to bank of created vars
+  gint build_rename_banknr; // nr of bank of created vars  
+
+  /* statistics */
+  
+  int stat_wr_mallocs;
+  int stat_wr_callocs;
+  int stat_wr_reallocs;
+  int stat_wr_frees;
+  gint stat_wr_malloc_bytes;
+  gint stat_wr_calloc_bytes;
+  gint stat_wr_realloc_bytes;
+  gint stat_wr_realloc_freebytes;
+  
+  int stat_built_cl;
+  int stat_derived_cl;
+  int stat_derived_partial_hyper_cl;
+  int stat_binres_derived_cl;
+  int stat_instgen_derived_cl;
+  int stat_arithinst_clauses_scanned;
+  int stat_arithinst_frontiers;
+  int stat_arithinst_candidates;
+  int stat_arithinst_probes;
+  int stat_arithinst_calculated;
+  int stat_arithinst_rejected_no_progress;
+  int stat_arithinst_rejected_tautology;
+  int stat_arithinst_rejected_cache;
+  int stat_arithinst_rejected_budget;
+  int stat_arithinst_truncated;
+  int stat_arithinst_kept;
+  int stat_arithinst_proofs;
+  int stat_prop_inst_derived_cl;
+  int stat_propagated_derived_cl;
+  int stat_factor_derived_cl;
+  int stat_para_derived_cl;
+  int stat_kept_cl;
+  int stat_made_rewriters;
+  
+  int stat_hyperres_partial_cl;
+  int stat_tautologies_discarded;
+  int stat_weight_discarded_building;
+  int stat_weight_discarded_cl;
+  int stat_internlimit_discarded_cl;
+  int stat_internlimit_discarded_para;
+  int stat_given_candidates;
+  int stat_given_candidates_hyper;
+  int stat_given_candidates_at_endgame; 
+  int stat_given_used;  
+  int stat_given_used_at_endgame; 
+  int stat_simplified;
+  int stat_simplified_given;
+  int stat_simplified_derived;
+  int stat_backward_subsumed;
+  int stat_propagated_subsumed;
+  int stat_forward_subsumed;
+  int stat_derived_cut;
+  int stat_derived_rewritten;
+  int stat_clsubs_attempted;
+  gint stat_clsubs_top_meta_attempted;
+  gint stat_clsubs_top_meta_failed;
+  gint stat_clsubs_top_meta_nonpref_attempted;
+  gint stat_clsubs_top_meta_nonpref_succeeded;
+  gint stat_clsubs_top_meta_pref_attempted;
+  gint stat_clsubs_top_meta_pref_succeeded;
+  gint stat_clsubs_top_meta_pref1_succeeded;
+  gint stat_clsubs_top_meta_pref2_succeeded;
+  gint stat_clsubs_top_meta_pref3_succeeded;  
+  int stat_clsubs_meta_attempted;
+  int stat_clsubs_meta_failed;
+  int stat_clsubs_predsymbs_attempted;
+  int stat_clsubs_unit_attempted;
+  int stat_clsubs_full_attempted;
+  int stat_clsubs_fact_groundunit_found;
+  int stat_clsubs_rule_groundunit_found;
+  int stat_forwardsubs_attempted;
+  int stat_lit_hash_added;
+  int stat_lit_hash_computed;
+  int stat_lit_hash_match_found;
+  int stat_lit_hash_match_miss;
+  int stat_prop_hash_match_miss;
+  int stat_lit_hash_cut_ok;  
+  int stat_lit_strong_cut_ok;
+  int stat_lit_hash_subsume_ok;
+  int stat_atom_hash_added;
+  int stat_atom_hash_computed;
+  int stat_atom_hash_match_found;
+  int stat_atom_hash_match_miss;
+  
+  int log_level;
+
+  int tmp1;
+  int tmp2;
+  int tmp3;
+  int tmp4;
+  int tmp5;
+
+  int tmp6;
+  int tmp7;
+  int tmp8;
+  int tmp9;
+
+  /* input clause set analysis */
+
+  int in_has_fof;
+  int in_has_nonground_arithmetic;
+
+  int in_clause_count;
+  int in_rule_clause_count;
+  int in_fact_clause_count;
+  int in_answer_clause_count;
+  int in_ground_clause_count;
+  int in_unit_clause_count;
+  int in_horn_clause_count;
+  int in_pos_clause_count;
+  int in_neg_clause_count;
+  int in_poseq_clause_count;
+  int in_negeq_clause_count;
+  int in_unitposeq_clause_count;
+  int in_chain_clause_count;
+  int in_min_length;
+  int in_max_length;
+  int in_min_depth;
+  int in_max_depth;
+  int in_min_size;
+  int in_max_size;
+  int in_min_vars;
+  int in_max_vars;
+  float in_average_length;
+  float in_average_depth;
+  int in_predicate_count;
+  int in_funsymb_count;
+  int in_extaxiom_count;
+  int in_axiom_count;
+  int in_assumption_count;
+  int in_goal_count;
+  int in_neg_goal_count;
+  int in_pos_goal_count;
+  int in_posunit_goal_count;
+  int in_max_const_ucount;
+  gint in_max_occ_const;
+
+  int sin_clause_count;
+  int sin_rule_clause_count;
+  int sin_fact_clause_count;
+  int sin_answer_clause_count;
+  int sin_ground_clause_count;
+  int sin_unit_clause_count;
+  int sin_horn_clause_count;
+  int sin_pos_clause_count;
+  int sin_neg_clause_count;
+  int sin_poseq_clause_count;
+  int sin_negeq_clause_count;
+  int sin_unitposeq_clause_count;
+  int sin_chain_clause_count;
+  int sin_min_length;
+  int sin_max_length;
+  int sin_min_depth;
+  int sin_max_depth;
+  int sin_min_size;
+  int sin_max_size;
+  int sin_min_vars;
+  int sin_max_vars;
+  float sin_average_length;
+  float sin_average_depth;
+  int sin_predicate_count;
+  int sin_funsymb_count;
+  int sin_extaxiom_count;
+  int sin_axiom_count;
+  int sin_assumption_count;
+  int sin_goal_count;
+  int sin_neg_goal_count;
+  int sin_pos_goal_count;
+  int sin_posunit_goal_count;
+  int sin_max_const_ucount;
+  gint sin_max_occ_const;
+  int sin_has_nonground_arithmetic;
+
+  /* run averages and measures */
+  
+  int current_run_nr;
+  int current_fork_nr;
+  double avg_kept_weight;
+  float passed_ratio;
+  clock_t allruns_start_clock;
+  //clock_t allruns_end_clock;
+  clock_t run_start_clock;
+  //clock_t run_end_clock;  
+  char guidetext[MAX_GUIDETEXT_LEN];
+
+} glb;
+
+
+
+/* === Protos for funs in glb.c === */
+
+
+glb* wr_glb_new_full(void* db);
+glb* wr_glb_new_simple(void* db);
+
+int wr_glb_free(glb* g);
+
+int wr_glb_init_simple(glb* g);
+
+int wr_glb_init_shared_simple(glb* g);
+int wr_glb_init_shared_complex(glb* g);
+int wr_glb_init_seq_shared_complex(glb* g);
+int wr_glb_free_shared_simple(glb* g);
+int wr_glb_free_shared_complex(glb* g);
+
+int wr_glb_init_local_simple(glb* g);
+int wr_glb_init_local_complex(glb* g);
+int wr_glb_init_seq_local_complex(glb* g);
+int wr_glb_free_local_simple(glb* g);
+int wr_glb_free_local_complex(glb* g);
+
+void wr_print_glb_memarea(glb* g, gptr p);
+void wr_check_cl_memarea(glb* g, gptr xptr);
+
+void wr_hashlists_explore(glb* g);
+
+#endif
-- 
2.43.0


From a3e4c049fd999f1b810e84a92955586f0e923178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 13/45] fix: hash index keys of integers and variables were cut
 to 32 bits

---
 Db/dbhash.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index c044953..ac1aca9 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -332,9 +332,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -378,9 +378,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_var(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From 4f1b6c6366b6da75a02b2f2f42a0f2e6b2279510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 14/45] fix: creating a multi-column hash index read past the
 end of records too short for it

---
 Db/dbindex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 70fd716..d5b5250 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From 7a979e711922f08d76047f4efada26421a49f0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 15/45] fix: wg_index_add_rec and wg_index_del_rec handled rows
 of an index with a template twice

---
 Db/dbindex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d5b5250..d97e270 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2773,7 +2773,8 @@ gint wg_index_add_rec(void *db, void *rec) {
            * also the last column, therefore the above is valid,
            * altough the check is unnecessary.
            */
-          if(MATCH_TEMPLATE(db, hdr, rec)) {
+          /* Indexes with a template are handled below */
+          if(!hdr->template_offset) {
             INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
           }
         }
@@ -2929,7 +2930,7 @@ gint wg_index_del_rec(void *db, void *rec) {
           /* Only update once per index. See also comment for
            * wg_index_add_rec function.
            */
-          if(MATCH_TEMPLATE(db, hdr, rec)) {
+          if(!hdr->template_offset) {
             INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
           }
         }
-- 
2.43.0


From 9dc1a3ba08913028bd8f869b1dbd30b98ac22d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:58 +0000
Subject: [PATCH 16/45] fix: integers of the text syntaxes were cut to 32 bits
 when read

---
 Builtparser/dbparse.c | 2 +-
 Parser/dbparse.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..bba3250 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..bba3250 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
-- 
2.43.0


From 96b04e45c84dd92a504b6e304727f19b935f93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:19 +0000
Subject: [PATCH 17/45] fix: integers were cut to 32 bits when printed

---
 Printer/dbotterprint.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..d8e8eb7 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%lld", (long long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -845,8 +844,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%lld", (long long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
-- 
2.43.0


From 73ece11fdfd9e2544ae0960690c3653b92dbefba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 18/45] fix: a range query with equal exclusive bounds returned
 rows outside the range

---
 Db/dbquery.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9135abf..0dae2cb 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,9 +812,12 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
+    /* Simple sanity check. Is start_bound greater than end_bound, or
+     * equal to it while one of them is not inclusive? */
     if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
+      (WG_COMPARE(db, start_bound, end_bound) == WG_GREATER ||\
+      ((!start_inclusive || !end_inclusive) &&\
+      WG_COMPARE(db, start_bound, end_bound) == WG_EQUAL))) {
       /* return empty query */
       query->argc = 0;
       query->arglist = NULL;
-- 
2.43.0


From b997f3fab57cc912f96ebccc7f9615863ab66fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 19/45] fix: deleting a record freed strings that other records
 still used

---
 Db/dbdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index d6f1591..83f0fa2 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -907,9 +907,6 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
   (*fieldadr)=data;
-#ifdef QUICK_REASONER  
-  return 0;
-#endif
 #ifdef USE_CHILD_DB
   if (islongstr(data) && offset_owner == dbmemseg(db)) {
 #else
@@ -920,6 +917,9 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     if (!wg_in_attached_kb(strptr)) // never refcount into the attached kb
       ++(*(strptr+LONGSTR_REFCOUNT_POS));
   }
+#ifdef QUICK_REASONER  
+  return 0;
+#endif
 
   /* Update index after new value is written */
 #ifdef USE_INDEX_TEMPLATE
-- 
2.43.0


From 48a2d3ab62a157f85ee1e19f599e8d85545d25e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:31 +0000
Subject: [PATCH 20/45] fix: a record with a record in a field could not be
 deleted

---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 83f0fa2..81f67f1 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -290,7 +290,7 @@ gint wg_delete_record(void* db, void *rec) {
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
     data = *dptr;
 
-#ifdef USE_BACKLINKING
+#if defined(USE_BACKLINKING) && !defined(QUICK_REASONER)
     /* Is the field value a record pointer? If so, remove the backlink. */
 #ifdef USE_CHILD_DB
     if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-- 
2.43.0


From 24d8b6b1b97de2ab12c78164487aaaeb0c90a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 21/45] fix: a process woken by a signal or a stray wake-up
 took the database lock without being granted it

---
 Db/dblock.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index b2b574d..bc05b0b 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1030,15 +1030,20 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also end because of a signal or a stray wake-up, so
+     * only the cleared flag means that the lock was granted. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1149,15 +1154,20 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may also end because of a signal or a stray wake-up, so
+     * only the cleared flag means that the lock was granted. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+        lock_queue(db);
+        DEQUEUE_LOCK(db, dbh, lock, lockp)
+        free_lock(db, lock);
+        unlock_queue(db);
+        return 0;
+      }
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From a6f981d2a2931ede545688f28e260812a7a65efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 22/45] fix: a lock attempt that timed out just as it was
 granted the lock blocked everybody behind it

---
 Db/dblock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dblock.c b/Db/dblock.c
index bc05b0b..359e6b3 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1035,6 +1035,10 @@ gint db_tfqueue_wlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
@@ -1159,6 +1163,10 @@ gint db_tfqueue_rlock(void * db) {
     while(lockp->waiting) {
       if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
         lock_queue(db);
+        if(!lockp->waiting) { /* granted in the meantime */
+          unlock_queue(db);
+          break;
+        }
         DEQUEUE_LOCK(db, dbh, lock, lockp)
         free_lock(db, lock);
         unlock_queue(db);
-- 
2.43.0


From 7ac02d915db67ca41dfda9ef8b112b1bfc68b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:45 +0000
Subject: [PATCH 23/45] fix: the milliseconds of a lock timeout were taken as
 nanoseconds

---
 Db/dblock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 359e6b3..756f1c1 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
-- 
2.43.0


From 6572609b201658d3cc7d9195163a457c9ab84f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:05 +0000
Subject: [PATCH 24/45] fix: a dump made while another process added records
 was damaged

---
 Db/dbdump.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..78a3265 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -134,6 +134,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  /* Only now that we have the lock does the size stay the same */
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
-- 
2.43.0


From 59fe2032f1c144a027ea6ebcfaaf7bcbc2c640a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 25/45] fix: a ground clause was not tried when subsuming
 non-ground clauses

---
 Reasoner/subsume.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/subsume.c b/Reasoner/subsume.c
index c4cd911..31d59d4 100644
--- a/Reasoner/subsume.c
+++ b/Reasoner/subsume.c
@@ -430,7 +430,7 @@ int wr_clmetablock_can_subsume(glb* g, gptr genblock, gptr specblock) {
   //printf("gel length %d\n",(gel & (255<<CLMETABLOCK_LENGTH_SHIFT))>>CLMETABLOCK_LENGTH_SHIFT);
   //printf("sel length %d\n",(sel & (255<<CLMETABLOCK_LENGTH_SHIFT))>>CLMETABLOCK_LENGTH_SHIFT);
   */
-  if (gel>sel) return 0;
+  // the isground bit is not compared: a ground clause may subsume a non-ground one
   if ((gel & (255<<CLMETABLOCK_LENGTH_SHIFT)) > 
       (sel & (255<<CLMETABLOCK_LENGTH_SHIFT))) return 0;
   if ((gel & (255<<CLMETABLOCK_NEGLENGTH_SHIFT)) > 
-- 
2.43.0


From 6ffe41465653df28dd0818f04e01352db8ba7740 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 26/45] fix: the subsumption metadata of a fact clause was not
 computed

---
 Reasoner/clmeta.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/clmeta.c b/Reasoner/clmeta.c
index a4e473d..fcf6820 100644
--- a/Reasoner/clmeta.c
+++ b/Reasoner/clmeta.c
@@ -447,6 +447,7 @@ gint wr_calc_clause_meta(glb* g, gptr xptr, gptr cl_metablock) {
   ruleflag=wg_rec_is_rule_clause(db,xptr);  
   if (!ruleflag) {
     negflag=0;
+    wr_calc_term_meta(g,rpto(g,xptr),0,0,&litmeta);
     clmeta.length=1;
     clmeta.neglength=0;
     clmeta.groundlength=!litmeta.hasvars;
-- 
2.43.0


From a3c8742217badba628e9ada1ad1287ac1606470b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 27/45] fix: a metadata count of exactly 255 was stored as 0

---
 Reasoner/clmeta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/clmeta.c b/Reasoner/clmeta.c
index fcf6820..1f38568 100644
--- a/Reasoner/clmeta.c
+++ b/Reasoner/clmeta.c
@@ -565,7 +565,7 @@ gint wr_calc_clause_meta(glb* g, gptr xptr, gptr cl_metablock) {
 
 static int limit_byte(int nr) {
   if (nr<255 && nr>=0) return nr;
-  if (nr>255) return 255;
+  if (nr>=255) return 255;
   return 0;
 }
 
-- 
2.43.0


From 1b14a1ff7c5ad39b13873dce7e4416621901d541 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 28/45] fix: equal numbers stored at different places were
 ordered as different

---
 Reasoner/strat.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index ce036a3..aeb36c5 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -69,6 +69,8 @@ static int wr_order_eqterms_const_weight(glb* g, gint a);
 static int wr_order_eqterms_weight_vars(glb* g, gint x, gptr vars, gptr vb);
 static int wr_order_eqterms_lex_order(glb* g, gint x, gint y, gptr vb);
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y);
+static int wr_order_is_number(glb* g, gint x);
+static int wr_order_number_smaller(glb* g, gint x, gint y);
 
 /* ====== Functions ============== */
 
@@ -1320,7 +1322,8 @@ static int wr_order_eqterms_lex_order(glb* g, gint x, gint y, gptr vb) {
     // now x has a have a simple value     
     if (!isdatarec(y)) {
       if (wr_order_eqterms_const_lex_smaller(g,x,y)) return 1;
-      else return 2;      
+      else if (wr_order_eqterms_const_lex_smaller(g,y,x)) return 2;
+      else return 0; // equal numbers
     } else {
       // consider function terms as lex bigger than constants
       return 1; 
@@ -1459,11 +1462,34 @@ static int wr_order_eqterms_lex_order2(glb* g, gint x, gint y, gptr vb) {
 */
 
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y) {
+  if (wr_order_is_number(g,x) || wr_order_is_number(g,y)) return wr_order_number_smaller(g,x,y);
   //if (x<y) return 1;  // TESTING
   if (x>y) return 1; // Normal in may 2020
   else return 0; 
 }
 
+static int wr_order_is_number(glb* g, gint x) {
+  gint dtype=wg_get_encoded_type(g->db,x);
+  return (dtype==WG_INTTYPE || dtype==WG_DOUBLETYPE);
+}
+
+/*
+  x or y is a number: numbers are smaller than other constants, integers smaller than doubles,
+  larger values smaller: values are compared, since an equal large number or double may be stored
+  at several offsets
+*/
+
+static int wr_order_number_smaller(glb* g, gint x, gint y) {
+  void* db=g->db;
+  gint dtypex=wg_get_encoded_type(db,x);
+  gint dtypey=wg_get_encoded_type(db,y);
+  if (!wr_order_is_number(g,y)) return 1;
+  if (!wr_order_is_number(g,x)) return 0;
+  if (dtypex!=dtypey) return (dtypex==WG_INTTYPE);
+  if (dtypex==WG_INTTYPE) return (wg_decode_int(db,x)>wg_decode_int(db,y));
+  return (wg_decode_double(db,x)>wg_decode_double(db,y));
+}
+
 
 /*
  
@@ -1794,7 +1820,8 @@ int wr_order_atoms_lex_order(glb* g, gint x, gint y, gptr vb) {
     // now x has a have a simple value     
     if (!isdatarec(y)) {
       if (wr_order_atoms_const_lex_smaller(g,x,y)) return 1;
-      else return 2;      
+      else if (wr_order_atoms_const_lex_smaller(g,y,x)) return 2;
+      else return 0; // equal numbers
     } else {
       // consider function terms as lex bigger than constants
       return 1; 
@@ -1884,6 +1911,7 @@ int wr_order_atoms_const_lex_smaller(glb* g, gint x, gint y) {
   void* db=g->db;
   gint dtypex=wg_get_encoded_type(db,x);
   gint dtypey=wg_get_encoded_type(db,y);
+  if (wr_order_is_number(g,x) || wr_order_is_number(g,y)) return wr_order_number_smaller(g,x,y);
   if (dtypex==WG_URITYPE && dtypey==WG_URITYPE) {    
     //printf("\nid %ld id %ld\n",wg_decode_uri_id(db,x),wg_decode_uri_id(db,y));
     if (wg_decode_uri_id(db,x)<wg_decode_uri_id(db,y)) {
-- 
2.43.0


From 47b7f7b9b8946394aa19b306444fd2f3eae5df55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:11:04 +0000
Subject: [PATCH 29/45] fix: the ordering of constants in atoms was cyclic

---
 Reasoner/strat.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index aeb36c5..b793b66 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -1919,6 +1919,9 @@ int wr_order_atoms_const_lex_smaller(glb* g, gint x, gint y) {
     } else {
         return 0;
     }
+  } else if (dtypex==WG_URITYPE || dtypey==WG_URITYPE) {
+    // ids order only uris: others are smaller
+    return (dtypey==WG_URITYPE);
   } else {        
     if (x>y) return 1;
     else return 0; 
-- 
2.43.0


From 931f9710b4a1e43abab22ef6d105c94b77b4be2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 30/45] fix: report a syntax error when a formula is empty

The empty production of connlog had no action, so the value of an empty
formula was whatever the parser stack held: inputs like "a & ." crashed.
---
 Builtparser/dbotter.tab.c | 7 +++++++
 Parser/dbotter.y          | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..55e5b1b 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1614,6 +1614,13 @@ yyreduce:
 #line 1615 "Parser/dbotter.tab.c"
     break;
 
+  case 30:
+#line 153 "Parser/dbotter.y"
+           { /* no operand where a formula is expected */
+             wg_yyottererror(parm,scanner,"syntax error, formula expected");
+             YYABORT; }
+    break;
+
   case 31:
 #line 155 "Parser/dbotter.y"
                                       { yyval = MKWGPAIR(
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..1e22bf9 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -151,7 +151,9 @@ log:       term                   { $$ = $1; }
 ;
 
 
-connlog:           
+connlog:   { /* no operand where a formula is expected */
+             wg_yyottererror(parm,scanner,"syntax error, formula expected");
+             YYABORT; }
          | log '&' log    %prec '&'   { $$ = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
-- 
2.43.0


From ca3f40267fcb4b0953809192e1c2a54ea69677ac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 31/45] fix: quoted strings of over 1023 characters overran the
 lexer buffer

---
 Builtparser/dbotter.yy.c | 48 ++++++++++++++++++++++++++--------------
 Parser/dbotter.l         | 48 ++++++++++++++++++++++++++--------------
 2 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..8cfb5d2 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,8 +834,24 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+/* text of the string being read: grows as needed */
+static char *elmparsestrbuf;
+static size_t elmparsestrsize;
+static size_t elmparsestrlen;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  if (elmparsestrlen>=elmparsestrsize) {
+    tmp=realloc(elmparsestrbuf,elmparsestrsize*2+1024);
+    if (!tmp) { 
+      fprintf(stderr,"cannot allocate memory for a string in input\n"); 
+      exit(1); 
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=elmparsestrsize*2+1024;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
 
 #line 841 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
@@ -1329,27 +1345,27 @@ YY_RULE_SETUP
 case 16:
 YY_RULE_SETUP
 #line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+{ BEGIN STRSTATE; elmparsestrlen = 0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
 #line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
 #line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+{ elmparsestr_add('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
 #line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
@@ -1359,7 +1375,7 @@ case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
 #line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1368,32 +1384,32 @@ YY_RULE_SETUP
 case 22:
 YY_RULE_SETUP
 #line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+{ BEGIN QUOTESTATE; elmparsestrlen = 0; } /* elmparsestr_add('#');}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
 #line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+{ elmparsestr_add('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
@@ -1403,7 +1419,7 @@ case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
 #line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1412,7 +1428,7 @@ YY_RULE_SETUP
 case 29:
 YY_RULE_SETUP
 #line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..80bc160 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,24 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+/* text of the string being read: grows as needed */
+static char *elmparsestrbuf;
+static size_t elmparsestrsize;
+static size_t elmparsestrlen;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  if (elmparsestrlen>=elmparsestrsize) {
+    tmp=realloc(elmparsestrbuf,elmparsestrsize*2+1024);
+    if (!tmp) { 
+      fprintf(stderr,"cannot allocate memory for a string in input\n"); 
+      exit(1); 
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=elmparsestrsize*2+1024;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
 
 %}
 
@@ -215,38 +231,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; elmparsestrlen = 0; } 
+<STRSTATE>\\n   { elmparsestr_add('\n'); } 
+<STRSTATE>\\t   { elmparsestr_add('\t'); } 
+<STRSTATE>\\\"  { elmparsestr_add('\"'); } 
+<STRSTATE>\"    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { elmparsestr_add(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; elmparsestrlen = 0; } /* elmparsestr_add('#');}  */
+<QUOTESTATE>\\n   { elmparsestr_add('\n'); } 
+<QUOTESTATE>\\t   { elmparsestr_add('\t'); } 
+<QUOTESTATE>\\\'  { elmparsestr_add('\''); } 
+<QUOTESTATE>\'    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { elmparsestr_add(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From 613a0d0d33f78c46d6c0eed807c2b0db3fc9ead8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 32/45] fix: do not reverse a list term in place when building
 a clause

An atom containing [a,b,c] that clausification copies into several clauses
lost elements of the list in all but the first of them. A non-list argument
of $$lst crashed.
---
 Builtparser/dbparse.c | 9 +++++++--
 Parser/dbparse.c      | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index bba3250..3c1ad91 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1626,14 +1626,19 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primiti
 void* wr_parse_preprocess_list(glb* g,void* mpool,void* term) {
   void* db=g->db;
   void* res=NULL;
-  void *termpart, *fun;
+  void *termpart, *fun, *reversed;
   
   res=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);  
   termpart=wg_rest(db,term);
   if (!termpart) return res;
   termpart=wg_first(db,termpart);
   if (!termpart) return res;
-  termpart=wg_inplace_reverselist(db,mpool,termpart);
+  // the same list may occur in several clauses: do not reverse it in place
+  for(reversed=NULL;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
+    reversed=wg_mkpair(db,mpool,wg_first(db,termpart),reversed);
+    if (!reversed) return NULL;
+  }
+  termpart=reversed;
   fun=wg_mkatom(db,mpool,WG_URITYPE,"$list",NULL);
   for(;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
     if (g->parse_errflag) return NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index bba3250..3c1ad91 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1626,14 +1626,19 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primiti
 void* wr_parse_preprocess_list(glb* g,void* mpool,void* term) {
   void* db=g->db;
   void* res=NULL;
-  void *termpart, *fun;
+  void *termpart, *fun, *reversed;
   
   res=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);  
   termpart=wg_rest(db,term);
   if (!termpart) return res;
   termpart=wg_first(db,termpart);
   if (!termpart) return res;
-  termpart=wg_inplace_reverselist(db,mpool,termpart);
+  // the same list may occur in several clauses: do not reverse it in place
+  for(reversed=NULL;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
+    reversed=wg_mkpair(db,mpool,wg_first(db,termpart),reversed);
+    if (!reversed) return NULL;
+  }
+  termpart=reversed;
   fun=wg_mkatom(db,mpool,WG_URITYPE,"$list",NULL);
   for(;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
     if (g->parse_errflag) return NULL;
-- 
2.43.0


From b839acae5e77756546e89648e8a9dbbc7e33ed7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 33/45] fix: terminate the buffer of a skolemization step name

---
 Builtparser/dbparse.c | 3 ++-
 Parser/dbparse.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 3c1ad91..5d032a6 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -943,7 +943,8 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
-      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
+      namebuf[900]=0; // long names are not terminated by strncpy
+      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,90);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
       skname=NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 3c1ad91..5d032a6 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -943,7 +943,8 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
-      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
+      namebuf[900]=0; // long names are not terminated by strncpy
+      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,90);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
       skname=NULL;
-- 
2.43.0


From 4a3e2aa5d80e5ab2b5f2b37129773ad36fa14a6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 34/45] fix: keep what follows a lone high surrogate in a JSON
 string

---
 json/yajl_all.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index 65f2385..66cbda1 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -472,6 +472,7 @@ static void yajl_string_decode(yajl_buf buf, const unsigned char * str,
                             end += 5;
                         } else {
                             unescaped = "?";
+                            end--; // keep what follows
                             break;
                         }
                     }
-- 
2.43.0


From d6b4186201ad9ff3ab2b327d14c983a7a2ac8f2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 35/45] fix: empty strings and misplaced connectives in JSON
 input crashed the parser

The text of an empty string is a NULL pointer, which was given to strcmp.
Infix quantifiers, infix if and connectives without arguments are reported as
errors.
---
 Builtparser/dbclausify.c |  18 ++---
 Builtparser/jsparse.c    | 155 +++++++++++++++++++++------------------
 Db/dbmpool.c             |  25 ++++---
 Db/dbmpool.h             |   1 +
 Parser/dbclausify.c      |  18 ++---
 Parser/jsparse.c         | 155 +++++++++++++++++++++------------------
 6 files changed, 201 insertions(+), 171 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..8b01d1e 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -565,10 +565,10 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
-  str=wg_atomstr1(db,frm);
+  str=wg_atomtext(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-    if (!strcmp(str,wg_atomstr1(db,boundvar))) {
+    if (!strcmp(str,wg_atomtext(db,boundvar))) {
       // same vars      
       return 1;
     }  
@@ -587,7 +587,7 @@ void* wr_miniscope_varssubset(glb* g, void* mpool, void* vars, void* boundvars)
     var=wg_first(db,part); 
     for(boundpart=boundvars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         if (wg_rest(db,vars)==NULL) return NULL; // no other vars
         found=1;
@@ -603,7 +603,7 @@ void* wr_miniscope_varssubset(glb* g, void* mpool, void* vars, void* boundvars)
     found=0;
     for(boundpart=boundvars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         found=1;
         break;
@@ -631,7 +631,7 @@ void* wr_add_freeoccs(glb* g, void* mpool, void* vars, void* termoccs) {
     found=0;
     for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         found=1;
         break;
@@ -815,7 +815,7 @@ void wr_clausify_replace_vars(glb* g, void* mpool, void* assoc, void* term) {
         ael=wg_first(db,apart);
         avar=wg_first(db,ael);
         if (wg_atomtype(db,avar)==type &&
-            !strcmp(wg_atomstr1(db,avar),wg_atomstr1(db,el)) ) {
+            !strcmp(wg_atomtext(db,avar),wg_atomtext(db,el)) ) {
           // var found in assoc, replace
           wg_replacepair_first(db,part,wg_rest(db,ael));
           break;
@@ -1601,15 +1601,15 @@ int wr_is_logconst(glb* g, void* arg) {
   if (!wg_ispair(db,cl)) return 0;
   op=wg_first(db,cl);
   if (!wg_isatom(db,op)) return 0;
-  if (strcmp(wg_atomstr1(db,op),"$p")) return 0;
+  if (strcmp(wg_atomtext(db,op),"$p")) return 0;
   rest=wg_rest(db,cl);
   if (!rest) return 0;
   arg=wg_first(db,rest);
   */
   if (!wg_isatom(db,arg)) return 0;
   if (wg_atomtype(db,arg)!=WG_URITYPE) return 0;
-  if (!strcmp(wg_atomstr1(db,arg),"$true")) return 1;
-  if (!strcmp(wg_atomstr1(db,arg),"$false")) return -1;
+  if (!strcmp(wg_atomtext(db,arg),"$true")) return 1;
+  if (!strcmp(wg_atomtext(db,arg),"$false")) return -1;
   return 0;    
 }
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..5a9083a 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -866,7 +866,7 @@ void* wr_preprocess_json_clauselist
 #endif         
     /*
     if (!clnr && wg_isatom(db,cl) && wg_atomtype(db,cl)==WG_URITYPE &&
-          !strcmp("formulas",wg_atomstr1(db,cl)) ) {
+          !strcmp("formulas",wg_atomtext(db,cl)) ) {
       clnr--;      
       continue;
     }
@@ -895,7 +895,7 @@ void* wr_preprocess_json_clauselist
       // tptp import clause 
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         // do not import when converting
-        printf("\ninclude('%s').\n",wg_atomstr1(db,wg_nth(db,cl,2)));        
+        printf("\ninclude('%s').\n",wg_atomtext(db,wg_nth(db,cl,2)));        
       } else {
         wr_process_json_import_clause(g,mpool,cl,clvec);
       }  
@@ -985,7 +985,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\n");
 #endif  
   if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
-  str=wg_atomstr1(db,pathatom); 
+  str=wg_atomtext(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
@@ -1141,11 +1141,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       } else {
         // ok case
         if (name) {    
-          namestr=wg_atomstr1(db,name);        
+          namestr=wg_atomtext(db,name);        
           pp->formulaname=namestr;
         }  
         if (role) {
-          rolestr=wg_atomstr1(db,role);          
+          rolestr=wg_atomtext(db,role);          
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
@@ -1402,14 +1402,14 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     // negated atom?        
     if ((wg_atomtype(db,cl)==WG_URITYPE && cl!=pp->logfalse && cl!=pp->logtrue) &&
         wg_atomstr1(db,cl) &&
-        ((wg_atomstr1(db,cl))[0]=='-' ||
-         (wg_atomstr1(db,cl))[0]=='~')) {                      
-      if (wg_atomstr1(db,cl)[1]=='-' || (wg_atomstr1(db,cl))[0]=='~') {
+        ((wg_atomtext(db,cl))[0]=='-' ||
+         (wg_atomtext(db,cl))[0]=='~')) {                      
+      if (wg_atomtext(db,cl)[1]=='-' || (wg_atomtext(db,cl))[0]=='~') {
         wr_show_jsparse_error(g,pp,
           "double negation character like -- or ~~ prohibited in logical symbols");
         return NULL;
       }
-      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,cl)+1),NULL);            
+      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomtext(db,cl)+1),NULL);            
       cl=wg_mklist2(db,mpool,pp->logneg,r1);
       if (!r1 || !cl) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
@@ -1435,12 +1435,12 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
-    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomtext(db,head)) && !r1) {
       preres=wg_makelogfalse(db,mpool);          
-    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomtext(db,head)) && !r1) {
       preres=wg_makelogtrue(db,mpool); 
     } else if (wr_json_is_eq_op(g,r1el) && head && wg_ispair(db,r2)) {      
-      str=wg_atomstr1(db,r1el);
+      str=wg_atomtext(db,r1el);
       if (*str!='=') {
         // not a positive equality, hence negative
         head=wr_process_json_term(g,pp,head,0,1);
@@ -1458,9 +1458,9 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
         preres=wg_mklist3(db,mpool,r1el,head,r2el);
       }  
     } else if (wg_isatom(db,head) &&
-               (!strcmp("not",wg_atomstr1(db,head)) ||
-                !strcmp("-",wg_atomstr1(db,head)) ||
-                !strcmp("~",wg_atomstr1(db,head)) )) {  
+               (!strcmp("not",wg_atomtext(db,head)) ||
+                !strcmp("-",wg_atomtext(db,head)) ||
+                !strcmp("~",wg_atomtext(db,head)) )) {  
       // negation               
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for not connective");
@@ -1475,7 +1475,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logneg);
       *((gint*)r1)=(gint)r1proc;
       preres=cl;      
-    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomtext(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for exists connective");
         return NULL;
@@ -1499,7 +1499,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logexists);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomtext(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for forall connective");
         return NULL;
@@ -1523,10 +1523,17 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logall);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomstr1(db,head))) {
+    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomtext(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
     } else if (logconn!=NULL) {
       // contains logical stuff at top
+      if (!strcmp("exists",wg_atomtext(db,logconn)) ||
+          !strcmp("forall",wg_atomtext(db,logconn)) ||
+          !strcmp("if",wg_atomtext(db,logconn))) {
+        wr_show_jsparse_error(g,pp,"%s must be the first element of a list",
+                              wg_atomtext(db,logconn));
+        return NULL;
+      }
       preres=wg_inplace_reverselist(db,mpool,cl);
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux reverse result is\n");
@@ -1535,7 +1542,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
 #endif      
       newlogconn=wr_json_translate_connective(g,pp,logconn);
       isneg=wr_json_negtype_connective(g,pp,logconn);
-      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomstr1(db,logconn))) isreverse=1;
+      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomtext(db,logconn))) isreverse=1;
       else isreverse=0;
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux before unflatten  is\n");
@@ -1543,6 +1550,10 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       printf("\n");
 #endif         
       preres=wr_json_unflatten_logic(g,pp,preres,logconn,newlogconn,!isneg,isreverse);   
+      if (!preres) {
+        wr_show_jsparse_error(g,pp,"connective %s has no arguments",wg_atomtext(db,logconn));
+        return NULL;
+      }
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux unflatten result is\n");
       wg_mpool_print(db,preres);
@@ -1619,7 +1630,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     // detect if there are keys    
     for (part=wg_rest(db,cl); part!=NULL; part=wg_rest(db,part)) {
       key=wg_first(db,part);
-      keystr=wg_atomstr1(db,key);
+      keystr=wg_atomtext(db,key);
       if (key && !(wr_json_special_keystr(g, keystr))) {
         foundkey=1;
         break;
@@ -1636,7 +1647,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       continue;
     }  
     tmp=wg_rest(db,part);
-    keystr=wg_atomstr1(db,key);
+    keystr=wg_atomtext(db,key);
     if (wg_ispair(db,tmp)) {
       keyval=wg_first(db,tmp);
     } else {
@@ -1664,7 +1675,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       keyval=wr_json_expand_list_prefixes(g,mpool,pp,keyval,0);      
 #endif      
       extended=wr_add_struct_key_atoms(g,pp,id,
-          wg_atomstr1(db,pp->jsonld_typerepl),keyval,extended);
+          wg_atomtext(db,pp->jsonld_typerepl),keyval,extended);
     } else if (!strcmp("@graph",keystr)) {
       if (origid || foundkey) {
         if (!id) {               
@@ -1705,8 +1716,8 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     //extended=wr_process_json_formula_aux(g,pp,extended); //,0,1);  
     if (logic) {     
       // both extended and logic part present        
-      if (role && (!strcmp(wg_atomstr1(db,role),"question") ||
-         !strcmp(wg_atomstr1(db,role),"conjecture"))) {
+      if (role && (!strcmp(wg_atomtext(db,role),"question") ||
+         !strcmp(wg_atomtext(db,role),"conjecture"))) {
         logic=wr_json_add_with_negated_or(g,pp,logic,extended);
       } else {         
         logic=wr_json_add_with_and(g,pp,logic,extended);       
@@ -1772,7 +1783,7 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
       if (wr_json_isvar(g,pp,values)) {
         modvalue=values;
       } else {
-        valstr=wg_atomstr1(db,values);
+        valstr=wg_atomtext(db,values);
         modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
       }  
     } else {
@@ -1789,14 +1800,14 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
     if (!list) list=wg_get_keystrval(db, "@set", values);
     value=wg_get_keystrval(db, "@value", values);
     if (value && wg_atomtype(db,value)==WG_URITYPE) {
-      valstr=wg_atomstr1(db,value);
+      valstr=wg_atomtext(db,value);
       modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
     } else {
       modvalue=value;
     } 
     if (list) {
       // list structure case
-      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomtext(db,list)))
         res1=list;
       else
         res1=wr_process_json_list(g,pp,list);
@@ -1906,7 +1917,7 @@ void* wr_json_expand_list_prefixes(glb* g, void* mpool, parse_parm* pp, void* ls
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;
 #ifdef EXPAND_JSONLD_LISTKEYS      
-      valstr=wg_atomstr1(db,lst);
+      valstr=wg_atomtext(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -1971,7 +1982,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
           wg_atomtype(db,base)==WG_URITYPE &&
           wg_atomstr1(db,base)) {
         // try to use base    
-        basestr=wg_atomstr1(db,base);    
+        basestr=wg_atomtext(db,base);    
         len=strlen(basestr);
         if (wr_json_is_expandable_uristr(g,str) &&
             len &&  wg_suitable_context_uri_end(db,*(basestr+len-1))) {               
@@ -1993,7 +2004,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   } else {    
     // NULL givenid, make a new one   
     sprintf(buf,"_:crtd_%d",
-      //wg_atomstr1(db,pp->jsonld_blankprefatom),
+      //wg_atomtext(db,pp->jsonld_blankprefatom),
       (dbmemsegh(db)->parse_json_blankseed));
     (dbmemsegh(db)->parse_json_blankseed)++;
     res=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,buf,NULL);                 
@@ -2059,7 +2070,7 @@ int wr_json_isvar(glb* g, parse_parm* pp, void* atom) {
 
   if (!wg_isatom(db,atom)) return 0;  
   if (wg_atomtype(db,atom)!=WG_URITYPE) return 0;
-  str=wg_atomstr1(db,atom);    
+  str=wg_atomtext(db,atom);    
   if (*str=='?' && *(str+1)==':') return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->boundvars),atom)) return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->freevars),atom)) return 1; 
@@ -2109,7 +2120,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         wr_show_jsparse_error(g,pp,"json object has neither @logic nor @list key value");
         return NULL;
       } else {
-        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomtext(db,list)))
           cl=list;
         else
           cl=wr_process_json_list(g,pp,list);
@@ -2161,12 +2172,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                wg_list_memberuri_in_sublist(db,(pp->boundvars),cl)) {
       // bound variable case           
       preres=cl;     
-    } else if (!strcmp(wg_atomstr1(db,cl),wg_atomstr1(db,pp->jsonld_typekey))) {
+    } else if (!strcmp(wg_atomtext(db,cl),wg_atomtext(db,pp->jsonld_typekey))) {
       preres=pp->jsonld_typerepl;
     } else if (wg_atomtype(db,cl)==WG_URITYPE) { 
         
       
-      valstr=wg_atomstr1(db,cl);
+      valstr=wg_atomtext(db,cl);
       modified=0;
 #ifdef EXPAND_JSONLD_TERMS      
       // use context to change uri string valstr as necessary        
@@ -2213,8 +2224,8 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       r2=NULL;
     }   
     if (atomlevel && wg_isatom(db,r1el) && r1el &&
-        (!strcmp("=",wg_atomstr1(db,r1el)) | 
-         !strcmp("!=",wg_atomstr1(db,r1el)) )) {  
+        (!strcmp("=",wg_atomtext(db,r1el)) | 
+         !strcmp("!=",wg_atomtext(db,r1el)) )) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2226,7 +2237,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,head,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,r1el)))  {
+      if (!strcmp("=",wg_atomtext(db,r1el)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1; 
         *((gint*)r2)=(gint)a2; 
@@ -2244,10 +2255,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       //return preres;
     } else if (!atomlevel && wg_isatom(db,r1el) && r1el &&
         wg_atomstr1(db,r1el) &&  
-        (!strcmp("+",wg_atomstr1(db,r1el)) | 
-         !strcmp("*",wg_atomstr1(db,r1el)) |
-         !strcmp("-",wg_atomstr1(db,r1el)) |
-         !strcmp("/",wg_atomstr1(db,r1el)))) {  
+        (!strcmp("+",wg_atomtext(db,r1el)) | 
+         !strcmp("*",wg_atomtext(db,r1el)) |
+         !strcmp("-",wg_atomtext(db,r1el)) |
+         !strcmp("/",wg_atomtext(db,r1el)))) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for arithmetic operation");
         return NULL;
@@ -2266,10 +2277,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       preres=cl;
 
     } else if (atomlevel &&  wg_isatom(db,head) && 
-        (!strcmp("=",wg_atomstr1(db,head)) | 
-         !strcmp("!=",wg_atomstr1(db,head)) |
-         !strcmp("-=",wg_atomstr1(db,head)) |
-         !strcmp("~=",wg_atomstr1(db,head)) )) { 
+        (!strcmp("=",wg_atomtext(db,head)) | 
+         !strcmp("!=",wg_atomtext(db,head)) |
+         !strcmp("-=",wg_atomtext(db,head)) |
+         !strcmp("~=",wg_atomtext(db,head)) )) { 
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2281,7 +2292,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,r1el,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,head)))  {
+      if (!strcmp("=",wg_atomtext(db,head)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1;
         *((gint*)r2)=(gint)a2;
@@ -2303,12 +2314,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
     } else if (wg_atomtype(db,head)!=WG_URITYPE && wg_atomtype(db,head)!=WG_ANONCONSTTYPE) {   
       wr_show_jsparse_error(g,pp,"atom must start with a constant");
       return NULL;
-    } else if ((wg_atomstr1(db,head))[0]=='\0') {
+    } else if ((wg_atomtext(db,head))[0]=='\0') {
       wr_show_jsparse_error(g,pp,"atom must not start with an empty string");
       return NULL;
     } else if (atomlevel && 
-                ( (wg_atomstr1(db,head))[0]=='-' ||
-                  (wg_atomstr1(db,head))[0]=='~' )) {  
+                ( (wg_atomtext(db,head))[0]=='-' ||
+                  (wg_atomtext(db,head))[0]=='~' )) {  
       //tmpres=NULL;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
@@ -2316,7 +2327,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomtext(db,head)+1),NULL);      
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
@@ -2324,7 +2335,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         return NULL;
       }
     } else if (wg_isatom(db,head) &&
-              (!strcmp("exists",wg_atomstr1(db,head)) || !strcmp("all",wg_atomstr1(db,head))) ) {
+              (!strcmp("exists",wg_atomtext(db,head)) || !strcmp("all",wg_atomtext(db,head))) ) {
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for quantifier");
         return NULL;
@@ -2486,7 +2497,7 @@ int wr_json_is_connective(glb* g,void* ptr) {
   if (!wg_isatom(db,ptr) || 
       (wg_atomtype(db,ptr)!=WG_URITYPE &&
        wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE)) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("not",str)) return 1;
   if (!strcmp("~",str)) return 1;
   if (!strcmp("-",str)) return 1;
@@ -2521,7 +2532,7 @@ int wr_json_is_eq_op(glb* g,void* ptr) {
   char* str;
 
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("=",str)) return 1;
   if (!strcmp("~=",str)) return 1;
   if (!strcmp("-=",str)) return 1;
@@ -2538,7 +2549,7 @@ void* wr_json_translate_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("not",str)) return pp->logneg;
   if (!strcmp("~",str)) return  pp->logneg;
   if (!strcmp("-",str)) return  pp->logneg;
@@ -2571,7 +2582,7 @@ int wr_json_negtype_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   
   if (!strcmp("<~>",str)) return 1;
   if (!strcmp("~|",str)) return 1;
@@ -2584,7 +2595,7 @@ int wr_is_json_freevar(glb* g,parse_parm* pp,void* ptr) {
   void* db=g->db;
   char *s;
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0;
-  s=wg_atomstr1(db,ptr);
+  s=wg_atomtext(db,ptr);
   if ((*s)=='\0') return 0;
   if ((*s)!='?') return 0;
   s++;
@@ -2607,8 +2618,8 @@ int wr_json_equal_atoms(glb* g,void* a1, void* a2) {
 
   if (!wg_isatom(db,a1) || wg_atomtype(db,a1)!=WG_URITYPE) return 0;
   if (!wg_isatom(db,a2) || wg_atomtype(db,a2)!=WG_URITYPE) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wg_atomtext(db,a1);
+  str2=wg_atomtext(db,a2);
   if (!strcmp(str1,str2)) return 1;
   return 0;
 }
@@ -2626,8 +2637,8 @@ int wr_json_really_equal_atoms(glb* g,void* a1, void* a2) {
   */
   if (!wg_isatom(db,a1)) return 0;
   if (!wg_isatom(db,a2)) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wg_atomtext(db,a1);
+  str2=wg_atomtext(db,a2);
   if (!strcmp(str1,str2)) {
     //printf("\nequal\n");
     return 1;
@@ -2647,7 +2658,7 @@ void* wr_json_process_if_then(glb* g, parse_parm* pp, void* ptr) {
   for(part=wg_rest(db,ptr); part!=NULL;  part=wg_rest(db,part)) {
     el=wg_first(db,part);
     if (wg_isatom(db,el) && wg_atomtype(db,el)==WG_URITYPE &&
-        !strcmp(wg_atomstr1(db,el),"then")) {
+        !strcmp(wg_atomtext(db,el),"then")) {
       incond=0;
       continue;
     }
@@ -2982,7 +2993,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 #endif      
     if (!wg_ispair(db,lit)) { issimple=0; continue; }
     fun=wg_first(db,lit);
-    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomstr1(db,fun),"not")) { issimple=0; continue; }
+    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomtext(db,fun),"not")) { issimple=0; continue; }
     for(termpart=lit;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
       subterm=wg_first(db,termpart);
 #ifdef DEBUG        
@@ -2993,8 +3004,8 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE &&  
-          ( (g->parse_caps_as_var && isupper(wg_atomstr1(db,subterm)[0])) ||
-            (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
+          ( (g->parse_caps_as_var && isupper(wg_atomtext(db,subterm)[0])) ||
+            (g->parse_question_as_var && wg_atomtext(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
   }        
   if (litnr>1) issimple=0;   
@@ -3050,7 +3061,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
     }     
     isneg=0;
     if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && 
-        !strcmp(wg_atomstr1(db,fun),"not") &&
+        !strcmp(wg_atomtext(db,fun),"not") &&
         wg_atomstr2(db,fun)==NULL) {
       //DPRINTF("detected negation");
       isneg=1;            
@@ -3134,13 +3145,13 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   } // end one clause processing loop
   // set history 
   if (name && wg_isatom(db,name) && wg_atomtype(db,name)==WG_URITYPE) {
-    namestr=wg_atomstr1(db,name);
+    namestr=wg_atomtext(db,name);
     if (!(namestr[0])) namestr=NULL;    
   } else {
     namestr=NULL;
   }  
   if (role && wg_isatom(db,role) && wg_atomtype(db,role)==WG_URITYPE) {
-    rolestr=wg_atomstr1(db,role);        
+    rolestr=wg_atomtext(db,role);        
     if (!strcmp("conjecture",rolestr) || !strcmp("negated_conjecture",rolestr)) {       
       rolenr=PARSER_GOAL_ROLENR;          
     } else if (!strcmp("hypothesis",rolestr) || !strcmp("assumption",rolestr)) {     
@@ -3274,7 +3285,7 @@ int wr_json_extend_context(glb* g, parse_parm* pp, void* ctxt) {
         if (!part) break;
         continue;
       }
-      keystr=wg_atomstr1(db,key);
+      keystr=wg_atomtext(db,key);
       value=wg_first(db,wg_rest(db,part));
       if (!keystr || !keystr[0] || (keystr && !strcmp(keystr,"@vocab"))) {
         part=wg_rest(db,part);
@@ -3330,7 +3341,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
     // do not prefix with vocab if keystr contains colon at non-first place:
     if (ctxtkey==(pp->jsonld_vocabkey) && (!colptr || colptr==keystr)) {         
       // use vocab as a prefix  
-      vocabstr=wg_atomstr1(db,wg_rest(db,el));
+      vocabstr=wg_atomtext(db,wg_rest(db,el));
       if ((keylen+strlen(vocabstr)+10)>buflen) {
         wr_show_parse_error(g,"@vocab value + key is too long"); 
         return keystr;
@@ -3339,7 +3350,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
       strcat(buf,keystr);     
       return buf;
     }     
-    ctxtkeystr=wg_atomstr1(db,ctxtkey);    
+    ctxtkeystr=wg_atomtext(db,ctxtkey);    
     ctxtkeylen=strlen(ctxtkeystr);
     if (!ctxtkeylen) continue;   
     val=wg_rest(db,el);
@@ -3363,7 +3374,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
         return keystr;
       }            
     }
-    valstr=wg_atomstr1(db,val);
+    valstr=wg_atomtext(db,val);
     if (!valstr) continue;
     valstrlen=strlen(valstr);
     if (!valstrlen) continue;    
@@ -3404,7 +3415,7 @@ void* wr_json_expand_atom(glb* g, void* mpool, parse_parm* pp, void* lst, int de
     // lst is an atom, not a real list
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;     
-      valstr=wg_atomstr1(db,lst);
+      valstr=wg_atomtext(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..1052abb 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -470,12 +470,12 @@ void* wg_list_memberuri(void* db, void* list, void* el) {
   char* elstr;
 
   if (list==NULL) return NULL;
-  elstr=wg_atomstr1(db,el);
+  elstr=wg_atomtext(db,el);
   for (; list!=NULL; list=wg_rest(db,list)) {
     listel=wg_first(db,list);
     if (!wg_isatom(db,listel)) continue;
     if (wg_atomtype(db,listel)!=WG_URITYPE) continue;
-    if (!strcmp(elstr,wg_atomstr1(db,listel))) return list;
+    if (!strcmp(elstr,wg_atomtext(db,listel))) return list;
   }
   return NULL;
 }  
@@ -485,12 +485,12 @@ void* wg_list_memberuri_in_sublist(void* db, void* list, void* el) {
   char* elstr;
 
   if (list==NULL) return NULL;
-  elstr=wg_atomstr1(db,el);
+  elstr=wg_atomtext(db,el);
   for (; list!=NULL; list=wg_rest(db,list)) {
     listel=wg_first(db,list);
     if (wg_isatom(db,listel)) {
       if (wg_atomtype(db,listel)!=WG_URITYPE) continue;
-      if (!strcmp(elstr,wg_atomstr1(db,listel))) return list;
+      if (!strcmp(elstr,wg_atomtext(db,listel))) return list;
     } else if (wg_ispair(db,listel)) {
       tmp=wg_list_memberuri(db,listel,el);
       if (tmp) return list;
@@ -533,7 +533,7 @@ void* wg_get_keyval(void* db, void* key, void* keyval) {
   void *str;
 
   if (!keyval || !key) return NULL;
-  str=wg_atomstr1(db,key);
+  str=wg_atomtext(db,key);
   return wg_get_keystrval(db,str,keyval);
 }
 
@@ -544,7 +544,7 @@ void* wg_get_keystrval(void* db, char* str, void* keyval) {
   for(part=wg_rest(db,keyval); wg_ispair(db,part); part=wg_rest(db,part)) {
     el=wg_first(db,part);
     tmp=wg_rest(db,part);
-    if (!strcmp(wg_atomstr1(db,el),str)) {      
+    if (!strcmp(wg_atomtext(db,el),str)) {      
       if (wg_ispair(db,tmp)) {
         return wg_first(db,tmp);
       } else {
@@ -781,6 +781,13 @@ char* wg_atomstr1(void* db, void* ptr) {
   else return ((char*)ptr)+1;
 }
 
+/* like wg_atomstr1, but the text of an empty string is "", not NULL */
+char* wg_atomtext(void* db, void* ptr) {
+  char* str;
+  str=wg_atomstr1(db,ptr);
+  return str ? str : "";
+}
+
 char* wg_atomstr2(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
   //printf("\nwg_atomstr2 called with str1 %s and strlen((char*)((char*)ptr+1)) %d\n",
@@ -856,7 +863,7 @@ int wg_islogconnective(void* db, void* ptr) {
   char* str;
 
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("not",str)) return 1;
   if (!strcmp("and",str)) return 1;
   if (!strcmp("or",str)) return 1;
@@ -870,13 +877,13 @@ int wg_islogconnective(void* db, void* ptr) {
 
 int wg_islog_conn(void* db, void* ptr, char* str) {
   if (!ptr || !wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE) return 0;
-  if (strcmp(wg_atomstr1(db,ptr),str)) return 0;
+  if (strcmp(wg_atomtext(db,ptr),str)) return 0;
   return 1;
 }
 
 int wg_islog_uri(void* db, void* ptr, char* str) {
   if (!ptr || !wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0;
-  if (strcmp(wg_atomstr1(db,ptr),str)) return 0;
+  if (strcmp(wg_atomtext(db,ptr),str)) return 0;
   if (wg_atomstr2(db,ptr)!=NULL) return 0;
   return 1;
 }
diff --git a/Db/dbmpool.h b/Db/dbmpool.h
index e21781f..1a53796 100644
--- a/Db/dbmpool.h
+++ b/Db/dbmpool.h
@@ -115,6 +115,7 @@ void* wg_mkatom_double(void* db, void* mpool, double num);
 void* wg_mkrecatom(void* db, void* mpool, wg_int rec);
 int wg_atomtype(void* db, void* ptr);
 char* wg_atomstr1(void* db, void* ptr);
+char* wg_atomtext(void* db, void* ptr);                     // as previous, but "" and not NULL for an empty string
 char* wg_atomstr2(void* db, void* ptr);
 wg_int wg_atomrec(void* db, void* ptr);
 
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..8b01d1e 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -565,10 +565,10 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
-  str=wg_atomstr1(db,frm);
+  str=wg_atomtext(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-    if (!strcmp(str,wg_atomstr1(db,boundvar))) {
+    if (!strcmp(str,wg_atomtext(db,boundvar))) {
       // same vars      
       return 1;
     }  
@@ -587,7 +587,7 @@ void* wr_miniscope_varssubset(glb* g, void* mpool, void* vars, void* boundvars)
     var=wg_first(db,part); 
     for(boundpart=boundvars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         if (wg_rest(db,vars)==NULL) return NULL; // no other vars
         found=1;
@@ -603,7 +603,7 @@ void* wr_miniscope_varssubset(glb* g, void* mpool, void* vars, void* boundvars)
     found=0;
     for(boundpart=boundvars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         found=1;
         break;
@@ -631,7 +631,7 @@ void* wr_add_freeoccs(glb* g, void* mpool, void* vars, void* termoccs) {
     found=0;
     for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
       boundvar=wg_first(db,boundpart); 
-      if (!strcmp(wg_atomstr1(db,var),wg_atomstr1(db,boundvar))) {
+      if (!strcmp(wg_atomtext(db,var),wg_atomtext(db,boundvar))) {
         // same vars
         found=1;
         break;
@@ -815,7 +815,7 @@ void wr_clausify_replace_vars(glb* g, void* mpool, void* assoc, void* term) {
         ael=wg_first(db,apart);
         avar=wg_first(db,ael);
         if (wg_atomtype(db,avar)==type &&
-            !strcmp(wg_atomstr1(db,avar),wg_atomstr1(db,el)) ) {
+            !strcmp(wg_atomtext(db,avar),wg_atomtext(db,el)) ) {
           // var found in assoc, replace
           wg_replacepair_first(db,part,wg_rest(db,ael));
           break;
@@ -1601,15 +1601,15 @@ int wr_is_logconst(glb* g, void* arg) {
   if (!wg_ispair(db,cl)) return 0;
   op=wg_first(db,cl);
   if (!wg_isatom(db,op)) return 0;
-  if (strcmp(wg_atomstr1(db,op),"$p")) return 0;
+  if (strcmp(wg_atomtext(db,op),"$p")) return 0;
   rest=wg_rest(db,cl);
   if (!rest) return 0;
   arg=wg_first(db,rest);
   */
   if (!wg_isatom(db,arg)) return 0;
   if (wg_atomtype(db,arg)!=WG_URITYPE) return 0;
-  if (!strcmp(wg_atomstr1(db,arg),"$true")) return 1;
-  if (!strcmp(wg_atomstr1(db,arg),"$false")) return -1;
+  if (!strcmp(wg_atomtext(db,arg),"$true")) return 1;
+  if (!strcmp(wg_atomtext(db,arg),"$false")) return -1;
   return 0;    
 }
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..5a9083a 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -866,7 +866,7 @@ void* wr_preprocess_json_clauselist
 #endif         
     /*
     if (!clnr && wg_isatom(db,cl) && wg_atomtype(db,cl)==WG_URITYPE &&
-          !strcmp("formulas",wg_atomstr1(db,cl)) ) {
+          !strcmp("formulas",wg_atomtext(db,cl)) ) {
       clnr--;      
       continue;
     }
@@ -895,7 +895,7 @@ void* wr_preprocess_json_clauselist
       // tptp import clause 
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         // do not import when converting
-        printf("\ninclude('%s').\n",wg_atomstr1(db,wg_nth(db,cl,2)));        
+        printf("\ninclude('%s').\n",wg_atomtext(db,wg_nth(db,cl,2)));        
       } else {
         wr_process_json_import_clause(g,mpool,cl,clvec);
       }  
@@ -985,7 +985,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\n");
 #endif  
   if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
-  str=wg_atomstr1(db,pathatom); 
+  str=wg_atomtext(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
@@ -1141,11 +1141,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       } else {
         // ok case
         if (name) {    
-          namestr=wg_atomstr1(db,name);        
+          namestr=wg_atomtext(db,name);        
           pp->formulaname=namestr;
         }  
         if (role) {
-          rolestr=wg_atomstr1(db,role);          
+          rolestr=wg_atomtext(db,role);          
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
@@ -1402,14 +1402,14 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     // negated atom?        
     if ((wg_atomtype(db,cl)==WG_URITYPE && cl!=pp->logfalse && cl!=pp->logtrue) &&
         wg_atomstr1(db,cl) &&
-        ((wg_atomstr1(db,cl))[0]=='-' ||
-         (wg_atomstr1(db,cl))[0]=='~')) {                      
-      if (wg_atomstr1(db,cl)[1]=='-' || (wg_atomstr1(db,cl))[0]=='~') {
+        ((wg_atomtext(db,cl))[0]=='-' ||
+         (wg_atomtext(db,cl))[0]=='~')) {                      
+      if (wg_atomtext(db,cl)[1]=='-' || (wg_atomtext(db,cl))[0]=='~') {
         wr_show_jsparse_error(g,pp,
           "double negation character like -- or ~~ prohibited in logical symbols");
         return NULL;
       }
-      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,cl)+1),NULL);            
+      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomtext(db,cl)+1),NULL);            
       cl=wg_mklist2(db,mpool,pp->logneg,r1);
       if (!r1 || !cl) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
@@ -1435,12 +1435,12 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
-    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomtext(db,head)) && !r1) {
       preres=wg_makelogfalse(db,mpool);          
-    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomtext(db,head)) && !r1) {
       preres=wg_makelogtrue(db,mpool); 
     } else if (wr_json_is_eq_op(g,r1el) && head && wg_ispair(db,r2)) {      
-      str=wg_atomstr1(db,r1el);
+      str=wg_atomtext(db,r1el);
       if (*str!='=') {
         // not a positive equality, hence negative
         head=wr_process_json_term(g,pp,head,0,1);
@@ -1458,9 +1458,9 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
         preres=wg_mklist3(db,mpool,r1el,head,r2el);
       }  
     } else if (wg_isatom(db,head) &&
-               (!strcmp("not",wg_atomstr1(db,head)) ||
-                !strcmp("-",wg_atomstr1(db,head)) ||
-                !strcmp("~",wg_atomstr1(db,head)) )) {  
+               (!strcmp("not",wg_atomtext(db,head)) ||
+                !strcmp("-",wg_atomtext(db,head)) ||
+                !strcmp("~",wg_atomtext(db,head)) )) {  
       // negation               
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for not connective");
@@ -1475,7 +1475,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logneg);
       *((gint*)r1)=(gint)r1proc;
       preres=cl;      
-    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomtext(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for exists connective");
         return NULL;
@@ -1499,7 +1499,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logexists);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomtext(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for forall connective");
         return NULL;
@@ -1523,10 +1523,17 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logall);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomstr1(db,head))) {
+    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomtext(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
     } else if (logconn!=NULL) {
       // contains logical stuff at top
+      if (!strcmp("exists",wg_atomtext(db,logconn)) ||
+          !strcmp("forall",wg_atomtext(db,logconn)) ||
+          !strcmp("if",wg_atomtext(db,logconn))) {
+        wr_show_jsparse_error(g,pp,"%s must be the first element of a list",
+                              wg_atomtext(db,logconn));
+        return NULL;
+      }
       preres=wg_inplace_reverselist(db,mpool,cl);
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux reverse result is\n");
@@ -1535,7 +1542,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
 #endif      
       newlogconn=wr_json_translate_connective(g,pp,logconn);
       isneg=wr_json_negtype_connective(g,pp,logconn);
-      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomstr1(db,logconn))) isreverse=1;
+      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomtext(db,logconn))) isreverse=1;
       else isreverse=0;
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux before unflatten  is\n");
@@ -1543,6 +1550,10 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       printf("\n");
 #endif         
       preres=wr_json_unflatten_logic(g,pp,preres,logconn,newlogconn,!isneg,isreverse);   
+      if (!preres) {
+        wr_show_jsparse_error(g,pp,"connective %s has no arguments",wg_atomtext(db,logconn));
+        return NULL;
+      }
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux unflatten result is\n");
       wg_mpool_print(db,preres);
@@ -1619,7 +1630,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     // detect if there are keys    
     for (part=wg_rest(db,cl); part!=NULL; part=wg_rest(db,part)) {
       key=wg_first(db,part);
-      keystr=wg_atomstr1(db,key);
+      keystr=wg_atomtext(db,key);
       if (key && !(wr_json_special_keystr(g, keystr))) {
         foundkey=1;
         break;
@@ -1636,7 +1647,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       continue;
     }  
     tmp=wg_rest(db,part);
-    keystr=wg_atomstr1(db,key);
+    keystr=wg_atomtext(db,key);
     if (wg_ispair(db,tmp)) {
       keyval=wg_first(db,tmp);
     } else {
@@ -1664,7 +1675,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       keyval=wr_json_expand_list_prefixes(g,mpool,pp,keyval,0);      
 #endif      
       extended=wr_add_struct_key_atoms(g,pp,id,
-          wg_atomstr1(db,pp->jsonld_typerepl),keyval,extended);
+          wg_atomtext(db,pp->jsonld_typerepl),keyval,extended);
     } else if (!strcmp("@graph",keystr)) {
       if (origid || foundkey) {
         if (!id) {               
@@ -1705,8 +1716,8 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     //extended=wr_process_json_formula_aux(g,pp,extended); //,0,1);  
     if (logic) {     
       // both extended and logic part present        
-      if (role && (!strcmp(wg_atomstr1(db,role),"question") ||
-         !strcmp(wg_atomstr1(db,role),"conjecture"))) {
+      if (role && (!strcmp(wg_atomtext(db,role),"question") ||
+         !strcmp(wg_atomtext(db,role),"conjecture"))) {
         logic=wr_json_add_with_negated_or(g,pp,logic,extended);
       } else {         
         logic=wr_json_add_with_and(g,pp,logic,extended);       
@@ -1772,7 +1783,7 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
       if (wr_json_isvar(g,pp,values)) {
         modvalue=values;
       } else {
-        valstr=wg_atomstr1(db,values);
+        valstr=wg_atomtext(db,values);
         modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
       }  
     } else {
@@ -1789,14 +1800,14 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
     if (!list) list=wg_get_keystrval(db, "@set", values);
     value=wg_get_keystrval(db, "@value", values);
     if (value && wg_atomtype(db,value)==WG_URITYPE) {
-      valstr=wg_atomstr1(db,value);
+      valstr=wg_atomtext(db,value);
       modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
     } else {
       modvalue=value;
     } 
     if (list) {
       // list structure case
-      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomtext(db,list)))
         res1=list;
       else
         res1=wr_process_json_list(g,pp,list);
@@ -1906,7 +1917,7 @@ void* wr_json_expand_list_prefixes(glb* g, void* mpool, parse_parm* pp, void* ls
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;
 #ifdef EXPAND_JSONLD_LISTKEYS      
-      valstr=wg_atomstr1(db,lst);
+      valstr=wg_atomtext(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -1971,7 +1982,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
           wg_atomtype(db,base)==WG_URITYPE &&
           wg_atomstr1(db,base)) {
         // try to use base    
-        basestr=wg_atomstr1(db,base);    
+        basestr=wg_atomtext(db,base);    
         len=strlen(basestr);
         if (wr_json_is_expandable_uristr(g,str) &&
             len &&  wg_suitable_context_uri_end(db,*(basestr+len-1))) {               
@@ -1993,7 +2004,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   } else {    
     // NULL givenid, make a new one   
     sprintf(buf,"_:crtd_%d",
-      //wg_atomstr1(db,pp->jsonld_blankprefatom),
+      //wg_atomtext(db,pp->jsonld_blankprefatom),
       (dbmemsegh(db)->parse_json_blankseed));
     (dbmemsegh(db)->parse_json_blankseed)++;
     res=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,buf,NULL);                 
@@ -2059,7 +2070,7 @@ int wr_json_isvar(glb* g, parse_parm* pp, void* atom) {
 
   if (!wg_isatom(db,atom)) return 0;  
   if (wg_atomtype(db,atom)!=WG_URITYPE) return 0;
-  str=wg_atomstr1(db,atom);    
+  str=wg_atomtext(db,atom);    
   if (*str=='?' && *(str+1)==':') return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->boundvars),atom)) return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->freevars),atom)) return 1; 
@@ -2109,7 +2120,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         wr_show_jsparse_error(g,pp,"json object has neither @logic nor @list key value");
         return NULL;
       } else {
-        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomtext(db,list)))
           cl=list;
         else
           cl=wr_process_json_list(g,pp,list);
@@ -2161,12 +2172,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                wg_list_memberuri_in_sublist(db,(pp->boundvars),cl)) {
       // bound variable case           
       preres=cl;     
-    } else if (!strcmp(wg_atomstr1(db,cl),wg_atomstr1(db,pp->jsonld_typekey))) {
+    } else if (!strcmp(wg_atomtext(db,cl),wg_atomtext(db,pp->jsonld_typekey))) {
       preres=pp->jsonld_typerepl;
     } else if (wg_atomtype(db,cl)==WG_URITYPE) { 
         
       
-      valstr=wg_atomstr1(db,cl);
+      valstr=wg_atomtext(db,cl);
       modified=0;
 #ifdef EXPAND_JSONLD_TERMS      
       // use context to change uri string valstr as necessary        
@@ -2213,8 +2224,8 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       r2=NULL;
     }   
     if (atomlevel && wg_isatom(db,r1el) && r1el &&
-        (!strcmp("=",wg_atomstr1(db,r1el)) | 
-         !strcmp("!=",wg_atomstr1(db,r1el)) )) {  
+        (!strcmp("=",wg_atomtext(db,r1el)) | 
+         !strcmp("!=",wg_atomtext(db,r1el)) )) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2226,7 +2237,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,head,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,r1el)))  {
+      if (!strcmp("=",wg_atomtext(db,r1el)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1; 
         *((gint*)r2)=(gint)a2; 
@@ -2244,10 +2255,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       //return preres;
     } else if (!atomlevel && wg_isatom(db,r1el) && r1el &&
         wg_atomstr1(db,r1el) &&  
-        (!strcmp("+",wg_atomstr1(db,r1el)) | 
-         !strcmp("*",wg_atomstr1(db,r1el)) |
-         !strcmp("-",wg_atomstr1(db,r1el)) |
-         !strcmp("/",wg_atomstr1(db,r1el)))) {  
+        (!strcmp("+",wg_atomtext(db,r1el)) | 
+         !strcmp("*",wg_atomtext(db,r1el)) |
+         !strcmp("-",wg_atomtext(db,r1el)) |
+         !strcmp("/",wg_atomtext(db,r1el)))) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for arithmetic operation");
         return NULL;
@@ -2266,10 +2277,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       preres=cl;
 
     } else if (atomlevel &&  wg_isatom(db,head) && 
-        (!strcmp("=",wg_atomstr1(db,head)) | 
-         !strcmp("!=",wg_atomstr1(db,head)) |
-         !strcmp("-=",wg_atomstr1(db,head)) |
-         !strcmp("~=",wg_atomstr1(db,head)) )) { 
+        (!strcmp("=",wg_atomtext(db,head)) | 
+         !strcmp("!=",wg_atomtext(db,head)) |
+         !strcmp("-=",wg_atomtext(db,head)) |
+         !strcmp("~=",wg_atomtext(db,head)) )) { 
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2281,7 +2292,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,r1el,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,head)))  {
+      if (!strcmp("=",wg_atomtext(db,head)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1;
         *((gint*)r2)=(gint)a2;
@@ -2303,12 +2314,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
     } else if (wg_atomtype(db,head)!=WG_URITYPE && wg_atomtype(db,head)!=WG_ANONCONSTTYPE) {   
       wr_show_jsparse_error(g,pp,"atom must start with a constant");
       return NULL;
-    } else if ((wg_atomstr1(db,head))[0]=='\0') {
+    } else if ((wg_atomtext(db,head))[0]=='\0') {
       wr_show_jsparse_error(g,pp,"atom must not start with an empty string");
       return NULL;
     } else if (atomlevel && 
-                ( (wg_atomstr1(db,head))[0]=='-' ||
-                  (wg_atomstr1(db,head))[0]=='~' )) {  
+                ( (wg_atomtext(db,head))[0]=='-' ||
+                  (wg_atomtext(db,head))[0]=='~' )) {  
       //tmpres=NULL;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
@@ -2316,7 +2327,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomtext(db,head)+1),NULL);      
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
@@ -2324,7 +2335,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         return NULL;
       }
     } else if (wg_isatom(db,head) &&
-              (!strcmp("exists",wg_atomstr1(db,head)) || !strcmp("all",wg_atomstr1(db,head))) ) {
+              (!strcmp("exists",wg_atomtext(db,head)) || !strcmp("all",wg_atomtext(db,head))) ) {
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for quantifier");
         return NULL;
@@ -2486,7 +2497,7 @@ int wr_json_is_connective(glb* g,void* ptr) {
   if (!wg_isatom(db,ptr) || 
       (wg_atomtype(db,ptr)!=WG_URITYPE &&
        wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE)) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("not",str)) return 1;
   if (!strcmp("~",str)) return 1;
   if (!strcmp("-",str)) return 1;
@@ -2521,7 +2532,7 @@ int wr_json_is_eq_op(glb* g,void* ptr) {
   char* str;
 
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("=",str)) return 1;
   if (!strcmp("~=",str)) return 1;
   if (!strcmp("-=",str)) return 1;
@@ -2538,7 +2549,7 @@ void* wr_json_translate_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   if (!strcmp("not",str)) return pp->logneg;
   if (!strcmp("~",str)) return  pp->logneg;
   if (!strcmp("-",str)) return  pp->logneg;
@@ -2571,7 +2582,7 @@ int wr_json_negtype_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wg_atomtext(db,ptr);
   
   if (!strcmp("<~>",str)) return 1;
   if (!strcmp("~|",str)) return 1;
@@ -2584,7 +2595,7 @@ int wr_is_json_freevar(glb* g,parse_parm* pp,void* ptr) {
   void* db=g->db;
   char *s;
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0;
-  s=wg_atomstr1(db,ptr);
+  s=wg_atomtext(db,ptr);
   if ((*s)=='\0') return 0;
   if ((*s)!='?') return 0;
   s++;
@@ -2607,8 +2618,8 @@ int wr_json_equal_atoms(glb* g,void* a1, void* a2) {
 
   if (!wg_isatom(db,a1) || wg_atomtype(db,a1)!=WG_URITYPE) return 0;
   if (!wg_isatom(db,a2) || wg_atomtype(db,a2)!=WG_URITYPE) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wg_atomtext(db,a1);
+  str2=wg_atomtext(db,a2);
   if (!strcmp(str1,str2)) return 1;
   return 0;
 }
@@ -2626,8 +2637,8 @@ int wr_json_really_equal_atoms(glb* g,void* a1, void* a2) {
   */
   if (!wg_isatom(db,a1)) return 0;
   if (!wg_isatom(db,a2)) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wg_atomtext(db,a1);
+  str2=wg_atomtext(db,a2);
   if (!strcmp(str1,str2)) {
     //printf("\nequal\n");
     return 1;
@@ -2647,7 +2658,7 @@ void* wr_json_process_if_then(glb* g, parse_parm* pp, void* ptr) {
   for(part=wg_rest(db,ptr); part!=NULL;  part=wg_rest(db,part)) {
     el=wg_first(db,part);
     if (wg_isatom(db,el) && wg_atomtype(db,el)==WG_URITYPE &&
-        !strcmp(wg_atomstr1(db,el),"then")) {
+        !strcmp(wg_atomtext(db,el),"then")) {
       incond=0;
       continue;
     }
@@ -2982,7 +2993,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 #endif      
     if (!wg_ispair(db,lit)) { issimple=0; continue; }
     fun=wg_first(db,lit);
-    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomstr1(db,fun),"not")) { issimple=0; continue; }
+    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomtext(db,fun),"not")) { issimple=0; continue; }
     for(termpart=lit;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
       subterm=wg_first(db,termpart);
 #ifdef DEBUG        
@@ -2993,8 +3004,8 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE &&  
-          ( (g->parse_caps_as_var && isupper(wg_atomstr1(db,subterm)[0])) ||
-            (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
+          ( (g->parse_caps_as_var && isupper(wg_atomtext(db,subterm)[0])) ||
+            (g->parse_question_as_var && wg_atomtext(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
   }        
   if (litnr>1) issimple=0;   
@@ -3050,7 +3061,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
     }     
     isneg=0;
     if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && 
-        !strcmp(wg_atomstr1(db,fun),"not") &&
+        !strcmp(wg_atomtext(db,fun),"not") &&
         wg_atomstr2(db,fun)==NULL) {
       //DPRINTF("detected negation");
       isneg=1;            
@@ -3134,13 +3145,13 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   } // end one clause processing loop
   // set history 
   if (name && wg_isatom(db,name) && wg_atomtype(db,name)==WG_URITYPE) {
-    namestr=wg_atomstr1(db,name);
+    namestr=wg_atomtext(db,name);
     if (!(namestr[0])) namestr=NULL;    
   } else {
     namestr=NULL;
   }  
   if (role && wg_isatom(db,role) && wg_atomtype(db,role)==WG_URITYPE) {
-    rolestr=wg_atomstr1(db,role);        
+    rolestr=wg_atomtext(db,role);        
     if (!strcmp("conjecture",rolestr) || !strcmp("negated_conjecture",rolestr)) {       
       rolenr=PARSER_GOAL_ROLENR;          
     } else if (!strcmp("hypothesis",rolestr) || !strcmp("assumption",rolestr)) {     
@@ -3274,7 +3285,7 @@ int wr_json_extend_context(glb* g, parse_parm* pp, void* ctxt) {
         if (!part) break;
         continue;
       }
-      keystr=wg_atomstr1(db,key);
+      keystr=wg_atomtext(db,key);
       value=wg_first(db,wg_rest(db,part));
       if (!keystr || !keystr[0] || (keystr && !strcmp(keystr,"@vocab"))) {
         part=wg_rest(db,part);
@@ -3330,7 +3341,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
     // do not prefix with vocab if keystr contains colon at non-first place:
     if (ctxtkey==(pp->jsonld_vocabkey) && (!colptr || colptr==keystr)) {         
       // use vocab as a prefix  
-      vocabstr=wg_atomstr1(db,wg_rest(db,el));
+      vocabstr=wg_atomtext(db,wg_rest(db,el));
       if ((keylen+strlen(vocabstr)+10)>buflen) {
         wr_show_parse_error(g,"@vocab value + key is too long"); 
         return keystr;
@@ -3339,7 +3350,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
       strcat(buf,keystr);     
       return buf;
     }     
-    ctxtkeystr=wg_atomstr1(db,ctxtkey);    
+    ctxtkeystr=wg_atomtext(db,ctxtkey);    
     ctxtkeylen=strlen(ctxtkeystr);
     if (!ctxtkeylen) continue;   
     val=wg_rest(db,el);
@@ -3363,7 +3374,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
         return keystr;
       }            
     }
-    valstr=wg_atomstr1(db,val);
+    valstr=wg_atomtext(db,val);
     if (!valstr) continue;
     valstrlen=strlen(valstr);
     if (!valstrlen) continue;    
@@ -3404,7 +3415,7 @@ void* wr_json_expand_atom(glb* g, void* mpool, parse_parm* pp, void* lst, int de
     // lst is an atom, not a real list
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;     
-      valstr=wg_atomstr1(db,lst);
+      valstr=wg_atomtext(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
-- 
2.43.0


From 7df993ee4916253def687edfdd2fb116063b29cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:02:11 +0000
Subject: [PATCH 36/45] fix: long parse error messages were written past their
 buffer

---
 Builtparser/dbclausify.c | 4 ++++
 Builtparser/dbparse.c    | 4 ++++
 Builtparser/jsparse.c    | 9 ++++++++-
 Parser/dbclausify.c      | 4 ++++
 Parser/dbparse.c         | 4 ++++
 Parser/jsparse.c         | 9 ++++++++-
 6 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 8b01d1e..6ee03c7 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -1631,6 +1631,8 @@ void* show_clausify_error(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification hard error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   wr_free(g,malloc);
@@ -1653,6 +1655,8 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 5d032a6..e018012 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -2062,10 +2062,14 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // was truncated
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // was truncated
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 5a9083a..712170e 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -234,6 +234,8 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   pp.depth=0;
   pp.nesterr=0;
   pp.formulanr=0;
+  pp.formulaname=NULL;
+  pp.formularole=NULL;
 
   pp.jsonnull=wg_mkatom(db,mpool,WG_URITYPE,MPOOL_JSON_NULL,NULL);
   pp.jsonstruct=wg_mkatom(db,mpool,WG_URITYPE,MPOOL_STRUCT_PREFSTR,NULL);
@@ -2436,7 +2438,8 @@ void* wr_json_list_logconn(glb* g, parse_parm* pp, void* cl) {
         foundconn=el;
       } else if (!wr_json_equal_atoms(g,foundconn,el)) {
         //(g->parse_errflag)=1;
-        wr_show_jsparse_error(g,pp,"different logical connectives in list: %s %s",foundconn,el);
+        wr_show_jsparse_error(g,pp,"different logical connectives in list: %s %s",
+          wg_atomtext(db,foundconn),wg_atomtext(db,el));
         //printf("\nerr %s\n",(g->parse_errmsg));
         //json_err_printf2("different logical connectives in list containing", char* s2)
         return NULL;
@@ -3492,7 +3495,11 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1<0) tmp1=0;
+  if (tmp1>49) tmp1=49; // was truncated
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 8b01d1e..6ee03c7 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -1631,6 +1631,8 @@ void* show_clausify_error(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification hard error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   wr_free(g,malloc);
@@ -1653,6 +1655,8 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 5d032a6..e018012 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -2062,10 +2062,14 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // was truncated
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // was truncated
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 5a9083a..712170e 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -234,6 +234,8 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   pp.depth=0;
   pp.nesterr=0;
   pp.formulanr=0;
+  pp.formulaname=NULL;
+  pp.formularole=NULL;
 
   pp.jsonnull=wg_mkatom(db,mpool,WG_URITYPE,MPOOL_JSON_NULL,NULL);
   pp.jsonstruct=wg_mkatom(db,mpool,WG_URITYPE,MPOOL_STRUCT_PREFSTR,NULL);
@@ -2436,7 +2438,8 @@ void* wr_json_list_logconn(glb* g, parse_parm* pp, void* cl) {
         foundconn=el;
       } else if (!wr_json_equal_atoms(g,foundconn,el)) {
         //(g->parse_errflag)=1;
-        wr_show_jsparse_error(g,pp,"different logical connectives in list: %s %s",foundconn,el);
+        wr_show_jsparse_error(g,pp,"different logical connectives in list: %s %s",
+          wg_atomtext(db,foundconn),wg_atomtext(db,el));
         //printf("\nerr %s\n",(g->parse_errmsg));
         //json_err_printf2("different logical connectives in list containing", char* s2)
         return NULL;
@@ -3492,7 +3495,11 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1<0) tmp1=0;
+  if (tmp1>49) tmp1=49; // was truncated
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // was truncated
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
-- 
2.43.0


From 3cddbecfdf165ed6b2b09adb5e077708dad16e33 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:22:35 +0000
Subject: [PATCH 37/45] fix: terminate the file name and strategy text printed
 with a proof

File names of 80 or more characters and strategy texts of 500 or more were
printed with whatever followed them in memory; without a strategy text the
field was never set.
---
 Reasoner/rmain.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..a879e52 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -537,7 +537,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
+    } else {
+      (g->guidetext)[0]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
@@ -593,7 +596,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1064,7 +1067,7 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
     strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
   if (outfilename) (g->outfilename)=outfilename;    
-- 
2.43.0


From 913fabddfe4cf45b408129f2d4f4243f3955c1db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 38/45] fix: unnamed input clauses in TPTP proofs lacked the
 closing parenthesis

---
 Reasoner/history.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..9c37356 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1905,13 +1905,15 @@ int wr_strprint_one_history
             }  
           }  
         } else {
-          bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
+          bpos+=snprintf((*buf)+bpos,(*blen)-bpos,(g->print_proof_tptp) ? ",%s)" : ",%s",namestr);
         }  
       } 
     } else if (g->print_proof_tptp) {
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"plain, ");
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,")");
     } else if (name && wg_get_encoded_type(db,name)==WG_INTTYPE) {
       if (!(g->print_proof_tptp)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%d",(int)(wg_decode_int(db,name)));
-- 
2.43.0


From cbcfb0dfcd28ebc9209a2d68888436f93fdede04 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 39/45] fix: constants + * - / < and quoted names of them were
 printed as arithmetic functions

---
 Printer/dbotterprint.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index d8e8eb7..e0db7cd 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -757,6 +757,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   gptr recptr;
   gint  enc;
   int i, clen;
+  char* quote;
 
 #ifdef DEBUG  
   printf("print_term called with enc %d and type %d \n",(int)rec,wg_get_encoded_type(db,rec)); 
@@ -781,18 +782,19 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
       if (pos<0) return pos;
     } else {  
       if (//(g->print_clauses_tptp) && 
+          i==(g->unify_firstuseterm) &&
           wg_get_encoded_type(db,enc)==WG_URITYPE &&
+          !wg_decode_uri_prefix(db,enc) &&
           wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
+        quote=(g->print_clauses_json) ? "\"" : "";
         if (!strcmp(wg_decode_str(db,enc),"+")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$sum");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$sum%s",quote,quote);
         } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$product");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$product%s",quote,quote);
         } else if (!strcmp(wg_decode_str(db,enc),"-")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$difference");
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$difference%s",quote,quote);
         } else if (!strcmp(wg_decode_str(db,enc),"/")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");
-        } else if (!strcmp(wg_decode_str(db,enc),"<")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$less");  
+          pos+=snprintf((*buf)+pos,(*len)-pos,"%s$quotient%s",quote,quote);
         } else {
           pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
         }
-- 
2.43.0


From 1c2ac5d09868c2e3b0cbd836fe9f153260931e0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 40/45] fix: printing a name with over a hundred quote
 characters overran the buffer

---
 Printer/dbotterprint.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index e0db7cd..890af42 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -873,7 +873,8 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      // each character may need an escape
+      if (!wr_str_guarantee_space(g,buf,len,pos+2*len1+len2+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
-- 
2.43.0


From 2fcf73959e27516ffea6b8c11c71af2ffc8345d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 41/45] fix: a name and the same name in single quotes were
 different symbols

---
 Builtparser/dbparse.c | 14 ++++++++++++++
 Parser/dbparse.c      | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index e018012..932e139 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -94,6 +94,7 @@
 //static int show_parse_warning(void* db, char* format, ...);
 
 int wg_parser_should_quote(char* s);
+int wr_parser_plain_word(char* s);
 
 /* ======== Data ========================= */
 
@@ -1721,6 +1722,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (str2 && *str2=='c' && *(str2+1)=='\0' && wr_parser_plain_word(str1)) str2=NULL;
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
@@ -1842,6 +1844,18 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   return ret;
 }
 
+/* Is s a word which means the same with and without single quotes?  */
+
+int wr_parser_plain_word(char* s) {
+  if (!s) return 0;
+  if (!(*s>='a' && *s<='z') && ((unsigned char)(*s))<128) return 0;
+  for(; *s!=0; s++) {
+    if (!isalnum((unsigned char)(*s)) && ((unsigned char)(*s))<128 &&
+        !strchr("_:+-*/<>",*s)) return 0;
+  }
+  return 1;
+}
+
 int wg_parser_should_quote(char* s) {
   char* p;
   char c;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index e018012..932e139 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -94,6 +94,7 @@
 //static int show_parse_warning(void* db, char* format, ...);
 
 int wg_parser_should_quote(char* s);
+int wr_parser_plain_word(char* s);
 
 /* ======== Data ========================= */
 
@@ -1721,6 +1722,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
+        if (str2 && *str2=='c' && *(str2+1)=='\0' && wr_parser_plain_word(str1)) str2=NULL;
         if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
@@ -1842,6 +1844,18 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   return ret;
 }
 
+/* Is s a word which means the same with and without single quotes?  */
+
+int wr_parser_plain_word(char* s) {
+  if (!s) return 0;
+  if (!(*s>='a' && *s<='z') && ((unsigned char)(*s))<128) return 0;
+  for(; *s!=0; s++) {
+    if (!isalnum((unsigned char)(*s)) && ((unsigned char)(*s))<128 &&
+        !strchr("_:+-*/<>",*s)) return 0;
+  }
+  return 1;
+}
+
 int wg_parser_should_quote(char* s) {
   char* p;
   char c;
-- 
2.43.0


From af87c60cf95428dda427e60ebfa6a5f7631649b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 42/45] fix: an empty string as a function symbol crashed the
 parser

---
 Builtparser/dbparse.c | 1 +
 Parser/dbparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 932e139..d03b50c 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1544,6 +1544,7 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primiti
   
   // convert list
   if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) && 
+      wg_atomstr1(db,wg_first(db,term)) &&
       !strcmp(wg_atomstr1(db,wg_first(db,term)),"$$lst")) {     
     tmpres=wr_parse_preprocess_list(g,mpool,term);
     if (tmpres==NULL) return NULL;                
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 932e139..d03b50c 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1544,6 +1544,7 @@ void* wr_parse_term(glb* g,void* mpool,void* term, char** vardata, gint* primiti
   
   // convert list
   if (wg_ispair(db,term) && wg_isatom(db,wg_first(db,term)) && 
+      wg_atomstr1(db,wg_first(db,term)) &&
       !strcmp(wg_atomstr1(db,wg_first(db,term)),"$$lst")) {     
     tmpres=wr_parse_preprocess_list(g,mpool,term);
     if (tmpres==NULL) return NULL;                
-- 
2.43.0


From 6cccf5a9854837eae193ab43f6db4ef4a1697c65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 43/45] fix: real numbers in JSON input lost digits

---
 Db/dbmpool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 1052abb..4258047 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -728,7 +728,10 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  len1=snprintf(buf,38,"%f",num);
+  // more digits if these do not give the same number back
+  if (len1>=38 || strtod(buf,NULL)!=num) len1=snprintf(buf,38,"%.17g",num);
+  len1++;
   str1=buf;
   size=size+len1;
   size++;  
-- 
2.43.0


From 961dd33a4cbe6834744b622f34cc8ef4e10e7123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:08:32 +0000
Subject: [PATCH 44/45] fix: more answers than one: a proof without an answer
 was compared as a clause and crashed

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 9c37356..585c6ee 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2550,6 +2550,8 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
+  // a proof without an answer has no clause
+  if (cl1==NULL || cl2==NULL) return (cl1==cl2);
   // check fact clause cases first
   if (!wg_rec_is_rule_clause(db,cl1)) {
     if (!wg_rec_is_rule_clause(db,cl2)) {
-- 
2.43.0


From cdc678281c2c10b7986459f59553aa0f408ccf0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:11:12 +0000
Subject: [PATCH 45/45] fix: a quoted constant with the name of a quantified
 variable made clausification fail

---
 Builtparser/dbclausify.c | 5 ++++-
 Parser/dbclausify.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 6ee03c7..3070f2b 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -565,10 +565,13 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  // quoted names, strings and numbers are no variables: same test as in wr_clausify_replace_vars
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0;
   str=wg_atomtext(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-    if (!strcmp(str,wg_atomtext(db,boundvar))) {
+    if (wg_atomtype(db,frm)==wg_atomtype(db,boundvar) && !strcmp(str,wg_atomtext(db,boundvar))) {
       // same vars      
       return 1;
     }  
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 6ee03c7..3070f2b 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -565,10 +565,13 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  // quoted names, strings and numbers are no variables: same test as in wr_clausify_replace_vars
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0;
   str=wg_atomtext(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-    if (!strcmp(str,wg_atomtext(db,boundvar))) {
+    if (wg_atomtype(db,frm)==wg_atomtype(db,boundvar) && !strcmp(str,wg_atomtext(db,boundvar))) {
       // same vars      
       return 1;
     }  
-- 
2.43.0

