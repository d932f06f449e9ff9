static vector<u64> gparams;
enum Nat { X_BITS=1, X_RANGE, X_BYTES, X_PICK, X_CHOOSE, X_ASSUME, X_ASSERT, X_OBS, X_COVER, X_PARAM, X_FAIL, X_CONC, X_ISSYM, X_TERM, X_EXITV, X_SPAWN, X_RUNTHREADS, X_YIELD, X_END, X_TID, X_NATIVE, X_POISON, X_UNPOISON, X_FORKOK, X_FEAS, X_BUDGET, X_SPIN, X_SHARED, X_WAITANY, X_NOW,
  L_MALLOC, L_CALLOC, L_REALLOC, L_FREE, L_MEMCPY, L_MEMSET, L_EXIT, L_ABORT, L_NOP0, L_NOPM1, L_ASSERTF, L_TIME, L_CTYPEB, L_TOLOWER, L_TOUPPER, L_ERRNO, L_STRTOD, L_FMTD, L_POW, L_MATH1, L_FMOD, L_PUTS, L_GETPID, L_ONE, L_PRINTF, L_LOG10 };
struct NatE{ const char*n; int id; };
static const NatE natTab[]={ {"sym_bits",X_BITS},{"sym_feasible_",X_FEAS},{"sym_budget",X_BUDGET},{"sym_range",X_RANGE},{"sym_bytes",X_BYTES},{"sym_pick",X_PICK},{"sym_choose",X_CHOOSE},{"sym_assume",X_ASSUME},{"sym_assert_",X_ASSERT},{"sym_observe",X_OBS},{"sym_cover",X_COVER},{"sym_param",X_PARAM},{"sym_fail_",X_FAIL},{"sym_concretize",X_CONC},{"sym_is_symbolic",X_ISSYM},{"sym_must_terminate",X_TERM},{"sym_exit_is_violation",X_EXITV},{"sym_spawn",X_SPAWN},{"sym_run_threads",X_RUNTHREADS},{"sym_yield",X_YIELD},{"sym_end_path",X_END},{"sym_tid",X_TID},{"sym_native",X_NATIVE},{"sym_poison",X_POISON},{"sym_unpoison",X_UNPOISON},{"sym_spin",X_SPIN},{"sym_shared",X_SHARED},{"sym_wait",X_WAITANY},
 {"malloc",L_MALLOC},{"calloc",L_CALLOC},{"realloc",L_REALLOC},{"free",L_FREE},{"cfree",L_FREE},{"memcpy",L_MEMCPY},{"memmove",L_MEMCPY},{"memset",L_MEMSET},{"_exit",L_EXIT},{"__nat_exit",L_EXIT},{"__nat_puts",L_PUTS},{"abort",L_ABORT},{"__assert_fail",L_ASSERTF},
 {"perror",L_NOP0},{"getenv",L_NOP0},{"setvbuf",L_NOP0},{"setbuf",L_NOP0},{"prctl",L_NOP0},{"getppid",L_ONE},{"getuid",L_NOP0},{"getgid",L_NOP0},{"access",L_NOPM1},{"system",L_NOPM1},{"readlink",L_NOPM1},{"syscall",L_NOPM1},{"signal",L_NOP0},{"alarm",L_NOP0},{"sleep",L_NOP0},{"usleep",L_NOP0},{"srand",L_NOP0},{"srandom",L_NOP0},{"fork",L_NOPM1},{"wait",L_NOPM1},{"waitpid",L_NOPM1},{"shmget",L_NOPM1},{"shmat",L_NOPM1},{"shmctl",L_NOPM1},{"shmdt",L_NOPM1},{"kill",L_NOPM1},{"open",L_NOPM1},{"open64",L_NOPM1},{"close",L_NOP0},{"isatty",L_NOP0},{"getpid",L_ONE},{"getrusage",L_NOP0},{"nice",L_NOP0},{"setlocale",L_NOP0},{"nanosleep",L_NOP0},{"select",L_NOP0},{"atexit",L_NOP0},{"umask",L_NOP0},{"mlock",L_NOP0},{"madvise",L_NOP0},{"tzset",L_NOP0},
 {"clock",L_TIME},{"time",L_TIME},{"gettimeofday",L_NOP0},{"ftime",L_NOP0},{"clock_gettime",L_NOP0},
 {"__ctype_b_loc",L_CTYPEB},{"__ctype_tolower_loc",L_TOLOWER},{"__ctype_toupper_loc",L_TOUPPER},{"__errno_location",L_ERRNO},{"__nat_strtod",L_STRTOD},{"__nat_fmtd",L_FMTD},{"pow",L_POW},{"fmod",L_FMOD},{"log10",L_LOG10} };
static int findNative(const string&n){ for(auto&e:natTab) if(n==e.n) return e.id; return -1; }
static u64 ctypeTab(int k){ static u64 cache[3]; if(cache[k]) return cache[k]; u64 p=gmalloc(8); if(k==0){ u64 t=gmalloc(384*2); const unsigned short*src=*__ctype_b_loc(); memcpy((void*)t,src-128,384*2); *(u64*)p=t+256; } else { u64 t=gmalloc(384*4); const int*src= k==1?*__ctype_tolower_loc():*__ctype_toupper_loc(); memcpy((void*)t,src-128,384*4); *(u64*)p=t+512; } return cache[k]=p; }
static u64 shLo[4],shLen[4]; static int nShared=0; static inline bool isShared(const Val&p){ if(nShared&&!p.e) for(int i=0;i<nShared;i++) if((u64)cval(p)-shLo[i]<shLen[i]) return true; return false; }
static bool schedPoint(); static void pickNext(bool); static bool atPoint=false; static void threadDone(); static void spinWait(); static int chooseN(int n,const char*nm); static void pushFrame(Thread*t,Func*f,const Val*args,int na,int retd); static void endOfPath(); static void doReturn(Thread*t,const Val*rv,int n);
static void runThreads();
static Val callNative(Thread*t,int id,const Val*a,int na,CallX*cx){
  auto C=[&](int i)->u64{ return isConc(a[i])?(u64)cval(a[i]):concretize(a[i].e); }; auto I=[](u64 v){ return Val{v,nullptr}; };
  switch(id){
    case X_BITS: { string n=gstr(C(0)); int w=(int)C(1); Expr*s=newSym(n.c_str(),w); return fromE(mkZext(s,64)); }
    case X_RANGE: { string n=gstr(C(0)); i64 lo=(i64)C(1),hi=(i64)C(2); u64 span=(u64)hi-(u64)lo; int w=1; while(w<64&&(span>>w)) w++; Expr*s=newSym(n.c_str(),w); if(span!=mask64(w)) assume(mk2(ULE,s,mkConst(w,span)));
       Expr*z=mkZext(s,64); if(w<64&&span!=mask64(w)){ // keep the interval on the node: min(s,span) is s under the assumption
       } return fromE(mk2(ADD,z,mkConst(64,(u64)lo))); }
    case X_BYTES: { string n=gstr(C(0)); u64 p=C(1),l=C(2); for(u64 i=0;i<l;i++){ Expr*s=newSym((n+"["+std::to_string(i)+"]").c_str(),8); storeC(p+i,8,Val{0,s}); } return I(0); }
    case X_PICK: { string n=gstr(C(0)); u64 p=C(1); int k=(int)C(2); int w=1; while((1<<w)<k) w++; Expr*s=newSym(n.c_str(),w); if(k<(1<<w)) assume(mk2(ULT,s,mkConst(w,k))); Expr*r=toE(loadC(p+8*(k-1),64),64); for(int i=k-2;i>=0;i--) r=mkIte(mk2(EQ,s,mkConst(w,i)),toE(loadC(p+8*i,64),64),r); return fromE(r); }
    case X_FEAS: { bool r= isConc(a[0])? (cval(a[0])&0xffffffff)!=0 : feasible(mkNot(mk2(EQ,a[0].e,mkConst(a[0].e->w,0)))); Expr*s=newSym("feasible",1); addC(mk2(EQ,s,mkConst(1,r))); for(auto&m:models){ m.resize(std::max(m.size(),syms.size())); m[syms.size()-1]=r; } return I(r); }
    case X_BUDGET: { instrBudgetViolation=2; maxInstr=pathInstr+C(0); return I(0); }
    case X_CHOOSE: { string n=gstr(C(0)); return I(chooseN((int)C(1),n.c_str())); }
    case X_ASSUME: { if(!a[0].e){ if(!(a[0].c&0xffffffff)){ sh->pruned++; finish(3);} return I(0);} assume(mkNot(mk2(EQ,a[0].e,mkConst(a[0].e->w,0)))); return I(0); }
    case X_ASSERT: { sh->asserts++; if(isConc(a[0])){ if(!(cval(a[0])&0xffffffff)) violation("assertion: "+gstr(C(1))); return I(0);} sh->assertsSym++; Expr*bad=mk2(EQ,a[0].e,mkConst(a[0].e->w,0));
        int kf=knownFact(bad); if(kf==0) return I(0);
        Model*bm=nullptr; for(auto&m:models){ newEval(); if(evalE(bad,m)){ bm=&m; break; } } Model m2; if(!bm&&kf!=1&&query(bad,m2)==1) bm=&m2; 
        if(bm||kf==1){ Model mm= bm?*bm:curModel(); report("viol","assertion: "+gstr(C(1)),"symbolic",mm); if(kf==1||!feasible(mkNot(bad))) finish(2); }
        assume(mkNot(bad)); return I(0); }
    case X_OBS: { obsv.push_back({a[0],64}); sh->obs++; return I(0); }
    case X_COVER: { sh->covers|=1ull<<(C(0)&63); return I(0); }
    case X_PARAM: { u64 i=C(0); return I(i<gparams.size()?gparams[i]:C(1)); }
    case X_FAIL: violation("assertion: "+gstr(C(0)));
    case X_CONC: return I(C(0));
    case X_ISSYM: return I(!isConc(a[0]));
    case X_TERM: instrBudgetViolation=1; maxInstr=pathInstr+C(0); return I(0);
    case X_EXITV: exitViol=C(0); return I(0);
    case X_END: endOfPath(); finish(0);
    case X_TID: return I(cur);
    case X_NATIVE: return I(0);
    case X_POISON: { setInvalid(C(0),C(1)); return I(0); }
    case X_UNPOISON: { setValid(C(0),C(1)); return I(0); }
    case X_SPAWN: { Func*f=fnByAddr[C(0)]; if(!f) engineError("sym_spawn"); Thread*n=new Thread(); int k=threads.size(); n->top=0; n->sp=stackHi-4096-(64ull<<20)*k; n->spLo=n->sp-(60ull<<20); n->done=n->waiting=false; n->waitStamp=0; n->loadStamp=0; n->switches=0; threads.push_back(n); Val arg=a[1]; pushFrame(n,f,&arg,1,-1); return I(k); }
    case X_RUNTHREADS: { t->fr.back().pc++; ctxLeft=(int)C(0); runThreads(); return I(0); }
    case X_YIELD: { if(!concurrent) return I(0); t->fr.back().pc++; schedPoint(); return I(0); }
    case X_SHARED: if(nShared<4){ shLo[nShared]=C(0); shLen[nShared++]=C(1); } return I(0);
    case X_WAITANY: { if(!concurrent) return I(0); t->fr.back().pc++; atPoint=false; pickNext(false); if(concurrent) atPoint=true; return I(0); }
    case X_SPIN: { if(!concurrent) return I(0); t->fr.back().pc++; spinWait(); return I(0); }
    case L_MALLOC: { u64 n=C(0); u64 p=gmalloc(n); return I(p); }
    case L_CALLOC: { u64 n=C(0)*C(1); u64 p=gmalloc(n); return I(p); }
    case L_REALLOC: { u64 p=C(0),n=C(1); if(!p) return I(gmalloc(n)); Obj*o=findObj(p); if(!o||o->a!=p||o->freed) violation("realloc of an invalid pointer in "+fnLoc()); u64 on=o->n; u64 q=gmalloc(n); if(!q) return I(0); gmemcpy(q,p,std::min(n,on)); o=findObj(p); o->freed=true; setInvalid(p,on); return I(q); }
    case L_FREE: { u64 p=C(0); if(!p) return I(0); Obj*o=findObj(p); if(!o||o->a!=p) violation("free of an invalid pointer in "+fnLoc()); if(o->freed) violation("double free in "+fnLoc()); o->freed=true; setInvalid(p,o->n); if(o->n>=(1<<20)){ clearSym(p,o->n); madvise((void*)((p+4095)&~4095ull),(o->n-4096)&~4095ull,MADV_DONTNEED);} return I(0); }
    case L_MEMCPY: { u64 d=C(0); gmemcpy(d,C(1),C(2)); return I(d); }
    case L_MEMSET: { u64 d=C(0); Val v=a[1]; if(v.e) v=fromE(mkExtract(v.e,0,8)); gmemset(d,v,C(2)); return I(d); }
    case L_EXIT: { sh->exits++; if(exitViol) violation("process exit called in "+fnLoc()); endOfPath(); finish(0); }
    case L_ABORT: violation("abort() called in "+fnLoc());
    case L_ASSERTF: violation("assert failed: "+gstr(C(0)));
    case L_NOP0: return I(0); case L_NOPM1: return I(~0ull); case L_ONE: return I(1);
    case L_PRINTF: case L_PUTS: { static int on=getenv("SYMX_PRINT")?1:0; if(na>1&&on){ u64 p=C(0),n=C(1); string o; for(u64 k=0;k<n;k++){ Val v=loadC(p+k,8); o+= isConc(v)?(char)cval(v):'?'; } fwrite(o.data(),1,o.size(),stdout); fflush(stdout); } return I(on); }
    case L_TIME: if(na>0&&cx->w[0]==64&&isConc(a[0])&&cval(a[0])) storeC((u64)cval(a[0]),64,I(1700000000)); return I(na>0?1700000000:1000);
    case L_CTYPEB: return I(ctypeTab(0)); case L_TOLOWER: return I(ctypeTab(1)); case L_TOUPPER: return I(ctypeTab(2));
    case L_ERRNO: { static u64 e; if(!e) e=gmalloc(8); return I(e); }
    case L_STRTOD: { string s=gstr(C(0)); char*e; double d=strtod(s.c_str(),&e); u64 ep=C(1); if(ep) storeC(ep,64,I(C(0)+(e-s.c_str()))); return I((u64)db(d)); }
    case L_FMTD: { u64 p=C(0); u64 n=C(1); string f=gstr(C(2)); double d=bd(C(3)); vector<char> b(n+1); int r=snprintf(b.data(),n,f.c_str(),d); for(u64 i=0;i<n&&i<=(u64)r;i++) storeC(p+i,8,I((u8)b[i])); return I((u64)(u32)r); }
    case L_POW: return I((u64)db(pow(bd(C(0)),bd(C(1))))); case L_FMOD: return fromE(mkFp2(FREM,64,toE(a[0],64),toE(a[1],64)));
    case L_LOG10: return I((u64)db(log10(bd(C(0)))));
  }
  engineError("native "+std::to_string(id));
}
// ---------------------------------------------------------------- guest threads
static int lastRun=-1;
static void pickNext(bool mayStay){ // choose the next thread among runnable ones
  vector<int> r; for(size_t i=1;i<threads.size();i++){ Thread*t=threads[i]; if(t->done) continue; if(t->waiting&&t->waitStamp==writeStamp) continue; r.push_back(i); }
  if(r.empty()){ bool all=true; for(size_t i=1;i<threads.size();i++) if(!threads[i]->done) all=false; if(all){ concurrent=false; cur=0; return; } violation("deadlock: every unfinished thread waits for another"); }
  int k=0; bool curRunnable=false; for(int x:r) if(x==cur) curRunnable=true;
  if(curRunnable&&mayStay&&ctxLeft<=0) return; // context bound used up: no preemption
  k=chooseN(r.size(),"sched"); if(curRunnable&&mayStay&&r[k]!=cur) ctxLeft--; cur=r[k]; threads[cur]->waiting=false;
}
static bool schedPoint(){ // before a shared access; returns true when the current thread changed (instruction will be re-executed)
  if(atPoint){ atPoint=false; return false; }
  int c=cur; pickNext(true); atPoint=true; 
  if(cur==c){ atPoint=false; return false; }
  threads[cur]->switches++; return true; }
static void threadDone(){ atPoint=false; pickNext(false); if(concurrent) atPoint=true; }
static void spinWait(){ Thread*t=threads[cur]; t->waiting=true; t->waitStamp=t->loadStamp; atPoint=false; pickNext(false); if(concurrent) atPoint=true; }
static void runThreads(){ concurrent=true; writeStamp=1; pickNext(false); atPoint=true; }
