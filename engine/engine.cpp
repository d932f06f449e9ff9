#include <sys/time.h>
#include <signal.h>
// Fork-based symbolic executor for LLVM bitcode (see DESIGN.md).
#include "solver.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/DebugInfo.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <ctype.h>
#include <math.h>
#include <atomic>
#include <set>
using std::string; using std::vector;

// ------------------------------------------------------------------ shared state
static const int MAXFN=8192;
struct Shared {
  sem_t tokens; std::atomic<u64> paths, pruned, forks, queries, qsat, qunsat, qcached, instrs, asserts, assertsSym, errors, viols, exits, samples, symInstr, live, maxdepth, obs;
  std::atomic<u64> solverUs, budget; std::atomic<int> stop; std::atomic<u64> covers; 
  std::atomic<u64> violKeys[64]; std::atomic<int> violFirst; std::atomic<u64> errKeys[64];
  std::atomic<u8> fnExec[MAXFN], fnSym[MAXFN];
};
static Shared* sh;
static string outDir="."; static u64 maxInstr=400000000ull; static int jobs=8; static bool dbg=false; static int maxSamples=16; static double tStart; static double timeLimit=800; static double afterViol=60; static bool traceCalls=false;
static u64 rlimitQ=0; static bool memcheck=true; static u64 maxPaths=0;

// ------------------------------------------------------------------ guest memory
static const u64 BASE=0x100000000000ull; static const u64 ARENA=96ull<<30;
static const u64 SHB=0x180000000000ull; // addressability shadow
static u8* const valid=(u8*)SHB;
struct SymPage { Expr* e[4096]; u8 ix[4096]; int n; };
static SymPage** spage; 
static u64 heapTop, stackLo, stackHi;
static inline bool inArena(u64 a,u64 n){ return a>=BASE && a+n<=BASE+ARENA && a+n>=a; }
struct Big{ u64 a,n; }; static vector<Big> bigs; // huge objects are not tracked in the shadow
static const u64 BIGSZ=24ull<<20;
static bool bigOK(u64 a,u64 n){ for(size_t i=0;i<bigs.size();i++) if(a>=bigs[i].a&&a+n<=bigs[i].a+bigs[i].n){ if(i) std::swap(bigs[i],bigs[i/2]); return true; } return false; }
static inline bool addrOK(u64 a,unsigned n){ // n<=16
  if(!inArena(a,n)) return false; if(__builtin_expect(!valid[(a-BASE)>>3],0)) return bigOK(a,n); u64 g=(a-BASE)>>3; unsigned o=a&7;
  while(n){ unsigned m=std::min(n,8-o); if(o+m>valid[g]) return false; n-=m; o=0; g++; } return true; }
static bool rangeOK(u64 a,u64 n){ if(n==0) return true; if(!inArena(a,n)) return false; if(!valid[(a-BASE)>>3]) return bigOK(a,n);
  u64 g=(a-BASE)>>3; unsigned o=a&7; while(n){ u64 m=std::min<u64>(n,8-o); if(o+m>valid[g]) return false; n-=m; o=0; g++; } return true; }
static void setValid(u64 a,u64 n){ if(n>=BIGSZ){ bigs.push_back({a,n}); return; } u64 g=(a-BASE)>>3; memset(valid+g,8,n>>3); if(n&7) valid[g+(n>>3)]=n&7; }
static void setInvalid(u64 a,u64 n){ if(n>=BIGSZ) for(size_t i=0;i<bigs.size();i++) if(bigs[i].a==a){ bigs.erase(bigs.begin()+i); return; } u64 g=(a-BASE)>>3; memset(valid+g,0,(n+7)>>3); }
static bool anySymPage=false;
static inline void clearSym(u64 a,u64 n){ if(!anySymPage) return; while(n){ u64 p=(a-BASE)>>12; u64 o=a&4095; u64 m=std::min<u64>(n,4096-o); SymPage*s=spage[p];
    if(s){ if(m==4096){ free(s); spage[p]=0; } else for(u64 i=0;i<m;i++) if(s->e[o+i]){ s->e[o+i]=0; if(--s->n==0){ free(s); spage[p]=0; break; } } } a+=m; n-=m; } }
struct Obj{ u64 a,n; bool freed; }; static vector<Obj> objs;
static u64 gmalloc(u64 n,u64 align=16){ u64 a=(heapTop+32+align-1)&~(align-1); if(n>ARENA/2||a+n+32>stackLo) return 0; setValid(a,n); heapTop=a+n; objs.push_back({a,n,false}); return a; }
static Obj* findObj(u64 a){ auto it=std::upper_bound(objs.begin(),objs.end(),a,[](u64 x,const Obj&o){return x<o.a;}); if(it==objs.begin()) return nullptr; --it; if(a<it->a+std::max<u64>(it->n,1)) return &*it; return nullptr; }

// ------------------------------------------------------------------ code
struct Val { u64 c; Expr* e; };
enum IOp : u16 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_RETV, I_CALL, I_SELECT, I_COPY, I_UNREACH, I_ATOMRMW, I_CMPXCHG, I_INTRIN, I_ERR, I_NOP, I_ASM,I_FSETCMP };
struct Edge { int target; vector<std::pair<int,int>> copies; };
struct GepX { vector<std::pair<int,u64>> idx; vector<int> w; };
struct SwitchX { vector<u64> vals; vector<int> edge; vector<Edge> edges; };
struct Func;
struct CallX { Func* f; vector<int> args; vector<u8> w; int native; int retw; string name; int n; };
struct Insn { u16 op; u8 w, w2; u8 sub; u8 flg; int d,a,b,c; u64 k; void* x; u32 line; };
struct Func { string name; int id; int nargs; bool vararg; int nregs; vector<Insn> code; vector<Val> consts; vector<u8> constw; vector<int> bbStart; vector<Edge*> edges; bool defined; vector<string> files; string file; u64 addr; int natid; };
static vector<Func*> funcs; static std::unordered_map<string,Func*> fnByName;
static std::unordered_map<u64,Func*> fnByAddr;

// ------------------------------------------------------------------ path state
static vector<Expr*> pcs; static std::unordered_map<Expr*,bool> facts; static vector<Model> models; // models[0] always satisfies pcs
struct SymInfo{ string name; int w; }; static vector<SymInfo> syms;
struct ObsRec{ Val v; int w; }; static vector<ObsRec> obsv;
static u64 pathInstr=0; static u64 depth=0; static vector<pid_t> kids; static bool conc=true; static u64 instrBudgetViolation=0; static bool exitViol=false;
struct Frame { Func* f; int pc; size_t base; u64 sp; int retd; u64 va; };
struct Thread { vector<Frame> fr; vector<Val> regs; size_t top; u64 sp, spLo; bool done; bool waiting; u64 waitStamp, loadStamp; u64 switches; };
static vector<Thread*> threads; static int cur=0; static bool concurrent=false; static u64 writeStamp=0; static int ctxLeft=0;

[[noreturn]] static void finish(int code);
static string where(){
  string s; Thread*t=threads.empty()?nullptr:threads[cur]; if(!t) return "?"; int n=0;
  for(int i=(int)t->fr.size()-1;i>=0&&n<14;i--,n++){ Frame&f=t->fr[i]; char b[64]; int pc=f.pc; if(pc>=(int)f.f->code.size()) pc=f.f->code.size()-1; snprintf(b,64,":%u",f.f->code.empty()?0:f.f->code[pc].line&0xffffff); string file; if(!f.f->code.empty()){ u32 fi=f.f->code[pc].line>>24; file= fi<f.f->files.size()?f.f->files[fi]:f.f->file; } s+=(n?" < ":"")+f.f->name+"("+file+b+")"; }
  return s; }
static string jesc(const string&s){ string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static void writeInputs(FILE*f,const Model&m){ for(size_t i=0;i<syms.size();i++){ U v=i<m.size()?m[i]:0; v&=maskW(syms[i].w); fprintf(f,"%s %d %llu\n",syms[i].name.c_str(),syms[i].w,(unsigned long long)(u64)v); } }
static u64 strHash(const string&s){ u64 h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h?h:1; }
static bool firstOf(std::atomic<u64>*keys,u64 h){ for(int i=0;i<64;i++){ u64 z=0; if(keys[i].compare_exchange_strong(z,h)) return true; if(z==h) return false; } return false; }
static void report(const char*kind,const string&key,const string&msg,const Model&m){
  bool viol=!strcmp(kind,"viol"); (viol?sh->viols:sh->errors)++;
  if(viol){ int z=0; sh->violFirst.compare_exchange_strong(z,(int)(nowS()-tStart)+1); }
  if(!firstOf(viol?sh->violKeys:sh->errKeys,strHash(key))) return;
  char p[600]; snprintf(p,600,"%s/%s_%d_%llx",outDir.c_str(),kind,getpid(),(unsigned long long)strHash(key)); 
  FILE*f=fopen((string(p)+".in").c_str(),"w"); if(f){ writeInputs(f,m); fclose(f);} 
  f=fopen((string(p)+".txt").c_str(),"w"); if(f){ fprintf(f,"%s\n%s\n%s\n",key.c_str(),msg.c_str(),where().c_str()); fclose(f);} 
  if(dbg) fprintf(stderr,"[%s] %s | %s\n   %s\n",kind,key.c_str(),msg.c_str(),where().c_str());
}
static Model& curModel(){ if(models.empty()) models.push_back(Model()); return models[0]; }
[[noreturn]] static void engineError(const string&msg){ report("err",msg,msg,curModel()); finish(1); }
[[noreturn]] static void violation(const string&key,const string&msg=""){ report("viol",key,msg,curModel()); finish(2); }
static string fnLoc(){ Thread*t=threads[cur]; return t->fr.empty()?"?":t->fr.back().f->name; }

static void waitPid(pid_t p){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ sh->errors++; if(firstOf(sh->errKeys,12345)){ FILE*f=fopen((outDir+"/err_crash.txt").c_str(),"a"); if(f){ fprintf(f,"worker died: status %x\n",st); fclose(f);} } if(conc){ /* token of a dead worker */ } } }
static bool profOn=false; static void profDump();
[[noreturn]] static void finish(int code){
  if(profOn) profDump();
  sh->paths+= code!=3; sh->instrs+=pathInstr; 
  u64 d=sh->maxdepth; while(depth>d&&!sh->maxdepth.compare_exchange_weak(d,depth));
  if(conc) sem_post(&sh->tokens);
  for(pid_t k:kids) waitPid(k);
  _exit(0);
}
// fork; returns true in the child
static bool forkPath(){
  if(sh->stop){ finish(3); }
  if(nowS()-tStart>timeLimit){ if(!sh->stop.exchange(1)) report("err","time limit","exploration stopped by the time limit",curModel()); finish(3); }
  int vf=sh->violFirst; if(vf&&nowS()-tStart>vf+afterViol){ sh->stop=2; finish(3); }
  bool gotToken= sem_trywait(&sh->tokens)==0;
  fflush(stdout); fflush(stderr);
  u64 pi=pathInstr; 
  pid_t p=fork(); if(p<0){ if(gotToken) sem_post(&sh->tokens); engineError("fork failed"); }
  sh->forks+= p==0;
  if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear(); conc=gotToken; pathInstr=0; (void)pi; depth++; return true; }
  depth++;
  if(gotToken) kids.push_back(p); else waitPid(p);
  if(kids.size()>64){ vector<pid_t> k2; for(pid_t k:kids){ int st; pid_t r=waitpid(k,&st,WNOHANG); if(r==0) k2.push_back(k); else if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) sh->errors++; } kids.swap(k2); }
  return false;
}

// ------------------------------------------------------------------ constraints
static void addFact(Expr*c,bool v){ facts[c]=v; if(c->w==1&&c->op==XOR&&isC(c->b)) addFact(c->a,!v); if(v&&c->op==AND&&c->w==1){ addFact(c->a,true); addFact(c->b,true);} if(!v&&c->op==OR&&c->w==1){ addFact(c->a,false); addFact(c->b,false);} 
  if(c->op==ULT||c->op==ULE||c->op==SLT||c->op==SLE){ Expr*n=mkNot(c); facts[n]=!v; } }
static void addC(Expr*c){ if(isC(c)) return; if(c->w==1&&c->op==AND){ addC(c->a); addC(c->b); return; } if(facts.count(c)&&facts[c]) return; pcs.push_back(c); addFact(c,true); }
static int knownFact(Expr*c,int d=0){ auto it=facts.find(c); if(it!=facts.end()) return it->second; 
  if(d<6&&c->w==1){ if(c->op==XOR&&isC(c->b)){ int r=knownFact(c->a,d+1); return r<0?-1:!r; }
    if(c->op==AND){ int x=knownFact(c->a,d+1); if(x==0) return 0; int y=knownFact(c->b,d+1); if(y==0) return 0; if(x==1&&y==1) return 1; }
    if(c->op==OR){ int x=knownFact(c->a,d+1); if(x==1) return 1; int y=knownFact(c->b,d+1); if(y==1) return 1; if(x==0&&y==0) return 0; } }
  return -1; }
static void filterModels(Expr*c){ vector<Model> k; for(auto&m:models){ newEval(); if(evalE(c,m)) k.push_back(std::move(m)); } models.swap(k); }
// is pcs && extra satisfiable?  on sat, out = full model of pcs && extra
static int query(Expr*extra,Model&out){
  if(isC(extra)) { if(!extra->k) return 0; out=curModel(); return 1; }
  SymSet s=extra->ss; vector<Expr*> cs; cs.push_back(extra); vector<char> used(pcs.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<pcs.size();i++) if(!used[i]){ bool hit=false; for(int j=0;j<6;j++) hit|=(s.w[j]&pcs[i]->ss.w[j])!=0; if(hit){ used[i]=1; ch=true; for(int j=0;j<6;j++) s.w[j]|=pcs[i]->ss.w[j]; } } }
  for(size_t i=0;i<pcs.size();i++) if(used[i]) cs.push_back(pcs[i]);
  vector<std::pair<u32,int>> sy; for(u32 i=0;i<syms.size();i++) if(s.w[i>>6]>>(i&63)&1) sy.push_back({i,syms[i].w});
  out=curModel(); double t=nowS(); int r=z3solve(cs,sy,out); double dt=nowS()-t; sh->solverUs+=(u64)(dt*1e6); sh->queries++; if(r==1) sh->qsat++; else if(r==0) sh->qunsat++;
  if(dbg&&dt>2) fprintf(stderr,"[slow query %.1fs r=%d n=%zu] %s\n",dt,r,cs.size(),where().c_str());
  if(r==1){ newEval(); for(Expr*c:cs) if(!evalE(c,out)){ // model/evaluator disagreement (e.g. NaN payloads): treat as engine error
      engineError("solver model does not satisfy the constraint under concrete evaluation: "+exprStr(c,5)); } }
  if(r<0) engineError("solver returned unknown");
  return r;
}
static void pushModel(Model&&m,bool front){ if(models.size()>=24) models.erase(models.begin()+1); // never the new one: it may be the only witness of its side
  if(front) models.insert(models.begin(),std::move(m)); else models.push_back(std::move(m)); }
// decide a symbolic condition; may fork. returns the side taken by this process.
static bool branch(Expr*c){
  if(isC(c)) return c->k!=0; int kf=knownFact(c); if(kf>=0) return kf;
  bool ht=false,hf=false; if(models.empty()) models.push_back(Model());
  for(auto&m:models){ newEval(); if(evalE(c,m)) ht=true; else hf=true; if(ht&&hf) break; }
  if(ht&&hf) sh->qcached++;
  else if(ht){ Model m; if(query(mkNot(c),m)==1){ hf=true; pushModel(std::move(m),false);} }
  else { Model m; if(query(c,m)==1){ ht=true; pushModel(std::move(m),false);} }
  if(ht&&hf){ bool child=forkPath(); bool side= child; Expr*k= side? c:mkNot(c); addC(k); filterModels(k); return side; }
  addFact(c,ht); return ht;
}
static bool feasible(Expr*c){ if(isC(c)) return c->k; int kf=knownFact(c); if(kf>=0) return kf; for(auto&m:models){ newEval(); if(evalE(c,m)) return true; } Model m; if(query(c,m)==1){ pushModel(std::move(m),false); return true;} return false; }
static void assume(Expr*c){ if(isC(c)){ if(!c->k){ sh->pruned++; finish(3);} return; } if(!feasible(c)){ sh->pruned++; finish(3);} addC(c); filterModels(c); }
static u64 concretize(Expr*e){ if(isC(e)) return (u64)e->k; int guard=0; for(;;){ newEval(); U v=evalE(e,curModel()); Expr*k=mkConst(e->w,v); if(branch(mk2(EQ,e,k))) return (u64)v; if(++guard>5000) engineError("too many values when concretising"); } }
static Expr* newSym(const char*name,int w){ if(syms.size()>=MAXSYM) engineError("too many symbolic variables"); syms.push_back({name,w}); return mkSymId(w,syms.size()-1); }

static inline Expr* toE(const Val&v,int w){ return v.e? v.e : mkConst(w,v.c); }
static inline Val fromE(Expr*e){ if(isC(e)&&e->w<=64) return Val{(u64)e->k,nullptr}; return Val{0,e}; }
static inline U cval(const Val&v){ return v.e? v.e->k : (U)v.c; }
static inline bool isConc(const Val&v){ return !v.e||isC(v.e); }

// ------------------------------------------------------------------ memory access
static void memErr(const char*what,u64 a,unsigned n){ char b[200]; Obj*o=nullptr; if(inArena(a,1)) o=findObj(a); snprintf(b,200,"address 0x%llx size %u %s",(unsigned long long)a,n, a<4096?"(null pointer)": o&&o->freed?"(freed memory)":"(out of bounds)"); violation(string("memory error: ")+what+(a<4096?" through null pointer":o&&o->freed?" of freed memory":" out of bounds")+" in "+fnLoc(),b); }
static inline Val loadC(u64 a,int w){ // concrete address, w bits
  unsigned n=(w+7)>>3; if(__builtin_expect(!addrOK(a,n),0)) memErr("read",a,n);
  u64 p=(a-BASE)>>12, p2=(a+n-1-BASE)>>12;
  if(__builtin_expect(!spage[p]&&!spage[p2],1)){
    if(w<=64){ u64 v=0; memcpy(&v,(void*)a,n); if(w&7) v&=mask64(w); return Val{v,nullptr}; }
    U v=0; memcpy(&v,(void*)a,n); return Val{0,mkConst(w,v)}; }
  Expr* be[16]; u8 bi[16]; bool any=false; for(unsigned i=0;i<n;i++){ u64 x=a+i-BASE; SymPage*s=spage[x>>12]; be[i]= s? s->e[x&4095]:nullptr; bi[i]= s? s->ix[x&4095]:0; any|=be[i]!=nullptr; }
  if(!any){ if(w<=64){ u64 v=0; memcpy(&v,(void*)a,n); if(w&7) v&=mask64(w); return Val{v,nullptr}; } U v=0; memcpy(&v,(void*)a,n); return Val{0,mkConst(w,v)}; }
  Expr*r=nullptr; unsigned i=0; // little endian groups
  while(i<n){ Expr*piece; unsigned j=i; if(be[i]){ while(j<n&&be[j]==be[i]&&bi[j]==bi[i]+(j-i)) j++; piece=mkExtract(be[i],bi[i]*8,(j-i)*8); } else { while(j<n&&!be[j]) j++; U v=0; memcpy(&v,(void*)(a+i),j-i); piece=mkConst((j-i)*8,v);} r= r? mkConcat(piece,r):piece; i=j; }
  if(r->w!=w) r=mkExtract(r,0,w); return fromE(r);
}
static inline void storeC(u64 a,int w,const Val&v){
  unsigned n=(w+7)>>3; if(__builtin_expect(!addrOK(a,n),0)) memErr("write",a,n);
  if(__builtin_expect(!v.e,1)){ u64 p=(a-BASE)>>12,p2=(a+n-1-BASE)>>12; if(spage[p]||spage[p2]) clearSym(a,n); memcpy((void*)a,&v.c,n); return; }
  Expr*e=v.e; if(w&7) e=mkZext(e,n*8); if(isC(e)){ U k=e->k; clearSym(a,n); memcpy((void*)a,&k,n); return; }
  for(unsigned i=0;i<n;i++){ u64 x=a+i-BASE; SymPage*&s=spage[x>>12]; if(!s){ s=(SymPage*)calloc(1,sizeof(SymPage)); anySymPage=true; } if(!s->e[x&4095]) s->n++; s->e[x&4095]=e; s->ix[x&4095]=i; }
}
// resolve a symbolic address to reads
static Val loadTree(Expr*t,int w,Expr*ctx){ if(t->op==ITE){ int kf=knownFact(t->a); if(kf==1) return loadTree(t->b,w,ctx); if(kf==0) return loadTree(t->c,w,ctx);
    // only walk feasible sides
    Expr*ca=ctx?mk2(AND,ctx,t->a):t->a, *cb=ctx?mk2(AND,ctx,mkNot(t->a)):mkNot(t->a);
    if(!feasible(ca)) return loadTree(t->c,w,ctx); if(!feasible(cb)) return loadTree(t->b,w,ctx);
    Val x=loadTree(t->b,w,ca),y=loadTree(t->c,w,cb); return fromE(mkIte(t->a,toE(x,w),toE(y,w))); }
  u64 a=(u64)t->k; unsigned n=(w+7)>>3; if(!addrOK(a,n)){ if(ctx) { if(branch(ctx)) memErr("read",a,n); return Val{0,nullptr}; } memErr("read",a,n);} return loadC(a,w); }
static void boundsOf(Expr*e,u64&lo,u64&hi){ // tight unsigned bounds under the path condition
  lo=e->lo; hi=e->hi; if(hi-lo<=2048) return;
  newEval(); u64 v=(u64)evalE(e,curModel()); u64 l=lo,h=v; // min in [l,h]
  u64 step=256; // galloping down from v
  { u64 known=v; u64 st=step; while(known>lo){ u64 probe= known-lo<st? lo: known-st; Model m; if(feasible(mk2(ULT,e,mkConst(e->w,probe+ (probe==lo?0:0))))){ // something below probe
        newEval(); u64 nv=known; for(auto&mm:models){ newEval(); nv=std::min(nv,(u64)evalE(e,mm)); } if(nv>=known) nv=probe? probe-1:0; known=nv; st*=4; } else { l=probe; h=known; break; } if(known==lo){l=h=lo;} }
    while(l<h){ u64 mid=l+(h-l)/2; if(feasible(mk2(ULE,e,mkConst(e->w,mid)))) h=mid; else l=mid+1; } lo=l; }
  { u64 known=v; u64 st=step; u64 L=v,H=hi; while(known<hi){ u64 probe= hi-known<st? hi: known+st; if(feasible(mk2(ULT,mkConst(e->w,probe),e))){ u64 nv=known; for(auto&mm:models){ newEval(); nv=std::max(nv,(u64)evalE(e,mm)); } if(nv<=known) nv=probe+1; known=nv; st*=4; } else { L=known; H=probe; break; } if(known==hi){L=H=hi;} }
    while(L<H){ u64 mid=L+(H-L+1)/2; if(feasible(mk2(ULE,mkConst(e->w,mid),e))) L=mid; else H=mid-1; } hi=L; }
}
static Val loadSym(Expr*ae,int w){
  if(ae->leaves&&ae->leaves<=4096) return loadTree(ae,w,nullptr);
  u64 lo,hi; boundsOf(ae,lo,hi);
  if(lo==hi){ addC(mk2(EQ,ae,mkConst(64,lo))); return loadC(lo,w); }
  u64 kn=ae->kz|ae->ko; int t= kn==~0ull?63:__builtin_ctzll(~kn); if(t>12) t=12; u64 stride=1ull<<t; unsigned n=(w+7)>>3;
  u64 first=lo; { u64 low=ae->ko&(stride-1); first=(lo&~(stride-1))|low; if(first<lo) first+=stride; }
  u64 cnt=(hi-first)/stride+1;
  if(cnt>70000) { // fall back to enumerating values
    u64 a=concretize(ae); return loadC(a,w); }
  // out-of-bounds part
  Expr*bad=nullptr; vector<std::pair<u64,Val>> runs; // value from this address on
  for(u64 a=first;a<=hi&&a>=first;a+=stride){
    if(!addrOK(a,n)){ Expr*c=mk2(EQ,ae,mkConst(64,a)); bad= bad? mk2(OR,bad,c):c; // group
      u64 b=a; while(b+stride<=hi&&!addrOK(b+stride,n)) b+=stride; if(b>a){ Expr*r=mk2(AND,mk2(ULE,mkConst(64,a),ae),mk2(ULE,ae,mkConst(64,b))); bad= bad==c? r: mk2(OR,bad,r);} a=b; if(!runs.empty()||1) continue; }
    Val v=loadC(a,w); if(runs.empty()||runs.back().second.c!=v.c||runs.back().second.e!=v.e) runs.push_back({a,v}); }
  if(bad&&branch(bad)){ newEval(); memErr("read",(u64)evalE(ae,curModel()),n); }
  if(runs.empty()) engineError("symbolic load: no readable address");
  if(runs.size()>3000){ u64 a=concretize(ae); return loadC(a,w); }
  std::function<Expr*(int,int)> build=[&](int l,int h)->Expr*{ if(l==h) return toE(runs[l].second,w); int m=(l+h+1)/2; return mkIte(mk2(ULT,ae,mkConst(64,runs[m].first)),build(l,m-1),build(m,h)); };
  return fromE(build(0,runs.size()-1));
}
static u64 concAddr(const Val&v){ if(isConc(v)) return (u64)cval(v); return concretize(v.e); }
static Val doLoad(const Val&p,int w){ if(!p.e) return loadC(p.c,w); if(isC(p.e)) return loadC((u64)p.e->k,w); return loadSym(p.e,w); }
static void doStore(const Val&p,int w,const Val&v){ u64 a= p.e? concAddr(p):p.c; storeC(a,w,v); }
static void gmemcpy(u64 d,u64 s,u64 n){ if(n==0) return; if(!rangeOK(s,n)) memErr("memcpy read",s,n); if(!rangeOK(d,n)) memErr("memcpy write",d,n);
  bool any=false; bool any_=false; if(!anySymPage){ memmove((void*)d,(void*)s,n); return; } for(u64 p=(s-BASE)>>12;p<=(s+n-1-BASE)>>12;p++) if(spage[p]) any=true; for(u64 p=(d-BASE)>>12;p<=(d+n-1-BASE)>>12;p++) if(spage[p]) any=true;
  if(!any){ memmove((void*)d,(void*)s,n); return; }
  vector<Expr*> te(n); vector<u8> ti(n); for(u64 i=0;i<n;i++){ u64 x=s+i-BASE; SymPage*q=spage[x>>12]; te[i]= q?q->e[x&4095]:nullptr; ti[i]= q?q->ix[x&4095]:0; }
  memmove((void*)d,(void*)s,n); clearSym(d,n);
  for(u64 i=0;i<n;i++) if(te[i]){ u64 x=d+i-BASE; SymPage*&q=spage[x>>12]; if(!q) q=(SymPage*)calloc(1,sizeof(SymPage)); if(!q->e[x&4095]) q->n++; q->e[x&4095]=te[i]; q->ix[x&4095]=ti[i]; }
}
static void gmemset(u64 d,const Val&v,u64 n){ if(n==0) return; if(!rangeOK(d,n)) memErr("memset",d,n); if(isConc(v)){ clearSym(d,n); memset((void*)d,(int)cval(v),n);} else for(u64 i=0;i<n;i++) storeC(d+i,8,v); }
static string gstr(u64 a){ string s; for(;;){ Val v=loadC(a++,8); u64 c= isConc(v)?(u64)cval(v):concretize(v.e); if(!c) return s; s+=(char)c; } }

#include "natives.inc"
#include "decode.inc"
#include "interp.inc"

#include <map>
#include <algorithm>
static volatile int profN=0; static Func* profF[200000];
static void onProf(int){ if(profN<200000&&!threads.empty()&&!threads[cur]->fr.empty()) profF[profN++]=threads[cur]->fr.back().f; }
static void profDump(){ std::map<string,int> m; for(int i=0;i<profN;i++) m[profF[i]->name]++; vector<std::pair<int,string>> v; for(auto&k:m) v.push_back({k.second,k.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<25;i++) fprintf(stderr,"%6d %s\n",v[i].first,v[i].second.c_str()); }
int main(int argc,char**argv){
  // large host stack for recursive expression walks
  { struct rlimit r; getrlimit(RLIMIT_STACK,&r); if(r.rlim_cur!=RLIM_INFINITY&&r.rlim_cur<(1ull<<30)&&!getenv("SYMX_RE")){ r.rlim_cur= r.rlim_max==RLIM_INFINITY? (2ull<<30): std::min<rlim_t>(r.rlim_max,2ull<<30); setrlimit(RLIMIT_STACK,&r); setenv("SYMX_RE","1",1); execv("/proc/self/exe",argv); execv(argv[0],argv); } }
  string bc, entry="sym_main"; vector<u64> params;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="-out") outDir=nx(); else if(a=="-entry") entry=nx(); else if(a=="-maxinstr") maxInstr=strtoull(nx().c_str(),0,0); else if(a=="-j") jobs=atoi(nx().c_str()); else if(a=="-v") dbg=true; else if(a=="-samples") maxSamples=atoi(nx().c_str()); else if(a=="-time") timeLimit=atof(nx().c_str()); else if(a=="-rlimit") rlimitQ=strtoull(nx().c_str(),0,0); else if(a=="-p") params.push_back(strtoull(nx().c_str(),0,0)); else if(a=="-calls") traceCalls=true; else if(a=="-afterviol") afterViol=atof(nx().c_str()); else if(a=="-maxpaths") maxPaths=strtoull(nx().c_str(),0,0); else bc=a; }
  tStart=nowS(); gparams=params;
  sh=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)sh,0,sizeof *sh); sem_init(&sh->tokens,1,jobs-1);
  auto mp=[&](u64 a,u64 n){ void*p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)a){ perror("mmap"); exit(3);} };
  mp(BASE,ARENA); mp(SHB,ARENA/8); spage=(SymPage**)mmap(0,(ARENA>>12)*8+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  heapTop=BASE+4096; stackHi=BASE+ARENA; stackLo=stackHi-(512ull<<20);
  loadBitcode(bc.c_str());
  Func*f=fnByName.count(entry)?fnByName[entry]:nullptr; if(!f||!f->defined){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  solverInit(rlimitQ);
  double t0=nowS();
  pid_t root=fork();
  if(root==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); models.push_back(Model()); if(getenv("SYMX_PROF")){ profOn=true; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=onProf; sa.sa_flags=SA_RESTART; sigaction(SIGPROF,&sa,0); struct itimerval it={{0,1000},{0,1000}}; setitimer(ITIMER_PROF,&it,0); } runMain(f); finish(0); }
  // watchdog
  int st=0; bool killed=false; for(;;){ pid_t r=waitpid(root,&st,WNOHANG); if(r==root) break; usleep(20000); if(nowS()-tStart>timeLimit+60){ killed=true; kill(root,SIGKILL); kill(-getpgrp(),0); waitpid(root,&st,0); break; } }
  if(killed||!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ sh->errors++; FILE*e=fopen((outDir+"/err_root.txt").c_str(),"w"); if(e){ fprintf(e,"root worker ended abnormally (status %x, killed %d)\n",st,killed); fclose(e);} }
  FILE*o=fopen((outDir+"/summary.json").c_str(),"w"); if(!o) return 3;
  fprintf(o,"{\"paths\":%llu,\"pruned\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"instrs\":%llu,\"sym_instrs\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"errors\":%llu,\"viols\":%llu,\"exits\":%llu,\"covers\":%llu,\"maxdepth\":%llu,\"wall\":%.3f,\"stopped\":%d,\"observations\":%llu,\"over_budget\":%llu,",
    (unsigned long long)sh->paths,(unsigned long long)sh->pruned,(unsigned long long)sh->forks,(unsigned long long)sh->queries,(unsigned long long)sh->qsat,(unsigned long long)sh->qunsat,(unsigned long long)sh->qcached,sh->solverUs/1e6,(unsigned long long)sh->instrs,(unsigned long long)sh->symInstr,(unsigned long long)sh->asserts,(unsigned long long)sh->assertsSym,(unsigned long long)sh->errors,(unsigned long long)sh->viols,(unsigned long long)sh->exits,(unsigned long long)sh->covers,(unsigned long long)sh->maxdepth,nowS()-t0,(int)sh->stop,(unsigned long long)sh->obs,(unsigned long long)sh->budget);
  fprintf(o,"\"functions_symbolic\":["); bool c=false; for(Func*g:funcs) if(g->id<MAXFN&&sh->fnSym[g->id]){ fprintf(o,"%s\"%s\"",c?",":"",jesc(g->name).c_str()); c=true; } fprintf(o,"],\"functions_executed\":["); c=false; for(Func*g:funcs) if(g->id<MAXFN&&sh->fnExec[g->id]){ fprintf(o,"%s\"%s\"",c?",":"",jesc(g->name).c_str()); c=true; } fprintf(o,"]}\n"); fclose(o);
  return 0;
}
