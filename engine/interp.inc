static void notConc(Thread*t){ }
static void pushFrame(Thread*t,Func*f,const Val*args,int na,int retd){
  if(!f->defined) engineError("call of undefined function "+f->name);
  if(t->fr.size()>4000) violation("stack overflow: recursion deeper than 4000 frames in "+f->name);
  size_t base=t->top; if(base+f->nregs>t->regs.size()) t->regs.resize((base+f->nregs)*2);
  Frame fr; fr.f=f; fr.pc=0; fr.base=base; fr.sp=t->sp; fr.retd=retd; fr.va=0;
  Val*r=&t->regs[base]; memset((void*)r,0,sizeof(Val)*f->nregs); for(int i=0;i<f->nargs&&i<na;i++) r[i]=args[i];
  t->top=base+f->nregs;
  if(f->vararg){ int extra=na-f->nargs; if(extra<0) extra=0; u64 sz=extra*16+16; t->sp=(t->sp-sz)&~15ull; setValid(t->sp,sz); clearSym(t->sp,sz); fr.va=t->sp; u64 p=t->sp; for(int i=0;i<extra;i++){ Val v=args[f->nargs+i]; storeC(p,64,v); p+=8; } t->sp-=16; }
  if(f->id<MAXFN&&!sh->fnExec[f->id]) sh->fnExec[f->id]=1;
  if(traceCalls) fprintf(stderr,"%*s%s\n",(int)t->fr.size(),"",f->name.c_str());
  t->fr.push_back(fr);
}
static inline Val binC(int sub,int w,const Val&a,const Val&b,Thread*t);
static Val symBin(int sub,int w,const Val&a,const Val&b){
  Expr*x=toE(a,w),*y=toE(b,w);
  if(sub==UDIV||sub==SDIV||sub==UREM||sub==SREM){ if(branch(mk2(EQ,y,mkConst(w,0)))) violation("division by zero in "+fnLoc());
    if((sub==SDIV||sub==SREM)&&branch(mk2(AND,mk2(EQ,y,mkConst(w,maskW(w))),mk2(EQ,x,mkConst(w,(U)1<<(w-1)))))) violation("integer overflow in division (INT_MIN / -1) in "+fnLoc()); }
  return fromE(mk2((Op)sub,x,y)); }
static Expr* icmpE(int pred,Expr*x,Expr*y){ switch(pred){ case LLVMIntEQ: return mk2(EQ,x,y); case LLVMIntNE: return mkNot(mk2(EQ,x,y)); case LLVMIntUGT: return mk2(ULT,y,x); case LLVMIntUGE: return mk2(ULE,y,x); case LLVMIntULT: return mk2(ULT,x,y); case LLVMIntULE: return mk2(ULE,x,y); case LLVMIntSGT: return mk2(SLT,y,x); case LLVMIntSGE: return mk2(SLE,y,x); case LLVMIntSLT: return mk2(SLT,x,y); default: return mk2(SLE,x,y);} }
static Expr* fcmpE(int p,int w,Expr*x,Expr*y){ auto un=[&]{return mkFp2(FUNO,w,x,y);}; auto lt=[&]{return mkFp2(FLT,w,x,y);}; auto gt=[&]{return mkFp2(FLT,w,y,x);}; auto le=[&]{return mkFp2(FLE,w,x,y);}; auto ge=[&]{return mkFp2(FLE,w,y,x);}; auto eq=[&]{return mkFp2(FEQ,w,x,y);}; auto OR_=[&](Expr*a,Expr*b){return mk2(OR,a,b);};
  switch(p){ case LLVMRealOEQ: return eq(); case LLVMRealOGT: return gt(); case LLVMRealOGE: return ge(); case LLVMRealOLT: return lt(); case LLVMRealOLE: return le(); case LLVMRealONE: return OR_(lt(),gt()); case LLVMRealORD: return mkNot(un()); case LLVMRealUNO: return un(); case LLVMRealUEQ: return OR_(eq(),un()); case LLVMRealUGT: return mkNot(le()); case LLVMRealUGE: return mkNot(lt()); case LLVMRealULT: return mkNot(ge()); case LLVMRealULE: return mkNot(gt()); case LLVMRealUNE: return mkNot(eq()); case LLVMRealPredicateTrue: return mkConst(1,1); default: return mkConst(1,0);} }
static Val castV(int o,int dw,int sw,const Val&a){
  if(!a.e&&dw<=64&&sw<=64) switch(o){ case LLVMTrunc: return Val{a.c&mask64(dw),nullptr}; case LLVMZExt: case LLVMBitCast: return a; case LLVMPtrToInt: case LLVMIntToPtr: return Val{a.c&mask64(dw),nullptr}; case LLVMSExt: return Val{(u64)sxt64(a.c,sw)&mask64(dw),nullptr}; case LLVMFPTrunc: case LLVMFPExt: return Val{(u64)fpConv(F2F,dw,sw,a.c),nullptr}; case LLVMFPToSI: return Val{(u64)fpConv(F2SI,dw,sw,a.c),nullptr}; case LLVMFPToUI: return Val{(u64)fpConv(F2UI,dw,sw,a.c),nullptr}; case LLVMSIToFP: return Val{(u64)fpConv(SI2F,dw,sw,a.c),nullptr}; case LLVMUIToFP: return Val{(u64)fpConv(UI2F,dw,sw,a.c),nullptr}; }
  Expr*x=toE(a,sw); switch(o){ case LLVMTrunc: return fromE(mkExtract(x,0,dw)); case LLVMZExt: return fromE(mkZext(x,dw)); case LLVMSExt: return fromE(mkSext(x,dw)); case LLVMBitCast: return a; case LLVMPtrToInt: case LLVMIntToPtr: return fromE(dw<sw?mkExtract(x,0,dw):mkZext(x,dw)); case LLVMFPTrunc: case LLVMFPExt: return fromE(mkFp1(F2F,dw,x)); case LLVMFPToSI: return fromE(mkFp1(F2SI,dw,x)); case LLVMFPToUI: return fromE(mkFp1(F2UI,dw,x)); case LLVMSIToFP: return fromE(mkFp1(SI2F,dw,x)); case LLVMUIToFP: return fromE(mkFp1(UI2F,dw,x)); } engineError("cast"); }
static bool schedPoint(); // may switch `cur`

static int chooseN(int n,const char*nm){ if(n<=1) return 0; int w=1; while((1<<w)<n) w++; Expr*s=newSym(nm,w); if(n<(1<<w)) assume(mk2(ULT,s,mkConst(w,n))); for(int i=0;i<n-1;i++) if(branch(mk2(EQ,s,mkConst(w,i)))) return i; return n-1; }
static void doReturn(Thread*t,const Val*rv,int n){ Frame f=t->fr.back(); t->fr.pop_back(); if(t->sp<f.sp) setInvalid(t->sp,f.sp-t->sp); t->sp=f.sp; t->top=f.base; if(!t->fr.empty()){ Frame&c=t->fr.back(); if(f.retd>=0) for(int i=0;i<n;i++) t->regs[c.base+f.retd+i]=rv[i]; c.pc++; } }
static u64 galloca(Thread*t,u64 n){ u64 tot=(n+15)&~15ull; t->sp-=16; t->sp-=tot; if(t->sp<t->spLo+4096) violation("stack overflow in "+fnLoc()); setValid(t->sp,n); clearSym(t->sp,tot); u64 a=t->sp; t->sp-=16; return a; }
static void takeEdge(Thread*t,Frame&F,Val*R,Edge*e){
  size_t n=e->copies.size(); const Val*C=F.f->consts.data();
  #define OPV(o) ((o)>=0? R[o]:C[~(o)])
  if(n==1) R[e->copies[0].first]=OPV(e->copies[0].second);
  else if(n){ Val tmp[64]; if(n>64) engineError("too many phis"); for(size_t i=0;i<n;i++) tmp[i]=OPV(e->copies[i].second); for(size_t i=0;i<n;i++) R[e->copies[i].first]=tmp[i]; }
  F.pc=F.f->bbStart[e->target]; }
static void intrinsic(Thread*t,Frame&F,Val*R,const Insn&I){
  const Val*C=F.f->consts.data(); CallX*c=(CallX*)I.x; auto A=[&](int i){ return OPV(c->args[i]); }; int w=I.w; Val r{0,nullptr}; auto set=[&](Val v){ if(I.d>=0) R[I.d]=v; };
  switch(I.sub){
    case N_MEMCPY: { u64 d=concAddr(A(0)),s=concAddr(A(1)); Val n=A(2); u64 nn=isConc(n)?(u64)cval(n):concretize(n.e); gmemcpy(d,s,nn); break; }
    case N_MEMSET: { u64 d=concAddr(A(0)); Val n=A(2); u64 nn=isConc(n)?(u64)cval(n):concretize(n.e); gmemset(d,A(1),nn); break; }
    case N_OVF: { Expr*x=toE(A(0),w),*y=toE(A(1),w); Expr*res,*ov; int k=I.flg; 
      if(isC(x)&&isC(y)){ U a=x->k,b=y->k; bool o; U m=maskW(w); U v; if(k%2==0){ I128 X=sxt(a,w),Y=sxt(b,w),Z; bool oo= k==0?__builtin_add_overflow(X,Y,&Z):k==2?__builtin_sub_overflow(X,Y,&Z):__builtin_mul_overflow(X,Y,&Z); v=(U)Z&m; o=oo||sxt(v,w)!=Z; } else { U Z; bool oo= k==1?__builtin_add_overflow(a,b,&Z):k==3?__builtin_sub_overflow(a,b,&Z):__builtin_mul_overflow(a,b,&Z); v=Z&m; o=oo||v!=Z; } res=mkConst(w,v); ov=mkConst(1,o); }
      else { Op o= k<2?ADD:k<4?SUB:MUL; res=mk2(o,x,y); 
        if(o!=MUL){ Expr*sx=mkExtract(x,w-1,1),*sy=mkExtract(y,w-1,1),*sr=mkExtract(res,w-1,1); if(k==0) ov=mk2(AND,mk2(EQ,sx,sy),mkNot(mk2(EQ,sx,sr))); else if(k==2) ov=mk2(AND,mkNot(mk2(EQ,sx,sy)),mkNot(mk2(EQ,sx,sr))); else if(k==1) ov=mk2(ULT,res,x); else ov=mk2(ULT,x,y); }
        else { int W=2*w>128?128:2*w; if(2*w>128) engineError("wide mul overflow"); Expr*p= k==4? mk2(MUL,mkSext(x,W),mkSext(y,W)):mk2(MUL,mkZext(x,W),mkZext(y,W)); ov= k==4? mkNot(mk2(EQ,p,mkSext(mkExtract(p,0,w),W))) : mkNot(mk2(EQ,mkExtract(p,w,w),mkConst(w,0))); } }
      R[I.d]=fromE(res); R[I.d+1]=fromE(ov); break; }
    case N_MINMAX: { Expr*x=toE(A(0),w),*y=toE(A(1),w); Expr*cnd= I.flg==0?mk2(SLT,y,x):I.flg==1?mk2(SLT,x,y):I.flg==2?mk2(ULT,y,x):mk2(ULT,x,y); set(fromE(mkIte(cnd,x,y))); break; }
    case N_ABS: { Expr*x=toE(A(0),w); set(fromE(mkIte(mk2(SLT,x,mkConst(w,0)),mk2(SUB,mkConst(w,0),x),x))); break; }
    case N_FP1: { Expr*x=toE(A(0),w); set(fromE(I.flg==9? mkFp1(FSQRT,w,x):mkFp1(FRINT,w,x,I.flg))); break; }
    case N_FABS: set(fromE(mkFp1(FABS_,w,toE(A(0),w)))); break;
    case N_FMULADD: set(fromE(mkFp2(FADD,w,mkFp2(FMUL,w,toE(A(0),w),toE(A(1),w)),toE(A(2),w)))); break;
    case N_COPYSIGN: { Expr*x=toE(A(0),w),*y=toE(A(1),w); set(fromE(mk2(OR,mk2(AND,x,mkConst(w,maskW(w-1))),mk2(AND,y,mkConst(w,(U)1<<(w-1)))))); break; }
    case N_FMINMAX: { Expr*x=toE(A(0),w),*y=toE(A(1),w); Expr*cnd= I.flg==0? mkFp2(FLT,w,y,x):mkFp2(FLT,w,x,y); set(fromE(mkIte(mkFp2(FUNO,w,x,x),y,mkIte(mkFp2(FUNO,w,y,y),x,mkIte(cnd,x,y))))); break; }
    case N_ISFPC: { int mask=(int)cval(A(1)); Expr*x=toE(A(0),w); int eb= w==64?11:8, mb= w==64?52:23; if(w==80) engineError("is.fpclass f80"); Expr*ex=mkExtract(x,mb,eb),*mn=mkExtract(x,0,mb),*sg=mkExtract(x,w-1,1); Expr*exAll=mk2(EQ,ex,mkConst(eb,maskW(eb))),*ex0=mk2(EQ,ex,mkConst(eb,0)),*m0=mk2(EQ,mn,mkConst(mb,0)); Expr*q=mkExtract(x,mb-1,1); Expr*nan=mk2(AND,exAll,mkNot(m0)); Expr*inf=mk2(AND,exAll,m0),*zero=mk2(AND,ex0,m0),*sub=mk2(AND,ex0,mkNot(m0)),*norm=mk2(AND,mkNot(exAll),mkNot(ex0)); Expr*res=mkConst(1,0); auto add=[&](int bit,Expr*e){ if(mask&bit) res=mk2(OR,res,e); }; Expr*ns=mkNot(sg); add(1,mk2(AND,nan,mkNot(q))); add(2,mk2(AND,nan,q)); add(4,mk2(AND,inf,sg)); add(8,mk2(AND,norm,sg)); add(16,mk2(AND,sub,sg)); add(32,mk2(AND,zero,sg)); add(64,mk2(AND,zero,ns)); add(128,mk2(AND,sub,ns)); add(256,mk2(AND,norm,ns)); add(512,mk2(AND,inf,ns)); set(fromE(res)); break; }
    case N_CTPOP: case N_CTLZ: case N_CTTZ: { Val a=A(0); if(isConc(a)){ U v=cval(a); int cnt=0; if(I.sub==N_CTPOP){ for(int i=0;i<w;i++) cnt+=(v>>i)&1; } else if(I.sub==N_CTTZ){ while(cnt<w&&!((v>>cnt)&1)) cnt++; } else { while(cnt<w&&!((v>>(w-1-cnt))&1)) cnt++; } set(Val{(u64)cnt,nullptr}); }
      else { Expr*x=a.e; Expr*rr; if(I.sub==N_CTPOP){ rr=mkConst(w,0); for(int i=0;i<w;i++) rr=mk2(ADD,rr,mkZext(mkExtract(x,i,1),w)); } else { rr=mkConst(w,w); if(I.sub==N_CTTZ) for(int i=w-1;i>=0;i--) rr=mkIte(mkExtract(x,i,1),mkConst(w,i),rr); else for(int i=0;i<w;i++) rr=mkIte(mkExtract(x,i,1),mkConst(w,w-1-i),rr); } set(fromE(rr)); } break; }
    case N_BSWAP: { Expr*x=toE(A(0),w),*rr=nullptr; for(int i=0;i<w;i+=8){ Expr*b=mkExtract(x,i,8); rr= rr?mkConcat(rr,b):b; } set(fromE(rr)); break; }
    case N_FSH: { Expr*x=toE(A(0),w),*y=toE(A(1),w); Val sv=A(2); u64 s=(isConc(sv)?(u64)cval(sv):concretize(sv.e))%w; if(I.flg==1) { if(s==0){ set(fromE(y)); break; } s=w-s; } else if(s==0){ set(fromE(x)); break; } set(fromE(mk2(OR,mk2(SHL,x,mkConst(w,s)),mk2(LSHR,y,mkConst(w,w-s))))); break; }
    case N_VASTART: { u64 ap=concAddr(A(0)); storeC(ap,32,Val{48,nullptr}); storeC(ap+4,32,Val{176,nullptr}); storeC(ap+8,64,Val{F.va,nullptr}); storeC(ap+16,64,Val{0,nullptr}); break; }
    case N_VACOPY: gmemcpy(concAddr(A(0)),concAddr(A(1)),24); break;
    case N_EXPECT: set(A(0)); break;
    case N_TRAP: violation("trap (undefined behaviour check) in "+fnLoc()+" line "+std::to_string(I.line&0xffffff));
    case N_STACKSAVE: set(Val{t->sp,nullptr}); break; case N_STACKREST: break;
    case N_SAT: { Expr*x=toE(A(0),w),*y=toE(A(1),w); if(I.flg==0) set(fromE(mkIte(mk2(ULT,x,y),mkConst(w,0),mk2(SUB,x,y)))); else { Expr*s=mk2(ADD,x,y); set(fromE(mkIte(mk2(ULT,s,x),mkConst(w,maskW(w)),s))); } break; }
    case N_ISCONST: set(Val{0,nullptr}); break; case N_OBJSIZE: set(Val{~0ull,nullptr}); break;
    default: engineError("intrinsic kind");
  }
}
static void step(Thread*&t,bool&sw); 
static void runLoop(){
  Thread*t=threads[cur];
 reload:
  for(;;){
    Frame&F=t->fr.back(); Func*fn=F.f; const Insn*code=fn->code.data(); const Val*C=fn->consts.data(); Val*R=&t->regs[F.base]; int pc=F.pc;
    #define V(o) ((o)>=0? R[o]:C[~(o)])
    #define SYMMARK() do{ if(fn->id<MAXFN&&!sh->fnSym[fn->id]) sh->fnSym[fn->id]=1; symCnt++; }while(0)
    static u64 symCnt=0;
    for(;;){
      const Insn&I=code[pc];
      if(__builtin_expect(++pathInstr>=maxInstr,0)){ F.pc=pc; if(instrBudgetViolation==2){ sh->budget++; finish(3); } if(instrBudgetViolation){ violation("no termination within the instruction budget in "+fnLoc()); } engineError("instruction budget exceeded"); }
      switch(I.op){
        case I_BIN: { const Val a=V(I.a),b=V(I.b); int w=I.w;
          if(__builtin_expect(!a.e&&!b.e,1)){ u64 r; u64 m=mask64(w); switch(I.sub){ case ADD:r=a.c+b.c;break; case SUB:r=a.c-b.c;break; case MUL:r=a.c*b.c;break; case AND:r=a.c&b.c;break; case OR:r=a.c|b.c;break; case XOR:r=a.c^b.c;break;
              case SHL:r=b.c>=(u64)w?0:a.c<<b.c;break; case LSHR:r=b.c>=(u64)w?0:a.c>>b.c;break; case ASHR:r=(u64)(sxt64(a.c,w)>>(b.c>=(u64)w?w-1:b.c));break;
              default: { F.pc=pc; if(b.c==0) violation("division by zero in "+fnLoc()); if(I.sub==UDIV) r=a.c/b.c; else if(I.sub==UREM) r=a.c%b.c; else { i64 x=sxt64(a.c,w),y=sxt64(b.c,w); if(y==-1){ if(x==sxt64(1ull<<(w-1),w)) violation("integer overflow in division (INT_MIN / -1) in "+fnLoc()); r= I.sub==SDIV? (u64)-x:0; } else r= I.sub==SDIV? (u64)(x/y):(u64)(x%y); } } }
            R[I.d].c=r&m; R[I.d].e=nullptr; }
          else { F.pc=pc; SYMMARK(); Val r=symBin(I.sub,w,a,b); R=&t->regs[F.base]; R[I.d]=r; }
          pc++; break; }
        case I_ICMP: { const Val a=V(I.a),b=V(I.b); int w=I.w;
          if(!a.e&&!b.e){ bool r; switch(I.sub){ case LLVMIntEQ:r=a.c==b.c;break; case LLVMIntNE:r=a.c!=b.c;break; case LLVMIntUGT:r=a.c>b.c;break; case LLVMIntUGE:r=a.c>=b.c;break; case LLVMIntULT:r=a.c<b.c;break; case LLVMIntULE:r=a.c<=b.c;break; default:{ i64 x=sxt64(a.c,w),y=sxt64(b.c,w); r= I.sub==LLVMIntSGT?x>y:I.sub==LLVMIntSGE?x>=y:I.sub==LLVMIntSLT?x<y:x<=y; } } R[I.d].c=r; R[I.d].e=nullptr; }
          else { SYMMARK(); R[I.d]=fromE(icmpE(I.sub,toE(a,w),toE(b,w))); } pc++; break; }
        case I_FBIN: { const Val a=V(I.a),b=V(I.b); if(!a.e&&!b.e&&I.w<=64) R[I.d]=Val{(u64)fpFold2(I.sub,I.w,a.c,b.c),nullptr}; else { SYMMARK(); R[I.d]=fromE(mkFp2((Op)I.sub,I.w,toE(a,I.w),toE(b,I.w))); } pc++; break; }
        case I_FCMP: { const Val a=V(I.a),b=V(I.b); SYMMARK(); R[I.d]=fromE(fcmpE(I.sub,I.w,toE(a,I.w),toE(b,I.w))); pc++; break; }
        case I_FNEG: R[I.d]=fromE(mkFp1(FNEG_,I.w,toE(V(I.a),I.w))); pc++; break;
        case I_CAST: { const Val a=V(I.a); if(a.e) SYMMARK(); R[I.d]=castV(I.sub,I.w,I.w2,a); pc++; break; }
        case I_COPY: R[I.d]=V(I.a); pc++; break;
        case I_LOAD: { const Val p=V(I.a); F.pc=pc; if(concurrent&&(I.flg||isShared(p))){ if(schedPoint()){ t=threads[cur]; goto reload; } t->loadStamp=writeStamp; } Val r=doLoad(p,I.w); if(p.e) SYMMARK(); R=&t->regs[F.base]; R[I.d]=r; pc++; break; }
        case I_STORE: { const Val p=V(I.a); F.pc=pc; if(concurrent&&(I.flg||isShared(p))){ if(schedPoint()){ t=threads[cur]; goto reload; } writeStamp++; } doStore(p,I.w,V(I.b)); pc++; break; }
        case I_ATOMRMW: { F.pc=pc; if(concurrent){ if(schedPoint()){ t=threads[cur]; goto reload; } writeStamp++; } Val p=V(I.a); u64 a=concAddr(p); Val old=loadC(a,I.w); Val b=V(I.b); Expr*x=toE(old,I.w),*y=toE(b,I.w),*r; switch(I.sub){ case LLVMAtomicRMWBinOpXchg:r=y;break; case LLVMAtomicRMWBinOpAdd:r=mk2(ADD,x,y);break; case LLVMAtomicRMWBinOpSub:r=mk2(SUB,x,y);break; case LLVMAtomicRMWBinOpAnd:r=mk2(AND,x,y);break; case LLVMAtomicRMWBinOpOr:r=mk2(OR,x,y);break; case LLVMAtomicRMWBinOpXor:r=mk2(XOR,x,y);break; default: engineError("atomicrmw"); } storeC(a,I.w,fromE(r)); if(I.d>=0) R[I.d]=old; pc++; break; }
        case I_CMPXCHG: { F.pc=pc; if(concurrent){ if(schedPoint()){ t=threads[cur]; goto reload; } } t->loadStamp=writeStamp; u64 a=concAddr(V(I.a)); Val old=loadC(a,I.w); Expr*eq=mk2(EQ,toE(old,I.w),toE(V(I.b),I.w)); bool s=branch(eq); if(s){ storeC(a,I.w,V(I.c)); writeStamp++; } R=&t->regs[F.base]; R[I.d]=old; R[I.d+1]=Val{s,nullptr}; pc++; break; }
        case I_GEP: { Val p=V(I.a); GepX*g=(GepX*)I.x; if(!p.e){ u64 s=p.c+I.k; bool ok=true; for(int i=0;i<I.b;i++){ const Val&x=V(g->idx[i].first); if(x.e){ok=false;break;} s+=(u64)sxt64(x.c,g->w[i])*g->idx[i].second; } if(ok){ R[I.d]=Val{s,nullptr}; pc++; break; } }
          SYMMARK(); Expr*e=toE(p,64); for(int i=0;i<I.b;i++){ const Val&x=V(g->idx[i].first); Expr*ie=toE(x,g->w[i]); ie= g->w[i]<64?mkSext(ie,64):ie; e=mk2(ADD,e,mk2(MUL,ie,mkConst(64,g->idx[i].second))); } e=mk2(ADD,e,mkConst(64,I.k)); R[I.d]=fromE(e); pc++; break; }
        case I_ALLOCA: { F.pc=pc; u64 n=(u64)cval(V(I.a))*I.k; R[I.d]=Val{galloca(t,n),nullptr}; pc++; break; }
        case I_BR: takeEdge(t,F,R,fn->edges[I.b]); pc=F.pc; break;
        case I_CBR: { const Val c=V(I.a); bool s; if(!c.e) s=c.c&1; else { F.pc=pc; SYMMARK(); s=branch(c.e); R=&t->regs[F.base]; } takeEdge(t,F,R,fn->edges[s?I.b:I.c]); pc=F.pc; break; }
        case I_SWITCH: { const Val c=V(I.a); SwitchX*s=(SwitchX*)I.x; int e=I.c; if(!c.e){ for(size_t i=0;i<s->vals.size();i++) if(s->vals[i]==c.c){ e=s->edge[i]; break; } }
          else { F.pc=pc; SYMMARK(); vector<int> order; std::map<int,Expr*> conds; for(size_t i=0;i<s->vals.size();i++){ int ed=s->edge[i]; if(ed==I.c) continue; Expr*q=mk2(EQ,c.e,mkConst(I.w,s->vals[i])); if(conds.count(ed)) conds[ed]=mk2(OR,conds[ed],q); else { conds[ed]=q; order.push_back(ed);} } for(int ed:order) if(branch(conds[ed])){ e=ed; break; } }
          takeEdge(t,F,R,fn->edges[e]); pc=F.pc; break; }
        case I_SELECT: { const Val c=V(I.a); if(!c.e) R[I.d]= (c.c&1)? V(I.b):V(I.c); else { SYMMARK(); int kf=knownFact(c.e); if(kf>=0) R[I.d]= kf?V(I.b):V(I.c); else R[I.d]=fromE(mkIte(c.e,toE(V(I.b),I.w),toE(V(I.c),I.w))); } pc++; break; }
        case I_RET: F.pc=pc; doReturn(t,nullptr,0); goto retdone;
        case I_RETV: { F.pc=pc; if(I.x){ vector<int>*x=(vector<int>*)I.x; Val rv[8]; int n=std::min<int>(8,x->size()); for(int i=0;i<n;i++) rv[i]=V((*x)[i]); doReturn(t,rv,n);} else { Val rv=V(I.a); doReturn(t,&rv,1);} goto retdone; }
        case I_CALL: { F.pc=pc; CallX*c=(CallX*)I.x; Func*g=c->f; if(!g){ Val p=V(I.a); u64 a=concAddr(p); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) violation("call through an invalid function pointer in "+fnLoc()); g=it->second; R=&t->regs[F.base]; }
          int na=c->args.size(); Val args[32]; if(na>32) engineError("too many args"); for(int i=0;i<na;i++) args[i]=V(c->args[i]);
          if(g->defined){ pushFrame(t,g,args,na,I.d); goto reload; }
          if(g->natid<0) engineError("unmodelled external function "+g->name);
          Val r=callNative(t,g->natid,args,na,c); 
          if(threads[cur]!=t||t->fr.empty()||&t->fr.back()!=&F||F.pc!=pc){ t=threads[cur]; goto reload; }
          R=&t->regs[F.base]; if(I.d>=0) R[I.d]=r; pc++; break; }
        case I_INTRIN: F.pc=pc; intrinsic(t,F,R,I); R=&t->regs[F.base]; pc++; break;
        case I_ASM: F.pc=pc; pc++; if(concurrent){ F.pc=pc; spinWait(); t=threads[cur]; goto reload; } break;
        case I_UNREACH: F.pc=pc; violation("reached unreachable code in "+fnLoc());
        case I_NOP: pc++; break;
        case I_ERR: F.pc=pc; engineError(string("unsupported instruction: ")+(char*)I.x+" in "+fn->name);
        default: engineError("bad op");
      }
      if(0){ retdone: if(t->fr.empty()){ t->done=true; if(cur==0&&!concurrent) return; threadDone(); t=threads[cur]; } goto reload; }
    }
  }
}
static void endOfPath(){
  u64 n=sh->paths; 
  if((int)sh->samples.load()<maxSamples && (n<4 || (strHash(std::to_string(n*7919+pathInstr))%5==0))){ u64 s=sh->samples++; if((int)s<maxSamples){ char p[600]; snprintf(p,600,"%s/sample_%llu",outDir.c_str(),(unsigned long long)s); FILE*f=fopen((string(p)+".in").c_str(),"w"); Model&m=curModel(); if(f){ writeInputs(f,m); fclose(f);} f=fopen((string(p)+".obs").c_str(),"w"); if(f){ newEval(); for(auto&o:obsv){ u64 v= o.v.e? (u64)evalE(o.v.e,m):o.v.c; fprintf(f,"%llu\n",(unsigned long long)(v&mask64(o.w))); } fclose(f);} } }
}
static void runMain(Func*f){ Thread*t=new Thread(); t->top=0; t->sp=stackHi-4096; t->spLo=stackHi-(64ull<<20); t->done=t->waiting=false; t->waitStamp=0; t->switches=0; threads.push_back(t); cur=0; pushFrame(t,f,nullptr,0,-1); runLoop(); if(instrBudgetViolation) sh->instrs+=0; endOfPath(); }
