#include <llvm-c/Target.h>
static LLVMModuleRef mod; static LLVMTargetDataRef TD; static std::unordered_map<LLVMValueRef,u64> gaddr; static std::unordered_map<LLVMValueRef,Func*> fnByVal;
enum Intr { N_NONE, N_MEMCPY, N_MEMSET, N_IGN, N_OVF, N_MINMAX, N_ABS, N_FP1, N_FABS, N_FMULADD, N_CTPOP, N_CTLZ, N_CTTZ, N_BSWAP, N_FSH, N_VASTART, N_VAEND, N_VACOPY, N_EXPECT, N_TRAP, N_STACKSAVE, N_STACKREST, N_SAT, N_ISCONST, N_OBJSIZE, N_COPYSIGN, N_ISFPC, N_FMINMAX };
static int tw(LLVMTypeRef t){ switch(LLVMGetTypeKind(t)){ case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMDoubleTypeKind: return 64; case LLVMX86_FP80TypeKind: return 80; default: return 0; } }
static bool isAgg(LLVMTypeRef t){ auto k=LLVMGetTypeKind(t); return k==LLVMStructTypeKind||k==LLVMArrayTypeKind; }
static void flatT(LLVMTypeRef t,vector<int>&o){ auto k=LLVMGetTypeKind(t); if(k==LLVMStructTypeKind){ for(unsigned i=0;i<LLVMCountStructElementTypes(t);i++) flatT(LLVMStructGetTypeAtIndex(t,i),o);} else if(k==LLVMArrayTypeKind){ for(unsigned i=0;i<LLVMGetArrayLength(t);i++) flatT(LLVMGetElementType(t),o);} else if(k!=LLVMVoidTypeKind) o.push_back(tw(t)); }
static int flatN(LLVMTypeRef t){ vector<int> o; flatT(t,o); return o.size(); }
static U constU(LLVMValueRef v);
static u64 constGep(LLVMValueRef v){ u64 a=(u64)constU(LLVMGetOperand(v,0)); LLVMTypeRef t=LLVMGetGEPSourceElementType(v); int n=LLVMGetNumOperands(v);
  for(int i=1;i<n;i++){ i64 ix=(i64)sxt(constU(LLVMGetOperand(v,i)),tw(LLVMTypeOf(LLVMGetOperand(v,i)))); if(i==1) a+=ix*LLVMABISizeOfType(TD,t); else if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ a+=LLVMOffsetOfElement(TD,t,ix); t=LLVMStructGetTypeAtIndex(t,ix);} else { t=LLVMGetElementType(t); a+=ix*LLVMABISizeOfType(TD,t);} } return a; }
static U constU(LLVMValueRef v){
  int w=tw(LLVMTypeOf(v));
  switch(LLVMGetValueKind(v)){
    case LLVMConstantIntValueKind: if(w<=64) return LLVMConstIntGetZExtValue(v); { char*s=LLVMPrintValueToString(v); char*p=strchr(s,' ')+1; bool neg=*p=='-'; if(neg)p++; U r=0; while(isdigit(*p)) r=r*10+(*p++-'0'); LLVMDisposeMessage(s); return neg? (U)0-r:r; }
    case LLVMConstantFPValueKind: { if(w==80){ char*s=LLVMPrintValueToString(v); char*p=strstr(s,"0xK"); U r=0; if(p) for(p+=3;isxdigit(*p);p++) r=r*16+(isdigit(*p)?*p-'0':tolower(*p)-'a'+10); LLVMDisposeMessage(s); return r; } LLVMBool l; double d=LLVMConstRealGetDouble(v,&l); return w==64? db(d):fb((float)d); }
    case LLVMConstantPointerNullValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: return 0;
    case LLVMFunctionValueKind: return fnByVal[v]->addr;
    case LLVMGlobalVariableValueKind: case LLVMGlobalAliasValueKind: return gaddr[v];
    case LLVMConstantExprValueKind: switch(LLVMGetConstOpcode(v)){
      case LLVMGetElementPtr: return constGep(v); case LLVMBitCast: case LLVMIntToPtr: case LLVMPtrToInt: case LLVMTrunc: return constU(LLVMGetOperand(v,0))&maskW(w?w:64);
      case LLVMAdd: return (constU(LLVMGetOperand(v,0))+constU(LLVMGetOperand(v,1)))&maskW(w); case LLVMSub: return (constU(LLVMGetOperand(v,0))-constU(LLVMGetOperand(v,1)))&maskW(w);
      default: fprintf(stderr,"const expr opcode %d\n",LLVMGetConstOpcode(v)); exit(3); }
    default: fprintf(stderr,"const kind %d\n",LLVMGetValueKind(v)); exit(3);
  }
}
static void initMem(u64 a,LLVMValueRef v){
  LLVMTypeRef t=LLVMTypeOf(v); auto k=LLVMGetValueKind(v);
  if(k==LLVMConstantAggregateZeroValueKind||k==LLVMUndefValueValueKind||k==LLVMPoisonValueValueKind) return;
  if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned i=0;i<LLVMCountStructElementTypes(t);i++) initMem(a+LLVMOffsetOfElement(TD,t,i),LLVMGetAggregateElement(v,i)); return; }
  if(LLVMGetTypeKind(t)==LLVMArrayTypeKind){ u64 es=LLVMABISizeOfType(TD,LLVMGetElementType(t)); if(k==LLVMConstantDataArrayValueKind&&LLVMIsConstantString(v)){ size_t l; const char*s=LLVMGetAsString(v,&l); memcpy((void*)a,s,l); return; }
    for(unsigned i=0;i<LLVMGetArrayLength(t);i++) initMem(a+i*es,LLVMGetAggregateElement(v,i)); return; }
  U c=constU(v); int n=(tw(t)+7)/8; memcpy((void*)a,&c,n);
}
static Func* newFunc(const string&name){ Func*f=new Func(); f->name=name; f->id=funcs.size(); f->defined=false; f->natid=-1; f->addr=BASE+ARENA+0x100000+16ull*f->id; funcs.push_back(f); fnByName[name]=f; fnByAddr[f->addr]=f; return f; }
static int intrKind(const string&n,int&sub){ auto st=[&](const char*p){ return n.compare(0,strlen(p),p)==0; }; sub=0;
  if(st("llvm.memcpy")||st("llvm.memmove")) return N_MEMCPY; if(st("llvm.memset")) return N_MEMSET;
  if(st("llvm.lifetime")||st("llvm.dbg")||st("llvm.assume")||st("llvm.experimental.noalias")||st("llvm.donothing")||st("llvm.prefetch")||st("llvm.invariant")||st("llvm.va_end")) return N_IGN;
  const char*ov[]={"llvm.sadd.with","llvm.uadd.with","llvm.ssub.with","llvm.usub.with","llvm.smul.with","llvm.umul.with"}; for(int i=0;i<6;i++) if(st(ov[i])){sub=i;return N_OVF;}
  const char*mm[]={"llvm.smax","llvm.smin","llvm.umax","llvm.umin"}; for(int i=0;i<4;i++) if(st(mm[i])){sub=i;return N_MINMAX;}
  if(st("llvm.abs")) return N_ABS; const char*fp[]={"llvm.floor","llvm.ceil","llvm.trunc.f","llvm.round.f","llvm.rint","llvm.nearbyint","llvm.roundeven"}; for(int i=0;i<7;i++) if(st(fp[i])){sub=i>4?4:i;return N_FP1;}
  if(st("llvm.sqrt")){sub=9;return N_FP1;} if(st("llvm.fabs")) return N_FABS; if(st("llvm.fmuladd")||st("llvm.fma")) return N_FMULADD; if(st("llvm.ctpop")) return N_CTPOP; if(st("llvm.ctlz")) return N_CTLZ; if(st("llvm.cttz")) return N_CTTZ; if(st("llvm.bswap")) return N_BSWAP;
  if(st("llvm.fshl")){sub=0;return N_FSH;} if(st("llvm.fshr")){sub=1;return N_FSH;} if(st("llvm.va_start")) return N_VASTART; if(st("llvm.va_copy")) return N_VACOPY; if(st("llvm.expect")) return N_EXPECT; if(st("llvm.trap")||st("llvm.ubsantrap")||st("llvm.debugtrap")) return N_TRAP;
  if(st("llvm.stacksave")) return N_STACKSAVE; if(st("llvm.stackrestore")) return N_STACKREST; if(st("llvm.usub.sat")){sub=0;return N_SAT;} if(st("llvm.uadd.sat")){sub=1;return N_SAT;} if(st("llvm.is.constant")) return N_ISCONST; if(st("llvm.objectsize")) return N_OBJSIZE; if(st("llvm.copysign")) return N_COPYSIGN; if(st("llvm.is.fpclass")) return N_ISFPC; if(st("llvm.maxnum")){sub=0;return N_FMINMAX;} if(st("llvm.minnum")){sub=1;return N_FMINMAX;}
  return N_NONE; }
static void decodeFn(LLVMValueRef fv,Func*f){
  std::unordered_map<LLVMValueRef,int> slot; std::unordered_map<LLVMBasicBlockRef,int> bbid; std::unordered_map<LLVMValueRef,int> cidx; int nr=0;
  for(int i=0;i<f->nargs;i++){ slot[LLVMGetParam(fv,i)]=nr++; }
  int nb=0; for(auto b=LLVMGetFirstBasicBlock(fv);b;b=LLVMGetNextBasicBlock(b)){ bbid[b]=nb++; for(auto i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ LLVMTypeRef t=LLVMTypeOf(i); int n= LLVMGetTypeKind(t)==LLVMVoidTypeKind?0:LLVMGetTypeKind(t)==LLVMVectorTypeKind?1:flatN(t); if(n){ slot[i]=nr; nr+=n; } } }
  auto addConst=[&](U v,int w){ Val x; if(w<=64){x.c=(u64)v;x.e=nullptr;} else {x.c=0;x.e=mkConst(w,v);} f->consts.push_back(x); return -(int)f->consts.size(); };
  auto op=[&](LLVMValueRef v)->int{ auto it=slot.find(v); if(it!=slot.end()) return it->second; auto ci=cidx.find(v); if(ci!=cidx.end()) return ci->second; LLVMTypeRef t=LLVMTypeOf(v); int r;
    auto k=LLVMGetTypeKind(t); if(k==LLVMMetadataTypeKind||k==LLVMLabelTypeKind||k==LLVMVectorTypeKind||isAgg(t)) r=addConst(0,64); else r=addConst(constU(v),tw(t)); cidx[v]=r; return r; };
  // aggregate constant element
  auto opAgg=[&](LLVMValueRef v,int i)->int{ auto it=slot.find(v); if(it!=slot.end()) return it->second+i; vector<int> fl; flatT(LLVMTypeOf(v),fl); auto k=LLVMGetValueKind(v); if(k==LLVMUndefValueValueKind||k==LLVMPoisonValueValueKind||k==LLVMConstantAggregateZeroValueKind) return addConst(0,fl[i]); LLVMValueRef e=LLVMGetAggregateElement(v,i); return op(e); };
  auto mkEdge=[&](LLVMBasicBlockRef from,LLVMBasicBlockRef to)->Edge*{ Edge*e=new Edge(); e->target=bbid[to]; for(auto i=LLVMGetFirstInstruction(to);i&&LLVMGetInstructionOpcode(i)==LLVMPHI;i=LLVMGetNextInstruction(i)){ int n=LLVMCountIncoming(i); for(int k=0;k<n;k++) if(LLVMGetIncomingBlock(i,k)==from){ LLVMValueRef v=LLVMGetIncomingValue(i,k); int fn=flatN(LLVMTypeOf(i)); if(isAgg(LLVMTypeOf(i))) for(int q=0;q<fn;q++) e->copies.push_back({slot[i]+q,opAgg(v,q)}); else e->copies.push_back({slot[i],op(v)}); break; } } return e; };
  for(auto b=LLVMGetFirstBasicBlock(fv);b;b=LLVMGetNextBasicBlock(b)){
    f->bbStart.push_back(f->code.size());
    for(auto i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){
      LLVMOpcode o=LLVMGetInstructionOpcode(i); if(o==LLVMPHI) continue; Insn n; memset(&n,0,sizeof n); n.d= slot.count(i)?slot[i]:-1; 
      { unsigned ln=LLVMGetDebugLocLine(i); unsigned fl=0; const char*fp=LLVMGetDebugLocFilename(i,&fl); u32 fi=0; if(fp){ string s(fp,fl); size_t sl=s.rfind('/'); if(sl!=string::npos) s=s.substr(sl+1); for(fi=0;fi<f->files.size();fi++) if(f->files[fi]==s) break; if(fi==f->files.size()&&fi<250) f->files.push_back(s); } n.line=(fi<<24)|(ln&0xffffff); }
      auto err=[&](const char*m){ n.op=I_ERR; n.x=strdup(m); };
      auto ty=LLVMTypeOf(i); bool vec=LLVMGetTypeKind(ty)==LLVMVectorTypeKind; for(int q=0;q<LLVMGetNumOperands(i)&&o!=LLVMCall;q++) if(LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(i,q)))==LLVMVectorTypeKind) vec=true;
      if(vec){ err("vector instruction"); f->code.push_back(n); continue; }
      auto O=[&](int q){ return LLVMGetOperand(i,q); };
      switch(o){
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
          n.op=I_BIN; n.w=tw(ty); n.a=op(O(0)); n.b=op(O(1)); n.sub= o==LLVMAdd?ADD:o==LLVMSub?SUB:o==LLVMMul?MUL:o==LLVMUDiv?UDIV:o==LLVMSDiv?SDIV:o==LLVMURem?UREM:o==LLVMSRem?SREM:o==LLVMShl?SHL:o==LLVMLShr?LSHR:o==LLVMAShr?ASHR:o==LLVMAnd?AND:o==LLVMOr?OR:XOR; break; }
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: n.op=I_FBIN; n.w=tw(ty); n.a=op(O(0)); n.b=op(O(1)); n.sub=o==LLVMFAdd?FADD:o==LLVMFSub?FSUB:o==LLVMFMul?FMUL:o==LLVMFDiv?FDIV:FREM; break;
        case LLVMFNeg: n.op=I_FNEG; n.w=tw(ty); n.a=op(O(0)); break;
        case LLVMICmp: n.op=I_ICMP; n.w=tw(LLVMTypeOf(O(0))); n.a=op(O(0)); n.b=op(O(1)); n.sub=LLVMGetICmpPredicate(i); break;
        case LLVMFCmp: n.op=I_FCMP; n.w=tw(LLVMTypeOf(O(0))); n.a=op(O(0)); n.b=op(O(1)); n.sub=LLVMGetFCmpPredicate(i); break;
        case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: n.op=I_CAST; n.sub=o; n.w=tw(ty); n.w2=tw(LLVMTypeOf(O(0))); n.a=op(O(0)); break;
        case LLVMFreeze: if(isAgg(ty)){ err("freeze agg"); break; } n.op=I_COPY; n.a=op(O(0)); break;
        case LLVMAlloca: { n.op=I_ALLOCA; n.k=LLVMABISizeOfType(TD,LLVMGetAllocatedType(i)); n.a=op(O(0)); n.w=tw(LLVMTypeOf(O(0))); break; }
        case LLVMLoad: if(isAgg(ty)){ err("aggregate load"); break; } n.op=I_LOAD; n.w=tw(ty); n.a=op(O(0)); n.flg=LLVMGetVolatile(i)||LLVMGetOrdering(i)!=LLVMAtomicOrderingNotAtomic; break;
        case LLVMStore: if(isAgg(LLVMTypeOf(O(0)))){ err("aggregate store"); break; } n.op=I_STORE; n.w=tw(LLVMTypeOf(O(0))); n.b=op(O(0)); n.a=op(O(1)); n.flg=LLVMGetVolatile(i)||LLVMGetOrdering(i)!=LLVMAtomicOrderingNotAtomic; break;
        case LLVMAtomicRMW: n.op=I_ATOMRMW; n.w=tw(ty); n.a=op(O(0)); n.b=op(O(1)); n.sub=LLVMGetAtomicRMWBinOp(i); break;
        case LLVMAtomicCmpXchg: n.op=I_CMPXCHG; n.w=tw(LLVMTypeOf(O(1))); n.a=op(O(0)); n.b=op(O(1)); n.c=op(O(2)); break;
        case LLVMFence: n.op=I_NOP; break;
        case LLVMGetElementPtr: { n.op=I_GEP; n.a=op(O(0)); GepX*g=new GepX(); i64 off=0; LLVMTypeRef t=LLVMGetGEPSourceElementType(i); int no=LLVMGetNumOperands(i);
          for(int q=1;q<no;q++){ LLVMValueRef x=O(q); u64 sc; bool st=q>1&&LLVMGetTypeKind(t)==LLVMStructTypeKind; if(st){ unsigned ix=LLVMConstIntGetZExtValue(x); off+=LLVMOffsetOfElement(TD,t,ix); t=LLVMStructGetTypeAtIndex(t,ix); continue; } if(q>1) t=LLVMGetElementType(t); sc=LLVMABISizeOfType(TD,t); if(LLVMIsConstant(x)) off+=(i64)sxt(constU(x),tw(LLVMTypeOf(x)))*(i64)sc; else { g->idx.push_back({op(x),sc}); g->w.push_back(tw(LLVMTypeOf(x))); } }
          n.k=off; n.x=g; n.b=g->idx.size(); break; }
        case LLVMBr: if(LLVMIsConditional(i)){ n.op=I_CBR; n.a=op(LLVMGetCondition(i)); n.b=f->edges.size(); f->edges.push_back(mkEdge(b,LLVMGetSuccessor(i,0))); n.c=f->edges.size(); f->edges.push_back(mkEdge(b,LLVMGetSuccessor(i,1))); } else { n.op=I_BR; n.b=f->edges.size(); f->edges.push_back(mkEdge(b,LLVMGetSuccessor(i,0))); } break;
        case LLVMSwitch: { n.op=I_SWITCH; n.a=op(O(0)); n.w=tw(LLVMTypeOf(O(0))); SwitchX*s=new SwitchX(); std::map<LLVMBasicBlockRef,int> em; auto eo=[&](LLVMBasicBlockRef t){ if(em.count(t)) return em[t]; int r=f->edges.size(); f->edges.push_back(mkEdge(b,t)); em[t]=r; return r; }; n.c=eo(LLVMGetSwitchDefaultDest(i)); int no=LLVMGetNumOperands(i); for(int q=2;q<no;q+=2){ s->vals.push_back((u64)constU(O(q))); s->edge.push_back(eo(LLVMValueAsBasicBlock(O(q+1)))); } n.x=s; break; }
        case LLVMRet: if(LLVMGetNumOperands(i)==0) n.op=I_RET; else { n.op=I_RETV; LLVMValueRef v=O(0); if(isAgg(LLVMTypeOf(v))){ int m=flatN(LLVMTypeOf(v)); vector<int>*x=new vector<int>(); for(int q=0;q<m;q++) x->push_back(opAgg(v,q)); n.x=x; } else n.a=op(v); } break;
        case LLVMUnreachable: n.op=I_UNREACH; break;
        case LLVMSelect: if(isAgg(ty)){ err("aggregate select"); break; } n.op=I_SELECT; n.w=tw(ty); n.a=op(O(0)); n.b=op(O(1)); n.c=op(O(2)); break;
        case LLVMExtractValue: { const unsigned*ix=LLVMGetIndices(i); int ni=LLVMGetNumIndices(i); LLVMTypeRef t=LLVMTypeOf(O(0)); int off=0; for(int q=0;q<ni;q++){ if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned r=0;r<ix[q];r++) off+=flatN(LLVMStructGetTypeAtIndex(t,r)); t=LLVMStructGetTypeAtIndex(t,ix[q]); } else { t=LLVMGetElementType(t); off+=ix[q]*flatN(t);} } if(isAgg(ty)){ int m=flatN(ty); for(int q=0;q<m;q++){ Insn c=n; c.op=I_COPY; c.d=n.d+q; c.a=opAgg(O(0),off+q); if(q<m-1) f->code.push_back(c); else n=c; } } else { n.op=I_COPY; n.a=opAgg(O(0),off); } break; }
        case LLVMInsertValue: { const unsigned*ix=LLVMGetIndices(i); int ni=LLVMGetNumIndices(i); LLVMTypeRef t=ty; int off=0; for(int q=0;q<ni;q++){ if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned r=0;r<ix[q];r++) off+=flatN(LLVMStructGetTypeAtIndex(t,r)); t=LLVMStructGetTypeAtIndex(t,ix[q]); } else { t=LLVMGetElementType(t); off+=ix[q]*flatN(t);} } int m=flatN(ty), vm=flatN(LLVMTypeOf(O(1))); bool va=isAgg(LLVMTypeOf(O(1))); for(int q=0;q<m;q++){ Insn c=n; c.op=I_COPY; c.d=n.d+q; c.a= (q>=off&&q<off+vm)? (va?opAgg(O(1),q-off):op(O(1))) : opAgg(O(0),q); if(q<m-1) f->code.push_back(c); else n=c; } break; }
        case LLVMCall: { LLVMValueRef cv=LLVMGetCalledValue(i); int na=LLVMGetNumArgOperands(i); 
          if(LLVMIsAInlineAsm(cv)){ char*s=LLVMPrintValueToString(cv); n.op= strstr(s,"pause")? I_ASM: I_ERR; if(n.op==I_ERR) n.x=strdup("inline asm"); LLVMDisposeMessage(s); break; }
          CallX*c=new CallX(); c->f=nullptr; c->native=-1; c->n=0; bool vecarg=false; for(int q=0;q<na;q++){ LLVMValueRef x=O(q); auto k=LLVMGetTypeKind(LLVMTypeOf(x)); if(k==LLVMVectorTypeKind) vecarg=true; if(k==LLVMMetadataTypeKind){ c->args.push_back(-1); c->w.push_back(0);} else { c->args.push_back(op(x)); c->w.push_back(tw(LLVMTypeOf(x))); } }
          c->retw= LLVMGetTypeKind(ty)==LLVMVoidTypeKind?0:tw(ty); n.x=c; n.op=I_CALL; if(f->consts.empty()) addConst(0,64);
          unsigned bk=LLVMGetEnumAttributeKindForName("byval",5); for(int q=0;q<na;q++) if(LLVMGetCallSiteEnumAttribute(i,q+1,bk)) { err("byval argument"); }
          if(vecarg){ err("vector call"); break; }
          if(LLVMIsAFunction(cv)){ Func*cf=fnByVal[cv]; if(cf->name.compare(0,5,"llvm.")==0){ int sub; int ik=intrKind(cf->name,sub); if(ik==N_NONE) err(strdup(("intrinsic "+cf->name).c_str())); else if(ik==N_IGN) n.op=I_NOP; else { n.op=I_INTRIN; n.sub=ik; n.flg=sub; n.w= na?c->w[0]:0; n.w2=c->retw; if(ik==N_OBJSIZE) n.k=0; } } else c->f=cf; }
          else n.a=op(cv), n.flg=1;
          break; }
        default: { char b[64]; snprintf(b,64,"unsupported opcode %d",o); err(b); }
      }
      f->code.push_back(n);
    }
  }
  f->nregs=nr+1;
}
static void loadBitcode(const char*p){
  LLVMMemoryBufferRef mb; char*m; if(LLVMCreateMemoryBufferWithContentsOfFile(p,&mb,&m)){ fprintf(stderr,"%s\n",m); exit(3);} LLVMContextRef cx=LLVMContextCreate(); if(LLVMParseBitcodeInContext2(cx,mb,&mod)){ fprintf(stderr,"cannot parse %s\n",p); exit(3);} TD=LLVMGetModuleDataLayout(mod);
  for(auto f=LLVMGetFirstFunction(mod);f;f=LLVMGetNextFunction(f)){ size_t l; const char*n=LLVMGetValueName2(f,&l); Func*g=newFunc(string(n,l)); fnByVal[f]=g; g->nargs=LLVMCountParams(f); g->vararg=LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f)); g->defined=!LLVMIsDeclaration(f); if(!g->defined) g->natid=findNative(g->name); }
  for(auto g=LLVMGetFirstGlobal(mod);g;g=LLVMGetNextGlobal(g)){ u64 sz=LLVMIsDeclaration(g)?64:LLVMABISizeOfType(TD,LLVMGlobalGetValueType(g)); gaddr[g]=gmalloc(sz?sz:1,std::max(16u,LLVMGetAlignment(g))); if(LLVMIsDeclaration(g)){ *(u64*)gaddr[g]=gaddr[g]; } }
  for(auto a=LLVMGetFirstGlobalAlias(mod);a;a=LLVMGetNextGlobalAlias(a)) gaddr[a]=(u64)constU(LLVMAliasGetAliasee(a));
  for(auto g=LLVMGetFirstGlobal(mod);g;g=LLVMGetNextGlobal(g)) if(!LLVMIsDeclaration(g)) initMem(gaddr[g],LLVMGetInitializer(g));
  for(auto f=LLVMGetFirstFunction(mod);f;f=LLVMGetNextFunction(f)) if(!LLVMIsDeclaration(f)) decodeFn(f,fnByVal[f]);
  if(getenv("SYMX_UNDEF")) for(Func*f:funcs) if(!f->defined&&f->natid<0&&f->name.compare(0,5,"llvm.")) fprintf(stderr,"undefined: %s\n",f->name.c_str());
  LLVMContextDispose(cx);
}
