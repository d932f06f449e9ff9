#include "solver.hpp"
#include <z3.h>
#include <time.h>
#include <unistd.h>
static Z3_context ctx; static Z3_sort s64,s32,s80; static Z3_ast rne;
static u64 rlimitQ=0;
double nowS(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void errH(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(77); }
void solverInit(u64 rl){ Z3_config c=Z3_mk_config(); Z3_set_param_value(c,"model","true"); ctx=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(ctx,errH);
  s64=Z3_mk_fpa_sort_64(ctx); s32=Z3_mk_fpa_sort_32(ctx); s80=Z3_mk_fpa_sort(ctx,15,64); rne=Z3_mk_fpa_rne(ctx); rlimitQ=rl; }
static Z3_ast bvnum(int w,U v){ Z3_sort s=Z3_mk_bv_sort(ctx,w); if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,s);
  Z3_ast hi=Z3_mk_unsigned_int64(ctx,(u64)(v>>64),Z3_mk_bv_sort(ctx,w-64)), lo=Z3_mk_unsigned_int64(ctx,(u64)v,Z3_mk_bv_sort(ctx,64)); return Z3_mk_concat(ctx,hi,lo); }
static Z3_ast zz(Expr*e);
static Z3_ast zb(Expr*e){ return zz(e); }
static Z3_ast zv(Expr*e){ Z3_ast r=zz(e); if(e->w==1) return Z3_mk_ite(ctx,r,bvnum(1,1),bvnum(1,0)); return r; }
static Z3_sort fsort(int w){ return w==64?s64:w==32?s32:s80; }
// x87 80-bit patterns carry an explicit integer bit; convert through concat/extract
static Z3_ast toF(Expr*e,int w){ Z3_ast v=zv(e); if(w!=80) return Z3_mk_fpa_to_fp_bv(ctx,v,fsort(w));
  Z3_ast se=Z3_mk_extract(ctx,79,64,v), fr=Z3_mk_extract(ctx,62,0,v); return Z3_mk_fpa_to_fp_bv(ctx,Z3_mk_concat(ctx,se,fr),s80); }
static Z3_ast fromF(Z3_ast f,int w){ Z3_ast v=Z3_mk_fpa_to_ieee_bv(ctx,f); if(w!=80) return v;
  Z3_ast se=Z3_mk_extract(ctx,78,63,v), fr=Z3_mk_extract(ctx,62,0,v); Z3_ast ex=Z3_mk_extract(ctx,77,63,v);
  Z3_ast ib=Z3_mk_ite(ctx,Z3_mk_eq(ctx,ex,bvnum(15,0)),bvnum(1,0),bvnum(1,1)); return Z3_mk_concat(ctx,se,Z3_mk_concat(ctx,ib,fr)); }
static Z3_ast zz(Expr*e){
  if(e->z) return (Z3_ast)e->z; Z3_ast r; int w=e->w;
  auto A=[&]{return zv(e->a);}; auto B=[&]{return zv(e->b);};
  auto bool2=[&](Z3_ast bv){ return w==1? Z3_mk_eq(ctx,bv,bvnum(1,1)) : bv; };
  switch(e->op){
    case CONST: r= w==1? (e->k?Z3_mk_true(ctx):Z3_mk_false(ctx)) : bvnum(w,e->k); break;
    case SYM: { char n[24]; snprintf(n,24,"s%u",(u32)e->k); r= Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n), w==1?Z3_mk_bool_sort(ctx):Z3_mk_bv_sort(ctx,w)); break; }
    case ADD: r=bool2(Z3_mk_bvadd(ctx,A(),B())); break; case SUB: r=bool2(Z3_mk_bvsub(ctx,A(),B())); break; case MUL: r=bool2(Z3_mk_bvmul(ctx,A(),B())); break;
    case UDIV: r=bool2(Z3_mk_bvudiv(ctx,A(),B())); break; case SDIV: r=bool2(Z3_mk_bvsdiv(ctx,A(),B())); break; case UREM: r=bool2(Z3_mk_bvurem(ctx,A(),B())); break; case SREM: r=bool2(Z3_mk_bvsrem(ctx,A(),B())); break;
    case AND: if(w==1){ Z3_ast x[2]={zb(e->a),zb(e->b)}; r=Z3_mk_and(ctx,2,x);} else r=Z3_mk_bvand(ctx,A(),B()); break;
    case OR: if(w==1){ Z3_ast x[2]={zb(e->a),zb(e->b)}; r=Z3_mk_or(ctx,2,x);} else r=Z3_mk_bvor(ctx,A(),B()); break;
    case XOR: if(w==1){ if(isC(e->b)&&e->b->k) r=Z3_mk_not(ctx,zb(e->a)); else r=Z3_mk_xor(ctx,zb(e->a),zb(e->b)); } else r=Z3_mk_bvxor(ctx,A(),B()); break;
    case SHL: r=bool2(Z3_mk_bvshl(ctx,A(),B())); break; case LSHR: r=bool2(Z3_mk_bvlshr(ctx,A(),B())); break; case ASHR: r=bool2(Z3_mk_bvashr(ctx,A(),B())); break;
    case EQ: r=Z3_mk_eq(ctx,zz(e->a),zz(e->b)); break;
    case ULT: r=Z3_mk_bvult(ctx,A(),B()); break; case ULE: r=Z3_mk_bvule(ctx,A(),B()); break; case SLT: r=Z3_mk_bvslt(ctx,A(),B()); break; case SLE: r=Z3_mk_bvsle(ctx,A(),B()); break;
    case CONCAT: r=Z3_mk_concat(ctx,A(),B()); break;
    case EXTRACT: r=bool2(Z3_mk_extract(ctx,(int)e->k+w-1,(int)e->k,A())); break;
    case ZEXT: r=Z3_mk_zero_ext(ctx,w-e->a->w,A()); break; case SEXT: r=Z3_mk_sign_ext(ctx,w-e->a->w,A()); break;
    case ITE: r=Z3_mk_ite(ctx,zb(e->a),zz(e->b),zz(e->c)); break;
    case FADD: r=fromF(Z3_mk_fpa_add(ctx,rne,toF(e->a,w),toF(e->b,w)),w); break; case FSUB: r=fromF(Z3_mk_fpa_sub(ctx,rne,toF(e->a,w),toF(e->b,w)),w); break;
    case FMUL: r=fromF(Z3_mk_fpa_mul(ctx,rne,toF(e->a,w),toF(e->b,w)),w); break; case FDIV: r=fromF(Z3_mk_fpa_div(ctx,rne,toF(e->a,w),toF(e->b,w)),w); break;
    case FSQRT: r=fromF(Z3_mk_fpa_sqrt(ctx,rne,toF(e->a,w)),w); break;
    case FLT: r=Z3_mk_fpa_lt(ctx,toF(e->a,e->fpw),toF(e->b,e->fpw)); break; case FLE: r=Z3_mk_fpa_leq(ctx,toF(e->a,e->fpw),toF(e->b,e->fpw)); break; case FEQ: r=Z3_mk_fpa_eq(ctx,toF(e->a,e->fpw),toF(e->b,e->fpw)); break;
    case FUNO: { Z3_ast x[2]={Z3_mk_fpa_is_nan(ctx,toF(e->a,e->fpw)),Z3_mk_fpa_is_nan(ctx,toF(e->b,e->fpw))}; r=Z3_mk_or(ctx,2,x); break; }
    case SI2F: r=fromF(Z3_mk_fpa_to_fp_signed(ctx,rne,A(),fsort(w)),w); break; case UI2F: r=fromF(Z3_mk_fpa_to_fp_unsigned(ctx,rne,A(),fsort(w)),w); break;
    case F2F: r=fromF(Z3_mk_fpa_to_fp_float(ctx,rne,toF(e->a,e->a->w),fsort(w)),w); break;
    case FRINT: { int m=(int)e->k; Z3_ast rm= m==0?Z3_mk_fpa_rtn(ctx):m==1?Z3_mk_fpa_rtp(ctx):m==2?Z3_mk_fpa_rtz(ctx):m==3?Z3_mk_fpa_rna(ctx):rne; r=fromF(Z3_mk_fpa_round_to_integral(ctx,rm,toF(e->a,w)),w); break; }
    case F2SI: case F2UI: { int sw=e->a->w; bool sg=e->op==F2SI; int ew= sg&&w<32?32:w; Z3_ast f=toF(e->a,sw); Z3_ast rtz=Z3_mk_fpa_rtz(ctx);
        Z3_ast t=Z3_mk_fpa_round_to_integral(ctx,rtz,f);
        double lim=1; for(int i=0;i<(sg?ew-1:ew);i++) lim*=2;
        Z3_ast hi=Z3_mk_fpa_numeral_double(ctx,lim,fsort(sw)), lo=Z3_mk_fpa_numeral_double(ctx,sg?-lim:0,fsort(sw));
        Z3_ast c[2]={Z3_mk_fpa_lt(ctx,t,hi),Z3_mk_fpa_geq(ctx,t,lo)}; Z3_ast ok=Z3_mk_and(ctx,2,c);
        Z3_ast v= sg? Z3_mk_fpa_to_sbv(ctx,rtz,f,ew):Z3_mk_fpa_to_ubv(ctx,rtz,f,ew);
        r=Z3_mk_ite(ctx,ok,v,bvnum(ew,(U)1<<(ew-1))); if(ew!=w) r=Z3_mk_extract(ctx,w-1,0,r); break; }
    default: fprintf(stderr,"engine: no SMT translation for op %d\n",e->op); _exit(77);
  }
  e->z=r; return r;
}
int z3solve(const std::vector<Expr*>&cs,const std::vector<std::pair<u32,int>>&syms,Model&out){
  bool fp=false; for(Expr*c:cs) fp|=c->hasfp;
  Z3_solver s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,fp?"QF_FPBV":"QF_BV")); Z3_solver_inc_ref(ctx,s);
  if(rlimitQ){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)rlimitQ); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);} 
  for(Expr*c:cs) Z3_solver_assert(ctx,s,zb(c));
  Z3_lbool r=Z3_solver_check(ctx,s); int ret=-1;
  if(r==Z3_L_FALSE) ret=0;
  else if(r==Z3_L_TRUE){ ret=1; Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
    for(auto&p:syms){ Expr*se=mkSymId(p.second,p.first); Z3_ast v; U val=0;
      if(p.second==1){ if(Z3_model_eval(ctx,m,zz(se),true,&v)) val= Z3_get_bool_value(ctx,v)==Z3_L_TRUE; }
      else if(p.second<=64){ if(Z3_model_eval(ctx,m,zz(se),true,&v)){ uint64_t x=0; Z3_get_numeral_uint64(ctx,v,&x); val=x; } }
      else { Z3_ast lo=Z3_mk_extract(ctx,63,0,zz(se)),hi=Z3_mk_extract(ctx,p.second-1,64,zz(se)); uint64_t x=0,y=0; if(Z3_model_eval(ctx,m,lo,true,&v)) Z3_get_numeral_uint64(ctx,v,&x); if(Z3_model_eval(ctx,m,hi,true,&v)) Z3_get_numeral_uint64(ctx,v,&y); val=((U)y<<64)|x; }
      if(out.size()<=p.first) out.resize(p.first+1,0); out[p.first]=val; }
    Z3_model_dec_ref(ctx,m); }
  Z3_solver_dec_ref(ctx,s); return ret;
}
std::string z3smt(const std::vector<Expr*>&cs){ Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); for(Expr*c:cs) Z3_solver_assert(ctx,s,zb(c)); std::string r=Z3_solver_to_string(ctx,s); Z3_solver_dec_ref(ctx,s); return r; }
