#include "expr.hpp"
#include <cmath>
std::vector<Expr*> htab; u32 nexpr=0; u32 evalEpoch=1;
static char* pool=nullptr; static size_t poolLeft=0;
static Expr* allocE(){ if(poolLeft<sizeof(Expr)){ poolLeft=1<<20; pool=(char*)malloc(poolLeft);} Expr*e=(Expr*)pool; pool+=sizeof(Expr); poolLeft-=sizeof(Expr); return e; }
static inline u32 hmix(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return (u32)h; }

U fpFold2(int op,int w,U a,U b){
#define DO(T,from,to) { T x=from(a),y=from(b),r=0; switch(op){case FADD:r=x+y;break;case FSUB:r=x-y;break;case FMUL:r=x*y;break;case FDIV:r=x/y;break;case FREM:r=(T)fmodl(x,y); if(w==64) r=fmod((double)x,(double)y); break; \
  case FSQRT: r=(T)sqrtl(x); if(w==64) r=sqrt((double)x); break; case FLT:return x<y;case FLE:return x<=y;case FEQ:return x==y;case FUNO:return x!=x||y!=y;default:abort();} return to(r);}
  if(w==64) DO(double,bd,db) if(w==32) DO(float,bf,fb) DO(long double,bx,xb)
}
static inline long double toL(U a,int w){ return w==64? (long double)bd(a): w==32? (long double)bf(a): bx(a); }
static inline U fromL(long double d,int w){ return w==64? db((double)d): w==32? fb((float)d): xb(d); }
U fpConv(int op,int dw,int sw,U a){
  if(op==F2F) return fromL(toL(a,sw),dw);
  if(op==SI2F){ I128 v=sxt(a,sw); if(dw==64) return db((double)(i64)v); if(dw==32) return fb((float)(i64)v); return xb((long double)(i64)v);}
  if(op==UI2F){ u64 v=(u64)a; if(dw==64) return db((double)v); if(dw==32) return fb((float)v); return xb((long double)v);}
  long double d=toL(a,sw);
  if(op==F2SI){ int ew= dw<32?32:dw; long double lim=ldexpl(1.0L,ew-1); if(!(d>-lim-1.0L && d<lim)) return ((U)1<<(ew-1))&maskW(dw);
     return (U)(I128)(i64)d & maskW(dw); }
  if(op==F2UI){ long double lim=ldexpl(1.0L,dw); if(!(d>-1.0L && d<lim)) return ((U)1<<(dw-1))&maskW(dw); return (U)(u64)d & maskW(dw);}
  abort();
}
U fpRint(int mode,int w,U a){ // 0 floor 1 ceil 2 trunc 3 round-half-away 4 rint (half even)
  if(w==64){ double d=bd(a); d= mode==0?floor(d):mode==1?ceil(d):mode==2?trunc(d):mode==3?round(d):rint(d); return db(d);}
  if(w==32){ float d=bf(a); d= mode==0?floorf(d):mode==1?ceilf(d):mode==2?truncf(d):mode==3?roundf(d):rintf(d); return fb(d);}
  long double d=bx(a); d= mode==0?floorl(d):mode==1?ceill(d):mode==2?truncl(d):mode==3?roundl(d):rintl(d); return xb(d);
}

static void analyze(Expr*e){
  int w=e->w; u64 m=w<=64?mask64(w):0; e->kz=e->ko=0; e->lo=0; e->hi=m; e->leaves=0; e->size=1; memset(&e->ss,0,sizeof e->ss);
  e->hasfp= e->op>=FADD;
  for(Expr*x:{e->a,e->b,e->c}) if(x){ for(int i=0;i<6;i++) e->ss.w[i]|=x->ss.w[i]; e->size+=x->size; e->hasfp|=x->hasfp; }
  if(e->size>1000000000) e->size=1000000000;
  if(e->op==SYM){ e->ss.w[e->k>>6]|=1ull<<(e->k&63); return; }
  if(e->op==CONST){ e->leaves=1; if(w<=64){ e->ko=(u64)e->k; e->kz=~e->ko&m; e->lo=e->hi=(u64)e->k;} return; }
  if(e->op==ITE){ if(e->b->leaves&&e->c->leaves) e->leaves=e->b->leaves+e->c->leaves; }
  if(w>64) return;
  Expr*a=e->a,*b=e->b;
  switch(e->op){
    case ITE: b=e->b; e->kz=b->kz&e->c->kz; e->ko=b->ko&e->c->ko; e->lo=std::min(b->lo,e->c->lo); e->hi=std::max(b->hi,e->c->hi); break;
    case AND: e->kz=a->kz|b->kz; e->ko=a->ko&b->ko; e->hi=std::min(a->hi,b->hi); break;
    case OR: e->kz=a->kz&b->kz; e->ko=a->ko|b->ko; e->lo=std::max(a->lo,b->lo); break;
    case XOR: e->kz=(a->kz&b->kz)|(a->ko&b->ko); e->ko=(a->kz&b->ko)|(a->ko&b->kz); break;
    case ZEXT: e->kz=a->kz|(m&~mask64(a->w)); e->ko=a->ko; e->lo=a->lo; e->hi=a->hi; break;
    case SEXT: { u64 s=1ull<<(a->w-1); u64 up=m&~mask64(a->w); e->kz=a->kz; e->ko=a->ko; if(a->kz&s) {e->kz|=up; e->lo=a->lo;e->hi=a->hi;} else if(a->ko&s) e->ko|=up;
        if(a->hi<s){e->lo=a->lo;e->hi=a->hi;e->kz|=up;} else if(a->lo>=s){e->lo=a->lo|up;e->hi=a->hi|up;e->ko|=up;} break; }
    case CONCAT: if(b->w<64){ e->kz=(a->kz<<b->w)|b->kz; e->ko=(a->ko<<b->w)|b->ko; e->lo=(a->lo<<b->w)+b->lo; e->hi=(a->hi<<b->w)+b->hi; } break;
    case EXTRACT: if(a->w<=64){ e->kz=(a->kz>>(u64)e->k)&m; e->ko=(a->ko>>(u64)e->k)&m; if((u64)e->k==0 && a->hi<=m){e->lo=a->lo;e->hi=a->hi;} else if((u64)e->k>0){ u64 s=(u64)e->k; if(a->w-(int)s==w){ e->lo=a->lo>>s; e->hi=a->hi>>s; } else if((a->hi>>s)<=m){ e->lo=a->lo>>s; e->hi=a->hi>>s;} } } break;
    case ADD: { u64 l=a->lo+b->lo,h=a->hi+b->hi; bool ol= w==64? l<a->lo : l>m, oh= w==64? h<a->hi : h>m; if(!ol&&!oh){e->lo=l;e->hi=h;} else if(ol&&oh){ e->lo=l&m; e->hi=h&m; }
        // low known bits
        u64 kn=(a->kz|a->ko)&(b->kz|b->ko); int t= kn==~0ull?64:__builtin_ctzll(~kn); if(t>0){ u64 lm=mask64(t)&m; u64 v=(a->ko+b->ko)&lm; e->ko|=v; e->kz|=~v&lm; } break; }
    case SUB: { if(a->lo>=b->hi){ e->lo=a->lo-b->hi; e->hi=a->hi-b->lo; }
        u64 kn=(a->kz|a->ko)&(b->kz|b->ko); int t= kn==~0ull?64:__builtin_ctzll(~kn); if(t>0){ u64 lm=mask64(t)&m; u64 v=(a->ko-b->ko)&lm; e->ko|=v; e->kz|=~v&lm; } break; }
    case MUL: { U h=(U)a->hi*b->hi; if(h<=m){ e->lo=a->lo*b->lo; e->hi=(u64)h; } int ta= a->kz==~0ull?64:__builtin_ctzll(~a->kz), tb=b->kz==~0ull?64:__builtin_ctzll(~b->kz); int t=ta+tb; if(t>w)t=w; if(t>0) e->kz|=mask64(t); break; }
    case UDIV: if(b->lo>0){ e->lo=a->lo/b->hi; e->hi=a->hi/b->lo; } break;
    case UREM: if(b->hi>0&&b->lo>0) e->hi=std::min(a->hi,b->hi-1); break;
    case LSHR: e->hi=a->hi; break;
    default: break;
  }
  // cross refine
  u64 bl=e->ko, bh=~e->kz&m; if(bl>e->lo) e->lo=bl; if(bh<e->hi) e->hi=bh;
  if(e->lo<=e->hi){ u64 d=e->lo^e->hi; int n= d? 64-__builtin_clzll(d):0; if(n<64){ u64 hm=m&~mask64(n); if(n==0) hm=m; e->ko|=e->lo&hm; e->kz|=~e->lo&hm; } }
  else { e->lo=0; e->hi=m; }
}

static Expr* intern(Op op,int w,U k,Expr*a,Expr*b,Expr*c,int fpw=0){
  u64 h=op*1000003ull+w*7919ull+fpw*31; h=h*0x9E3779B97F4A7C15ULL+(u64)k; h=h*0x9E3779B97F4A7C15ULL+(u64)(k>>64); h=h*0x9E3779B97F4A7C15ULL+(a?a->id+1:0); h=h*0x9E3779B97F4A7C15ULL+(b?b->id+1:0); h=h*0x9E3779B97F4A7C15ULL+(c?c->id+1:0);
  u32 hh=hmix(h);
  if(htab.empty()) htab.assign(1<<16,nullptr);
  u32 ix=hh&(htab.size()-1);
  for(Expr*e=htab[ix];e;e=e->next) if(e->hash==hh&&e->op==op&&e->w==w&&e->k==k&&e->a==a&&e->b==b&&e->c==c&&e->fpw==fpw) return e;
  if(nexpr>htab.size()){ std::vector<Expr*> n(htab.size()*4,nullptr); for(Expr*e:htab) while(e){ Expr*nx=e->next; u32 i=e->hash&(n.size()-1); e->next=n[i]; n[i]=e; e=nx;} htab.swap(n); ix=hh&(htab.size()-1); }
  Expr*e=allocE(); memset((void*)e,0,sizeof *e); e->op=op; e->w=w; e->fpw=fpw; e->k=k; e->a=a;e->b=b;e->c=c; e->id=nexpr++; e->hash=hh; e->next=htab[ix]; htab[ix]=e;
  analyze(e);
  // fully determined by known bits -> the caller sees a constant
  return e;
}
static inline Expr* fin(Expr*e){ if(e->w<=64&&e->op!=CONST&&e->lo==e->hi) return mkConst(e->w,e->lo); return e; }
Expr* mkConst(int w,U v){ return intern(CONST,w,v&maskW(w),0,0,0); }
Expr* mkSymId(int w,u32 id){ return intern(SYM,w,id,0,0,0); }
static bool isNot(Expr*e){ return e->w==1&&e->op==XOR&&isC(e->b); }
Expr* mkNot(Expr*a){ return mk2(XOR,a,mkConst(1,1)); }

static U fold2(Op op,int w,U a,U b){
  U m=maskW(w);
  switch(op){
    case ADD:return (a+b)&m; case SUB:return (a-b)&m; case MUL:return (a*b)&m;
    case UDIV:return b? a/b : m; case UREM:return b? a%b : a;
    case SDIV:{ I128 x=sxt(a,w),y=sxt(b,w); if(y==0) return x<0?1:m; if(y==-1) return ((U)0-a)&m; return (U)(x/y)&m; }
    case SREM:{ I128 x=sxt(a,w),y=sxt(b,w); if(y==0) return a; if(y==-1) return 0; return (U)(x%y)&m; }
    case AND:return a&b; case OR:return a|b; case XOR:return a^b;
    case SHL:return b>=(U)w?0:(a<<(int)b)&m; case LSHR:return b>=(U)w?0:a>>(int)b;
    case ASHR:{ I128 x=sxt(a,w); int s=b>=(U)w?w-1:(int)b; return (U)(x>>s)&m; }
    case EQ:return a==b; case ULT:return a<b; case ULE:return a<=b; case SLT:return sxt(a,w)<sxt(b,w); case SLE:return sxt(a,w)<=sxt(b,w);
    default: abort();
  }
}
static Expr* mapLeaves(Expr*t,const std::function<Expr*(Expr*)>&f){
  if(t->op==ITE){ Expr*x=mapLeaves(t->b,f),*y=mapLeaves(t->c,f); return mkIte(t->a,x,y);} return f(t);
}
static const u32 LEAFMAX=80;

Expr* mkExtract(Expr*a,int off,int w){
  if(off==0&&w==a->w) return a;
  if(isC(a)) return mkConst(w,a->k>>off);
  switch(a->op){
    case EXTRACT: return mkExtract(a->a,off+(int)a->k,w);
    case CONCAT: { int lw=a->b->w; if(off+w<=lw) return mkExtract(a->b,off,w); if(off>=lw) return mkExtract(a->a,off-lw,w);
       return mkConcat(mkExtract(a->a,0,off+w-lw),mkExtract(a->b,off,lw-off)); }
    case ZEXT: { int iw=a->a->w; if(off>=iw) return mkConst(w,0); if(off+w<=iw) return mkExtract(a->a,off,w); return mkZext(mkExtract(a->a,off,iw-off),w);}
    case SEXT: { int iw=a->a->w; if(off+w<=iw) return mkExtract(a->a,off,w); if(off<iw) return mkSext(mkExtract(a->a,off,iw-off),w); break;}
    case AND: case OR: case XOR: if(isC(a->b)||off==0||1) return mk2(a->op,mkExtract(a->a,off,w),mkExtract(a->b,off,w)); break;
    case ADD: case SUB: case MUL: if(off==0) return mk2(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
    case ITE: if(a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mkExtract(x,off,w);}); if(isC(a->b)||isC(a->c)) return mkIte(a->a,mkExtract(a->b,off,w),mkExtract(a->c,off,w)); break;
    default: break;
  }
  return fin(intern(EXTRACT,w,off,a,0,0));
}
Expr* mkZext(Expr*a,int w){
  if(w==a->w) return a; if(isC(a)) return mkConst(w,a->k); if(a->op==ZEXT) return mkZext(a->a,w);
  if(a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mkZext(x,w);});
  return fin(intern(ZEXT,w,0,a,0,0));
}
Expr* mkSext(Expr*a,int w){
  if(w==a->w) return a; if(isC(a)) return mkConst(w,(U)sxt(a->k,a->w)); if(a->op==SEXT) return mkSext(a->a,w); if(a->op==ZEXT) return mkZext(a->a,w);
  if(a->w<=64&&(a->kz>>(a->w-1)&1)) return mkZext(a,w);
  if(a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mkSext(x,w);});
  return fin(intern(SEXT,w,0,a,0,0));
}
Expr* mkConcat(Expr*h,Expr*l){
  int w=h->w+l->w; if(w>128) abort();
  if(isC(h)&&isC(l)) return mkConst(w,(h->k<<l->w)|l->k);
  if(h->op==EXTRACT&&l->op==EXTRACT&&h->a==l->a&&(int)h->k==(int)l->k+l->w) return mkExtract(h->a,(int)l->k,w);
  if(h->op==EXTRACT&&h->a==l&&(int)h->k==l->w) return mkExtract(l,0,w);
  if(h->op==EXTRACT&&(l->op!=EXTRACT)&&h->a==l) {}
  if(isC(h)&&h->k==0) return mkZext(l,w);
  if(l->op==CONCAT) return mkConcat(mkConcat(h,l->a),l->b);
  return fin(intern(CONCAT,w,0,h,l,0));
}
Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isC(c)) return c->k?a:b; if(a==b) return a;
  if(isNot(c)) return mkIte(c->a,b,a);
  if(a->op==ITE&&a->a==c) a=a->b; if(b->op==ITE&&b->a==c) b=b->c; if(a==b) return a;
  if(a->w==1){
    if(isC(a)&&isC(b)) return a->k? c : mkNot(c);
    if(isC(a)) return a->k? mk2(OR,c,b) : mk2(AND,mkNot(c),b);
    if(isC(b)) return b->k? mk2(OR,mkNot(c),a) : mk2(AND,c,a);
  }
  if(b->op==ITE&&b->b==a) return mkIte(mk2(OR,c,b->a),a,b->c);
  return fin(intern(ITE,a->w,0,c,a,b));
}
static int trailingZeroConst(Expr*e){ return 0; }
static bool srange(Expr*e,i64&lo,i64&hi){ // signed interval
  int w=e->w; if(w>64) return false; u64 s=1ull<<(w-1); if(e->hi<s||e->lo>=s){ lo=sxt64(e->lo,w); hi=sxt64(e->hi,w); return true; }
  if(e->op==SEXT){ int aw=e->a->w; i64 l,h; if(srange(e->a,l,h)){lo=l;hi=h;} else {lo=-(1ll<<(aw-1));hi=(1ll<<(aw-1))-1;} return true; }
  if(e->op==ADD){ i64 l1,h1,l2,h2; if(srange(e->a,l1,h1)&&srange(e->b,l2,h2)){ I128 l=(I128)l1+l2,h=(I128)h1+h2; I128 mn=sxt((U)1<<(w-1),w), mx=-(mn+1); if(l>=mn&&h<=mx){lo=(i64)l;hi=(i64)h;return true;} } }
  if(e->op==ITE){ i64 l1,h1,l2,h2; if(srange(e->b,l1,h1)&&srange(e->c,l2,h2)){ lo=std::min(l1,l2); hi=std::max(h1,h2); return true; } }
  lo=sxt64((u64)1<<(w-1),w); hi=-(lo+1); return true;
}
// complementary: ult(a,b) == !ule(b,a)
static bool isNegOf(Expr*x,Expr*y){
  if(isNot(x)&&x->a==y) return true; if(isNot(y)&&y->a==x) return true;
  auto f=[](Expr*p,Expr*q){ return ((p->op==ULT&&q->op==ULE)||(p->op==SLT&&q->op==SLE))&&p->a==q->b&&p->b==q->a; };
  return f(x,y)||f(y,x);
}
static Expr* divConst(bool,Expr*,u64);
Expr* mk2(Op op,Expr*a,Expr*b){
  int w=a->w; if(a->w!=b->w){ fprintf(stderr,"width mismatch op %d: %d %d\n",op,a->w,b->w); abort(); }
  int rw=(op>=EQ&&op<=SLE)?1:w;
  if(isC(a)&&isC(b)) return mkConst(rw,fold2(op,w,a->k,b->k));
  bool comm= op==ADD||op==MUL||op==AND||op==OR||op==XOR||op==EQ;
  if(comm&&(isC(a)||(!isC(b)&&a->id>b->id))) std::swap(a,b);
  // distribute over ITE-of-constants
  if(!(w==1&&(op==AND||op==OR||op==XOR))){
    if(isC(b)&&a->op==ITE&&a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mk2(op,x,b);});
    if(isC(a)&&b->op==ITE&&b->leaves&&b->leaves<=LEAFMAX) return mapLeaves(b,[&](Expr*x){return mk2(op,a,x);});
    if(a->op==ITE&&b->op==ITE&&a->leaves&&b->leaves&&a->leaves*b->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mapLeaves(b,[&](Expr*y){return mk2(op,x,y);});});
  }
  U ones=maskW(w);
  switch(op){
    case ADD:
      if(isC(b)){ if(b->k==0) return a; if(a->op==ADD&&isC(a->b)) return mk2(ADD,a->a,mkConst(w,a->b->k+b->k)); if(a->op==SUB&&isC(a->a)) return mk2(SUB,mkConst(w,a->a->k+b->k),a->b);
        if(a->op==CONCAT&&isC(a->b)&& (b->k&maskW(a->b->w))==0) return mkConcat(mk2(ADD,a->a,mkConst(a->a->w,b->k>>a->b->w)),a->b);
        if(a->op==CONCAT&&isC(a->b)){ U s=a->b->k+(b->k&maskW(a->b->w)); if(s<=maskW(a->b->w)) return mkConcat(mk2(ADD,a->a,mkConst(a->a->w,b->k>>a->b->w)),mkConst(a->b->w,s)); } }
      else { if(a->op==ADD&&isC(a->b)) return mk2(ADD,mk2(ADD,a->a,b),a->b); if(b->op==ADD&&isC(b->b)) return mk2(ADD,mk2(ADD,a,b->a),b->b); 
        if(b->op==SUB&&b->b==a) return b->a; if(a->op==SUB&&a->b==b) return a->a; }
      break;
    case SUB: if(a==b) return mkConst(w,0); if(isC(b)) return mk2(ADD,a,mkConst(w,(U)0-b->k));
      if(a->op==ADD&&a->b==b) return a->a; if(a->op==ADD&&a->a==b) return a->b;
      if(a->op==ADD&&isC(a->b)) return mk2(ADD,mk2(SUB,a->a,b),a->b);
      if(b->op==ADD&&isC(b->b)) return mk2(ADD,mk2(SUB,a,b->a),mkConst(w,(U)0-b->b->k));
      break;
    case MUL: if(isC(b)){ if(b->k==0) return b; if(b->k==1) return a; if((b->k&(b->k-1))==0){ int s=0; while(!((b->k>>s)&1)) s++; return mk2(SHL,a,mkConst(w,s)); } } break;
    case SDIV: case SREM: if(w<=64){ u64 sb=1ull<<(w-1); if(a->hi<sb&&b->hi<sb&&b->lo>0) return mk2(op==SDIV?UDIV:UREM,a,b); } break;
    case UDIV: if(isC(b)&&b->k&&(b->k&(b->k-1))==0){ int s=0; while(!((b->k>>s)&1)) s++; return mk2(LSHR,a,mkConst(w,s)); } if(isC(b)&&w<=64){ Expr*r=divConst(true,a,(u64)b->k); if(r) return r; } break;
    case UREM: if(isC(b)&&b->k&&(b->k&(b->k-1))==0) return mk2(AND,a,mkConst(w,b->k-1)); if(w<=64&&isC(b)&&a->hi<(u64)b->k) return a; if(isC(b)&&w<=64&&b->k){ Expr*r=divConst(false,a,(u64)b->k); if(r) return r; } break;
    case AND: if(a==b) return a; if(isC(b)){ if(b->k==0) return b; if(b->k==ones) return a;
        if(w<=64&&(((u64)b->k)|a->kz)==mask64(w)) return a; // masked-out bits are already zero
        if(a->op==AND&&isC(a->b)) return mk2(AND,a->a,mkConst(w,a->b->k&b->k));
        // low mask -> zext(extract)
        U k=b->k; if((k&(k+1))==0){ int n=0; while(k){n++;k>>=1;} return mkZext(mkExtract(a,0,n),w); }
        // high mask
        U inv=~b->k&ones; if((inv&(inv+1))==0){ int n=0; while(inv){n++;inv>>=1;} return mkConcat(mkExtract(a,n,w-n),mkConst(n,0)); }
        if(a->op==CONCAT&&w<=64) return mkConcat(mk2(AND,a->a,mkConst(a->a->w,b->k>>a->b->w)),mk2(AND,a->b,mkConst(a->b->w,b->k)));
        if(a->op==ZEXT) return mkZext(mk2(AND,a->a,mkConst(a->a->w,b->k)),w);
        if(a->op==OR&&isC(a->b)) return mk2(OR,mk2(AND,a->a,b),mkConst(w,a->b->k&b->k)); }
      if(w==1){ if(isNegOf(a,b)) return mkConst(1,0); if(a->op==AND&&(a->a==b||a->b==b)) return a; if(b->op==AND&&(b->a==a||b->b==a)) return b;
        if(a->op==OR&&(a->a==b||a->b==b)) return b; if(b->op==OR&&(b->a==a||b->b==a)) return a;
        if(a->op==EQ&&b->op==EQ&&a->a==b->a&&isC(a->b)&&isC(b->b)&&a->b!=b->b) return mkConst(1,0); }
      break;
    case OR: if(a==b) return a; if(isC(b)){ if(b->k==0) return a; if(b->k==ones) return b; if(a->op==OR&&isC(a->b)) return mk2(OR,a->a,mkConst(w,a->b->k|b->k));
        if(w<=64&&(((u64)b->k)&~a->ko)==0) return a;
        if(a->op==CONCAT) return mkConcat(mk2(OR,a->a,mkConst(a->a->w,b->k>>a->b->w)),mk2(OR,a->b,mkConst(a->b->w,b->k)));
        if(a->op==ZEXT&&w<=64){ int iw=a->a->w; return mkConcat(mkConst(w-iw,b->k>>iw),mk2(OR,a->a,mkConst(iw,b->k))); } }
      else if(w>1&&w<=64){
        // disjoint concat pieces: (zext lo) | concat(hi,0)
        for(int s=0;s<2;s++){ Expr*x=s?b:a,*y=s?a:b; if(x->op==CONCAT&&isC(x->b)&&x->b->k==0){ int n=x->b->w; if((y->kz>>n)==(mask64(w)>>n)) return mkConcat(x->a,mkExtract(y,0,n)); } }
      }
      if(w==1){ if(isNegOf(a,b)) return mkConst(1,1); if(a->op==OR&&(a->a==b||a->b==b)) return a; if(b->op==OR&&(b->a==a||b->b==a)) return b;
        if(a->op==AND&&(a->a==b||a->b==b)) return b; if(b->op==AND&&(b->a==a||b->b==a)) return a; }
      break;
    case XOR: if(a==b) return mkConst(w,0); if(isC(b)){ if(b->k==0) return a; if(a->op==XOR&&isC(a->b)) return mk2(XOR,a->a,mkConst(w,a->b->k^b->k));
        if(w==1){ if(a->op==ULT) return mk2(ULE,a->b,a->a); if(a->op==ULE) return mk2(ULT,a->b,a->a); if(a->op==SLT) return mk2(SLE,a->b,a->a); if(a->op==SLE) return mk2(SLT,a->b,a->a); }
        if(a->op==CONCAT) return mkConcat(mk2(XOR,a->a,mkConst(a->a->w,b->k>>a->b->w)),mk2(XOR,a->b,mkConst(a->b->w,b->k))); }
      break;
    case SHL: if(isC(b)){ if(b->k==0) return a; if(b->k>=(U)w) return mkConst(w,0); int s=(int)b->k; return mkConcat(mkExtract(a,0,w-s),mkConst(s,0)); } break;
    case LSHR: if(isC(b)){ if(b->k==0) return a; if(b->k>=(U)w) return mkConst(w,0); int s=(int)b->k; return mkZext(mkExtract(a,s,w-s),w); } break;
    case ASHR: if(isC(b)){ if(b->k==0) return a; int s=b->k>=(U)w?w-1:(int)b->k; return mkSext(mkExtract(a,s,w-s),w); } break;
    case EQ:
      if(a==b) return mkConst(1,1);
      if(w==1){ if(isC(b)) return b->k? a : mkNot(a); return mkNot(mk2(XOR,a,b)); }
      if(w<=64){ if((a->ko&b->kz)||(a->kz&b->ko)||a->lo>b->hi||b->lo>a->hi) return mkConst(1,0); }
      if(isC(b)){
        if(a->op==ADD&&isC(a->b)) return mk2(EQ,a->a,mkConst(w,b->k-a->b->k));
        if(a->op==SUB&&isC(a->a)) return mk2(EQ,a->b,mkConst(w,a->a->k-b->k));
        if(a->op==XOR&&isC(a->b)) return mk2(EQ,a->a,mkConst(w,b->k^a->b->k));
        if(a->op==ZEXT) return (b->k>>a->a->w)? mkConst(1,0): mk2(EQ,a->a,mkConst(a->a->w,b->k));
        if(a->op==SEXT){ U v=b->k&maskW(a->a->w); if(((U)sxt(v,a->a->w)&maskW(w))!=b->k) return mkConst(1,0); return mk2(EQ,a->a,mkConst(a->a->w,v)); }
        if(a->op==CONCAT) return mk2(AND,mk2(EQ,a->b,mkConst(a->b->w,b->k)),mk2(EQ,a->a,mkConst(a->a->w,b->k>>a->b->w)));
        if(a->op==ITE&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mk2(EQ,a->b,b),mk2(EQ,a->c,b));
      } else {
        if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mk2(EQ,a->a,b->a);
        if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mk2(EQ,a->a,b->a);
        if(a->op==CONCAT&&b->op==CONCAT&&a->b->w==b->b->w) return mk2(AND,mk2(EQ,a->b,b->b),mk2(EQ,a->a,b->a));
        if(a->op==ADD&&b->op==ADD&&isC(a->b)&&a->b==b->b) return mk2(EQ,a->a,b->a);
      }
      break;
    case ULT: if(a==b) return mkConst(1,0); if(w<=64){ if(a->hi<b->lo) return mkConst(1,1); if(a->lo>=b->hi) return mkConst(1,0); }
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mk2(ULT,a->a,b->a);
      if(isC(b)&&b->k==1) return mk2(EQ,a,mkConst(w,0));
      if(isC(b)&&a->op==ZEXT) return (b->k>>a->a->w)? mkConst(1,1): mk2(ULT,a->a,mkConst(a->a->w,b->k));
      break;
    case ULE: if(a==b) return mkConst(1,1); if(w<=64){ if(a->hi<=b->lo) return mkConst(1,1); if(a->lo>b->hi) return mkConst(1,0); }
      if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return mk2(ULE,a->a,b->a);
      if(isC(b)&&b->k==0) return mk2(EQ,a,b);
      break;
    case SLT: case SLE: { if(a==b) return mkConst(1,op==SLE); i64 l1,h1,l2,h2;
      if(w<=64&&srange(a,l1,h1)&&srange(b,l2,h2)){ if(op==SLT){ if(h1<l2) return mkConst(1,1); if(l1>=h2) return mkConst(1,0);} else { if(h1<=l2) return mkConst(1,1); if(l1>h2) return mkConst(1,0);} }
      if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return mk2(op,a->a,b->a);
      if(w<=64){ u64 s=1ull<<(w-1); if((a->kz&s)&&(b->kz&s)) return mk2(op==SLT?ULT:ULE,a,b); }
      if(isC(b)&&a->op==SEXT){ I128 v=sxt(b->k,w); I128 mx=((I128)1<<(a->a->w-1))-1, mn=-mx-1; if(v>=mn&&v<=mx) return mk2(op,a->a,mkConst(a->a->w,(U)v)); }
      if(isC(a)&&b->op==SEXT){ I128 v=sxt(a->k,w); I128 mx=((I128)1<<(b->a->w-1))-1, mn=-mx-1; if(v>=mn&&v<=mx) return mk2(op,mkConst(b->a->w,(U)v),b->a); }
      break; }
    default: break;
  }
  return fin(intern(op,rw,0,a,b,0));
}
// a / c and a % c by splitting a into a multiple of c and a rest, and by narrowing to the width a needs
static void addTerms(Expr*e,std::vector<Expr*>&o){ // only through additions that cannot wrap
  if(e->op==ADD){ u64 m=mask64(e->w); if(e->a->hi<=m-e->b->hi){ addTerms(e->a,o); addTerms(e->b,o); return; } } o.push_back(e); }
static Expr* divConst(bool quot,Expr*a,u64 c){
  int w=a->w; if(c==0||c>mask64(w)) return nullptr;
  if(quot&&a->op==UDIV&&isC(a->b)){ U p=(U)(u64)a->b->k*c; if(a->b->k&&p<=mask64(w)) return mk2(UDIV,a->a,mkConst(w,p)); }
  { u64 q0=a->lo/c,q1=a->hi/c; if(q1-q0<=(quot?12u:0u)){ // few possible quotients: a decision list over constants
      Expr*r=mkConst(w,q1); for(u64 q=q1;q>q0;q--) r=mkIte(mk2(ULT,a,mkConst(w,q*c)),mkConst(w,q-1),r); return quot? r : mk2(SUB,a,mkConst(w,q0*c)); } }
  std::vector<Expr*> t; addTerms(a,t); Expr*q=nullptr,*r=nullptr; bool split=false;
  for(Expr*x:t){ u64 k=0; Expr*y=nullptr;
    if(isC(x)){ u64 v=(u64)x->k; if(v>=c){ Expr*d=mkConst(w,v/c); q=q?mk2(ADD,q,d):d; v%=c; split=true; } if(v){ Expr*d=mkConst(w,v); r=r?mk2(ADD,r,d):d; } continue; }
    Expr*z=x; bool ze=false; if(z->op==ZEXT){ z=z->a; ze=true; }
    if(z->op==MUL&&isC(z->b)&&z->a->hi<=mask64(z->w)/(u64)z->b->k){ k=(u64)z->b->k; y=z->a; }
    else if(z->op==SHL&&isC(z->b)&&(u64)z->b->k<63&&z->a->hi<=(mask64(z->w)>>(u64)z->b->k)){ k=1ull<<(u64)z->b->k; y=z->a; }
    else if(z->op==CONCAT&&isC(z->b)&&z->b->k==0&&z->b->w<63){ k=1ull<<z->b->w; y=mkZext(z->a,z->w); }
    if(y&&k%c==0){ Expr*d=mk2(MUL,ze?mkZext(y,w):y,mkConst(w,k/c)); q=q?mk2(ADD,q,d):d; split=true; }
    else r=r?mk2(ADD,r,x):x; }
  if(split){ if(!r) r=mkConst(w,0); Expr*rr= quot? mk2(UDIV,r,mkConst(w,c)) : mk2(UREM,r,mkConst(w,c)); if(!quot) return rr; return q?mk2(ADD,q,rr):rr; }
  int need=1; while(need<64&&(a->hi>>need)) need++; int cn=1; while(cn<64&&(c>>cn)) cn++; if(cn>need) return quot?mkConst(w,0):a;
  if(need+2<w) return mkZext(mk2(quot?UDIV:UREM,mkExtract(a,0,need),mkConst(need,c)),w);
  return nullptr;
}
Expr* mkFp1(Op op,int dw,Expr*a,int mode){
  if(isC(a)){
    if(op==FRINT) return mkConst(dw,fpRint(mode,dw,a->k));
    if(op==FSQRT) return mkConst(dw,fpFold2(FSQRT,dw,a->k,a->k));
    if(op!=FABS_&&op!=FNEG_) return mkConst(dw,fpConv(op,dw,a->w,a->k));
  }
  if(op==FABS_) return mk2(AND,a,mkConst(dw,maskW(dw-1)));
  if(op==FNEG_) return mk2(XOR,a,mkConst(dw,(U)1<<(dw-1)));
  if(a->op==ITE&&a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mkFp1(op,dw,x,mode);});
  return intern(op,dw,mode,a,0,0,a->w);
}
Expr* mkFp2(Op op,int fpw,Expr*a,Expr*b){
  int rw=(op>=FLT&&op<=FUNO)?1:fpw;
  if(isC(a)&&isC(b)) return mkConst(rw,fpFold2(op,fpw,a->k,b->k));
  if(isC(b)&&a->op==ITE&&a->leaves&&a->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mkFp2(op,fpw,x,b);});
  if(isC(a)&&b->op==ITE&&b->leaves&&b->leaves<=LEAFMAX) return mapLeaves(b,[&](Expr*x){return mkFp2(op,fpw,a,x);});
  if(a->op==ITE&&b->op==ITE&&a->leaves&&b->leaves&&a->leaves*b->leaves<=LEAFMAX) return mapLeaves(a,[&](Expr*x){return mapLeaves(b,[&](Expr*y){return mkFp2(op,fpw,x,y);});});
  return intern(op,rw,0,a,b,0,fpw);
}
U evalE(Expr*e,const Model&m){
  if(e->op==CONST) return e->k; if(e->epoch==evalEpoch) return e->val;
  U r; 
  switch(e->op){
    case SYM: r= e->k<m.size()? m[(size_t)e->k]:0; r&=maskW(e->w); break;
    case ITE: r= evalE(e->a,m)? evalE(e->b,m):evalE(e->c,m); break;
    case EXTRACT: r=(evalE(e->a,m)>>(int)e->k)&maskW(e->w); break;
    case ZEXT: r=evalE(e->a,m); break;
    case SEXT: r=(U)sxt(evalE(e->a,m),e->a->w)&maskW(e->w); break;
    case CONCAT: r=(evalE(e->a,m)<<e->b->w)|evalE(e->b,m); break;
    case FRINT: r=fpRint((int)e->k,e->w,evalE(e->a,m)); break;
    case FSQRT: { U x=evalE(e->a,m); r=fpFold2(FSQRT,e->w,x,x); break; }
    case SI2F: case UI2F: case F2SI: case F2UI: case F2F: r=fpConv(e->op,e->w,e->a->w,evalE(e->a,m)); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FREM: case FLT: case FLE: case FEQ: case FUNO: r=fpFold2(e->op,e->fpw,evalE(e->a,m),evalE(e->b,m)); break;
    default: r=fold2(e->op,e->a->w,evalE(e->a,m),evalE(e->b,m));
  }
  e->epoch=evalEpoch; e->val=r; return r;
}
static const char* opn[]={"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","flt","fle","feq","funo","si2f","ui2f","f2si","f2ui","f2f","frint","fabs","fneg"};
std::string exprStr(Expr*e,int d){
  char buf[64]; if(e->op==CONST){ snprintf(buf,64,"0x%llx:%d",(unsigned long long)e->k,e->w); return buf; } if(e->op==SYM){ snprintf(buf,64,"s%u:%d",(u32)e->k,e->w); return buf; }
  if(d==0) return "..."; std::string s="("; s+=opn[e->op]; if(e->op==EXTRACT){ snprintf(buf,64,"[%d+%d]",(int)e->k,e->w); s+=buf; }
  for(Expr*x:{e->a,e->b,e->c}) if(x){ s+=" "; s+=exprStr(x,d-1);} return s+")";
}
