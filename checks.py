from vf import H
def arith(op, sh, **k): return H(f'arith_int_{op}_{sh}', file='arith_int', params=(op, sh), **k)
def areal(op, k, **kk): return H(f'arith_real_{op}_{k}', file='arith_real', params=(op, k), **kk)
PROPS = {
 'D01': dict(harnesses=[H('db_ints', covers=(0, 1), bounds='all 2^64 integers')]),
 'R06': dict(harnesses=[arith(0,0),arith(1,0),arith(10,0),arith(2,2),arith(2,1)]+[arith(o,s,time=300) for o in (3,4,5,6,7,8,9) for s in (1,2,3,4)],parallel=4),
 'R07': dict(harnesses=[H(f'arith_cmp_{k}',file='arith_cmp',params=(k,),covers=(0,1),time=300) for k in range(4)],parallel=4),
 'R08': dict(harnesses=[areal(o,k,time=300) for o in (0,1,2,3) for k in (0,1,2)]+[areal(o,k,time=300) for o in range(4,14) for k in (0,1)]+[areal(o,k,time=300) for o in (14,15,16) for k in (0,1,2)],parallel=8),
}
PROPS['R09'] = dict(harnesses=[H('strlen', 'strs', (0, 4, 0, 3)), H('strlen_const', 'strs', (0, 3, 0, 0)), H('substr', 'strs', (1, 3, 4, 3), (0, 1)), H('substrat', 'strs', (2, 3, 4, 3), (0, 1)),
  H('substr_c1', 'strs', (1, 2, 2, 1)), H('substr_c2', 'strs', (1, 2, 2, 2)), H('substrat_c0', 'strs', (2, 2, 2, 0)), H('substrat_c1', 'strs', (2, 2, 2, 1)),H('substrat_c2', 'strs', (2, 2, 2, 2)),
  H('list_ops', 'lists', (0,)), H('list_eq1', 'lists', (1,), (0, 1)), H('list_eq2', 'lists', (2,), (0, 1))], parallel=4)
def un(mode,n,sh,set,depth=0,**k): return H(f"{('unify','match','equal')[mode]}_{n}_{sh}_{set}_{depth}",'unify',(n,sh,set,mode,depth),(0,1),**k)
PROPS['R01'] = dict(harnesses=[un(0,2,2,0),un(0,1,4,0,1),un(0,2,1,1),un(0,3,1,3),un(0,1,2,1),un(1,2,2,0),un(1,1,4,0,1),un(1,2,1,1),un(1,1,2,1)], parallel=2)
PROPS['R02'] = dict(harnesses=[un(2,2,2,0),un(2,1,4,0,1),un(2,2,1,2),un(2,1,2,2)], parallel=2)
def tm(m,lo=0,hi=0,st=1,cov=(0,),**k): return H(f'time_{m}_{lo}_{hi}',file='db_time',params=(m,lo,hi,st),covers=cov,**k)
PROPS['D12'] = dict(harnesses=[tm(0,1896,1904,4,(0,1)),tm(0,2000,2003,1,(0,1)),tm(0,1,9999,2499,(0,1)),tm(1,1897,2004),tm(2,1999,2001),tm(2,1900,2400,100),tm(3,cov=(0,1)),tm(4),tm(5,0,1,cov=(0,1)),tm(6,cov=(0,1)),
  tm(0,1,9999,1,(0,1),tier='thorough',time=6000),tm(1,1,9999,tier='thorough',time=6000),tm(2,1890,2110,tier='thorough',time=6000)],parallel=8,
  note='Bounds: days and months symbolic for the listed years (quick: samples of leap, century and boundary years; thorough: all years 1-9999); all 32-bit invalid inputs; ISO text with symbolic digits. Current-date functions depend on the clock and are outside.')
def vals(k,c=(0,),**kw): return H(f'vals_{k}',file='db_vals',params=(k,),covers=c,**kw)
PROPS['D01'] = dict(harnesses=[H('db_ints', covers=(0, 1), bounds='all 2^64 integers')]+[vals(k,(0,1) if k in (2,3,6) else (0,)) for k in (0,1,2,3,4,6,7,8)]+[H('str_roundtrip',file='db_str',params=(0,))],parallel=6)
PROPS['D02'] = dict(harnesses=[H('interning',file='db_str',params=(1,3),covers=(0,1)),H('natural',file='db_str',params=(2,3,1))],parallel=2)
def pv(lo,hi,sl,sh,c=0,k=2,cov=(0,),**kw): return H(f'prove_{lo}_{hi}_{sl}_{sh}_{c}',file='prove',params=(lo,hi,sl,sh,c,k),covers=cov,**kw)
PROPS['R04'] = dict(harnesses=[pv(0,11,s,s) for s in range(14)],parallel=4)
PROPS['R05'] = dict(harnesses=[pv(12,19,s,s,1,cov=(1,2)) for s in (0,1,2,4,5,9,10,11,12,13)]+[pv(12,19,s,s,1,3,cov=(1,2),tier='thorough') for s in (0,1,2,4,5,10,11,13)],parallel=4,
  note='Bounds: eight families of 5-8 function-free clauses with up to four symbolic constants; complete strategies only (no unit/double/triple restriction, no set of support).')
PROPS['D04'] = dict(harnesses=[H('cmp_same','db_cmp',(0,)),H('cmp_types','db_cmp',(1,)),H('cmp_records','db_cmp',(2,)),H('cmp_fields','db_cmp',(3,))],parallel=3)
def al(n,ar,st,first,*sz,**kw): return H(f'alloc_{n}','db_alloc',(ar,st,first)+sz,(0,1),**kw)
PROPS['D03'] = dict(harnesses=[al('small',0,6,3,4,5,12),al('mid',0,6,3,31,40,90),al('big',0,6,3,5,300,600),al('ext',0,6,2,40,900,1100),al('deep',0,8,3,4,300,1100,tier='thorough',time=3000),al('deep2',0,8,3,31,33,600,tier='thorough',time=3000),H('alloc_fixed','db_alloc',(2,4),(0,1)),al('long',0,12,12,4,1100,tier='thorough',time=3000)],parallel=3)
def tt(pat,nb,before,ops,mixed=0,md=0,cov=(0,1,2),**kw): return H(f'ttree_{pat}_{nb}_{before}_{ops}_{mixed}_{md}','db_ttree',(pat,nb,before,ops,mixed,md),cov,**kw)
PROPS['D05'] = dict(harnesses=[tt(0,40,0,1),tt(1,40,0,2),tt(2,60,20,1),tt(3,33,16,1),tt(4,30,0,1),tt(5,50,50,1),tt(0,2,1,3),tt(3,30,10,1,1),tt(0,120,0,1,0,1),tt(1,120,0,1,0,1),tt(3,100,50,1,0,2),tt(2,120,0,1,0,3),tt(3,100,0,1,0,4),tt(2,120,0,1,0,2)]+
  [tt(p,40,10,2,0,m,tier='thorough',time=3000) for p in range(6) for m in range(5)],parallel=3)
def hx(mode,ops,nc,before,tm=0,**kw): return H(f'hash_{mode}_{ops}_{nc}_{before}_{tm}','db_hash',(mode,ops,nc,before,tm),(0,1),**kw)
PROPS['D06'] = dict(harnesses=[hx(0,2,1,0,time=100),hx(0,2,2,0,time=100),hx(0,3,1,0,tier="thorough",time=3000),hx(0,2,3,0,tier="thorough",time=3000),hx(1,1,1,0),hx(1,1,2,12),hx(1,2,2,6,tier="thorough"),hx(1,1,2,6,1),hx(1,1,1,0,1)],parallel=3)
def gh(k,nb,pat,ns,**kw): return H(f'gint_{k}_{nb}_{pat}_{ns}','db_gint',(k,nb,pat,ns),(0,1),**kw)
PROPS["D11"] = dict(harnesses=[gh(0,30,0,1),gh(0,200,1,1),gh(1,30,0,2),gh(0,7,3,2),gh(0,9,2,2),gh(1,150,3,1),gh(0,60,4,1),gh(0,700,0,1),gh(0,20,0,3,tier="thorough",time=3000),gh(1,300,4,2,tier="thorough",time=3000)],parallel=3)
def qy(t,ix,na,m=0,iq=0,cov=(0,1),**kw): return H(f'query_{t}_{ix}_{na}_{m}_{iq}','db_query',(t,ix,na,m,iq),cov,**kw)
PROPS['D07'] = dict(harnesses=[qy(0,0,1,time=100),qy(0,1,1,time=100),qy(0,1,2,0,1,tier='thorough',time=3000),qy(1,1,1,cov=(0,),time=100),qy(1,0,1,cov=(0,),time=100),qy(6,1,2,0,1,time=200),qy(2,1,2,0,1,tier='thorough',time=3000),qy(3,4,2,1,tier='thorough',time=3000),qy(3,1,1,time=100),qy(3,2,1,1,time=100),qy(3,3,2,0,2,time=100),qy(3,3,2,tier='thorough',time=3000),qy(3,4,1,1,time=100),qy(4,1,1,2,time=100),qy(4,0,1,2,time=100),qy(4,1,1,time=100),qy(5,1,1,cov=(0,),time=100),qy(3,1,1,3,time=100),qy(0,0,1,3,time=100),qy(3,2,0,1,time=100)],parallel=3)
def rc(nb,ops,ss,k,ch=0,cov=(0,1,2),**kw): return H(f'recs_{nb}_{ops}_{ss}_{k}_{ch}','db_recs',(nb,ops,ss,k,ch),cov,**kw)
PROPS['D08'] = dict(harnesses=[rc(4,2,0,0,time=100),rc(4,2,3,1,time=100),rc(5,2,1,2,time=100),rc(6,2,2,0,1,time=100),rc(40,1,3,1,2,time=100),rc(40,1,3,2,0,time=100),rc(24,2,2,0,3,time=100)],parallel=3)
def lk(a,b,c,d,pre,to=0,sg=0,cov=(0,),**kw): return H(f'lock_{a}_{b}_{c}_{d}_{pre}_{to}_{sg}','db_lock',(a,b,c,d,pre,to,sg),cov,variant='conc',**kw)
PROPS['D10'] = dict(harnesses=[lk(2,2,2,0,2,1,cov=(0,2),time=500),lk(2,2,0,0,3),lk(1,2,0,0,3),lk(2,1,1,0,2,cov=(0,1)),lk(12,2,0,0,2),lk(2,2,1,0,1),lk(2,2,1,0,1,1,cov=(0,2)),lk(2,1,1,0,1,1,cov=(0,2)),lk(1,1,1,0,1,cov=(0,1)),lk(2,2,0,0,2,0,1),lk(2,1,0,0,2,0,1),lk(2,1,1,2,1,cov=(0,1)),lk(2,1,1,1,1,1,cov=(0,1,2))]+[lk(2,22,2,0,2,tier='thorough',time=3000),lk(2,2,1,0,2,1,cov=(0,2),tier='thorough',time=3000),lk(2,1,1,0,3,1,cov=(0,1,2),tier='thorough',time=3000),lk(2,1,2,1,1,1,cov=(0,1,2),tier='thorough',time=3000),lk(12,21,2,0,1,1,1,cov=(0,2),tier='thorough',time=3000)],parallel=3)
def dp(m,rows,k,sz=2000000,x=2,cov=(0,),**kw): return H(f'dump_{m}_{rows}_{k}_{sz}_{x}','db_dump',(m,rows,k,sz,x),cov,**kw)
PROPS['D09'] = dict(harnesses=[dp(0,10,0,time=100),dp(0,12,1,time=100),dp(0,20,2,time=100),dp(0,12,2,3000000,time=100),dp(0,12,2,0,cov=(0,1),time=100),dp(0,9,0,x=3,time=100),dp(0,300,2,4000000,time=100),dp(1,10,1,time=100),dp(2,10,2,time=100),dp(3,10,2,x=5,time=100),dp(4,3,0,cov=(0,1),variant='conc',time=100),dp(4,5,2,x=4,cov=(0,1),variant='conc',tier='thorough',time=3000)],parallel=3)
def sb(c,d,kc,kd,ar=1,back=0,cov=(0,1),**kw): return H(f'subsume_{c}_{d}_{kc}_{kd}_{ar}_{back}','subsume',(c,d,kc,kd,ar,back),cov,**kw)
def pat(*l):
    v=1
    for x in reversed(l): v=v*4+x
    return v
PROPS['R03'] = dict(harnesses=[sb(pat(0),pat(0),15,11,1),sb(pat(0),pat(0,1),7,3,1),sb(pat(0,0),pat(0,0),3,3,1),sb(pat(0,1),pat(1,0,2),3,3,1,1),sb(pat(0,0),pat(0,0),1,2,2),
  sb(pat(0),pat(0),64,64),sb(pat(0),pat(0),128,128),sb(pat(0,1),pat(0,1,2),17,21,1),sb(pat(0,0),pat(0,0,0),1,16,2,cov=(0,)),sb(pat(0,0),pat(0,0,0),17,17,1,1),sb(pat(0,0,0),pat(0,0,0,0),17,16,1,cov=(0,)),
  sb(pat(0,0,0),pat(0,0,0,0),1,2,1,tier='thorough',time=3000),sb(pat(0,2),pat(0,2,2),33,34,1,tier='thorough',time=3000),sb(pat(1),pat(1,3),7,3,2),sb(pat(0,0),pat(0,0,1),21,17,1)],parallel=4)
def od(m,lk,d,ak,cov=(0,),**kw): return H(f'order_{m}_{lk}_{d}_{ak}','order',(m,lk,d,ak),cov,**kw)
PROPS['R10'] = dict(harnesses=[od(0,19,2,1,(0,1)),od(0,18,1,7,(0,1)),od(0,14,1,1,(0,1)),od(0,81,1,7,(0,1)),od(1,19,1,1),od(1,14,1,1),od(1,48,1,3),od(1,122,0,0),od(2,50,0,0),od(2,24,0,0,tier='thorough',time=3000),od(2,20,0,0),od(2,49,1,9),od(3,17,2,1),od(3,17,1,3),od(4,49,1,9),
  od(2,62,0,0,tier='thorough',time=3000),od(3,49,1,7,tier='thorough',time=3000),od(1,49,1,3,tier='thorough',time=3000),od(0,51,2,3,(0,1),tier='thorough',time=3000)],parallel=4)
def us(m,n,k,one=0,ar=1,w=0,cov=(0,1),**kw): return H(f'units_{m}_{n}_{k}_{one}_{ar}_{w}','units',(m,n,k,one,ar,w),cov,**kw)
PROPS['R11'] = dict(harnesses=[us(0,2,64,1,1,0,(0,1,2),tier='thorough',time=3000),us(0,1,64,1,1,0,(0,1,2)),us(0,1,2,1,1,4,(0,1,2)),us(0,1,4,1,1,2,(0,1,2)),us(0,2,8+16,0,1,0,(0,1,2)),us(0,1,9,0,2,0,(0,1,2)),us(0,1,33,0,1,0,(0,1,2)),us(0,1,41,0,2,0,(0,1,2),tier='thorough',time=3000),us(1,1,2,1,1,4,(0,1,2)),us(1,2,24,1,1,0,(0,1,2)),us(1,1,64,1,1,0,(0,1,2)),us(2,0,2,cov=(0,)),us(2,0,4,w=40,cov=(0,)),us(2,0,33+24,ar=2,cov=(0,)),us(3,3,9),us(3,1,2,1,w=4),us(3,2,64),us(3,2,32),us(5,2,64),us(5,3,8+16),us(5,2,33),
  us(0,2,89,1,1,0,(0,1,2),tier='thorough',time=3000),us(0,2,41,0,1,0,(0,1,2),tier='thorough',time=3000),us(3,3,80,tier='thorough',time=3000)],parallel=4)
def cz(syn,lo,n=1,nb=4,cov=(0,),**kw): return H(f'clausify_{syn}_{lo}_{n}_{nb}','clausify',(syn,lo,nb,n),cov,**kw)
PROPS['P01'] = dict(harnesses=[cz(0,0,9),cz(0,9,7),cz(0,16,9),cz(0,25,10,2),cz(0,35,7),cz(0,42,5,3),cz(0,47,4),cz(0,51,6,2),cz(0,57,6),cz(1,0,9),cz(1,9,7),cz(1,16,4),cz(1,35,6,3),cz(1,42,5,3),cz(1,51,6,2),cz(1,57,6,2),cz(2,0,9),cz(2,9,7),cz(2,16,9),cz(2,57,6,2),cz(0,0,1,8),cz(0,4,5,8),cz(2,0,4,8),cz(0,74,5),cz(1,74,3),cz(2,74,3),cz(0,79,4,3),cz(2,79,4,3),cz(1,79,4,3),cz(0,83,5,3),cz(1,83,5,3),cz(2,83,5,3),cz(1,77,1,tier='thorough'),cz(0,63,1,8,tier='thorough',time=3000)]+
  [cz(y,lo,6,8,tier='thorough',time=3000) for y in (0,1,2) for lo in (0,6,12,18,30,36,42,51,57)],parallel=4)
PROPS['P04'] = dict(harnesses=[cz(y,l,n,b) for y in (3,4,5) for l,n,b in ((0,9,4),(9,7,4),(16,4,4),(25,10,2),(35,7,4),(42,5,3),(51,6,2),(57,6,2),(64,8,2)) if y!=5 or l in (0,16,35,42,64)]+[cz(3,20,5),cz(3,0,1,8),cz(4,0,1,8),cz(3,72,2),cz(3,74,5),cz(4,74,3),cz(5,78)],parallel=4)
def rt(js,w,n,rep=0,lo=0,hi=0,long=0,cov=(1,),**kw): return H(f'read_{js}_{w}_{n}_{rep}_{lo}_{hi}_{long}','readtext',(js,w,n,rep,lo,hi,long),cov,**kw)
PROPS['P03'] = dict(harnesses=[rt(0,99,0,0,0,0,1,cov=(0,1)),rt(1,99,0,0,0,0,1,cov=(0,1)),rt(1,8,1),rt(1,9,1),rt(1,0,3),rt(0,0,2)]+
  [rt(0,w,1,0,lo,hi,cov=c) for w,lo,hi,c in ((2,24,38,(0,1)),(3,12,24,(0,1)),(4,0,13,(0,1)),(5,0,12,(0,1)),(6,18,30,(1,)),(8,0,20,(0,1)))]+[rt(1,w,1,cov=c) for w,c in ((2,(0,1)),(3,(0,1)),(4,(0,1)),(5,(0,1)))]+
  [rt(j,w,1,r,time=3000,tier='thorough') for j in (0,1) for w in range(1,8) for r in (0,1)]+[rt(0,8,1,r,time=3000,tier='thorough') for r in (0,1)]+[rt(1,8,1,1,tier='thorough',time=3000),rt(1,9,1,1,tier='thorough',time=3000),rt(0,0,3,tier='thorough',time=3000),rt(1,0,4,tier='thorough',time=3000)],parallel=4)
def pf(lo,hi,sl,sh,c=0,k=2,mx=1,form=0,cov=(0,),**kw): return H(f'proof_{lo}_{hi}_{sl}_{sh}_{c}_{k}_{mx}'+('','_tptp','_json')[form],file='proof',params=(lo,hi,sl,sh,c,k,mx,form),covers=cov,**kw)
def nm(js,lo,hi,real=0,fd=1,ex=0,pl=0,cov=(0,),**kw): return H(f'number_{js}_{lo}_{hi}_{real}_{fd}_{ex}_{pl}',file='number',params=(js,lo,hi,real,fd,ex,pl),covers=cov,**kw)
PROPS['P02'] = dict(harnesses=[nm(0,1,6),nm(1,1,3),nm(0,3,4,pl=1,cov=(0,1)),nm(1,1,1,pl=1,cov=(0,1)),nm(0,1,3,1,3),H('jreal')]+[nm(0,7,8,tier='thorough',time=3000),nm(1,4,4,tier='thorough',time=3000),nm(1,2,2,pl=1,cov=(0,1),tier='thorough',time=3000),nm(0,5,5,pl=1,cov=(0,1),tier='thorough',time=3000),nm(0,4,8,1,6,tier='thorough',time=3000)],parallel=4)
def pn(lo,hi,n=1,js=0,be=0,cov=(0,1),**kw): return H(f'print_{lo}_{hi}_{n}_{js}_{be}',file='print',params=(lo,hi,n,js,be),covers=cov,**kw)
PROPS['P05'] = dict(harnesses=[pn(lo,hi,js=f,be=b) for f,b in ((0,0),(1,0),(0,10),(1,11),(0,5)) for lo,hi in ((0,6),(7,13))]+[pn(p,p,2 if b==0 else 1,f,b,tier='thorough',time=3000) for p in range(14) for f in (0,1) for b in (0,-1)],parallel=4)
PROPS['R12'] = dict(harnesses=[pf(0,19,s,s) for s in range(14)]+[pf(0,19,s,s,form=f) for s in (0,8) for f in (1,2)]+[pf(100,109,0,0,form=f) for f in (1,2)]+[pf(0,19,s,s,0,3,tier='thorough',time=3000) for s in range(14)],parallel=4)
PROPS['R13'] = dict(harnesses=[pf(100,105,s,s,1,2,10,cov=(0,1)) for s in (0,1,2,4,5,9,10,11,12,13)]+[pf(100,109,s,s,0,2,3) for s in (3,6,7,8)]+[pf(106,111,s,s,0,2,10) for s in range(14)]+[pf(100,109,s,s) for s in (0,2,5,6)]+
  [pf(100,105,s,s,1,3,12,tier='thorough',time=3000) for s in (0,1,2,4,5,9,10,11,12,13)]+[pf(100,109,s,s,0,3,m,tier='thorough',time=3000) for s in range(14) for m in (1,2,4)],parallel=4)
