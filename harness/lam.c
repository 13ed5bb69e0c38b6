/* P19: higher-order terms. Typed lambda terms chosen by the solver-driven engine are
   put through the real normalisation, instantiation, matching and unification code and
   compared with an independent calculus on a separate representation. */
#include "common.h"
#include <cte_lambda.h>
#include <cte_match_mgu_1-1.h>
#include <cte_pattern_match_mgu.h>
#include <cte_ho_csu.h>
#include <cte_dbvars.h>
/* ---- independent representation: bound index, atom (constant or free variable), lambda, application */
enum { BV, AT, LM, AP };
typedef struct N { int k; Type_p ty; int idx; struct N *f,*a; } N;   /* idx: index or atom number; LM: ty=arrow, a=body */
typedef struct { Type_p ty; FunCode f; Term_p v; } Atom;
static Atom at[16]; static int nat, nconst;
static Type_p TI,T1,T2,TH;
static N *mk(int k,Type_p ty,int idx,N *f,N *a) { N *n=malloc(sizeof *n); n->k=k; n->ty=ty; n->idx=idx; n->f=f; n->a=a; return n; }
static Type_p arrow(Type_p a,Type_p r)
{
   int m=TypeIsArrow(r)?r->arity:1; Type_p *x=TypeArgArrayAlloc(m+1); x[0]=a;
   if(m==1) x[1]=r; else for(int i=0;i<m;i++) x[i+1]=r->args[i];
   return TypeBankInsertTypeShared(H.tb,AllocArrowType(m+1,x));
}
static Type_p rest(Type_p t)
{
   if(t->arity==2) return t->args[1];
   Type_p *x=TypeArgArrayAlloc(t->arity-1); for(int i=1;i<t->arity;i++) x[i-1]=t->args[i];
   return TypeBankInsertTypeShared(H.tb,AllocArrowType(t->arity-1,x));
}
static N *app(N *f,N *a) { return mk(AP,rest(f->ty),0,f,a); }
static N *lam(Type_p a,N *b) { return mk(LM,arrow(a,b->ty),0,NULL,b); }
static N *atom(int i) { return mk(AT,at[i].ty,i,NULL,NULL); }
static N *shift(N *n,int d,int c)
{
   switch(n->k) { case BV: return n->idx>=c?mk(BV,n->ty,n->idx+d,NULL,NULL):n; case AT: return n;
   case LM: return mk(LM,n->ty,0,NULL,shift(n->a,d,c+1)); default: return mk(AP,n->ty,0,shift(n->f,d,c),shift(n->a,d,c)); }
}
static N *sub(N *n,int j,N *s)
{
   switch(n->k) { case BV: return n->idx==j?shift(s,j,0):n->idx>j?mk(BV,n->ty,n->idx-1,NULL,NULL):n; case AT: return n;
   case LM: return mk(LM,n->ty,0,NULL,sub(n->a,j+1,s)); default: return mk(AP,n->ty,0,sub(n->f,j,s),sub(n->a,j,s)); }
}
static N *nf(N *n)
{
   if(n->k==LM) return mk(LM,n->ty,0,NULL,nf(n->a));
   if(n->k!=AP) return n;
   N *f=nf(n->f), *a=nf(n->a);
   return f->k==LM?nf(sub(f->a,0,a)):mk(AP,n->ty,0,f,a);
}
static int occ(N *n,int j) { return n->k==BV?n->idx==j:n->k==AT?0:n->k==LM?occ(n->a,j+1):occ(n->f,j)||occ(n->a,j); }
static N *eshort(N *n)
{
   if(n->k==LM) { N *b=eshort(n->a); if(b->k==AP&&b->a->k==BV&&b->a->idx==0&&!occ(b->f,0)) return shift(b->f,-1,1); return mk(LM,n->ty,0,NULL,b); }
   return n->k==AP?mk(AP,n->ty,0,eshort(n->f),eshort(n->a)):n;
}
static int cutoff(N *n) { return n->k==AT?n->idx==99:n->k==BV?0:n->k==LM?cutoff(n->a):cutoff(n->f)||cutoff(n->a); }
static N *elong(N *n);
static N *espine(N *n) { return n->k==AP?mk(AP,n->ty,0,espine(n->f),elong(n->a)):n; }
static N *elong(N *n)   /* n in beta normal form */
{
   if(n->k==LM) return mk(LM,n->ty,0,NULL,elong(n->a));
   if(!TypeIsArrow(n->ty)) return espine(n);
   N *x=mk(BV,n->ty->args[0],0,NULL,NULL); N *b=app(shift(n,1,0),x); return lam(x->ty,elong(b));
}
static int eq(N *a,N *b)
{
   if(a->k!=b->k||a->ty!=b->ty) return 0;
   return a->k==BV||a->k==AT?a->idx==b->idx:a->k==LM?eq(a->a,b->a):eq(a->f,b->f)&&eq(a->a,b->a);
}
/* ---- translation to and from the real terms */
static Term_p toE(N *n);
static Term_p headE(N *n) { return n->k==BV?TBRequestDBVar(H.bank,n->ty,n->idx):n->k==LM?toE(n):at[n->idx].v; }
static Term_p ins(FunCode f,int n,Term_p *a,Type_p ty) { Term_p t=TermTopAlloc(f,n); for(int i=0;i<n;i++) t->args[i]=a[i]; t->type=ty; return TBTermTopInsert(H.bank,t); }
static Term_p toE(N *n)
{
   if(n->k==LM) { Term_p a[2]={TBRequestDBVar(H.bank,n->ty->args[0],0),toE(n->a)}; return ins(SIG_DB_LAMBDA_CODE,2,a,n->ty); }
   N *as[8]; int m=0; N *h=n; while(h->k==AP) { as[m++]=h->a; h=h->f; }
   Term_p a[9]; int o=0; FunCode f;
   if(h->k==AT&&h->idx<nconst) f=at[h->idx].f; else { if(!m) return headE(h); f=SIG_PHONY_APP_CODE; a[o++]=headE(h); }
   while(m) a[o++]=toE(as[--m]);
   return ins(f,o,a,n->ty);
}
static int follow, level;   /* replace bound free variables by their bindings; a variable may occur in its own binding below an application that drops it, so the depth is cut and the cut must not show in the normal form */
static N *fromE(Term_p t)
{
   if(TermIsDBVar(t)) return mk(BV,t->type,t->f_code,NULL,NULL);
   if(TermIsFreeVar(t))
   {
      if(follow&&t->binding) { if(level>7) return mk(AT,t->type,99,NULL,NULL); level++; N *r=fromE(t->binding); level--; return r; }
      for(int i=nconst;i<nat;i++) if(at[i].v==t) return atom(i);
      at[nat].v=t; at[nat].ty=t->type; return atom(nat++);   /* introduced by unification */
   }
   if(TermIsLambda(t)) { sx_assert(t->f_code==SIG_DB_LAMBDA_CODE&&t->arity==2&&TermIsDBVar(t->args[0])&&t->args[0]->f_code==0,"lambdas are well-formed"); N *b=fromE(t->args[1]); N *r=lam(t->args[0]->type,b); sx_assert(r->ty==t->type,"the type of a lambda fits"); return r; }
   int i=0; N *r=NULL;
   if(TermIsPhonyApp(t)) { r=fromE(t->args[0]); i=1; }
   else for(int k=0;k<nconst;k++) if(at[k].f==t->f_code) r=atom(k);
   sx_assert(r!=NULL,"only known symbols occur"); if(!r) sx_done();
   for(;i<t->arity;i++) { N *a=fromE(t->args[i]); int ok=TypeIsArrow(r->ty)&&r->ty->args[0]==a->ty; sx_assert(ok,"applications are well-typed"); if(!ok) sx_done(); r=app(r,a); }
   sx_assert(r->ty==t->type,"the type of a term fits");
   return r;
}
static char sb[400]; static void str_(N *n) { static const char *an[]={"a","f","g","h","X","F","G"}; char *e=sb+strlen(sb); switch(n->k) { case BV: sprintf(e,"%d",n->idx); break; case AT: if(n->idx<7) sprintf(e,"%s",an[n->idx]); else sprintf(e,"V%d",n->idx); break; case LM: sprintf(e,"^%s.",n->ty->args[0]==TI?"":"F"); str_(n->a); break; default: strcat(e,"("); str_(n->f); strcat(sb," "); str_(n->a); strcat(sb,")"); } }
static char *str(N *n) { sb[0]=0; str_(n); return sb; }
/* ---- generation */
static int fuel, redex, maxat;
static N *gen(Type_p ty,Type_p *ctx,int n);
static int strip(Type_p h,Type_p ty) { int k=0; while(h!=ty) { if(!TypeIsArrow(h)) return -1; h=rest(h); k++; } return k; }
static unsigned amask=~0u;
static N *gen(Type_p ty,Type_p *ctx,int n)
{
   N *hd[16]; int ar[16], c=0;
   if(TypeIsArrow(ty)&&fuel>=1) hd[c]=NULL, ar[c++]=-1;
   if(redex&&fuel>=2) { hd[c]=NULL; ar[c++]=-2; if(redex>1&&fuel>=3) { hd[c]=NULL; ar[c++]=-3; } }
   for(int i=0;i<n;i++) { int k=strip(ctx[i],ty); if(k>=0&&k<=fuel) { hd[c]=mk(BV,ctx[i],n-1-i,NULL,NULL); ar[c++]=k; } }
   for(int i=0;i<maxat;i++) if(amask>>i&1) { int k=strip(at[i].ty,ty); if(k>=0&&k<=fuel) { hd[c]=atom(i); ar[c++]=k; } }
   sx_assume(c>0); if(!c) sx_done();
   int j=c>1?(int)sx_choose("node",c):0; Type_p x[8]; memcpy(x,ctx,n*sizeof *x);
   if(ar[j]==-1) { fuel--; x[n]=ty->args[0]; N *b=gen(rest(ty),x,n+1); return mk(LM,ty,0,NULL,b); }
   if(ar[j]<-1) { Type_p at_=ar[j]==-2?TI:T1; fuel-=2-1*(ar[j]==-2)+0; x[n]=at_; N *b=gen(ty,x,n+1); N *a=gen(at_,ctx,n); return app(lam(at_,b),a); }
   N *r=hd[j]; fuel-=ar[j]; int m=ar[j]; while(m--) { Type_p t=r->ty->args[0]; r=app(r,gen(t,ctx,n)); }
   return r;
}
static void setup(void)
{
   vh_init(); problemType=PROBLEM_HO; TI=H.i; T1=arrow(TI,TI); T2=arrow(TI,T1); TH=arrow(T1,TI);
   static const char *nm[]={"a","f","g","h"}; Type_p ty[]={TI,T1,T2,TH};
   for(nconst=0;nconst<4;nconst++) { FunCode f=SigInsertId(H.sig,(char*)nm[nconst],TypeIsArrow(ty[nconst])?ty[nconst]->arity-1:0,false); SigDeclareFinalType(H.sig,f,ty[nconst]); at[nconst].f=f; at[nconst].ty=ty[nconst]; }
   for(int i=0;i<nconst;i++) at[i].v=ins(at[i].f,0,NULL,at[i].ty);
   nat=nconst; Type_p vt[]={TI,T1,T2}; for(int i=0;i<3;i++) { at[nat].ty=vt[i]; at[nat].v=VarBankGetFreshVar(H.bank->vars,vt[i]); nat++; }
   maxat=nat; amask=(unsigned)sx_param("mask",127);
}
static Type_p which(void) { int k=(int)sx_param("ty",3); if(k==3) k=(int)sx_choose("type",2); return k==0?TI:k==1?T1:T2; }
static int has(N *n,int how) { if(n->k==BV) return 0; if(n->k==AT) return how==0?n->idx>=nconst:0; if(n->k==LM) return how==2||has(n->a,how); if(how==1&&n->f->k==LM) return 1; return has(n->f,how)||has(n->a,how); }
static void props(Term_p e,N *n)
{
   sx_assert(!TermIsGround(e)==has(n,0),"ground terms are recognised"); sx_assert(!TermIsBetaReducible(e)==!has(n,1),"redexes are recognised"); sx_assert(!TermHasLambdaSubterm(e)==!has(n,2),"terms with lambdas are recognised");
}
void lm_norm(void)
{
   setup(); fuel=(int)sx_param("n",3); redex=(int)sx_param("redex",1);
   N *t=gen(which(),NULL,0); Term_p e=toE(t); sx_assert(eq(fromE(e),t),"harness: translation"); N *b=nf(t);
   Term_p eb=BetaNormalizeDB(H.bank,e); sx_assert(eq(fromE(eb),b),"beta normal form"); sx_assert(eb==toE(b),"beta normal forms are shared"); sx_reach(eq(b,t)?"normal":"reduced");
   N *s=eshort(b); Term_p es=LambdaEtaReduceDB(H.bank,eb); sx_assert(eq(fromE(es),s),"eta-short form"); if(!eq(s,b)) sx_reach("eta");
   Term_p el=LambdaEtaExpandDB(H.bank,eb), el2=LambdaEtaExpandDB(H.bank,es); sx_assert(eq(fromE(el),elong(b)),"eta-long form"); sx_assert(el==el2,"eta-long forms are unique");
   sx_assert(eq(fromE(LambdaEtaReduceDB(H.bank,el)),s),"eta-reducing the long form");
   SetEtaNormalizer(LambdaEtaReduceDB); sx_assert(LambdaNormalizeDB(H.bank,e)==es,"normal form");
   sx_assert(BetaNormalizeDB(H.bank,e)==eb,"normalising again"); sx_assert(eq(nf(fromE(WHNF_deref(e))),b),"head normal form keeps the meaning");
   props(e,t); props(eb,b); props(es,s); props(el,elong(b));
   sx_observe(es->weight);
}
void lm_shift(void)
{
   setup(); Type_p ctx[3]={TI,T1,TI}; int n=(int)sx_param("ctx",2); fuel=(int)sx_param("n",2); redex=0;
   N *t=gen(which(),ctx,n); int d=1+(int)sx_choose("by",2); Term_p e=toE(t);
   Term_p r=ShiftDB(H.bank,e,d); sx_assert(eq(fromE(r),shift(t,d,0)),"shifted term"); sx_assert(ShiftDB(H.bank,r,-d)==e,"shifting back");
   Term_p c=CloseWithTypePrefix(H.bank,ctx,n,e); N *w=t; for(int i=n-1;i>=0;i--) w=lam(ctx[i],w); sx_assert(eq(fromE(c),w),"closed term");
   /* application of the closed term to closed arguments */
   fuel=(int)sx_param("m",1); PStack_p as=PStackAlloc(); N *ap=w; int k=1+(int)sx_choose("args",n); for(int i=0;i<k;i++) { int keep=fuel; N *a=gen(ctx[i],NULL,0); fuel=keep; PStackPushP(as,toE(a)); ap=app(ap,a); }
   Term_p q=ApplyTerms(H.bank,c,as); sx_assert(eq(fromE(q),ap),"applied term"); sx_assert(eq(nf(fromE(WHNF_step(H.bank,q))),nf(ap)),"one head step keeps the meaning"); sx_assert(eq(fromE(BetaNormalizeDB(H.bank,q)),nf(ap)),"normal form of an application"); sx_reach("applied");
}
/* named lambdas: names are reused where that captures nothing */
static Term_p names[3][2];
static Term_p toNamed(N *n,Term_p *env,int d)
{
   if(n->k==LM)
   {
      Type_p ty=n->ty->args[0]; int c=ty==TI?0:ty==T1?1:2, v=0;
      for(v=0;v<2;v++) { int ok=1; for(int i=0;i<d;i++) if(env[i]==names[c][v]&&occ(n->a,d-i)) ok=0; if(ok) break; }
      sx_assume(v<2); if(v>=2) sx_done();
      for(int i=0;i<d;i++) if(env[i]==names[c][v]) sx_reach("shadowed");
      env[d]=names[c][v]; Term_p a[2]={env[d],toNamed(n->a,env,d+1)}; return ins(SIG_NAMED_LAMBDA_CODE,2,a,n->ty);
   }
   N *as[8]; int m=0; N *h=n; while(h->k==AP) { as[m++]=h->a; h=h->f; }
   Term_p a[9]; int o=0; FunCode f;
   if(h->k==AT&&h->idx<nconst) f=at[h->idx].f; else { Term_p he=h->k==BV?env[d-1-h->idx]:h->k==LM?toNamed(h,env,d):at[h->idx].v; if(!m) return he; f=SIG_PHONY_APP_CODE; a[o++]=he; }
   while(m) a[o++]=toNamed(as[--m],env,d);
   return ins(f,o,a,n->ty);
}
void lm_named(void)
{
   setup(); Type_p vt[]={TI,T1,T2}; for(int i=0;i<3;i++) for(int j=0;j<2;j++) names[i][j]=VarBankGetFreshVar(H.bank->vars,vt[i]);
   fuel=(int)sx_param("n",3); redex=(int)sx_param("redex",1); N *t=gen(which(),NULL,0); Term_p env[10];
   Term_p e=toNamed(t,env,0), r=NamedToDB(H.bank,e); sx_assert(eq(fromE(r),nf(t)),"named lambdas are read correctly"); if(t->k==LM) sx_reach("lambda");
   for(int i=0;i<3;i++) for(int j=0;j<2;j++) sx_assert(names[i][j]->binding==NULL,"names are released");
}
static N *apply(N *n,N **s)   /* substitute atoms by closed terms */
{
   switch(n->k) { case BV: return n; case AT: return s[n->idx]?s[n->idx]:n; case LM: return mk(LM,n->ty,0,NULL,apply(n->a,s)); default: return mk(AP,n->ty,0,apply(n->f,s),apply(n->a,s)); }
}
void lm_inst(void)
{
   setup(); fuel=(int)sx_param("n",2); redex=0; N *t=eshort(nf(gen(which(),NULL,0))); Term_p e=toE(t);
   unsigned keep=amask;
   for(int round=0;round<(int)sx_param("rounds",1);round++)
   {
      N *s[16]={0}; Subst_p su=SubstAlloc(); amask=(unsigned)sx_param("smask",15);
      for(int i=nconst;i<maxat;i++) if(keep>>i&1) { int o=0; N *q[64]; int sp=0; q[sp++]=t; while(sp) { N *x=q[--sp]; if(x->k==AT&&x->idx==i) o=1; if(x->k==LM) q[sp++]=x->a; if(x->k==AP) { q[sp++]=x->f; q[sp++]=x->a; } }
         if(o) { fuel=(int)sx_param("m",2); s[i]=eshort(nf(gen(at[i].ty,NULL,0))); SubstAddBinding(su,at[i].v,toE(s[i])); sx_reach("bound"); } }
      amask=keep; N *w=nf(apply(t,s)); follow=1;
      sx_assert(eq(nf(fromE(WHNF_deref(e))),w),"head normal form under bindings keeps the meaning");
      follow=0;
      Term_p r=TBInsertInstantiated(H.bank,e); N *x=fromE(r); sx_assert(eq(nf(x),w),"instance"); sx_assert(eq(fromE(BetaNormalizeDB(H.bank,r)),w),"normalised instance");
      Term_p r2=TBInsertInstantiatedDeref(H.bank,e,DEREF_ONCE); sx_assert(eq(nf(fromE(r2)),w),"instance (one step)");
      SubstDelete(su); follow=1; sx_assert(eq(fromE(e),t),"the term is unchanged"); sx_assert(eq(nf(fromE(WHNF_deref(e))),t)||!eq(nf(t),t),"without bindings nothing changes"); follow=0;
   }
}
/* unification and matching */
static N *closed_terms(Type_p ty) { return eshort(nf(gen(ty,NULL,0))); }
static int fo(N *n) { if(n->k==AT) return n->idx<nconst||n->ty==TI; if(n->k!=AP) return 0; N *h=n; while(h->k==AP) { if(!fo(h->a)) return 0; h=h->f; } return h->k==AT&&h->idx<nconst; }
static void unif(int how)
{
   setup(); redex=0; Type_p ty=which(); fuel=(int)sx_param("n",2); N *s=eshort(nf(gen(ty,NULL,0))); unsigned km=amask; amask=(unsigned)sx_param("tmask",km); fuel=(int)sx_param("n2",2); N *t=eshort(nf(gen(ty,NULL,0)));
   sx_trace(str(s),0); sx_trace(str(t),1);
   Term_p es=toE(s), et=toE(t); Subst_p su=SubstAlloc(); int res; SetEtaNormalizer(LambdaEtaReduceDB);
   if(how==0) res=SubstComputeMguPattern(es,et,su); else if(how==1) res=SubstMguComplete(es,et,su)?UNIFIABLE:NOT_IN_FRAGMENT; else if(how==2) res=SubstComputeMatchPattern(es,et,su); else res=SubstMatchComplete(es,et,su)?UNIFIABLE:NOT_IN_FRAGMENT;
   if(res==UNIFIABLE)
   {
      follow=1; N *a=eshort(nf(fromE(es))), *b; follow=how<2; b=eshort(nf(fromE(et))); follow=0; sx_assert(eq(a,b),how<2?"a unifier makes the terms equal":"a match makes the pattern equal to the target"); sx_reach(SubstIsRenaming(su)||PStackEmpty(su)?"renaming":"unified");
      Term_p ia=LambdaNormalizeDB(H.bank,TBInsertInstantiatedDeref(H.bank,es,DEREF_ALWAYS)), ib=how<2?LambdaNormalizeDB(H.bank,TBInsertInstantiatedDeref(H.bank,et,DEREF_ALWAYS)):et; sx_assert(ia==ib,"instances under the unifier are the same shared term");
   }
   else
   {
      sx_assert(PStackEmpty(su),"a failed attempt leaves no bindings"); for(int i=nconst;i<nat;i++) sx_assert(at[i].v->binding==NULL,"a failed attempt leaves no variable bound");
      if((res==NOT_UNIFIABLE&&(how<2||TermIsNonFOPattern(es)))||(how%2&&fo(s)&&fo(t)))
      {
         sx_reach("failed"); N *q[16]={0}; amask=(unsigned)sx_param("smask",7);
         for(int i=nconst;i<maxat;i++) if((km|(unsigned)sx_param("tmask",km))>>i&1) { fuel=(int)sx_param("m",2); q[i]=closed_terms(at[i].ty); }
         N *a=eshort(nf(apply(s,q))), *b=how<2?eshort(nf(apply(t,q))):t; sx_assert(!eq(a,b),"terms with a common instance are not rejected");
      }
      else sx_reach("fragment");
   }
}
void lm_unif(void) { unif(0); }
void lm_mgu(void) { unif(1); }
void lm_match(void) { unif(2); }
void lm_matchc(void) { unif(3); }
/* enumeration of unifiers: every one is a unifier; a common instance of two patterns means there is one */
void lm_csu(void)
{
   setup(); redex=0; Type_p ty=which(); fuel=(int)sx_param("n",2); N *s=eshort(nf(gen(ty,NULL,0))); unsigned km=amask; fuel=(int)sx_param("n2",2); N *t=eshort(nf(gen(ty,NULL,0))); sx_trace(str(s),0); sx_trace(str(t),1);
   HeuristicParms_p p=HeuristicParmsAlloc(); int md=(int)sx_choose("mode",2); p->unif_mode=md?MultiUnif:SingleUnif; p->pattern_oracle=sx_choose("oracle",2); p->fixpoint_oracle=p->pattern_oracle; if(md) { int lim=(int)sx_param("limit",1); p->func_proj_limit=lim; p->imit_limit=lim; p->ident_limit=lim; p->elim_limit=lim; p->max_unif_steps=20*lim*lim; p->max_unifiers=10; } InitUnifLimits(p);
   SetEtaNormalizer(LambdaEtaReduceDB); Term_p es=toE(s), et=toE(t); Subst_p su=SubstAlloc(); CSUIterator_p it=CSUIterInit(es,et,su,H.bank); int n=0;
   while(n<(int)sx_param("max",5)&&NextCSUElement(it))
   {
      n++; Term_p ia=LambdaNormalizeDB(H.bank,TBInsertInstantiatedDeref(H.bank,es,DEREF_ALWAYS)), ib=LambdaNormalizeDB(H.bank,TBInsertInstantiatedDeref(H.bank,et,DEREF_ALWAYS)); sx_assert(ia==ib,"instances under an enumerated unifier are the same shared term");
      follow=1; N *a=eshort(nf(fromE(es))), *b=eshort(nf(fromE(et))); follow=0; sx_assert(!cutoff(a)&&eq(a,b),"an enumerated unifier makes the terms equal");
   }
   CSUIterDestroy(it); for(int i=nconst;i<nat;i++) sx_assert(at[i].v->binding==NULL,"ending the enumeration releases all variables"); sx_reach(n==0?"none":n==1?"one":"several");
   if(n==0&&p->pattern_oracle)
   {
      N *q[16]={0}; amask=(unsigned)sx_param("smask",7); for(int i=nconst;i<maxat;i++) if(km>>i&1) { fuel=(int)sx_param("m",1); q[i]=closed_terms(at[i].ty); }
      sx_assert(!eq(eshort(nf(apply(s,q))),eshort(nf(apply(t,q))))||!(TermIsNonFOPattern(es)&&TermIsNonFOPattern(et)||(md&&sx_param("limit",1)>1)),"patterns with a common instance have a unifier");
   }
}
