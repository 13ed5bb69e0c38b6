/* Redundancy tests and local simplifications: tautologies, AC reasoning,
   superfluous literals, destructive equality resolution, contextual cutting. */
#include "prover.h"
#include <ccl_tautologies.h>
#include <cte_acterms.h>
#include <che_axiomscan.h>
#include <cco_eqnresolving.h>
#include <ccl_context_sr.h>
#include <cco_simplification.h>
#include <cco_ho_inferences.h>
static long imp(long a,long b) { return sx_or(sx_not(a),b); }
static int count(Clause_p c) { int n=0; for(Eqn_p l=c->literals;l;l=l->next) n++; return n; }
static void lit_counts(Clause_p c)
{
   int p=0,n=0; for(Eqn_p l=c->literals;l;l=l->next) if(EqnIsPositive(l)) p++; else n++;
   sx_assert(p==c->pos_lit_no&&n==c->neg_lit_no,"literal counters are right");
}
/* pools: signature, then literals */
static const char *p0[]={"p(a)|g(a)=b","p(a)","~p(a)","p(b)","~p(b)","a=b","a!=b","g(a)=a","g(a)!=a","g(g(a))!=a","g(g(a))=b","b!=g(b)","g(b)=a","a!=a","~p(g(a))",0};
static const char *p1[]={"p(a)|q(a,b)|g(a)=b","p(X)","~p(Y)","~p(X)","X=a","X!=a","X!=Y","a!=Y","g(X)=Y","Y!=g(X)","q(X,Y)","~q(Y,X)","X!=g(X)","q(a,X)","~q(Y,a)","X=Y",0};
static const char *p2[]={"p(a)|q(a,b)|r","p(X)","~p(a)","p(Y)","~q(X,Y)","q(Y,X)","q(X,X)","r","~r","$true","$false","~$true","~$false","p(a)",0};
static const char **pools[]={p0,p1,p2};
static Clause_p pick(int pool,int nl,const char *nm)
{
   const char **p=pools[pool]+1; int np=0; while(p[np]) np++;
   char b[300]; b[0]=0; int last=-1;
   for(int i=0;i<nl;i++)
   {
      int left=np-1-last; if(!left) break;
      int k=(int)sx_choose(nm,left+(i>0)); if(i>0) { if(!k) break; k--; }
      k+=last+1; if(i) strcat(b,"|"); strcat(b,p[k]); last=k;
   }
   sx_trace(b,0); return pv_cnf("axiom",b);
}
static void start(int pool) { pv_init(); sem_D=(int)sx_param("D",2); pv_signature(pools[pool][0]); sem_anysize(); pv_interp(); pv_control(); ProofStateInit(PS,PC); sem_maxv=4; }
void rd_taut(void)
{
   int pool=(int)sx_param("pool",0); start(pool);
   Clause_p c=pick(pool,(int)sx_param("nl",3),"lit");
   sem_unknown=0; long A=sem_clause(c); int n=count(c);
   int t=ClauseIsTautology(PS->tmp_terms,c), tr=ClauseIsTrivial(c);
   sx_assert(n==count(c)&&A==sem_clause(c),"testing does not change the clause");
   if(t) sx_assert(A,"a clause called a tautology is valid");
   if(tr) sx_assert(A,"a clause called trivial is valid");
   int comp=0; for(Eqn_p l=c->literals;l;l=l->next) { if(EqnIsPositive(l)&&l->lterm==l->rterm) comp=1; for(Eqn_p k=c->literals;k;k=k->next) if(EqnIsPositive(l)!=EqnIsPositive(k)&&((l->lterm==k->lterm&&l->rterm==k->rterm)||(l->lterm==k->rterm&&l->rterm==k->lterm))) comp=1; }
   if(comp) sx_assert(t&&tr,"complementary literals and trivial equations are recognised");
   if(sx_param("ground",0)&&!t) sx_assert(sx_may("false",sx_not(A)),"a valid ground clause is recognised");
   sx_reach(t?tr?"trivial":"taut":"open"); sx_observe(t*2+tr);
}
void rd_local(void)
{
   int pool=(int)sx_param("pool",1); start(pool);
   Clause_p c=pick(pool,(int)sx_param("nl",3),"lit");
   ClauseOrientLiterals(PC->ocb,c); c->weight=ClauseStandardWeight(c);
   sem_unknown=0; long A=sem_clause(c); int n=count(c);
   int op=(int)sx_choose("op",4); long r=0; Clause_p d=c;
   switch(op)
   {
   case 0: r=ClauseRemoveSuperfluousLiterals(c); sx_assert(n-count(c)==r,"the number of removed literals is reported");
      for(Eqn_p l=c->literals;l;l=l->next) { sx_assert(EqnIsPositive(l)||l->lterm!=l->rterm,"no trivially false literal is left"); for(Eqn_p k=l->next;k;k=k->next) sx_assert(!(EqnIsPositive(l)==EqnIsPositive(k)&&((l->lterm==k->lterm&&l->rterm==k->rterm)||(l->lterm==k->rterm&&l->rterm==k->lterm))),"no duplicate literal is left"); }
      break;
   case 1: case 2: { ClauseSet_p st=ClauseSetAlloc(); r=ClauseERNormalizeVar(PS->terms,c,st,PS->freshvars,op==2); sx_assert(st->members==(r!=0),"the result is stored once"); if(r) sx_assert(st->anchor->succ==c,"the resolved clause is stored"); } break;
   case 3: r=BooleanSimplification(c); if(r) sx_assert(A,"a clause dropped by Boolean simplification is valid"); break;
   }
   if(!(op==3&&r)) { lit_counts(d); long B=sem_clause(d); if(!sem_unknown) { sx_assert(imp(A,B),"the simplified clause follows from the clause"); sx_assert(imp(B,A),"the simplified clause implies the clause"); } }
   sx_reach(r?"changed":"same"); sx_observe(r);
}
/* contextual literal cutting with stored clauses */
void rd_context(void)
{
   int pool=(int)sx_param("pool",1); start(pool);
   Clause_p s=pick(pool,(int)sx_param("ns",2),"stored"), c=pick(pool,(int)sx_param("nl",2),"lit");
   ClauseOrientLiterals(PC->ocb,s); s->weight=ClauseStandardWeight(s); ClauseSubsumeOrderSortLits(s);
   ClauseOrientLiterals(PC->ocb,c); c->weight=ClauseStandardWeight(c);
   sem_unknown=0; long S=sem_clause(s), A=sem_clause(c);
   int n=count(c), back=(int)sx_choose("back",2);
   if(!back)
   {
      ClauseSetIndexedInsertClause(PS->processed_non_units,s);
      int r=ClauseContextualSimplifyReflect(PS->processed_non_units,c);
      sx_assert(n-count(c)==r,"the number of removed literals is reported"); lit_counts(c);
      sx_assert(c->weight==ClauseStandardWeight(c),"the weight is kept up to date");
      long B=sem_clause(c);
      if(!sem_unknown) { sx_assert(imp(sx_and(A,S),B),"the shortened clause follows from the clause and the stored clause"); sx_assert(imp(B,A),"the shortened clause implies the clause"); }
      sx_reach(r?"changed":"same"); sx_observe(r);
   }
   else
   {
      ClauseSubsumeOrderSortLits(c); ClauseSetIndexedInsertClause(PS->processed_non_units,c);
      PStack_p st=PStackAlloc(); ClauseSetFindContextSRClauses(PS->processed_non_units,s,st);
      int f=0; while(!PStackEmpty(st)) { sx_assert(PStackPopP(st)==(void*)c,"only stored clauses are found"); f=1; }
      sx_assert(A==sem_clause(c)&&S==sem_clause(s),"searching changes no clause"); lit_counts(s); lit_counts(c);
      ClauseSetExtractEntry(c); ClauseSetIndexedInsertClause(PS->processed_non_units,s);
      int r=ClauseContextualSimplifyReflect(PS->processed_non_units,c);
      sx_assert(!f||r,"backward search finds only clauses that can be shortened"); if(count(s)==1&&r&&!f) sx_assert(imp(S,A),"a clause that a stored unit shortens is found unless it is subsumed"); sx_reach(f?"found":"none"); sx_observe(f);
   }
}
/* ---- AC */
static FunCode F[2],K[4]; static Term_p leaf[4]; static int acp[2], fl;     /* 0 free, 1 C, 2 A, 3 AC */
static void ac_setup(void)
{
   pv_init(); sem_D=(int)sx_param("D",2); sem_maxv=4;
   pv_signature("k(f(a,b),c)=g(a)");
   F[0]=SigFindFCode(H.sig,"f"); F[1]=SigFindFCode(H.sig,"k");
   static const char *cn[]={"a","b","c"};
   int nv=(int)sx_param("vars",0);
   for(int i=0;i<3;i++) { K[i]=SigFindFCode(H.sig,(char*)cn[i]); leaf[i]=i>=3-nv?VarBankVarAssertAlloc(H.bank->vars,-2*(i+1),H.i):vh_c(K[i]); }
   pv_interp();
}
static Term_p ac_term(int leaves,int ops,int nleaf)
{
   if(leaves==1) return leaf[sx_choose("leaf",nleaf)];
   if(leaves==2 && sx_param("g",0) && sx_choose("unary",2)) return vh_f1(SigFindFCode(H.sig,"g"),ac_term(1,ops,nleaf));
   int l=1+(leaves>2?(int)sx_choose("shape",leaves-1):0);
   FunCode f=F[ops>1?sx_choose("op",ops):0];
   Term_p a=ac_term(l,ops,nleaf); Term_p b=ac_term(leaves-l,ops,nleaf);
   return vh_f2(f,a,b);
}
static long op2(FunCode f,long x,long y) { for(int k=0;k<sem_n;k++) if(sem_sym[k].f==f) { long r=sem_sym[k].tab[0]; int m=sem_D*sem_D; for(int i=1;i<m;i++) r=sx_ite(x+y*sem_D==i,sem_sym[k].tab[i],r); return r; } return 0; }
static long law_c(FunCode f) { long r=1; for(int x=0;x<sem_D;x++) for(int y=0;y<x;y++) r=sx_and(r,op2(f,x,y)==op2(f,y,x)); return r; }
static long law_a(FunCode f) { long r=1; for(int x=0;x<sem_D;x++) for(int y=0;y<sem_D;y++) for(int z=0;z<sem_D;z++) r=sx_and(r,op2(f,op2(f,x,y),z)==op2(f,x,op2(f,y,z))); return r; }
/* reference: equality modulo the declared laws */
static int op_of(Term_p t) { for(int i=0;i<2;i++) if(t->f_code==F[i]) return i; return -1; }
static void flat(FunCode f,Term_p t,Term_p *a,int *n) { if(t->f_code==f) { flat(f,t->args[0],a,n); flat(f,t->args[1],a,n); } else a[(*n)++]=t; }
static int ref_eq(Term_p s,Term_p t)
{
   if(s==t) return 1;
   if(s->f_code!=t->f_code||!s->arity) return 0;
   int o=op_of(s);
   if(o>=0&&acp[o]==3)
   {
      Term_p a[12],b[12]; int n=0,m=0; flat(s->f_code,s,a,&n); flat(t->f_code,t,b,&m); if(n!=m) return 0;
      int used[12]={0};
      for(int i=0;i<n;i++) { int j; for(j=0;j<m;j++) if(!used[j]&&ref_eq(a[i],b[j])) break; if(j==m) return 0; used[j]=1; }
      return 1;
   }
   int ok=1; for(int i=0;i<s->arity;i++) ok=ok&&ref_eq(s->args[i],t->args[i]);
   if(!ok&&o>=0&&acp[o]==1) ok=ref_eq(s->args[0],t->args[1])&&ref_eq(s->args[1],t->args[0]);
   return ok;
}
static long theory(int ops)
{
   long th=1;
   for(int i=0;i<ops;i++)
   {
      acp[i]=(int)sx_choose("laws",4);
      if(acp[i]&1) { SigSetFuncProp(H.sig,F[i],FPCommutative); th=sx_and(th,law_c(F[i])); }
      if(acp[i]&2) { SigSetFuncProp(H.sig,F[i],FPAssociative); th=sx_and(th,law_a(F[i])); }
   }
   return th;
}
void rd_ac(void)
{
   ac_setup(); int ops=(int)sx_param("ops",1), nleaf=(int)sx_param("leaf",3), n=(int)sx_param("n",3);
   long th=theory(ops);
   Term_p s=ac_term(n,ops,nleaf); Term_p t=ac_term(n,ops,nleaf);
   int r=TermACEqual(H.sig,s,t);
   sem_nv=0; long vs=sem_term(s), vt=sem_term(t);
   if(r) sx_assert(imp(th,vs==vt),"terms called equal modulo the laws are equal in every model of the laws");
   sx_assert((r!=0)==ref_eq(s,t),"equality modulo associativity and commutativity is decided exactly");
   sx_reach(r?"equal":"different"); sx_observe(r);
}
/* clauses: redundancy and resolution of literals modulo AC */
void rd_acclause(void)
{
   ac_setup(); long th=theory(1); int n=(int)sx_param("n",3);
   Term_p s=ac_term(n,1,(int)sx_param("leaf",3)); Term_p t=ac_term(n,1,(int)sx_param("leaf",3));
   Eqn_p l=EqnAlloc(s,t,H.bank,sx_choose("sign",2));
   if(sx_choose("more",2)) l->next=EqnAlloc(leaf[0],leaf[1],H.bank,sx_choose("sign2",2));
   Clause_p c=ClauseAlloc(l); c->weight=ClauseStandardWeight(c);
   sem_unknown=0; long A=sem_clause(c); int m=count(c);
   int red=ClauseIsACRedundant(c);
   if(m==1&&EqnIsPositive(l)&&n<=3)
   {  /* the laws themselves: both sides have the same distinct variables */
      Term_p x[8], y[8]; int nx=0, ny=0, law=1; flat(F[0],s,x,&nx); flat(F[0],t,y,&ny);
      for(int i=0;i<nx&&law;i++) { int k=0, d=0; for(int j=0;j<ny;j++) k+=x[i]==y[j]; for(int j=0;j<nx;j++) d+=x[i]==x[j]; law=k==1&&d==1&&TermIsFreeVar(x[i]); }
      if(law&&s!=t) { sx_assert(!red,"the laws themselves are kept"); sx_reach("law"); }
   }
   if(red) sx_assert(imp(th,A),"an AC-redundant clause follows from the AC laws");
   int r=ClauseRemoveACResolved(c);
   sx_assert(m-count(c)==r,"the number of removed literals is reported"); lit_counts(c);
   sx_assert(imp(sx_and(th,A),sem_clause(c)),"AC resolution is sound"); sx_assert(imp(sem_clause(c),A),"AC resolution only removes literals");
   sx_reach(red?"redundant":r?"resolved":"kept"); sx_observe(red*2+r);
}
/* recognition of the laws from clauses */
void rd_acscan(void)
{
   ac_setup(); int n=(int)sx_param("n",2), ops=(int)sx_param("ops",1);
   Term_p s=ac_term(n,ops,3); Term_p t=ac_term(n,ops,3);
   int sign=(int)sx_choose("sign",2);
   Clause_p c=ClauseAlloc(EqnAlloc(s,t,H.bank,sign)); c->weight=ClauseStandardWeight(c);
   sem_unknown=0; long A=sem_clause(c);
   FunCode fc=DetectCommutativity(c), fa=DetectAssociativity(c);
   if(fc) sx_assert(imp(A,law_c(fc)),"a clause recognised as commutativity implies commutativity");
   if(fa) sx_assert(imp(A,law_a(fa)),"a clause recognised as associativity implies associativity");
   ClauseScanAC(H.sig,c);
   for(int i=0;i<2;i++)
   {
      if(SigQueryFuncProp(H.sig,F[i],FPCommutative)) sx_assert(imp(A,law_c(F[i])),"a symbol marked commutative is commutative");
      if(SigQueryFuncProp(H.sig,F[i],FPAssociative)) sx_assert(imp(A,law_a(F[i])),"a symbol marked associative is associative");
   }
   sx_reach(fc?"comm":fa?"assoc":"other"); sx_observe(fc*100+fa);
}
