/* Subsumption: pairwise, through clause sets and through the feature vector
   index, against a brute-force reference matcher. */
#include "prover.h"
#include <ccl_subsumption.h>
#include <ccl_unit_simplify.h>

static Eqn_p L[64]; static int nl;
typedef struct { Term_p v, t; } Bd; static Bd bd[32]; static int nbd;
static int teq(Term_p a, Term_p b) { if(a->f_code!=b->f_code||a->arity!=b->arity) return 0; for(int i=0;i<a->arity;i++) if(!teq(a->args[i],b->args[i])) return 0; return 1; }
static int rmatch(Term_p p, Term_p t)
{
   if(p->f_code<0) { for(int i=0;i<nbd;i++) if(bd[i].v==p) return teq(bd[i].t,t); if(p->type!=t->type) return 0; bd[nbd].v=p; bd[nbd++].t=t; return 1; }
   if(p->f_code!=t->f_code) return 0;
   for(int i=0;i<p->arity;i++) if(!rmatch(p->args[i],t->args[i])) return 0;
   return 1;
}
static int litdir(Eqn_p s, Eqn_p c, int flip)
{
   Term_p l=flip?c->rterm:c->lterm, r=flip?c->lterm:c->rterm;
   return rmatch(s->lterm,l)&&rmatch(s->rterm,r);
}
/* exists substitution mapping the list s injectively into the literals of c? */
static int rsub(Eqn_p s, Eqn_p *c, int n, unsigned used)
{
   if(!s) return 1;
   for(int i=0;i<n;i++) if(!(used>>i&1) && EqnIsPositive(s)==EqnIsPositive(c[i])) for(int f=0;f<2;f++)
   {
      int save=nbd;
      if(litdir(s,c[i],f) && rsub(s->next,c,n,used|1u<<i)) return 1;
      nbd=save;
   }
   return 0;
}
static int ref_subsumes(Clause_p s, Clause_p c)
{
   Eqn_p a[8]; int n=0; for(Eqn_p l=c->literals;l;l=l->next) a[n++]=l;
   nbd=0; return rsub(s->literals,a,n,0);
}
static const char *pools[]={
   "p(X)|p(Y)|p(a)|q(X,Y)|q(Y,X)|q(X,X)|~p(X)|~q(Y,a)|p(f(X))",
   "X=Y|f(X)=Y|f(X)=X|f(a)=a|g(X,Y)=g(Y,X)|X=a|f(X)!=Y|f(a)!=f(X)|b=a",
   "p(X)|q(X,f(Y))|f(Y)=X|~p(Y)|q(f(f(a)),Z)|g(a,f(b))=f(g(b,X))|X!=Y|q(X,Y)|Z=f(Z)",
   "p(X)|p(h(X))|p(h(h(Y)))|~p(X)|~p(k(h(a)))|q(h(X),k(Y))|q(k(X),X)|q(Z,k(k(X)))|~p(h(a))",
   "b=a|g(a,X)=g(b,Y)|g(a,X)=g(b,X)|f(a)=f(b)|g(a,b)=g(b,a)|g(a,b)!=g(b,a)|g(X,f(a))=g(X,f(b))|g(Y,b)=g(X,a)|f(X)=b",
};
static Clause_p cur_pool;
static void cs_setup(int pool)
{
   pv_init();
   Clause_p all=pv_cnf("axiom",pools[pool]); cur_pool=all;
   for(Eqn_p l=all->literals;l;l=l->next) L[nl++]=l;
   pv_axiom("axiom","p(a)|q(a,b)|f(a)=g(a,b)"); 
   if(pool<3) pv_axiom("axiom","~p(f(X))|q(X,Y)");
   int cfg=(int)sx_param("cfg",-1);
   static const FVIndexType ft[]={FVIACFold,FVIACFeatures,FVISSFeatures,FVIAllFeatures,FVIBillFeatures,FVIBillPlusFeatures,FVIACStagger,FVINoFeatures};
   int f=cfg>=0?cfg:(int)sx_choose("features",sx_param("nf",8));
   FVP->cspec.features=ft[f];
   int pm=sx_param("nperm",1)>1?(int)sx_choose("perm",(int)sx_param("nperm",3)):(int)sx_param("perm",0);
   FVP->use_perm_vectors=pm>0; FVP->eliminate_uninformative=pm==2;
   if(sx_param("fold",0)) FVP->max_symbols=sx_param("fold",0);
   pv_control(); ProofStateInit(PS,PC);
}
static Clause_p mk(const char *nm, int n, int sorted)
{
   Eqn_p a[8]; int hi=nl;
   int flip=(int)sx_param("swap",0)?(int)sx_choose("swap",2):0;
   for(int i=0;i<n;i++) { int k=(int)sx_choose(nm,hi); if(sorted) hi=k+1; a[i]=EqnFlatCopy(L[k]); if(flip&&EqnIsEquLit(a[i])) EqnSwapSides(a[i]); }
   Clause_p c=ClauseAlloc(n?EqnListFromArray(a,n):NULL);
   ClauseOrientLiterals(PC->ocb,c);
   c->weight=ClauseStandardWeight(c); ClauseSubsumeOrderSortLits(c);
   sx_assert(c->pos_lit_no+c->neg_lit_no==n,"literal count");
   return c;
}
static int maxl(Clause_p c) { int n=0; for(Eqn_p l=c->literals;l;l=l->next) n++; return n; }
void cs_nonunit(void)
{
   cs_setup((int)sx_param("pool",0));
   int k=(int)sx_param("k",2), n=(int)sx_param("n",3);
   Clause_p S=mk("s",k,1), C=mk("c",n,1);
   int want=ref_subsumes(S,C);
   int got=ClauseSubsumesClause(S,C);
   sx_assert(got==want,"pairwise subsumption is exact");
   ClauseSet_p set=PS->processed_non_units;
   /* forward, through the set */
   Clause_p D=mk("d",(int)sx_param("nd",0),1);     /* another stored clause */
   if(maxl(D)) ClauseSetIndexedInsertClause(set,D);
   ClauseSetIndexedInsertClause(set,S);
   int wantD=maxl(D)?ref_subsumes(D,C):0;
   Clause_p hit=ClauseSetSubsumesClause(set,C);
   sx_assert((hit!=NULL)==(want||wantD),"forward subsumption finds exactly the subsumed clauses");
   sx_assert(!hit||(hit==S&&want)||(hit==D&&wantD),"forward subsumption returns a subsuming clause");
   FVPackedClause_p pc=FVIndexPackClause(C,set->fvindex);
   Clause_p hit2=ClauseSetSubsumesFVPackedClause(set,pc);
   sx_assert((hit2!=NULL)==(want||wantD),"packed forward subsumption agrees"); FVUnpackClause(pc);
   ClauseSetExtractEntry(S);
   hit=ClauseSetSubsumesClause(set,C);
   sx_assert((hit!=NULL)==wantD,"a removed clause no longer subsumes");
   /* backward */
   ClauseSetIndexedInsertClause(set,C);
   FVPackedClause_p ps=FVIndexPackClause(S,set->fvindex);
   PStack_p st=PStackAlloc();
   int wd=maxl(D)?ref_subsumes(S,D):0;
   ClauseSetFindFVSubsumedClauses(set,ps,st);
   int fc=0,fd=0; while(!PStackEmpty(st)) { Clause_p x=PStackPopP(st); if(x==C) fc++; else if(x==D) fd++; else sx_assert(0,"only stored clauses are found"); }
   sx_assert(fc==want&&fd==wd,"backward subsumption finds exactly the subsumed clauses");
   ClauseSetFindSubsumedClauses(set,S,st); fc=fd=0; while(!PStackEmpty(st)) { Clause_p x=PStackPopP(st); fc+=x==C; fd+=x==D; }
   sx_assert(fc==want&&fd==wd,"unpacked backward subsumption agrees");
   Clause_p one=ClauseSetFindFirstFVSubsumedClause(set,ps);
   sx_assert((one!=NULL)==(want||wd)&&(!one||(one==C&&want)||(one==D&&wd)),"first subsumed clause");
   int var=want&&ref_subsumes(C,S)&&k==n;
   if(!maxl(D)&&set->fvindex) { Clause_p v=ClauseSetFindFVVariantClause(set,ps); sx_assert((v!=NULL)==var,"variants are found exactly"); if(var) sx_reach("variant"); }
   FVUnpackClause(ps); 
   ClauseSetExtractEntry(C); ClauseSetFindSubsumedClauses(set,S,st); sx_assert(PStackGetSP(st)==wd,"removed clauses are not found");
   sx_assert(ref_subsumes(S,C)==want,"clauses are not changed by the test");
   if(want) sx_reach("subsumed"); else sx_reach("not");
   sx_observe(got);
}
/* units: a literal is covered by l=r when an instance of l=r closes it, for
   positive ones also below a common context */
static int top(Eqn_p u, Term_p a, Term_p b)
{
   for(int f=0;f<2;f++) { nbd=0; Term_p x=f?b:a, y=f?a:b; if(rmatch(u->lterm,x)&&rmatch(u->rterm,y)) return 1; }
   return 0;
}
static int ctx1(Eqn_p u, Term_p a, Term_p b)      /* at most one differing argument per level */
{
   if(top(u,a,b)) return 1;
   if(a->f_code!=b->f_code||a->f_code<0||!a->arity) return 0;
   int d=-1; for(int i=0;i<a->arity;i++) if(!teq(a->args[i],b->args[i])) { if(d>=0) return 0; d=i; }
   return d<0?0:ctx1(u,a->args[d],b->args[d]);
}
static int sound(Eqn_p *u, int n, Term_p a, Term_p b)      /* b follows from the units by congruence, top-down */
{
   if(teq(a,b)) return 1;
   for(int i=0;i<n;i++) if(top(u[i],a,b)) return 1;
   if(a->f_code!=b->f_code||a->f_code<0||!a->arity) return 0;
   for(int i=0;i<a->arity;i++) if(!sound(u,n,a->args[i],b->args[i])) return 0;
   return 1;
}
void cs_unit(void)
{
   cs_setup((int)sx_param("pool",1));
   int nu=(int)sx_param("units",2), n=(int)sx_param("n",2), i;
   StrongUnitForwardSubsumption=(bool)sx_choose("strong",2);
   Clause_p U[3]; Eqn_p pos[3], neg[3]; int np=0,nn=0;
   for(i=0;i<nu;i++)
   {
      U[i]=mk("u",1,0); Eqn_p l=U[i]->literals;
      if(EqnIsPositive(l)) { pos[np++]=l; ClauseSetIndexedInsertClause(EqnIsOriented(l)?PS->processed_pos_rules:PS->processed_pos_eqns,U[i]); }
      else { neg[nn++]=l; ClauseSetIndexedInsertClause(PS->processed_neg_units,U[i]); }
   }
   Clause_p C=mk("c",n,1);
   ClauseSet_p sets[3]={PS->processed_pos_rules,PS->processed_pos_eqns,PS->processed_neg_units};
   for(int s=0;s<3;s++)
   {
      int should=0, may=0; Eqn_p own[3]; int no=0;
      for(i=0;i<nu;i++) if(U[i]->set==sets[s]) own[no++]=U[i]->literals;
      for(Eqn_p l=C->literals;l;l=l->next)
      {
         if(EqnIsPositive(l)!=(s<2)) continue;
         for(i=0;i<no;i++) if(s<2?ctx1(own[i],l->lterm,l->rterm):top(own[i],l->lterm,l->rterm)) should=1;
         if(s<2&&sound(own,no,l->lterm,l->rterm)) may=1;
      }
      if(should) may=1;
      Clause_p h=UnitClauseSetSubsumesClause(sets[s],C);
      if(h) sx_assert(may,"a clause reported as unit-subsumed really is");
      if(should) sx_assert(h!=NULL,"unit subsumption is found");
      if(h) { int in=0; for(i=0;i<nu;i++) in|=h==U[i]&&U[i]->set==sets[s]; sx_assert(in,"the subsumer comes from the set"); sx_reach("hit"); }
   }
   for(i=0;i<nu;i++)
   {
      Eqn_p u=U[i]->literals; int should=0, may=0;
      for(Eqn_p l=C->literals;l;l=l->next) if(EqnIsPositive(l)==EqnIsPositive(u))
      {
         if(EqnIsPositive(u)?sound(&u,1,l->lterm,l->rterm):top(u,l->lterm,l->rterm)) may=1;
         nbd=0; if((EqnIsPositive(u)?ctx1(u,l->lterm,l->rterm):top(u,l->lterm,l->rterm)) && (EqnIsOriented(u)||!EqnIsEquLit(u))) should=1;
         if(litdir(u,l,0)) should=1; 
      }
      int got=UnitClauseSubsumesClause(U[i],C);
      if(got) sx_assert(may,"a clause reported as subsumed by a unit really is");
      if(should) sx_assert(got,"direct unit subsumption is found");
      sx_assert(ClauseSubsumesClause(U[i],C)==got,"general and unit test agree");
   }
   /* simplify-reflect removes exactly literals that the units refute */
   Clause_p R=ClauseCopy(C,PS->terms); Eqn_p before[6]; int nb=0; for(Eqn_p l=C->literals;l;l=l->next) before[nb++]=l;
   int keep[6];
   for(i=0;i<nb;i++) keep[i]=1;
   for(int s=0;s<3;s++)
   {
      Clause_p R=ClauseCopy(C,PS->terms); int empty=s<2?ClausePositiveSimplifyReflect(sets[s],R):ClauseNegativeSimplifyReflect(sets[s],R);
      Eqn_p own[3]; int no=0; for(i=0;i<nu;i++) if(U[i]->set==sets[s]) own[no++]=U[i]->literals;
      Eqn_p r=R->literals; int removed=0;
      for(i=0;i<nb;i++)
      {
         Eqn_p l=before[i]; int must=0, may=0;
         if(EqnIsPositive(l)==(s==2)) { for(int j=0;j<no;j++) if(s<2?ctx1(own[j],l->lterm,l->rterm):top(own[j],l->lterm,l->rterm)) must=1; may=must||(s<2&&sound(own,no,l->lterm,l->rterm)); }
         int kept=r&&EqnIsPositive(r)==EqnIsPositive(l)&&r->lterm==l->lterm&&r->rterm==l->rterm;
         if(kept&&!must) r=r->next;
         else { sx_assert(may,"simplify-reflect removes only refuted literals"); removed++; sx_reach("reflect"); }
      }
      sx_assert(r==NULL,"the remaining literals are the old ones"); sx_assert(empty==(R->literals==NULL),"emptiness is reported");
      sx_assert(R->pos_lit_no+R->neg_lit_no==nb-removed,"literal counts are maintained");
   }
   sx_observe(np);
}
