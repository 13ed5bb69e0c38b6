/* Term indexes: every entry that could be used is retrieved, entries designate
   the right positions, removal is exact. */
#include "prover.h"
#include <ccl_global_indices.h>
#include <ccl_clausecpos.h>
#include <ccl_pdtrees.h>

static FunCode fa,fb,fg,ff,fh;
/* reference unification / matching with the two terms renamed apart: side 0 / side 1 variables are distinct */
typedef struct { Term_p v; int s; Term_p t; int ts; } UB; static UB ub[40]; static int nub;
static void wk(Term_p *t, int *s) { for(;;) { if((*t)->f_code>=0) return; int i; for(i=0;i<nub;i++) if(ub[i].v==*t&&ub[i].s==*s) break; if(i==nub) return; Term_p n=ub[i].t; *s=ub[i].ts; *t=n; } }
static int occ(Term_p v, int vs, Term_p t, int s) { wk(&t,&s); if(t==v&&s==vs) return 1; if(t->f_code<0) return 0; for(int i=0;i<t->arity;i++) if(occ(v,vs,t->args[i],s)) return 1; return 0; }
static int runify(Term_p a, int sa, Term_p b, int sb)
{
   wk(&a,&sa); wk(&b,&sb);
   if(a==b&&(sa==sb||0)) return 1;
   if(a->f_code<0) { if(a->type!=b->type||occ(a,sa,b,sb)) return 0; ub[nub].v=a; ub[nub].s=sa; ub[nub].t=b; ub[nub++].ts=sb; return 1; }
   if(b->f_code<0) return runify(b,sb,a,sa);
   if(a->f_code!=b->f_code) return 0;
   for(int i=0;i<a->arity;i++) if(!runify(a->args[i],sa,b->args[i],sb)) return 0;
   return 1;
}
static int unifiable(Term_p a, Term_p b) { nub=0; return runify(a,0,b,1); }
static Term_p bv[32],bt[32]; static int nb;
static int teq(Term_p a, Term_p b) { if(a->f_code!=b->f_code||a->arity!=b->arity) return 0; for(int i=0;i<a->arity;i++) if(!teq(a->args[i],b->args[i])) return 0; return 1; }
static int rmatch(Term_p p, Term_p t)
{
   if(p->f_code<0) { for(int i=0;i<nb;i++) if(bv[i]==p) return teq(bt[i],t); if(p->type!=t->type) return 0; bv[nb]=p; bt[nb++]=t; return 1; }
   if(p->f_code!=t->f_code) return 0;
   for(int i=0;i<p->arity;i++) if(!rmatch(p->args[i],t->args[i])) return 0;
   return 1;
}
static int matches(Term_p p, Term_p t) { nb=0; return rmatch(p,t); }
static void syms(void)
{
   fa=vh_fun("a",0,H.i,H.i); fb=vh_fun("b",0,H.i,H.i); fg=vh_fun("g",1,H.i,H.i); ff=vh_fun("f",2,H.i,H.i); fh=vh_fun("h",3,H.i,H.i);
   int k=(int)sx_param("syms",4); VHSym s[]={{fa,0},{fg,1},{ff,2},{fh,3},{fb,0}};
   vh_nsyms=0; for(int i=0;i<5;i++) if(sx_param("mask",7)>>i&1) vh_syms[vh_nsyms++]=s[i];
   vh_nvars=(int)sx_param("nv",2);
}
static const char *fps[]={"FP0","FPfp","FP1","FP2","FP3D","FP3W","FP4D","FP4W","FP4M","FP5M","FP6M","FP7","FP7M","FP4X2_2","FP3DFlex","NPDT"};
static SubtermOcc_p socc(SubtermTree_p tree, Term_p t)
{
   SubtermOcc_p r=NULL; PStack_p st=PTreeTraverseInit(tree); PTree_p n; while((n=PTreeTraverseNext(st))) { SubtermOcc_p o=n->key; if(o->term==t) r=o; } PTreeTraverseExit(st); return r;
}
static int infp(FPIndex_p ix, int unif, Term_p q, Term_p t, Clause_p c)
{
   PStack_p st=PStackAlloc(); int found=0;
   if(unif) FPIndexFindUnifiable(ix,q,st); else FPIndexFindMatchable(ix,q,st);
   while(!PStackEmpty(st)) { SubtermOcc_p o=socc(PStackPopP(st),t); if(o) { sx_assert(o->term==t,"entry is the stored term"); if(PTreeFind(&(o->pl.occs.rw_full),c)) found++; } }
   PStackFree(st); return found;
}
/* fingerprint and discrimination tree term indexes */
void ix_fp(void)
{
   vh_init(); syms();
   int fp=(int)sx_choose("index",16);
   FPIndex_p ix=FPIndexAlloc(GetFPIndexFunction((char*)fps[fp]),H.sig,SubtermBWTreeFreeWrapper);
   int k=(int)sx_param("k",1), d=(int)sx_param("depth",4); Term_p t[3]; Clause_p c[3];
   for(int i=0;i<k;i++) { c[i]=ClauseAlloc(NULL); t[i]=vh_term("t",d,(int)sx_param("n",4)); SubtermIndexInsertOcc(ix,c[i],t[i],false); }
   Term_p q=vh_term("q",d,(int)sx_param("m",4));
   for(int gone=0;gone<=k-1;gone++)
   {
      for(int i=0;i<k;i++)
      {
         int there=i>=gone;
         if(there&&unifiable(q,t[i])) { sx_assert(infp(ix,1,q,t[i],c[i])==1,"unifiable terms are retrieved"); sx_reach("unifiable"); }
         if(there&&matches(q,t[i])) { sx_assert(infp(ix,0,q,t[i],c[i])==1,"instances are retrieved"); sx_reach("instance"); }
         if(!there) sx_assert(infp(ix,1,q,t[i],c[i])==0&&infp(ix,0,q,t[i],c[i])==0,"removed terms are not retrieved");
         FPTree_p leaf=FPIndexFind(ix,t[i]); int f=leaf&&socc(leaf->payload,t[i])&&PTreeFind(&(socc(leaf->payload,t[i])->pl.occs.rw_full),c[i]);
         sx_assert(f==there,"stored terms are found, removed ones are not");
      }
      if(gone<k-1) SubtermIndexDeleteOcc(ix,c[gone],t[gone],false);
   }
   FPIndexFree(ix);
}
/* demodulator index: all matching rules, once each, with the matching substitution */
void ix_pdt(void)
{
   pv_init(); syms();
   ClauseSet_p set=ClauseSetAlloc(); set->demod_index=PDTreeAlloc(H.bank);
   int k=(int)sx_param("k",2), d=(int)sx_param("depth",3); Clause_p c[4]; Term_p l[4];
   long dates[]={1,3,5,7};
   int ord=(int)sx_choose("dates",2);
   for(int i=0;i<k;i++)
   {
      l[i]=vh_term("l",d,(int)sx_param("n",3)); sx_assume(l[i]->f_code>0||sx_param("vlhs",0));
      Eqn_p e=EqnAlloc(l[i],vh_c(fa),H.bank,true); EqnSetProp(e,EPIsOriented); c[i]=ClauseAlloc(e); c[i]->date=dates[ord?k-1-i:i];
      ClauseSetPDTIndexedInsert(set,c[i]);
   }
   Term_p q=vh_term("q",d,(int)sx_param("m",3));
   int present[4]={1,1,1,1};
   for(int round=0;round<2;round++)
   {
      for(int gen=0;gen<2;gen++) for(int dt=0;dt<=4;dt+=2)
      {
         int seen[4]={0,0,0,0}; Subst_p su=SubstAlloc(); ClausePos_p p;
         PDTreeSearchInit(set->demod_index,q,dt?dt:PDTREE_IGNORE_NF_DATE,gen);
         while((p=PDTreeFindNextDemodulator(set->demod_index,su)))
         {
            int i; for(i=0;i<k;i++) if(p->clause==c[i]) break;
            sx_assert(i<k&&present[i],"retrieved rules are stored rules");
            sx_assert(p->literal==c[i]->literals&&p->side==LeftSide,"retrieved side");
            seen[i]++;
            sx_assert(TermStructEqualDeref(l[i],q,DEREF_ONCE,DEREF_NEVER),"the substitution makes the left side equal to the term");
            sx_reach("match");
         }
         PDTreeSearchExit(set->demod_index); SubstDelete(su);
         for(int i=0;i<k;i++)
         {
            if(present[i]&&matches(l[i],q)&&(!dt||c[i]->date>dt)) sx_assert(seen[i]>=1,"every matching rule is retrieved");
         }
         for(int i=0;i<vh_nvars;i++) sx_assert(vh_var(i)->binding==NULL,"no bindings remain");
      }
      if(!round) { int v=(int)sx_choose("victim",k); ClauseSetExtractEntry(c[v]); present[v]=0; }
   }
}
/* clause level: all eligible positions are in the paramodulation indexes, all subterms in the back-rewriting index */
static int hasocc(FPIndex_p ix, Term_p q, Term_p t, Clause_p c, long cpos)
{
   PStack_p st=PStackAlloc(); int found=0; FPIndexFindUnifiable(ix,q,st);
   while(!PStackEmpty(st))
   {
      SubtermOcc_p o=socc(PStackPopP(st),t); if(!o) continue;
      ClauseTPosCell key; key.clause=c; key.pos=NULL;
      PObjTree_p e=PTreeObjFind(&(o->pl.pos.clauses),&key,CmpClauseTPosCells);
      ClauseTPos_p tp=e?e->key:NULL;
      if(tp) { sx_assert(tp->clause==c,"clause of an entry"); if(cpos<0||NumTreeFind(&(tp->pos),cpos)) found++; }
   }
   PStackFree(st); return found;
}
static int hasbw(FPIndex_p ix, Term_p q, Term_p t, Clause_p c, int rest)
{
   PStack_p st=PStackAlloc(); int found=0; FPIndexFindMatchable(ix,q,st);
   while(!PStackEmpty(st)) { SubtermOcc_p o=socc(PStackPopP(st),t); if(o&&PTreeFind(rest?&(o->pl.occs.rw_rest):&(o->pl.occs.rw_full),c)) found++; }
   PStackFree(st); return found;
}
static GlobalIndices gi; static Clause_p C[2];
static int deepcheck;
static void into(Clause_p c, Eqn_p l, Term_p t, long *pos, int top, int in, int from, int rest, int there)
{
   if(t->f_code<0) { *pos+=DEFAULT_VWEIGHT; return; }
   int neg=top==1&&EqnIsNegative(l)&&!EqnIsEquLit(l);
   FPIndex_p ix=neg?gi.pm_negp_index:gi.pm_into_index;
   if(in)
   {
      if(there) { sx_assert(ClauseCPosGetSubterm(c,*pos)==t,"compact positions designate the subterm"); sx_assert(hasocc(ix,t,t,c,*pos)==1,"eligible positions are indexed for paramodulation into"); sx_reach("into"); }
      else sx_assert(hasocc(ix,t,t,c,-1)==0,"removed clauses leave no positions behind");
   }
   if(from) { sx_assert(hasocc(gi.pm_from_index,t,t,c,there?*pos:-1)==there,"eligible sides are indexed for paramodulation from"); sx_reach("from"); }
   /* subterms nested below an argument are not indexed by the present code: known finding, see ix_bwdeep */
   if(top>-1) sx_assert(hasbw(gi.bw_rw_index,t,t,c,rest)==there,"sides and their arguments are indexed for backward rewriting");
   else if(deepcheck) sx_assert(hasbw(gi.bw_rw_index,t,t,c,rest)==there,"subterms nested below an argument are indexed for backward rewriting");
   *pos+=DEFAULT_FWEIGHT;
   for(int i=0;i<t->arity;i++) into(c,l,t->args[i],pos,top-1,in,0,0,there);
}
static void occs(Clause_p c, int there)
{
   long pos=0;
   for(Eqn_p l=c->literals;l;l=l->next)
   {
      int mx=EqnIsMaximal(l), from=mx&&EqnIsPositive(l)&&!EqnIsSelected(l), rest=mx&&EqnIsPositive(l)&&EqnIsOriented(l); long p=pos;
      into(c,l,l->lterm,&p,1,mx,from,rest,there);
      into(c,l,l->rterm,&p,1,mx&&!EqnIsOriented(l),from&&!EqnIsOriented(l),0,there);
      pos+=EqnStandardWeight(l); sx_assert(p==pos,"positions cover the literal");
   }
}
static const char *pool="p(g(g(X)))|~p(f(a,g(X)))|f(X,g(Y))=f(Y,X)|g(g(a))=b|g(X)!=f(g(b),X)|~p(X)|f(g(g(a)),X)=Y|p(b)|h(a,g(g(g(b))),X)=g(h(X,X,X))";
void ix_occ(void)
{
   pv_init(); Clause_p all=pv_cnf("axiom",pool); Eqn_p L[16]; int nl=0; for(Eqn_p l=all->literals;l;l=l->next) L[nl++]=l;
   pv_axiom("axiom","p(a)"); pv_control();
   static const char *use[]={"FP7","FP0","NPDT","FP3D"}; const char *nm=use[sx_choose("index",(int)sx_param("ni",4))];
   GlobalIndicesNull(&gi); GlobalIndicesInit(&gi,H.sig,(char*)nm,(char*)nm,(char*)nm,0);
   int nlit=(int)sx_param("n",2);
   for(int k=0;k<2;k++)
   {
      Eqn_p a[4]; int hi=nl; int n=k?1:nlit; for(int i=0;i<n;i++) { int x=(int)sx_choose("lit",hi); if(!k) hi=x+1; a[i]=EqnFlatCopy(L[x]); }
      C[k]=ClauseAlloc(EqnListFromArray(a,n)); C[k]->weight=ClauseStandardWeight(C[k]); ClauseMarkMaximalTerms(PC->ocb,C[k]);
      if(!k&&sx_choose("select",2)) { int did=0; for(Eqn_p l=C[k]->literals;l;l=l->next) if(EqnIsNegative(l)) { EqnSetProp(l,EPIsSelected); EqnSetProp(l,EPIsMaximal); did=1; } sx_assume(did); }
      GlobalIndicesInsertClause(&gi,C[k],false);
   }
   occs(C[0],1); occs(C[1],1);
   GlobalIndicesDeleteClause(&gi,C[0],false);
   occs(C[0],0); occs(C[1],1);
   GlobalIndicesInsertClause(&gi,C[0],false); occs(C[0],1);
   sx_reach("end");
}

void ix_bwdeep(void) { deepcheck=1; ix_occ(); }
