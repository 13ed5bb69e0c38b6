/* Clausal preprocessing, splitting, condensation and the propositional check
   on solver-chosen clause sets, judged by all small interpretations. */
#include "prover.h"
#include <cco_preprocessing.h>
#include <ccl_splitting.h>
#include <ccl_condensation.h>
#include <ccl_satinterface.h>
#include <ccl_bce.h>
#include <ccl_pred_elim.h>
#include <ccl_unfold_defs.h>
#include <ccl_gd_transformation.h>
static long newv[400]; static int nnew;
static int new_symbols(FunCode before)
{
   for(FunCode f=before+1;f<=H.sig->f_count;f++)
   {
      int ar=SigFindArity(H.sig,f);
      if(ar>2||sem_n>=SEM_MAX) return 0;
      sem_add(f,ar,SigIsPredicate(H.sig,f));
      for(int i=0;i<sem_ipow(sem_D,ar);i++) newv[nnew++]=sem_sym[sem_n-1].tab[i];
   }
   return 1;
}
/* prem -> exists new symbols: concl */
static void extends(long prem, long concl, const char *m) { if(nnew) sx_assert(sx_extends("ext",prem,concl,newv,nnew),m); else sx_assert(sx_or(sx_not(prem),concl),m); }
/* whole clauses, so that definitions and matching uses occur together */
static const char *c0[]={"p(X)|~q(X)","~p(X)|q(X)","p(a)","~p(b)","q(a)|r","~r|p(b)","~q(b)","r|~p(a)","~r","q(X)|~q(X)","~q(a)|~r|p(X)","p(X)|r",0};
static const char *c1[]={"g(X)=h(X,a)","h(X,Y)=h(Y,X)","g(a)!=h(a,a)","p(g(X))|~p(X)","~p(g(a))","g(X)=X","h(a,b)!=g(b)","p(b)","g(g(X))=h(X,X)","b=g(a)","h(X,b)=b","~p(b)|g(b)=a",0};
static const char *c2[]={"p(X,Y)|~q(X)","~p(X,X)","q(a)","p(a,b)","~p(a,b)|~q(b)","q(X)|q(Y)|~p(X,Y)","~q(b)|r(X)","~r(a)","~p(X,Y)|p(Y,X)","r(X)|~r(Y)|~p(X,Y)","~q(a)|p(b,b)","p(X,Y)|p(Y,a)|p(a,X)","~p(a,X)|~p(X,a)",0};
static const char *c3[]={"g(X)!=g(Y)|X=Y","g(a)=g(b)","a!=b","g(X)!=X","g(g(X))=X","p(g(X))|~p(X)","p(a)","~p(b)|b=a","h(X)=g(a)","h(a)!=h(b)","~p(g(a))","X=a|X=b",0};
static const char *c4[]={"X!=a|p(X)","~p(X)|X=b","a!=b","p(X)|X!=Y|q(Y)","~q(a)","~q(X)|p(a)","~p(b)","a=b|p(b)","q(X)|X=a","p(X)|p(Y)|X=Y","~p(a)|~q(b)","q(b)",0};
static const char *c5[]={"~p(a)|q(a)","p(X)|~q(X)","~p(a)|~p(b)|q(a)","p(a)","~p(a)","q(b)","~q(a)","~q(b)","~q(c)","~q(b)|p(b)","p(X)|p(a)","~p(X)|~p(a)","~p(g(X))|p(X)",0};
static const char *c6[]={"~p(X)|q(X)","~p(X)|r(X)","p(X)|~q(X)|~r(X)","p(a)|p(b)","~p(a)|~q(b)","~p(b)","q(X)","~r(a)","r(X)|~q(X)","~q(a)|p(b)","p(X)|~p(b)|r(a)","r(b)|~p(X)|~p(a)",0};
static const char *c7[]={"p(X)|q(X)|r(X)","p(X)|~q(X)|s(X)","~p(X)|~r(X)","~p(X)|~s(X)","~q(a)","~r(a)","s(a)","p(X)|~s(X)","~p(X)|q(X)","p(a)|p(b)",0};
static const char *c8[]={"p|q|r","p|~q|s","~p|~r","~p|~s","~q","~r","s","p|~s","~p|q","q|~p|~r",0};
static const char **cs[]={c0,c1,c2,c3,c4,c5,c6,c7,c8};
static const char *sg[]={"p(a)|q(b)|r","p(b)|g(a)=h(a,a)","p(a,b)|q(a)|r(a)","p(b)|g(a)=h(a)","p(a)|q(b)","p(g(a))|q(b)|q(c)","p(a)|q(b)|r(a)","p(a)|q(b)|r(a)|s(a)","p|q|r|s"};
static void choose_set(void)
{
   const char **pool=cs[sx_param("pool",0)]; int np=0; while(pool[np]) np++;
   pv_signature(sg[sx_param("pool",0)]);
   sem_anysize(); pv_interp();
   int n=(int)sx_param("n",3), last=-1; int goal=(int)sx_param("goal",1);
   for(int i=0;i<n && last<np-1;i++) { int k=last+1+(int)sx_choose("clause",np-1-last); sx_trace(pool[k],k); pv_axiom(goal&&i==n-1?"negated_conjecture":"axiom",pool[k]); last=k; }
}
void pp_main(void)
{
   pv_init(); sem_D=(int)sx_param("D",2);
   choose_set();
   HeuristicParms_p h=HP;
   int cfg=(int)sx_param("cfg",0)+(int)sx_choose("config",sx_param("ncfg",9));
   h->eqdef_incrlimit=20; h->eqdef_maxclauses=20000;
   switch(cfg)
   {
   case 0: break;
   case 1: h->bce=true; h->bce_max_occs=1000; break;
   case 2: h->pred_elim=true; h->pred_elim_max_occs=1000; h->pred_elim_tolerance=1000; break;
   case 3: h->bce=true; h->bce_max_occs=1000; h->pred_elim=true; h->pred_elim_max_occs=1000; h->pred_elim_gates=true; h->pred_elim_tolerance=1000; break;
   case 4: h->add_goal_defs_pos=h->add_goal_defs_neg=h->add_goal_defs_subterms=true; h->eqdef_incrlimit=LONG_MIN; break;
   case 5: h->replace_inj_defs=true; break;
   case 6: h->pred_elim=true; h->pred_elim_max_occs=1000; h->pred_elim_gates=true; h->pred_elim_force_mu_decrease=true; h->pred_elim_ignore_conj_syms=true; h->no_preproc=true; break;
   case 8: h->pred_elim=true; h->pred_elim_max_occs=1000; h->pred_elim_gates=true; h->pred_elim_tolerance=1000; break;
   case 7: h->add_goal_defs_neg=true; h->bce=true; h->bce_max_occs=2; h->no_preproc=true; h->eqdef_incrlimit=LONG_MIN; break;
   }
   FunCode before=H.sig->f_count;
   sem_unknown=0; sem_maxv=4;
   long A=sem_set(PS->axioms);
   long n0=PS->axioms->members;
   sx_trace("config",cfg);
   ProofStateClausalPreproc(PS,h);
   if(!new_symbols(before)) { sx_reach("big"); return; }
   long B=sem_set(PS->axioms);
   if(sem_unknown) { sx_reach("big"); return; }
   for(Clause_p c=PS->axioms->anchor->succ;c!=PS->axioms->anchor;c=c->succ) { int k=0; for(Eqn_p l=c->literals;l;l=l->next) k++; sx_assert(k==ClauseLiteralNumber(c)&&c->set==PS->axioms,"clause counters and set membership are right"); }
   extends(A,B,"every model of the clauses extends to a model of the preprocessed clauses");
   int may_b=sx_may("after",B);
   if(may_b) sx_assert(sx_may("before",A),"if the preprocessed clauses have a model then so have the original clauses");
   sx_reach(PS->axioms->members<n0?"fewer":PS->axioms->members>n0?"more":"same");
   if(!may_b) sx_reach("unsat");
   /* the number of clauses depends on the order of addresses in pointer sets: not observed */
   sx_observe(may_b);
}
/* ---- splitting */
void pp_split(void)
{
   pv_init(); sem_D=(int)sx_param("D",2);
   static const char *lp[]={"p(X)","~p(Y)","q(X,Y)","~q(Z,a)","r","~r","a=b","X=a","p(a)","q(a,b)","g(Z)=a",0};
   pv_signature("p(a)|q(a,b)|r|g(a)=b"); sem_anysize(); pv_interp();
   int np=11, nl=(int)sx_param("nl",4), nc=(int)sx_param("nc",1);
   for(int c=0;c<nc;c++)
   {
      char b[200]; b[0]=0; int last=-1;
      for(int i=0;i<nl && last<np-1;i++) { int k=(int)sx_choose("lit",np-1-last); k+=last+1; if(i) strcat(b,"|"); strcat(b,lp[k]); last=k; }
      sx_trace(b,0); pv_axiom("axiom",b);
   }
   sem_unknown=0; sem_maxv=4; long A=sem_set(PS->axioms); FunCode before=H.sig->f_count;
   pv_control(); ProofStateInit(PS,PC);
   static const SplitType how[]={SplitGroundNone,SplitGroundOne,SplitGroundFull};
   SplitType h=how[sx_choose("how",3)]; int fresh=(int)sx_choose("fresh",2);
   ClauseSet_p to=ClauseSetAlloc();
   long n=sx_choose("general",2)?ClauseSetSplitClausesGeneral(PS->definition_store,fresh,PS->axioms,to,3):ClauseSetSplitClauses(PS->definition_store,PS->axioms,to,h,fresh);
   ClauseSetInsertSet(to,PS->axioms);
   if(!new_symbols(before)) { sx_reach("big"); return; }
   long B=sem_set(to); if(sem_unknown) { sx_reach("big"); return; }
   sx_assert(sx_or(sx_not(B),A),"the split clauses imply the original clauses");
   extends(A,B,"every model of the clauses extends to a model of the split clauses");
   sx_reach(n?"split":"unsplit"); sx_observe(to->members);
}
/* ---- the propositional check on the ground abstraction of the proof state */
void pp_satcheck(void)
{
   pv_init(); sem_D=(int)sx_param("D",3);
   choose_set(); pv_control();
   long A=sem_set(PS->axioms);
   int ground=1; for(Clause_p c=PS->axioms->anchor->succ;c!=PS->axioms->anchor;c=c->succ) { if(!ClauseIsGround(c)) ground=0; for(Eqn_p l=c->literals;l;l=l->next) if(EqnIsEquLit(l)) ground=0; }
   ProofStateInit(PS,PC);
   static const GroundingStrategy gs[]={GMPseudoVar,GMFirstConst,GMConjMinMinFreq,GMConjMaxMinFreq,GMConjMinMaxFreq,GMConjMaxMaxFreq,GMGlobalMax,GMGlobalMin};
   int k=(int)sx_choose("grounding",8);
   SatClauseSet_p s=SatClauseSetAlloc();
   SatSolver_p solver=picosat_init(); int picked=picosat_enable_trace_generation(solver); (void)picked;
   SatClauseSetImportProofState(s,PS,gs[k],sx_choose("norm",2));
   SatClauseSetMarkPure(s);
   Clause_p e=NULL; ProverResult r=SatClauseSetCheckUnsat(s,&e,solver,(int)sx_param("level",10000));
   picosat_reset(solver);
   if(r==PRUnsatisfiable)
   {
      sx_assert(!sx_may("model",A),"a clause set found propositionally unsatisfiable has no model");
      sx_assert(e!=NULL&&ClauseIsEmpty(e),"an empty clause is reported");
      sx_reach("unsat");
   }
   else { if(ground) sx_assert(sx_may("model",A),"an unsatisfiable ground set is detected"); sx_reach("open"); }
   SatClauseSetFree(s);
}
/* ---- condensation */
void pp_condense(void)
{
   pv_init(); sem_D=2;
   static const char *lp[]={"p(X)","p(a)","p(Y)","q(X,Y)","q(Y,X)","q(X,X)","~p(X)","q(X,g(Y))","X=a","g(X)=a","g(Y)=a","a=Y",0};
   pv_signature("p(a)|q(a,b)|g(a)=b"); sem_anysize(); pv_interp();
   int np=12, nl=(int)sx_param("nl",3); char b[200]; b[0]=0; int last=-1;
   for(int i=0;i<nl && last<np-1;i++) { int k=(int)sx_choose("lit",np-1-last); k+=last+1; if(i) strcat(b,"|"); strcat(b,lp[k]); last=k; }
   sx_trace(b,0); Clause_p c=pv_cnf("axiom",b);
   sem_maxv=4; sem_unknown=0; long A=sem_clause(c); int n=ClauseLiteralNumber(c);
   bool r=Condense(c);
   int k=0; for(Eqn_p l=c->literals;l;l=l->next) k++; sx_assert(k==ClauseLiteralNumber(c),"literal counters are right");
   sx_assert(A==sem_clause(c),"condensation gives an equivalent clause");
   sx_assert(!r||k<n,"condensation makes the clause shorter");
   sx_reach(r?"condensed":"unchanged"); sx_observe(k);
}
