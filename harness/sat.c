/* Saturation: the state stays equivalent to the axioms, "proof" and "saturated" are right. */
#include "prover.h"
#include <ccl_derivation.h>
#include <ccl_inferencedoc.h>

static long ax;           /* truth value of the axioms in the symbolic interpretation */
static long state_val(void)
{
   long v=sem_set(PS->processed_pos_rules); v=sx_and(v,sem_set(PS->processed_pos_eqns));
   v=sx_and(v,sem_set(PS->processed_neg_units)); v=sx_and(v,sem_set(PS->processed_non_units));
   return sx_and(v,sem_set(PS->unprocessed));
}
static void derived(void)
{
   sem_set_implied(ax,PS->processed_pos_rules,"processed rules follow from the axioms");
   sem_set_implied(ax,PS->processed_pos_eqns,"processed equations follow from the axioms");
   sem_set_implied(ax,PS->processed_neg_units,"processed negative units follow from the axioms");
   sem_set_implied(ax,PS->processed_non_units,"processed non-units follow from the axioms");
   sem_set_implied(ax,PS->unprocessed,"derived clauses follow from the axioms");
}
static int chk;
static void check(void)
{
   if(chk&1) derived();
   if(!(chk&2)) return;
   sem_unknown=0;
   long v=state_val();
   if(!sem_unknown) sx_assert(sx_or(ax,sx_not(v)),"the axioms follow from the current clauses");
}
static const char **pool; static int npool;
static void pick(const char *name, int nl, const char *role)
{
   char b[400]; b[0]=0;
   int last=-1;
   for(int i=0;i<nl;i++)
   {
      int k=(int)sx_choose(name,npool-last-1+(i>0));          /* increasing order, or stop */
      if(i>0) { if(k==0) break; k--; }
      k+=last+1;
      if(i) strcat(b,"|");
      strcat(b,pool[k]); last=k;
      if(last==npool-1) break;
   }
   sx_trace(b,0);
   pv_axiom(role,b);
}

/* pools of literals; the signature clause comes first */
static const char *p0[]={"p(a)|q(a,b)|a=c", "p(X)","~p(X)","p(a)","~p(b)","q(X,Y)","~q(Y,X)","~q(X,X)","a=X","a!=b","X=Y","a=b",0};
static const char *p1[]={"p(a)|g(a)=b", "p(a)","~p(g(a))","g(a)=b","g(b)=a","a=b","g(g(a))=a","g(a)!=b","g(g(a))!=b","a!=b","~p(b)",0};
static const char *p2[]={"f(a,b)=g(a)", "f(X,Y)=f(Y,X)","f(X,a)=X","f(X,Y)=X","g(g(X))=g(X)","g(X)=a","f(X,X)=g(X)","f(a,b)!=f(b,a)","g(a)!=b","f(a,a)!=a","g(b)!=b",0};
static const char *p3[]={"p(a)|q(a,g(b))", "p(X)","~p(g(X))","p(g(X))","~p(X)","q(X,g(X))","~q(X,Y)","~q(a,Y)","q(Y,X)","g(X)=X","g(X)!=a","X!=a",0};
static const char *p4[]={"p(a)|f(a,b)=c", "f(f(X,Y),Z)=f(X,f(Y,Z))","f(X,Y)=f(Y,X)","f(a,f(b,c))!=f(c,f(b,a))","f(X,f(Y,Z))=f(Y,f(X,Z))","f(a,b)=c","f(b,a)!=c","f(X,X)=X","f(a,a)!=a",0};
static const char *p5[]={"p(a)|q(a)|r(b)", "~q(X)","q(a)","~p(b)","r(X)",0};
static const char *p6[]={"p(a)|q(a)|g(a)=b", "p(g(X))","~p(a)","g(X)=b","g(g(X))!=b","q(X)",0};
static const char **pools[]={p0,p1,p2,p3,p4,p5,p6};
/* background theories per pool; solver-chosen, then extended by chosen clauses */
static const char *b0[]={"p(a)","p(X)|q(X,b)","~q(X,Y)|q(Y,X)","X=a|X=b","~p(X)|~q(X,Y)|a=Y","q(X,X)|p(X)|a!=b",0};
static const char *b1[]={"g(a)=b","g(g(a))=a|p(a)","a=b|g(b)=a","~p(b)|g(a)=a","g(b)!=a|~p(a)",0};
static const char *b2[]={"f(X,Y)=f(Y,X)","g(X)=X","f(X,g(Y))=g(X)","f(X,X)=X","g(X)=a|f(X,Y)=X","f(X,Y)!=f(Y,X)|X=Y",0};
static const char *b3[]={"p(g(X))|~p(X)","q(X,Y)|q(Y,X)","~q(X,Y)|~q(Y,X)|g(X)=Y","q(X,g(X))","g(X)=g(Y)|p(X)","g(g(X))=X",0};
static const char *b4[]={"f(X,Y)=f(Y,X)","f(f(X,Y),Z)=f(X,f(Y,Z))","f(X,f(Y,Z))=f(Y,f(X,Z))",0};
static const char *b5[]={"p(X)|q(X)","r(X)|q(X)","~p(a)|~r(a)|q(a)","~q(X)|p(X)","~r(X)|~p(X)|q(b)","p(X)|r(Y)|q(X)","~q(a)|~r(b)","~p(X)|r(X)",0};
static const char *b6[]={"g(X)=X|p(X)","g(g(X))=g(X)","~p(g(X))|q(X)","g(a)=b|~q(X)","~p(X)|g(X)!=X|q(a)","g(X)!=b|p(X)","~q(b)|g(b)=b",0};
static const char **bases[]={b0,b1,b2,b3,b4,b5,b6};
#define NCFG 24
static void config(int k)
{
   HeuristicParms_p h=&PC->heuristic_parms;
   switch(k)
   {
   case 0: break;
   case 1: h->selection_strategy=SelectNegativeLiterals; break;
   case 2: h->selection_strategy=SelectLargestNegativeLiteral; h->pm_type=ParamodSim; break;
   case 3: h->selection_strategy=SelectMaxLComplex; h->condensing=h->condensing_aggressive=true; break;
   case 4: h->pm_type=ParamodOrientedSim; h->forward_context_sr=h->backward_context_sr=true; break;
   case 5: h->pm_type=ParamodSuperSim; h->forward_context_sr=h->forward_context_sr_aggressive=true; break;
   case 6: h->pm_type=ParamodOrientedSuperSim; h->er_varlit_destructive=h->er_strong_destructive=h->er_aggressive=true; break;
   case 7: h->pm_type=ParamodDecreasingSim; h->forward_subsumption_aggressive=true; break;
   case 8: h->pm_type=ParamodSizeDecreasingSim; h->enable_given_forward_simpl=false; break;
   case 9: h->forward_demod=RuleRewrite; h->prefer_general=true; break;
   case 10: h->forward_demod=NoRewrite; h->detsort_tmpset=h->detsort_bw_rw=true; break;
   case 11: h->diseq_decomposition=1024; h->selection_strategy=SelectNegativeLiterals; break;
   case 12: strcpy(h->rw_bw_index_type,"NoIndex"); strcpy(h->pm_from_index_type,"NoIndex"); strcpy(h->pm_into_index_type,"NoIndex"); break;
   case 13: h->ac_handling=NoACHandling; h->selection_strategy=SelectUnlessUniqMaxSmallestOrientable; break;
   case 14: h->filter_orphans_limit=1; h->forward_contract_limit=1; h->selection_strategy=PSelectComplexExceptUniqMaxHorn; break;
   case 15: h->inherit_paramod_lit=true; h->selection_strategy=SelectComplexG; h->ac_handling=ACKeepUnits; break;
   case 16: case 17: h->pm_type=k==16?ParamodSim:ParamodSuperSim; strcpy(h->rw_bw_index_type,"NoIndex"); strcpy(h->pm_from_index_type,"NoIndex"); strcpy(h->pm_into_index_type,"NoIndex"); break;
   case 18: h->local_rw=true; h->selection_strategy=SelectLargestNegativeLiteral; break;
   case 19: h->split_clauses=SplitAll; h->split_method=SplitGroundOne; break;
   case 20: h->split_clauses=SplitAll; h->split_method=SplitGroundFull; h->split_aggressive=h->split_fresh_defs=true; break;
   case 21: h->sat_check_grounding=GMPseudoVar; h->sat_check_step_limit=1; break;
   case 22: h->sat_check_grounding=GMConjMinMinFreq; h->sat_check_normconst=h->sat_check_normalize=true; h->sat_check_size_limit=2; break;
   case 23: h->select_on_proc_only=true; h->selection_strategy=SelectNegativeLiterals; h->ac_res_aggressive=true; h->enable_given_forward_simpl=true; h->forward_contract_limit=2; h->split_clauses=SplitNonHorn; break;
   }
}
/* ---- the printed proof object, read back and checked step by step */
#define MAXP 300
static char pname[MAXP][24]; static long pval[MAXP]; static int punk[MAXP]; static int np;
static int find_name(const char *s, int n) { for(int i=0;i<np;i++) if((int)strlen(pname[i])==n && strncmp(pname[i],s,n)==0) return i; return -1; }
static int isid(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='_'; }
static void check_proof_text(char *t, int refuted)
{
   np=0; int lastempty=0;
   while(*t)
   {
      char *eol=strchr(t,'\n'); sx_assert(eol!=NULL,"every proof line is terminated");
      *eol=0;
      if(t[0]=='%'||t[0]==0||t[0]=='#') { t=eol+1; continue; }
      int fof=strncmp(t,"fof(",4)==0;    /* definitions introduced by splitting: names and parents are checked, not their meaning */
      sx_assert(fof||strncmp(t,"cnf(",4)==0,"proof lines are clauses or formulas");
      char *nm=t+4; int nl=0; while(isid(nm[nl])) nl++;
      char *b=strchr(nm,','); sx_assert(b!=NULL,"role follows the name"); char *role=b+1;
      b=strchr(role,','); sx_assert(b!=NULL,"clause follows the role"); b++; while(*b==' ') b++;
      sx_assert(*b=='(',"clause is parenthesised");
      char *c=b; int d=0; do { if(*c=='(') d++; else if(*c==')') d--; else sx_assert(*c!=0,"balanced clause"); c++; } while(d);
      char *src=c; 
      lastempty=(c-b==8 && strncmp(b,"($false)",8)==0);
      sem_unknown=0;
      long v=1;
      if(fof) sem_unknown=1;
      else
      {
         static char txt[600]; snprintf(txt,sizeof txt,"cnf(x,plain,%.*s).",(int)(c-b),b);
         Clause_p cl=pv_clause(txt);
         v=sem_clause(cl);
         ClauseFree(cl);
      }
      int k=find_name(nm,nl);
      sx_assert(k<0,"step names are unique");
      if(np==MAXP||nl>=24) return;      /* beyond the bound of this harness */
      if(*src==',') src++; while(*src==' ') src++;
      long prem=1; int unk=sem_unknown, leaf=0, par=0;
      if(strncmp(src,"file(",5)==0)
      {  /* must be one of the inputs */
         leaf=1; char *q=strstr(src+6,"',"); sx_assert(q!=NULL,"input steps name their origin"); q++; while(*q==','||*q==' ') q++; while(*q==' ') q++;
         sx_assert(q[0]=='i'&&q[1]=='n',"origin is an input clause");
         int id=atoi(q+2), hit=0;
         for(Clause_p a=PS->axioms->anchor->succ;a!=PS->axioms->anchor;a=a->succ)
            if(a->info && a->info->name && atoi(a->info->name+2)==id) { hit=1; prem=sem_clause(a); }
         sx_assert(hit,"the named input exists");
      }
      else if(strncmp(src,"introduced(",11)==0) { sx_assert(fof,"only definitions are introduced without parents"); leaf=1; }
      else
         for(char *q=src;*q;)
         {
            if(!isid(*q)) { q++; continue; }
            int n=0; while(isid(q[n])) n++;
            if(strncmp(q,"c_0_",4)==0 || (n>2&&q[0]=='i'&&q[1]=='n'&&q[2]>='0'&&q[2]<='9'))
            {
               int p=find_name(q,n);
               sx_assert(p>=0,"parents are listed before their conclusions");
               prem=sx_and(prem,pval[p]); unk|=punk[p]; par++;
            }
            q+=n;
         }
      sx_assert(leaf||par,"every step has parents or is an input");
      if(!unk) sx_assert(sx_or(sx_not(prem),v),"every printed step follows from its listed parents");
      memcpy(pname[np],nm,nl); pname[np][nl]=0; pval[np]=v; punk[np]=unk; np++;
      t=eol+1;
   }
   if(refuted) sx_assert(np>0&&lastempty,"the printed refutation ends in the empty clause");
}
static void proof_check(Clause_p e)
{
   char *buf; size_t n; FILE *f=open_memstream(&buf,&n);
   FILE *old=GlobalOut; GlobalOut=f;
   if(!e)
   {
      ClauseSetPushClauses(PS->extract_roots,PS->processed_pos_rules); ClauseSetPushClauses(PS->extract_roots,PS->processed_pos_eqns);
      ClauseSetPushClauses(PS->extract_roots,PS->processed_neg_units); ClauseSetPushClauses(PS->extract_roots,PS->processed_non_units);
      ClauseSetPushClauses(PS->extract_roots,PS->unprocessed);
   }
   Derivation_p d=DerivationCompute(PS->extract_roots,PS->signature);
   DerivationPrintConditional(f,"CNFRefutation",d,PS->signature,POList,false);
   fflush(f); GlobalOut=old; 
   sx_trace(buf,0);
   check_proof_text(buf,e!=NULL);
   DerivationFree(d);
   sx_reach(e?"proof":"saturation");
}
void sat_main(void)
{
   chk=(int)sx_param("chk",3);
   if(chk&4) { PrintProofObject=1; DocOutputFormat=tstp_format; OutputFormat=TSTPFormat; }
   pv_init();
   if(sx_param("ord",0)) HP->order_params.ordertype=(int)sx_param("ord",0);
   if(sx_param("litcmp",0)) HP->order_params.lit_cmp=(int)sx_param("litcmp",0);
   sem_D=(int)sx_param("D",2);
   const char **base=bases[sx_param("pool",0)]; int nbase=0; while(base[nbase]) nbase++;
   pool=pools[sx_param("pool",0)]; npool=0; while(pool[npool+1]) npool++;
   pv_signature(pool[0]); pool++;
   sem_anysize();
   pv_interp();
   pv_control();
   int lo=(int)sx_param("cfg",0), n=(int)sx_param("ncfg",1);
   config(lo+(int)sx_choose("config",n));
   int nb=(int)sx_param("nb",0), lastb=-1;
   for(int i=0;i<nb && lastb<nbase-1;i++) { int k=lastb+1+(int)sx_choose("base",nbase-1-lastb); pv_axiom("axiom",base[k]); sx_trace(base[k],0); lastb=k; }
   int nc=(int)sx_param("nc",2), nl=(int)sx_param("nl",2);
   for(int i=0;i<nc;i++) pick("lit",nl,i==nc-1?"negated_conjecture":"axiom");
   ax=sem_set(PS->axioms);
   ProofStateInit(PS,PC);
   Clause_p e=NULL; int steps=(int)sx_param("steps",8);
   sem_maxv=(int)sx_param("maxv",3);
   int every=(int)sx_param("every",1);
   while(steps-- && !ClauseSetEmpty(PS->unprocessed) && !(e=Saturate(PS,PC,1,LONG_MAX,LONG_MAX,LONG_MAX,LONG_MAX,LONG_MAX,LONG_MAX)))
   {
      if(steps%every==0) check();
   }
   if(!e && every>1) check();
   if(chk&4) { proof_check(e); return; }
   if(e)
   {
      sx_assert(ClauseIsEmpty(e),"a refutation ends in the empty clause");
      if(chk&1) sx_assert(sx_not(ax),"a refuted clause set has no model");
      sx_reach("refuted");
   }
   else if(ClauseSetEmpty(PS->unprocessed) && (chk&2) && sx_param("model",1))
   {
      int m=sx_may("model",ax);
      sx_assert(m,"a saturated clause set has a model");
      sx_reach("saturated");
   }
   else sx_reach("bounded");
   sx_observe(e!=NULL);
}
