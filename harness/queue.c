/* Given-clause queues: evaluation trees, priorities, weights, selection schedule. */
#include "prover.h"
#include <che_hcbadmin.h>
#include <che_wfcbadmin.h>
#include <che_prio_funs.h>
static Eqn_p L[64]; static int nl;
static void q_setup(void)
{
   pv_init();
   Clause_p all=pv_cnf("axiom","p(X)|p(a)|q(X,f(a))|f(X)=a|~p(X)|~p(f(f(a)))|g(a,X)!=b|X!=Y");
   for(Eqn_p l=all->literals;l;l=l->next) L[nl++]=l;
   pv_axiom("axiom","p(a)|q(a,b)|f(a)=g(a,b)"); pv_axiom("axiom","~p(f(X))|q(X,Y)");
   pv_control();
}
static Clause_p q_clause(const char *nm, int n)
{
   Eqn_p a[8]; int hi=nl;
   for(int i=0;i<n;i++) { int k=(int)sx_choose(nm,hi); hi=k+1; a[i]=EqnFlatCopy(L[k]); }
   Clause_p c=ClauseAlloc(n?EqnListFromArray(a,n):NULL);
   c->weight=ClauseStandardWeight(c);
   return c;
}
/* the best clause of every queue: least priority, then weight, then age, over any history */
void q_tree(void)
{
   q_setup();
   int nq=(int)sx_param("queues",2), ops=(int)sx_param("ops",4), i,j;
   ClauseSet_p set=ClauseSetAlloc();
   Clause_p C[8]; long pr[8][3]; long w[8][3]; int in[8], n=0;
   for(i=0;i<ops;i++)
   {
      int op=n?(int)sx_choose("op",3):0;
      if(op==0)
      {
         C[n]=q_clause("c",0); ClauseAddEvalCell(C[n],EvalsAlloc(nq));
         for(j=0;j<nq;j++)
         {
            pr[n][j]=sx_int("prio",0,sx_param("prios",3)); w[n][j]=(long)sx_choose("weight",sx_param("weights",3));
            C[n]->evaluations->evals[j].priority=pr[n][j];
            C[n]->evaluations->evals[j].heuristic=w[n][j]==0?0.5f:w[n][j]==1?0.75f:2.0f;
         }
         ClauseSetInsert(set,C[n]); in[n]=1; n++;
      }
      else if(op==1)            /* take the best of some queue out */
      {
         int q=nq>1?(int)sx_choose("queue",nq):0; Clause_p b=ClauseSetFindBest(set,q);
         int any=0; for(j=0;j<n;j++) any|=in[j];
         sx_assert((b!=NULL)==any,"a non-empty queue yields a clause");
         if(!b) continue;
         int x=-1; for(j=0;j<n;j++) if(C[j]==b) x=j;
         sx_assert(x>=0&&in[x],"the clause is in the queue");
         for(j=0;j<n;j++) if(in[j]&&j!=x)
            sx_assert(pr[x][q]<pr[j][q]||(pr[x][q]==pr[j][q]&&(w[x][q]<w[j][q]||(w[x][q]==w[j][q]&&x<j))),"the clause is the best of the queue");
         if(x!=0) sx_reach("later");
         ClauseSetExtractEntry(b); in[x]=0; sx_reach("pick");
      }
      else                      /* remove some clause (e.g. deleted by simplification) */
      {
         int x=(int)sx_choose("gone",n); if(!in[x]) continue;
         ClauseSetExtractEntry(C[x]); in[x]=0; sx_reach("gone");
      }
   }
   int left=0; for(j=0;j<n;j++) left+=in[j];
   sx_assert(ClauseSetCardinality(set)==left,"the set holds what was put in");
   /* drain: every clause comes out exactly once, in order */
   int q=nq-1, last=-1;
   for(i=0;i<left;i++)
   {
      Clause_p b=ClauseSetFindBest(set,q); sx_assert(b!=NULL,"no clause is lost");
      int x=-1; for(j=0;j<n;j++) if(C[j]==b) x=j;
      sx_assert(x>=0&&in[x],"each clause comes out once");
      if(last>=0) sx_assert(pr[last][q]<pr[x][q]||(pr[last][q]==pr[x][q]&&(w[last][q]<w[x][q]||(w[last][q]==w[x][q]&&last<x))),"clauses come out in order");
      in[x]=0; last=x; ClauseSetExtractEntry(b);
   }
   sx_assert(ClauseSetFindBest(set,q)==NULL,"then the queue is empty");
   sx_observe(last);
}
/* textual heuristics: schedule, FIFO fairness, documented weights */
static HCB_p q_heur(const char *txt)
{
   Scanner_p in=CreateScanner(StreamTypeInternalString,(char*)txt,true,NULL,true);
   HCB_p h=HeuristicParse(in,PC->wfcbs,PC->ocb,PS); DestroyScanner(in); return h;
}
static long tw(Term_p t, long f, long v) { if(t->f_code<0) return v; long w=f; for(int i=0;i<t->arity;i++) w+=tw(t->args[i],f,v); return w; }
static int tground(Term_p t) { if(t->f_code<0) return 0; for(int i=0;i<t->arity;i++) if(!tground(t->args[i])) return 0; return 1; }
static long cw(Clause_p c, long f, long v, long pm) { long w=0; for(Eqn_p l=c->literals;l;l=l->next) w+=(EqnIsPositive(l)?pm:1)*(tw(l->lterm,f,v)+(l->rterm==H.bank->true_term?0:f+tw(l->rterm,f,v))); return w; }
void q_sched(void)
{
   q_setup();
   int s1=(int)sx_choose("steps1",sx_param("smax",3))+1, s2=(int)sx_choose("steps2",sx_param("smax",3))+1, three=(int)sx_choose("three",2), fifofirst=(int)sx_choose("fifofirst",2);
   char buf[256];
   snprintf(buf,sizeof buf,fifofirst?"(%d*FIFOWeight(ConstPrio),%d*Clauseweight(PreferUnits,3,2,2)%s)":"(%d*Clauseweight(PreferUnits,3,2,2),%d*FIFOWeight(ConstPrio)%s)",s1,s2,three?",1*LIFOWeight(ConstPrio)":"");
   HCB_p h=q_heur(buf);
   int n=(int)sx_param("n",5), i,j; Clause_p C[10]; int in[10];
   ClauseSet_p set=ClauseSetAlloc();
   for(i=0;i<n;i++)
   {
      if(i<sx_param("free",3)) C[i]=q_clause("c",i&1?2:1); else C[i]=ClauseAlloc(EqnFlatCopy(L[(3*i+1)%nl]));
      HCBClauseEvaluate(h,C[i]); ClauseSetInsert(set,C[i]); in[i]=1;
   }
   int total=s1+s2+three, picks=0;
   while(picks<n)
   {
      int ph=picks%total, kind=ph<s1?0:ph<s1+s2?1:2; if(kind<2&&fifofirst) kind=1-kind;      /* 0 weight, 1 fifo, 2 lifo */
      Clause_p b=h->hcb_select(h,set); sx_assert(b!=NULL,"a clause is selected while there are clauses");
      int x=-1; for(j=0;j<n;j++) if(C[j]==b) x=j; sx_assert(x>=0&&in[x],"the selected clause is waiting");
      if(kind==1) for(j=0;j<x;j++) sx_assert(!in[j],"the FIFO queue selects the oldest clause");
      if(kind==2) for(j=x+1;j<n;j++) sx_assert(!in[j],"the LIFO queue selects the newest clause");
      if(kind==0)
      {
         long bx=cw(b,3,2,2); int ux=b->literals->next==NULL;
         for(j=0;j<n;j++) if(in[j]&&j!=x)
         {
            long bj=cw(C[j],3,2,2); int uj=C[j]->literals->next==NULL;
            sx_assert(ux>uj||(ux==uj&&(bx<bj||(bx==bj&&x<j))),"the weight queue selects the lightest preferred clause, oldest first");
         }
         if(x>0) sx_reach("weight");
      }
      else if(kind==1) sx_reach("fifo"); else sx_reach("lifo");
      ClauseSetExtractEntry(b); in[x]=0; picks++;
   }
   sx_assert(h->hcb_select(h,set)==NULL,"nothing is left");
   sx_observe(total);
}
/* documented weights: symbol counting with multipliers for maximal terms, maximal and positive literals */
void q_weight(void)
{
   q_setup();
   static const char *T[]={"(1*Refinedweight(ConstPrio,2,1,1.5,1.25,2))","(1*Clauseweight(ConstPrio,2,1,1.5))","(1*ClauseWeightAge(ConstPrio,2,1,1.5,0.5))","(1*Refinedweight(ConstPrio,3,4,2,4,0.5))","(1*FIFOWeight(ConstPrio))","(1*LIFOWeight(ConstPrio))",
     "(1*Defaultweight(ConstPrio))","(1*Uniqweight(ConstPrio))","(1*NLweight(ConstPrio,2,3,5,1,1,1))","(1*SymbolTypeweight(ConstPrio,7,2,3,5,1,1,1))"};
   int k=(int)sx_choose("fun",(int)(sizeof T/sizeof *T)); HCB_p h=q_heur(T[k]);
   int n=(int)sx_choose("n",sx_param("n",2)+1); Clause_p c=q_clause("c",n), d=q_clause("d",1);
   ClauseMarkMaximalTerms(PC->ocb,c); HCBClauseEvaluate(h,d); HCBClauseEvaluate(h,c); 
   double got=c->evaluations->evals[0].heuristic, want=-1; float w2=c->evaluations->evals[0].heuristic;
   static const double par[][5]={{2,1,1.5,1.25,2},{2,1,1,1,1.5},{2,1,1,1,1.5},{3,4,2,4,0.5}};
   if(k==0||k==1||k==3)
   {
      want=0; const double *q=par[k];
      for(Eqn_p l=c->literals;l;l=l->next)
      {
         double a=tw(l->lterm,(long)q[0],(long)q[1]), b=l->rterm==H.bank->true_term?0:tw(l->rterm,(long)q[0],(long)q[1]);
         double x=a*q[2]+b*(EqnIsOriented(l)?1:q[2])+(b>0?q[0]:0);
         if(EqnIsMaximal(l)) x*=q[3]; if(EqnIsPositive(l)) x*=q[4]; want+=x;
      }
      sx_assert(got==want,"the weight is the documented one");
   }
   if(k==4) sx_assert(got>d->evaluations->evals[0].heuristic,"FIFO weights grow");
   if(k==5) sx_assert(got<d->evaluations->evals[0].heuristic,"LIFO weights shrink");
   if(n==0) sx_assert(c->evaluations->evals[0].priority==PrioBest,"an empty clause always comes first");
   sx_assert(c->evaluations->object==c&&c->evaluations->eval_no==1,"the evaluation belongs to the clause");
   if(n==0) sx_reach("empty"); else sx_reach("clause");
   sx_observe((long)(w2*4));
}
/* priority functions with a documented class */
static int is(const char *a, const char *b) { return strcmp(a,b)==0; }
void q_prio(void)
{
   q_setup();
   static const char *pn[]={"PreferGroundGoals","PreferUnitGroundGoals","PreferGround","PreferNonGround","PreferProcessed","PreferNew","PreferGoals","PreferNonGoals","PreferMixed","PreferPositive","PreferNegative",
      "PreferUnits","PreferNonEqUnits","PreferDemods","PreferNonUnits","ConstPrio","ByLiteralNumber","SimulateSOS","DeferSOS","PreferHorn","PreferNonHorn","PreferUnitAndNonEq","ByCreationDate","ByPosLitNo","ByHornDist","PreferWatchlist","DeferWatchlist","ByNegLitDist","ByGoalDifficulty"};
   int k=(int)sx_choose("fun",(int)(sizeof pn/sizeof *pn)); const char *nm=pn[k];
   ClausePrioFun f=GetPrioFun((char*)nm); sx_assert(f!=NULL,"known priority function");
   int n=(int)sx_choose("n",sx_param("n",2)+1);
   Clause_p c=q_clause("c",n), d=q_clause("d",(int)sx_param("nd",1));
   Clause_p X[2]={c,d}; long pr[2]; int cls[2], num[2];
   for(int i=0;i<2;i++)
   {
      Clause_p x=X[i]; int sos=0,ini=0,done=0,wl=0; 
      if(is(nm,"SimulateSOS")||is(nm,"DeferSOS")) { sos=(int)sx_choose("sos",2); ini=(int)sx_choose("initial",2); }
      if(is(nm,"PreferProcessed")||is(nm,"PreferNew")) done=(int)sx_choose("processed",2);
      if(is(nm,"PreferWatchlist")||is(nm,"DeferWatchlist")) wl=(int)sx_choose("watch",2);
      if(sos) ClauseSetProp(x,CPIsSOS); if(ini) ClauseSetProp(x,CPInitial); if(done) ClauseSetProp(x,CPIsProcessed); if(wl) ClauseSetProp(x,CPSubsumesWatch);
      long date=1; if(is(nm,"ByCreationDate")) { date=sx_int("date",0,1000000); x->create_date=date; }
      int pos=0,neg=0,eq=0,gr=1; for(Eqn_p l=x->literals;l;l=l->next) { if(EqnIsPositive(l)) pos++; else neg++; if(l->rterm!=H.bank->true_term) eq++; gr&=tground(l->lterm)&&tground(l->rterm); }
      int len=pos+neg;
      pr[i]=f(x); cls[i]=-1; num[i]=-1;
      if(is(nm,"PreferGroundGoals")) cls[i]=gr&&!pos;
      if(is(nm,"PreferUnitGroundGoals")) cls[i]=gr&&!pos&&len==1;
      if(is(nm,"PreferGround")) cls[i]=gr;
      if(is(nm,"PreferNonGround")) cls[i]=!gr;
      if(is(nm,"PreferProcessed")) cls[i]=done;
      if(is(nm,"PreferNew")) cls[i]=!done;
      if(is(nm,"PreferGoals")) cls[i]=!pos;
      if(is(nm,"PreferNonGoals")) cls[i]=pos>0;
      if(is(nm,"PreferMixed")) cls[i]=(pos>0)==(neg>0);
      if(is(nm,"PreferPositive")) cls[i]=!neg;
      if(is(nm,"PreferNegative")) cls[i]=!pos;
      if(is(nm,"PreferUnits")) cls[i]=len==1;
      if(is(nm,"PreferNonEqUnits")) cls[i]=len==1&&!eq;
      if(is(nm,"PreferDemods")) cls[i]=len==1&&eq&&pos;
      if(is(nm,"PreferNonUnits")) cls[i]=len>1||!len;
      if(is(nm,"ConstPrio")) cls[i]=1;
      if(is(nm,"ByLiteralNumber")) num[i]=len;
      if(is(nm,"PreferHorn")) cls[i]=pos<=1;
      if(is(nm,"PreferNonHorn")) cls[i]=pos>1;
      if(is(nm,"PreferUnitAndNonEq")) cls[i]=len==1||!eq;
      if(is(nm,"SimulateSOS")) cls[i]=sos||ini;
      if(is(nm,"DeferSOS")) cls[i]=!sos&&!ini;
      if(is(nm,"ByPosLitNo")) num[i]=pos;
      if(is(nm,"ByHornDist")) num[i]=pos>1?pos-1:0;
      if(is(nm,"PreferWatchlist")) cls[i]=wl;
      if(is(nm,"DeferWatchlist")) cls[i]=!wl;
      if(is(nm,"ByCreationDate")) sx_assert(pr[i]==date,"creation date");
      if(is(nm,"ByNegLitDist")) { if(pos) num[i]=1000; else { num[i]=0; for(Eqn_p l=x->literals;l;l=l->next) num[i]+=tground(l->lterm)&&tground(l->rterm)?1:3; } }
      if(is(nm,"ByGoalDifficulty")) num[i]=pos?4:len==1?(gr?0:1):(gr?2:3);
   }
   if(is(nm,"PreferNonUnits")&&(n==0)) sx_done();      /* the empty clause: unspecified */
   if(is(nm,"ByGoalDifficulty")&&n==0) sx_done();
   if(cls[0]>=0)
   {
      if(cls[0]==cls[1]) sx_assert(pr[0]==pr[1],"clauses of the same class have the same priority");
      else sx_assert((pr[0]<pr[1])==(cls[0]>cls[1]),"the documented class is preferred"), sx_reach("differ");
   }
   if(num[0]>=0) { sx_assert((pr[0]<pr[1])==(num[0]<num[1]),"smaller counts come first"); sx_assert((pr[0]>pr[1])==(num[0]>num[1]),"larger counts come later"); }
   sx_observe(k);
}
/* deleting the worst clauses keeps exactly the requested number, the best included */
void q_trim(void)
{
   q_setup();
   int s1=(int)sx_choose("steps1",3)+1, s2=(int)sx_choose("steps2",3)+1; char buf[256];
   snprintf(buf,sizeof buf,"(%d*Clauseweight(ConstPrio,2,1,1),%d*FIFOWeight(ConstPrio))",s1,s2);
   HCB_p h=q_heur(buf); int n=(int)sx_param("n",4),i; Clause_p C[8]; ClauseSet_p set=ClauseSetAlloc(); long w[8];
   for(i=0;i<n;i++) { C[i]=q_clause("c",1); C[i]->ident=i; HCBClauseEvaluate(h,C[i]); ClauseSetInsert(set,C[i]); w[i]=cw(C[i],2,1,1); }
   int best=0; for(i=1;i<n;i++) if(w[i]<w[best]) best=i;
   int keep=(int)sx_choose("keep",n+2);
   long gone=HCBClauseSetDeleteBadClauses(h,set,keep);
   int want=keep<n?keep:n;
   sx_assert(gone==n-want&&ClauseSetCardinality(set)==want,"exactly the requested number of clauses is kept");
   if(keep) { Clause_p b=ClauseSetFindBest(set,0); sx_assert(b==C[best],"the best clause is kept"); }
   i=0; for(Clause_p c=set->anchor->succ;c!=set->anchor;c=c->succ) { i++; sx_assert(!ClauseQueryProp(c,CPDeleteClause),"kept clauses are unmarked"); }
   sx_assert(i==want,"list and count agree");
   if(gone) sx_reach("gone");
   sx_observe(gone);
}
/* a clause with a disposed parent is dropped, others are not */
void q_orphan(void)
{
   q_setup();
   HCB_p h=q_heur(sx_choose("fifo",2)?"(1*FIFOWeight(ConstPrio))":"(1*Clauseweight(ConstPrio,1,1,1),1*FIFOWeight(ConstPrio))");
   ClauseSet_p set=ClauseSetAlloc(); int n=3,i; Clause_p C[4], P=ClauseAlloc(EqnFlatCopy(L[0])), G=ClauseAlloc(EqnFlatCopy(L[1])); int orphan[4];
   for(i=0;i<n;i++)
   {
      C[i]=ClauseAlloc(EqnFlatCopy(L[i==1?(int)sx_choose("c",nl):i])); C[i]->ident=100+i; int k=(int)sx_choose("parent",3);
      orphan[i]=0;
      if(k) { ClausePushDerivation(C[i],DCParamod,P,k==2?G:P); if(k==2) orphan[i]=1; }
      HCBClauseEvaluate(h,C[i]); ClauseSetInsert(set,C[i]);
   }
   ClauseSetProp(G,CPIsDead);
   int rest=0; for(i=0;i<n;i++) rest+=!orphan[i];
   for(i=0;i<rest;i++)
   {
      Clause_p b=h->hcb_select(h,set); sx_assert(b!=NULL,"a clause with living parents is selected");
      int x=-1; for(int j=0;j<n;j++) if(!orphan[j]&&C[j]==b) x=j;
      sx_assert(x>=0&&b->ident==100+x,"orphans are never selected"); ClauseSetExtractEntry(b); orphan[x]=1;
   }
   sx_assert(h->hcb_select(h,set)==NULL,"nothing else is selected");
   if(rest<n) sx_reach("orphan");
   sx_observe(rest);
}
