/* P04: unification and matching, against textbook algorithms. */
#include "typed.h"
#include <cte_match_mgu_1-1.h>

static FunCode fa,fb,fg,ff,fc,fk,fp;
static Type_p J;
#define NV 7
static void setup(void)
{
   vh_init();
   J=vh_sort("j");
   ntsy=0;
   fa=vh_funs("a",0,H.i,H.i);
   ff=vh_funs("f",2,H.i,H.i); fg=vh_funs("g",1,H.i,H.i);
   if(sx_param("sorts",0)) { fc=vh_funs("c",0,J,J); fk=vh_funs("k",1,J,H.i); }
   else fb=vh_funs("b",0,H.i,H.i);
   fp=vh_fun("p",1,H.i,H.o);
   /* left variables 0,1 (sort i) 2 (sort j); right 3,4 and 5; indices far apart; 6: boolean-free spare */
   static const int idx[NV]={-2,-140,-6,-8,-10,-300,-12};
   Type_p ty[NV]={H.i,H.i,J,H.i,H.i,J,H.i};
   for(int i=0;i<NV;i++) tvar[i]=VarBankVarAssertAlloc(H.bank->vars,idx[i],ty[i]);
   ntvar=NV;
}
#define LEFT 0x07
#define RIGHT 0x38

/* reference unification: triangular substitution */
static Term_p rb[NV];
static int rv(Term_p t) { for(int i=0;i<NV;i++) if(tvar[i]->f_code==t->f_code) return i; return -1; }
static Term_p walk(Term_p t) { while(isvar(t)&&rb[rv(t)]) t=rb[rv(t)]; return t; }
static int rocc(Term_p t, Term_p v) { t=walk(t); if(isvar(t)) return t->f_code==v->f_code; for(int i=0;i<t->arity;i++) if(rocc(t->args[i],v)) return 1; return 0; }
static int runify(Term_p s, Term_p t)
{
   s=walk(s); t=walk(t);
   if(isvar(s)&&isvar(t)&&s->f_code==t->f_code) return 1;
   if(isvar(s)) { if(s->type!=t->type||rocc(t,s)) return 0; rb[rv(s)]=t; return 1; }
   if(isvar(t)) { if(s->type!=t->type||rocc(s,t)) return 0; rb[rv(t)]=s; return 1; }
   if(s->f_code!=t->f_code) return 0;
   for(int i=0;i<s->arity;i++) if(!runify(s->args[i],t->args[i])) return 0;
   return 1;
}
/* variant check between the value of a term under the real bindings and under the reference */
static FunCode m1[NV], m2[NV]; static int nm;
static Term_p real_walk(Term_p t) { int k=0; while(isvar(t)&&t->binding&&k++<20) t=t->binding; return t; }
static int variant(Term_p s, Term_p t)
{
   s=real_walk(s); t=walk(t);
   if(isvar(s)||isvar(t))
   {
      if(!isvar(s)||!isvar(t)||s->type!=t->type) return 0;
      for(int i=0;i<nm;i++) if(m1[i]==s->f_code||m2[i]==t->f_code) return m1[i]==s->f_code&&m2[i]==t->f_code;
      m1[nm]=s->f_code; m2[nm++]=t->f_code; return 1;
   }
   if(s->f_code!=t->f_code) return 0;
   for(int i=0;i<s->arity;i++) if(!variant(s->args[i],t->args[i])) return 0;
   return 1;
}
static Term_p inst(Term_p t) { return TBInsertInstantiatedDeref(H.bank,t,DEREF_ALWAYS); }
static void unbound(const char *m) { for(int i=0;i<NV;i++) sx_assert(tvar[i]->binding==NULL,m); }

static void one(Term_p s, Term_p t, Subst_p sub, int prior)
{
   Term_p old[NV]; for(int i=0;i<NV;i++) old[i]=tvar[i]->binding;
   long sp=PStackGetSP(sub);
   int want=runify(s,t);
   int got=SubstMguComplete(s,t,sub);
   sx_assert(got==want,"unification succeeds exactly on unifiable terms");
   if(got)
   {
      sx_assert(inst(s)==inst(t),"the computed substitution makes the terms equal");
      sx_assert(TermStructEqualDeref(s,t,DEREF_ALWAYS,DEREF_ALWAYS),"structural equality under bindings");
      nm=0;
      for(int i=0;i<NV;i++) sx_assert(variant(tvar[i],tvar[i]),"the computed unifier is most general");
      for(int i=0;i<NV;i++) if(old[i]) sx_assert(tvar[i]->binding==old[i],"earlier bindings are kept");
      sx_reach("unified");
   }
   else
   {
      sx_assert(PStackGetSP(sub)==sp,"failure leaves the substitution unchanged");
      for(int i=0;i<NV;i++) sx_assert(tvar[i]->binding==old[i],"failure leaves all bindings unchanged");
      sx_reach("failed");
   }
}
void unif_mgu(void)
{
   setup();
   int n=(int)sx_param("n",3), d=(int)sx_param("d",2);
   Type_p ts=H.i, tt=H.i;
   if(sx_param("sorts",0)) { if(sx_choose("tops",2)) ts=J; if(sx_choose("topt",2)) tt=J; }
   Term_p s=tterm("s",ts,d,n,LEFT), t=tterm("t",tt,d,n,RIGHT);
   Subst_p sub=SubstAlloc();
   one(s,t,sub,0);
   int ok=PStackGetSP(sub);
   SubstDelete(sub); unbound("backtracking removes every binding");
   /* atoms: a variable never unifies with an atom */
   sub=SubstAlloc();
   Term_p pa=vh_f1(fp,tt==J?vh_c(fa):t); TermCellSetProp(pa,TPPredPos);
   sx_assert(!SubstMguComplete(s,pa,sub)||!isvar(s),"no unification of a variable with an atom");
   sx_assert(PStackGetSP(sub)==0,"nothing bound");
   SubstDelete(sub);
   sx_observe(ok);
}
/* several literal pairs under one substitution */
void unif_seq(void)
{
   setup();
   int n=(int)sx_param("n",2);
   Term_p s1=tterm("s",H.i,1,n,LEFT), t1=tterm("t",H.i,1,n,RIGHT);
   Subst_p sub=SubstAlloc();
   if(!SubstMguComplete(s1,t1,sub)) { sx_done(); return; }
   if(!runify(s1,t1)) { sx_assert(0,"unification succeeds exactly on unifiable terms"); }
   Term_p s2=tterm("s",H.i,1,n,LEFT), t2=tterm("t",H.i,1,n,RIGHT);
   long sp=PStackGetSP(sub);
   Term_p old[NV]; for(int i=0;i<NV;i++) old[i]=tvar[i]->binding;
   one(s2,t2,sub,1);
   SubstBacktrackToPos(sub,sp);
   for(int i=0;i<NV;i++) sx_assert(tvar[i]->binding==old[i],"partial backtracking restores the earlier state");
   sx_assert(PStackGetSP(sub)==sp,"partial backtracking restores the stack");
   SubstDelete(sub); unbound("backtracking removes every binding");
   sx_observe(sp);
}
/* matching */
static Term_p rm[NV];
static int rmatch(Term_p p, Term_p t)
{
   if(isvar(p)) { int v=rv(p); if(p->type!=t->type) return 0; if(rm[v]) return seq(rm[v],t); rm[v]=t; return 1; }
   if(p->f_code!=t->f_code) return 0;
   for(int i=0;i<p->arity;i++) if(!rmatch(p->args[i],t->args[i])) return 0;
   return 1;
}
void unif_match(void)
{
   setup();
   int n=(int)sx_param("n",2), m=(int)sx_param("m",3);
   Type_p ts=H.i, tt=H.i;
   if(sx_param("sorts",0)) { if(sx_choose("tops",2)) ts=J; if(sx_choose("topt",2)) tt=J; }
   Term_p p=tterm("p",ts,2,n,LEFT), t=tterm("t",tt,2,m,RIGHT);
   Subst_p sub=SubstAlloc();
   memset(rm,0,sizeof rm);
   int prior=sx_param("prior",0)?(int)sx_choose("prior",2):0;
   if(prior) { Term_p b=tterm("b",H.i,1,1,RIGHT); SubstAddBinding(sub,tvar[0],b); rm[0]=b; }
   Term_p save[NV]; memcpy(save,rm,sizeof rm);
   long sp=PStackGetSP(sub);
   int want=rmatch(p,t);
   int got=SubstMatchComplete(p,t,sub);
   sx_assert(got==want,"matching succeeds exactly when the target is an instance of the pattern");
   if(got)
   {
      for(int i=0;i<3;i++) { if(rm[i]) sx_assert(tvar[i]->binding&&seq(tvar[i]->binding,rm[i]),"pattern variable bound to the matched subterm"); else sx_assert(!tvar[i]->binding,"other variables stay free"); }
      for(int i=3;i<NV;i++) sx_assert(!tvar[i]->binding,"target variables are never bound");
      sx_assert(TBInsertInstantiatedDeref(H.bank,p,DEREF_ONCE)==t,"instantiated pattern is the target");
      sx_reach("match");
   }
   else
   {
      sx_assert(PStackGetSP(sub)==sp,"failure leaves the substitution unchanged");
      for(int i=0;i<NV;i++) sx_assert(tvar[i]->binding==save[i],"failure leaves bindings unchanged");
      sx_reach("fail");
   }
   SubstDelete(sub); unbound("backtracking removes every binding");
   sx_observe(got);
}
/* matching and unification of wide terms: internal work lists must grow */
void unif_wide(void)
{
   setup();
   int w=(int)sx_param("w",70);
   FunCode fw=vh_fun("w",w,H.i,H.i);
   int mode=(int)sx_choose("mode",4);
   static const int P[5]={0,1,31,33,69};
   int at=P[sx_choose("at",5)];
   Term_p s=TermTopAlloc(fw,w), t=TermTopAlloc(fw,w);
   for(int i=0;i<w;i++) { s->args[i]=tvar[i%2]; t->args[i]=(mode&1)?(i%2?tvar[3]:vh_c(fa)):vh_c(fb); }
   Term_p leaf=mode==2?tvar[0]:mode==3?vh_c(fa):vh_c(fb);
   if(at<w) s->args[at]=(mode==0)?s->args[at]:vh_f1(fg,leaf);
   s=TBTermTopInsert(H.bank,s); t=TBTermTopInsert(H.bank,t);
   /* nest so that many jobs are pending */
   if(sx_choose("nest",2)) { s=vh_f2(ff,vh_f2(ff,s,s),s); t=vh_f2(ff,vh_f2(ff,t,t),t); }
   Subst_p sub=SubstAlloc();
   memset(rm,0,sizeof rm); memset(rb,0,sizeof rb);
   int wm=rmatch(s,t), gm=SubstMatchComplete(s,t,sub);
   sx_assert(wm==gm,"matching of wide terms"); if(gm) sx_assert(TBInsertInstantiatedDeref(H.bank,s,DEREF_ONCE)==t,"instance");
   SubstBacktrack(sub); unbound("backtracking removes every binding");
   int wu=runify(s,t), gu=SubstMguComplete(s,t,sub);
   sx_assert(wu==gu,"unification of wide terms"); if(gu) { sx_assert(inst(s)==inst(t),"unifier"); sx_reach("wide"); }
   SubstDelete(sub); unbound("backtracking removes every binding");
   sx_observe(wm*2+wu);
}
