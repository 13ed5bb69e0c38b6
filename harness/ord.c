/* P01: term orderings. Symbol weights, precedence, term shapes and
   substitutions are symbolic; the real TOCompare/TOGreater are executed. */
#include "common.h"
#include <cto_orderings.h>

static FunCode fa,fb,fg,ff,fp,fn;
static FunCode S4[5];
static long W[5], PR[5];
static OCB_p ocb;
static int T, isKBO;
static Term_p X, Y;

static int sidx(FunCode f) { for(int i=0;i<5;i++) if(S4[i]==f) return i; return -1; }

static void setup(int with_new)
{
   vh_init();
   fa=vh_fun("a",0,H.i,H.i); fb=vh_fun("b",0,H.i,H.i);
   fg=vh_fun("g",1,H.i,H.i); ff=vh_fun("f",2,H.i,H.i); fp=vh_fun("p",1,H.i,H.o);
   S4[0]=fa; S4[1]=fb; S4[2]=fg; S4[3]=ff; S4[4]=fp;
   T = (int)sx_param("T", KBO6);
   isKBO = (T==KBO || T==KBO6);
   ocb = OCBAlloc((TermOrdering)T, true, H.sig, LFHO_ORDER);
   for(long i=0;i<=H.sig->f_count;i++) ocb->prec_weights[i]=-i-100;
   long maxw = sx_param("maxw",3);
   ocb->var_weight = 1;
   /* symbols introduced later get weight 1, so the variable weight must be 1 then */
   if(isKBO && !with_new && !sx_param("unit",0)) { ocb->var_weight = sx_int("vw",1,2); }
   for(int i=0;i<5;i++)
   {
      W[i]=1;
      if(isKBO)
      {
         W[i] = sx_param("unit",0) ? 1 : sx_int("w", 0, maxw);
         *OCBFunWeightPos(ocb,S4[i]) = W[i];
      }
   }
   for(int i=0;i<5;i++) PR[i]=sx_int("p",0,7);
   for(int i=0;i<5;i++) ocb->prec_weights[S4[i]]=PR[i];
   for(int i=0;i<5;i++) for(int j=0;j<i;j++) sx_assume(PR[i]!=PR[j]);
   if(isKBO)
   {  /* KBO admissibility, as E's weight generators establish it */
      sx_assume(W[0]>=ocb->var_weight); sx_assume(W[1]>=ocb->var_weight);
      sx_assume(W[3]>=1); sx_assume(W[4]>=1);
      long gmax = 1; for(int i=0;i<5;i++) gmax = sx_and(gmax, PR[2]>=PR[i]);
      sx_assume(sx_or(W[2]>=1, gmax));
   }
   vh_syms[0]=(VHSym){fa,0}; vh_syms[1]=(VHSym){fb,0}; vh_syms[2]=(VHSym){fg,1}; vh_syms[3]=(VHSym){ff,2};
   vh_nsyms=4;
   if(with_new)
   {  /* a symbol introduced after the ordering was fixed (Skolem/definition) */
      fn=vh_fun("sk",0,H.i,H.i);
      vh_syms[4]=(VHSym){fn,0}; vh_nsyms=5;
   }
   vh_nvars=2;
   if(sx_param("sig",4)==3) { vh_syms[1]=vh_syms[2]; vh_syms[2]=vh_syms[3]; vh_nsyms=3; }
   X=vh_var(0); Y=vh_var(1);
}

/* textbook definitions, independent of the implementation */
static void cnt(Term_p t, long *w, long *nx, long *ny)
{
   if(t==X) { *w+=ocb->var_weight; *nx+=1; return; }
   if(t==Y) { *w+=ocb->var_weight; *ny+=1; return; }
   *w += W[sidx(t->f_code)];
   for(int i=0;i<t->arity;i++) cnt(t->args[i],w,nx,ny);
}
static int isv(Term_p t) { return t==X||t==Y; }
static int occ(Term_p t, Term_p v) { if(t==v) return 1; for(int i=0;i<t->arity;i++) if(occ(t->args[i],v)) return 1; return 0; }
static int ref_kbo(Term_p s, Term_p t)
{
   long ws=0,wt=0,sx=0,sy=0,tx=0,ty=0;
   if(s==t) return 0;
   if(isv(t)) return occ(s,t);
   if(isv(s)) return 0;
   cnt(s,&ws,&sx,&sy); cnt(t,&wt,&tx,&ty);
   if(sx<tx||sy<ty) return 0;
   if(ws>wt) return 1;
   if(ws<wt) return 0;
   if(s->f_code!=t->f_code) return PR[sidx(s->f_code)]>PR[sidx(t->f_code)];
   for(int i=0;i<s->arity;i++) if(s->args[i]!=t->args[i]) return ref_kbo(s->args[i],t->args[i]);
   return 0;
}
static int ref_lpo(Term_p s, Term_p t)
{
   if(s==t) return 0;
   if(isv(t)) return occ(s,t);
   if(isv(s)) return 0;
   for(int i=0;i<s->arity;i++) if(s->args[i]==t || ref_lpo(s->args[i],t)) return 1;
   if(s->f_code==t->f_code)
   {
      for(int i=0;i<s->arity;i++) if(s->args[i]!=t->args[i])
      {
         if(!ref_lpo(s->args[i],t->args[i])) return 0;
         break;
      }
   }
   else if(!(PR[sidx(s->f_code)]>PR[sidx(t->f_code)])) return 0;
   for(int i=0;i<t->arity;i++) if(!ref_lpo(s,t->args[i])) return 0;
   return 1;
}
static int ref_gt(Term_p s, Term_p t) { return isKBO ? ref_kbo(s,t) : ref_lpo(s,t); }
static CompareResult cmp(Term_p s, Term_p t) { return TOCompare(ocb,s,t,DEREF_NEVER,DEREF_NEVER); }

void ord_ref(void)
{
   setup(0);
   int n=(int)sx_param("n",3), n2=(int)sx_param("n2",n), d=(int)sx_param("d",3);
   Term_p s=vh_term("s",d,n), t=vh_term("t",d,n2);
   if(sx_param("atoms",0)) { s=vh_f1(fp,s); t=vh_f1(fp,t); }
   CompareResult r=cmp(s,t);
   int g=ref_gt(s,t), l=ref_gt(t,s);
   CompareResult want = s==t ? to_equal : g ? to_greater : l ? to_lesser : to_uncomparable;
   sx_assert(r==want, "comparison result equals the mathematical definition of the ordering");
   sx_assert(TOGreater(ocb,s,t,DEREF_NEVER,DEREF_NEVER)==g, "greater test agrees with the definition");
   sx_assert(cmp(t,s)==(want==to_greater?to_lesser:want==to_lesser?to_greater:want), "reverse comparison is the inverse");
   if(g) sx_reach("greater");
   if(want==to_uncomparable) sx_reach("uncomparable");
   sx_observe(r);
}

/* stability under substitution and dereferencing; variable indices far apart
   so that the variable-balance bookkeeping has to grow */
void ord_subst(void)
{
   setup(0);
   int n=(int)sx_param("n",2), m=(int)sx_param("m",1), d=(int)sx_param("d",2);
   Term_p s=vh_term("s",d,n), t=vh_term("t",d,n);
   Term_p x=vh_var(0), y=vh_var(1);
   sx_assume(occ(s,x)||occ(s,y)||occ(t,x)||occ(t,y));
   CompareResult r0=cmp(s,t);
   int sv=vh_nvars; vh_nvars=0;
   Term_p u, v;
   u = vh_term("u",1,m);
   if(sx_choose("vvar",2)) { v = VarBankVarAssertAlloc(H.bank->vars, -300, H.i); }
   else { v = vh_term("v",1,m); }
   vh_nvars=sv;
   Subst_p sub=SubstAlloc();
   SubstAddBinding(sub,x,u); SubstAddBinding(sub,y,v);
   CompareResult r1=TOCompare(ocb,s,t,DEREF_ALWAYS,DEREF_ALWAYS);
   CompareResult r2=TOCompare(ocb,s,t,DEREF_ONCE,DEREF_ONCE);
   bool g1=TOGreater(ocb,s,t,DEREF_ALWAYS,DEREF_ALWAYS);
   Term_p si=TBInsertInstantiated(H.bank,s), ti=TBInsertInstantiated(H.bank,t);
   CompareResult r4=TOCompare(ocb,s,ti,DEREF_ALWAYS,DEREF_NEVER);
   SubstDelete(sub);
   CompareResult r3=cmp(si,ti);
   sx_assert(r1==r3, "comparing under bindings equals comparing the instantiated terms");
   sx_assert(r2==r3, "one-step dereferencing equals comparing the instantiated terms");
   sx_assert(r4==r3, "mixed dereferencing equals comparing the instantiated terms");
   sx_assert(g1==(r3==to_greater), "greater test under bindings");
   sx_assert((r3==to_equal)==(si==ti), "equal exactly on identical terms");
   if(r0==to_greater) { sx_assert(r3==to_greater, "stable under substitution (greater)"); sx_reach("stable"); }
   if(r0==to_lesser) sx_assert(r3==to_lesser, "stable under substitution (lesser)");
   sx_observe(r0*16+r3);
}

void ord_mono(void)
{
   setup(1);
   int n=(int)sx_param("n",2), d=(int)sx_param("d",2);
   Term_p s=vh_term("s",d,n), t=vh_term("t",d,n);
   CompareResult r=cmp(s,t);
   sx_assert((r==to_equal)==(s==t), "irreflexive");
   Term_p c = vh_var(1);
   sx_assert(cmp(vh_f2(ff,s,t),s)==to_greater, "subterm property, first argument");
   sx_assert(cmp(t,vh_f2(ff,s,t))==to_lesser, "subterm property, second argument");
   sx_assert(TOGreater(ocb,vh_f1(fg,s),s,DEREF_NEVER,DEREF_NEVER), "subterm property, unary");
   if(r==to_greater || r==to_lesser)
   {
      sx_assert(cmp(vh_f1(fg,s),vh_f1(fg,t))==r, "monotone in a unary context");
      sx_assert(cmp(vh_f2(ff,s,c),vh_f2(ff,t,c))==r, "monotone in the first argument");
      sx_assert(cmp(vh_f2(ff,c,s),vh_f2(ff,c,t))==r, "monotone in the second argument");
      sx_reach("mono");
   }
   if(vh_nvars && !occ(s,vh_var(0)) && !occ(s,vh_var(1)) && !occ(t,vh_var(0)) && !occ(t,vh_var(1)))
   {
      sx_assert(r!=to_uncomparable, "total on ground terms");
      sx_reach("ground");
   }
   /* atoms are larger than the constant true */
   sx_assert(cmp(vh_f1(fp,s),H.bank->true_term)==to_greater, "atoms exceed $true");
   sx_observe(r);
}

void ord_trans(void)
{
   setup(1);
   int n=(int)sx_param("n",1), d=(int)sx_param("d",2);
   Term_p s=vh_term("s",d,n+1), t=vh_term("t",d,n), u=vh_term("u",d,n);
   CompareResult r=cmp(s,t);
   if(r!=to_greater) { sx_done(); return; }
   CompareResult q=cmp(t,u);
   if(q!=to_greater) { sx_done(); return; }
   sx_assert(cmp(s,u)==to_greater, "transitive");
   sx_reach("chain");
   sx_observe(s==u);
}
