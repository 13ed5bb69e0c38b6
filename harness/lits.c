/* Literal ordering: orientation, comparison, maximality; literal selection. */
#include "prover.h"
#include <che_litselection.h>
#include <cto_orderings.h>
static Eqn_p L[64]; static int nl;
static const char *pools[]={
   "p(X)|~p(a)|q(X,Y)|~q(Y,X)|~q(X,X)|~p(f(X))|f(a)=b|f(X)!=X|X!=Y",
   "f(X)=g(X,X)|f(Y)=a|a=b|g(X,Y)=g(Y,X)|f(a)!=b|g(X,a)!=f(Y)|X!=a|g(a,b)!=g(b,a)|a!=b",
   "p(a)|~p(b)|a=b|b!=a|a!=f(a)|f(a)=b|f(b)!=a|f(b)!=f(a)|~q(a,b)",
   "f(f(a))=a|f(a)=f(b)|f(b)=f(f(b))|f(a)!=b|f(f(a))!=f(a)|f(f(b))!=b|g(a,b)=f(f(a))|f(X)=f(b)|g(X,b)!=f(X)",
};
static OCB_p lt_setup(int pool)
{
   pv_init();
   Clause_p all=pv_cnf("axiom",pools[pool]);
   for(Eqn_p l=all->literals;l;l=l->next) L[nl++]=l;
   pv_axiom("axiom","p(a)|q(a,b)|f(a)=g(a,b)"); pv_axiom("axiom","~p(f(X))|q(X,Y)"); pv_axiom("axiom","p(b)|~p(a)");
   int o=(int)sx_choose("ordering",2);
   HP->order_params.ordertype=o?LPO4:KBO6; HP->order_params.to_prec_gen=PArity; HP->order_params.to_weight_gen=WSelectMaximal;
   int lc=(int)sx_param("lc",0); HP->order_params.lit_cmp=lc==1?LCNoCmp:lc==2?LCTFOEqMax:lc==3?LCTFOEqMin:LCNormal;
   pv_control();
   PC->ocb->lit_cmp=HP->order_params.lit_cmp;
   return PC->ocb;
}
static Eqn_p pick(const char *nm, int hi, int *idx)
{
   int k=(int)sx_choose(nm,hi); Eqn_p e=EqnFlatCopy(L[k]);
   if(sx_param("swap",0)&&EqnIsEquLit(e)&&sx_choose("swap",2)) EqnSwapSides(e);
   EqnDelProp(e,EPMaxIsUpToDate|EPIsOriented|EPIsMaximal|EPIsStrictlyMaximal);
   if(idx) *idx=k;
   return e;
}
static CompareResult tcmp(OCB_p o, Term_p a, Term_p b) { return a==b?to_equal:TOCompare(o,a,b,DEREF_NEVER,DEREF_NEVER); }
/* multiset extension over a comparison given as a matrix */
static CompareResult mul(int n, int m, CompareResult c[4][4])
{
   int um[4]={0},un[4]={0};
   for(int i=0;i<n;i++) for(int j=0;j<m;j++) if(!un[i]&&!um[j]&&c[i][j]==to_equal) un[i]=um[j]=1;
   int rn=0,rm=0; for(int i=0;i<n;i++) rn+=!un[i]; for(int j=0;j<m;j++) rm+=!um[j];
   if(!rn&&!rm) return to_equal;
   int g=1; for(int j=0;j<m;j++) if(!um[j]) { int f=0; for(int i=0;i<n;i++) if(!un[i]&&c[i][j]==to_greater) f=1; g&=f; }
   if(g) return to_greater;
   int s=1; for(int i=0;i<n;i++) if(!un[i]) { int f=0; for(int j=0;j<m;j++) if(!um[j]&&c[i][j]==to_lesser) f=1; s&=f; }
   return s?to_lesser:to_uncomparable;
}
static CompareResult msets(OCB_p o, Term_p *a, int n, Term_p *b, int m)
{
   CompareResult c[4][4]; for(int i=0;i<n;i++) for(int j=0;j<m;j++) c[i][j]=tcmp(o,a[i],b[j]);
   return mul(n,m,c);
}
static CompareResult ref_cmp(OCB_p o, Eqn_p a, Eqn_p b)
{
   if(EqnIsSelected(a)!=EqnIsSelected(b)) return EqnIsSelected(a)?to_greater:to_lesser;
   if(EqnIsSelected(a)&&EqnIsPositive(a)!=EqnIsPositive(b)) return to_uncomparable;
   if(o->lit_cmp==LCNoCmp) return to_uncomparable;
   Term_p x[2]={a->lterm,a->rterm}, y[2]={b->lterm,b->rterm};
   if(EqnIsPositive(a)==EqnIsPositive(b)) return msets(o,x,2,y,2);
   CompareResult c[4][4]; int n=EqnIsPositive(a)?2:1, m=EqnIsPositive(b)?2:1;
   for(int i=0;i<n;i++) for(int j=0;j<m;j++) c[i][j]=msets(o,n==2?x+i:x,3-n,m==2?y+j:y,3-m);
   return mul(n,m,c);
}
static CompareResult inv(CompareResult r) { return r==to_greater?to_lesser:r==to_lesser?to_greater:r; }
static void orient_check(OCB_p o, Eqn_p e)
{
   Term_p l=e->lterm, r=e->rterm; int pos=EqnIsPositive(e)!=0;
   EqnOrient(o,e);
   CompareResult c=tcmp(o,e->lterm,e->rterm);
   sx_assert((e->lterm==l&&e->rterm==r)||(e->lterm==r&&e->rterm==l),"orientation keeps the literal");
   sx_assert((EqnIsPositive(e)!=0)==pos,"orientation keeps the sign");
   sx_assert(c!=to_lesser,"the left side is never the smaller one");
   sx_assert((EqnIsOriented(e)!=0)==(c==to_greater),"a literal is marked oriented exactly if its left side is greater");
   sx_assert(EqnIsEquLit(e)||e->rterm==H.bank->true_term,"predicate literals keep their shape");
}
/* every sub-comparison uses the real term ordering; the literal ordering is its extension */
void lt_cmp(void)
{
   OCB_p o=lt_setup((int)sx_param("pool",0));
   Eqn_p a=pick("a",nl,NULL), b=pick("b",nl,NULL);
   if(sx_param("sel",0)) { if(sx_choose("sa",2)) EqnSetProp(a,EPIsSelected); if(sx_choose("sb",2)) EqnSetProp(b,EPIsSelected); }
   orient_check(o,a); if(sx_choose("orient",2)) orient_check(o,b);
   CompareResult got=LiteralCompare(o,a,b), want=ref_cmp(o,a,b);
   if(o->lit_cmp==LCNormal||o->lit_cmp==LCNoCmp) sx_assert(got==want,"literals are compared as multisets of their sides");
   sx_assert(LiteralCompare(o,b,a)==inv(got),"comparing in the other direction gives the inverse");
   sx_assert(LiteralGreater(o,a,b)==(got==to_greater),"greater agrees with compare");
   if(EqnIsPositive(a)==EqnIsPositive(b)&&!EqnIsSelected(a)&&!EqnIsSelected(b))
   {
      Term_p x[2]={a->lterm,a->rterm}, y[2]={b->lterm,b->rterm};
      sx_assert(EqnGreater(o,a,b)==(msets(o,x,2,y,2)==to_greater),"equations as multisets");
   }
   if(got==to_greater) sx_reach("greater"); if(got==to_uncomparable) sx_reach("uncomparable"); if(got==to_equal) sx_reach("equal");
   sx_observe(got);
}
/* strict order on three literals for every literal comparison mode */
void lt_order(void)
{
   OCB_p o=lt_setup((int)sx_param("pool",2));
   Eqn_p a=pick("a",nl,NULL), b=pick("b",nl,NULL), c=pick("c",nl,NULL);
   if(sx_param("sel",0)) { if(sx_choose("sa",2)) EqnSetProp(a,EPIsSelected); if(sx_choose("sb",2)) EqnSetProp(b,EPIsSelected); if(sx_choose("sc",2)) EqnSetProp(c,EPIsSelected); }
   EqnOrient(o,a); EqnOrient(o,b); EqnOrient(o,c);
   CompareResult ab=LiteralCompare(o,a,b), bc=LiteralCompare(o,b,c), ac=LiteralCompare(o,a,c);
   if(ab==to_greater&&bc==to_greater) { sx_reach("chain"); sx_assert(ac==to_greater,"the literal ordering is transitive"); }
   sx_assert(LiteralCompare(o,a,a)!=to_greater&&LiteralCompare(o,a,a)!=to_lesser,"the literal ordering is irreflexive");
   sx_observe(ab*16+ac);
}
static Clause_p lt_clause(int n, Eqn_p *a, int sel)
{
   int hi=nl, k;
   for(int i=0;i<n;i++) { a[i]=pick("lit",sx_param("perm",0)?nl:hi,&k); hi=k+1; if(sel&&sx_choose("s",2)) EqnSetProp(a[i],EPIsSelected); }
   Eqn_p b[8]; for(int i=0;i<n;i++) b[i]=a[i];
   return ClauseAlloc(EqnListFromArray(b,n));
}
static void max_check(OCB_p o, Clause_p c, Eqn_p *a, int n)
{
   int found=0; Eqn_p e; int i,j; 
   for(e=c->literals;e;e=e->next) { for(i=0;i<n&&a[i]!=e;i++); sx_assert(i<n,"no foreign literal"); found++; sx_assert(found<=n,"the literal list stays finite"); }
   sx_assert(found==n,"no literal is lost");
   int any=0;
   for(i=0;i<n;i++)
   {
      int mx=1, sm=1;
      for(j=0;j<n;j++) if(j!=i) { CompareResult r=LiteralCompare(o,a[j],a[i]); if(r==to_greater) mx=sm=0; if(r==to_equal) sm=0; }
      sx_assert((EqnIsMaximal(a[i])!=0)==mx,"marked maximal exactly if no other literal is greater");
      sx_assert((EqnIsStrictlyMaximal(a[i])!=0)==sm,"marked strictly maximal exactly if no other literal is greater or equal");
      sx_assert(EqnListEqnIsMaximal(o,c->literals,a[i])==mx,"single literal maximality");
      sx_assert(EqnListEqnIsStrictlyMaximal(o,c->literals,a[i])==sm,"single literal strict maximality");
      any+=mx; if(mx&&!sm) sx_reach("notstrict"); if(!mx) sx_reach("dominated");
   }
   sx_assert(n==0||any>0,"some literal is maximal");
}
void lt_max(void)
{
   OCB_p o=lt_setup((int)sx_param("pool",0));
   int n=(int)sx_param("n",3), i; Eqn_p a[8]; Term_p l[8],r[8];
   Clause_p c=lt_clause(n,a,(int)sx_param("sel",0));
   i=0; for(Eqn_p e=c->literals;e;e=e->next) a[i++]=e;
   for(i=0;i<n;i++) { l[i]=a[i]->lterm; r[i]=a[i]->rterm; }
   int dirty=(int)sx_param("dirty",0)?(int)sx_choose("dirty",2):0;
   if(dirty) EqnListSetProp(c->literals,EPIsMaximal|EPIsStrictlyMaximal);
   ClauseMarkMaximalTerms(o,c);
   for(i=0;i<n;i++)
   {
      sx_assert((a[i]->lterm==l[i]&&a[i]->rterm==r[i])||(a[i]->lterm==r[i]&&a[i]->rterm==l[i]),"marking keeps the literals");
      CompareResult q=tcmp(o,a[i]->lterm,a[i]->rterm);
      sx_assert(q!=to_lesser&&(EqnIsOriented(a[i])!=0)==(q==to_greater),"marking orients the literals");
   }
   i=0; for(Eqn_p e=c->literals;e;e=e->next) { sx_assert(e==a[i],"marking keeps the order of the literals"); i++; }
   max_check(o,c,a,n);
   sx_observe(EqnListQueryPropNumber(c->literals,EPIsMaximal));
}
/* ---------------------------------------------------------------- selection */
static const char *funs[200]; static int nfuns;
static void load_funs(void)
{
   DStr_p d=DStrAlloc(); LitSelAppendNames(d);
   char *s=strdup(DStrView(d)); 
   for(char *p=s;*p;) { while(*p==' '||*p==',') p++; if(!*p) break; funs[nfuns++]=p; while(*p&&*p!=' '&&*p!=',') p++; if(*p) *p++=0; }
}
static int is(const char *a, const char *b) { return strcmp(a,b)==0; }
static long wt(Eqn_p e) { return EqnStandardWeight(e); }
void lt_select(void)
{
   OCB_p o=lt_setup((int)sx_param("pool",0));
   load_funs(); sx_assert(nfuns>50,"selection functions are listed");
   int lo=(int)sx_param("lo",0), fi=lo+(int)sx_choose("fun",sx_param("cnt",nfuns-lo)); if(fi>=nfuns) sx_done();
   const char *nm=funs[fi]; 
   LiteralSelectionFun fn=GetLitSelFun((char*)nm); sx_assert(fn!=NULL,"every listed name is a function");
   int n=(int)sx_param("n",2), i; Eqn_p a[8]; Clause_p c=lt_clause(n,a,(int)sx_param("sel",0));
   PC->heuristic_parms.selection_strategy=fn;
   int lim=(int)sx_param("limits",0), blocked=0;
   if(lim)
   {
      int v=(int)sx_choose("limit",8), b=(int)sx_choose("bound",3); long all=n, pos=c->pos_lit_no, neg=c->neg_lit_no;
      if(v==0) { PC->heuristic_parms.pos_lit_sel_min=b; blocked=pos<b; }
      if(v==1) { PC->heuristic_parms.pos_lit_sel_max=b; blocked=pos>b; }
      if(v==2) { PC->heuristic_parms.neg_lit_sel_min=b; blocked=neg<b; }
      if(v==3) { PC->heuristic_parms.neg_lit_sel_max=b; blocked=neg>b; }
      if(v==4) { PC->heuristic_parms.all_lit_sel_min=b+1; blocked=all<b+1; }
      if(v==5) { PC->heuristic_parms.all_lit_sel_max=b; blocked=all>b; }
      if(v==6) { PC->heuristic_parms.weight_sel_min=b*6; blocked=b&&ClauseStandardWeight(c)<b*6; }
      if(v==7) { if(b==0) PC->heuristic_parms.inherit_paramod_lit=true; if(b==1) PC->heuristic_parms.inherit_goal_pm_lit=true; if(b==2) PC->heuristic_parms.inherit_conj_pm_lit=true;
                 if(sx_choose("from",2)) EqnSetProp(a[0],EPIsPMIntoLit); }
   }
   Term_p l[8],r[8]; int sg[8]; for(i=0;i<n;i++) { l[i]=a[i]->lterm; r[i]=a[i]->rterm; sg[i]=EqnIsPositive(a[i])!=0; }
   int pre=(int)sx_choose("premark",2); if(pre) ClauseMarkMaximalTerms(o,c);
   DoLiteralSelection(PC,c);
   int k=0; for(Eqn_p e=c->literals;e;e=e->next) { for(i=0;i<n&&a[i]!=e;i++); sx_assert(i<n,"selection adds no literal"); k++; }
   sx_assert(k==n&&c->pos_lit_no+c->neg_lit_no==n,"selection loses no literal");
   int pos=0,neg=0,sp=0,sn=0;
   for(i=0;i<n;i++)
   {
      sx_assert((a[i]->lterm==l[i]&&a[i]->rterm==r[i])||(a[i]->lterm==r[i]&&a[i]->rterm==l[i]),"selection keeps the literals");
      sx_assert((EqnIsPositive(a[i])!=0)==sg[i],"selection keeps the signs");
      if(sg[i]) pos++; else neg++;
      if(EqnIsSelected(a[i])) { if(sg[i]) sp++; else sn++; }
   }
   if(is(nm,"NoGeneration")) { sx_done(); return; }
   int inh=lim&&(PC->heuristic_parms.inherit_paramod_lit||PC->heuristic_parms.inherit_goal_pm_lit||PC->heuristic_parms.inherit_conj_pm_lit);
   sx_assert(!sp||sn,"positive literals are only selected together with a negative one");
   sx_assert(!blocked||!(sp+sn),"outside the selection limits nothing is selected");
   sx_assert(neg||!(sp+sn),"a clause without negative literals keeps all its literals eligible");
   if(!blocked&&neg&&!inh)
   {
      if(is(nm,"NoSelection")) sx_assert(sp+sn==0,"no selection");
      if(is(nm,"SelectNegativeLiterals")) sx_assert(sn==neg&&!sp,"all negative literals");
      if(is(nm,"PSelectNegativeLiterals")) sx_assert(sn==neg&&sp==pos,"all literals");
      if(is(nm,"SelectLargestNegLit")||is(nm,"PSelectLargestNegLit")||is(nm,"SelectSmallestNegLit")||is(nm,"PSelectSmallestNegLit"))
      {
         sx_assert(sn==1,"one negative literal");
         int big=strstr(nm,"Largest")!=NULL; Eqn_p s=NULL; for(i=0;i<n;i++) if(!sg[i]&&EqnIsSelected(a[i])) s=a[i];
         for(i=0;i<n;i++) if(!sg[i]) sx_assert(big?wt(a[i])<=wt(s):wt(a[i])>=wt(s),"the extreme negative literal is selected");
      }
      if(is(nm,"SelectGroundNegLit"))
      {
         int g=0; for(i=0;i<n;i++) if(!sg[i]&&EqnIsGround(a[i])) g=1;
         for(i=0;i<n;i++) if(EqnIsSelected(a[i])) sx_assert(EqnIsGround(a[i]),"only ground literals");
         sx_assert(sn==g,"a ground literal is selected if there is one");
      }
      if(is(nm,"SelectOptimalLit")) sx_assert(sn==1,"one literal");
      if(is(nm,"SelectMinOptimalLit")||is(nm,"SelectOptimalLit"))
      {
         int g=0; for(i=0;i<n;i++) if(!sg[i]&&EqnIsGround(a[i])) g=1;
         for(i=0;i<n;i++) if(EqnIsSelected(a[i])&&!sg[i]) sx_assert(!g||EqnIsGround(a[i]),"ground literals are preferred");
      }
      if(is(nm,"SelectUnlessUniqMax")||is(nm,"SelectUnlessPosMax")||is(nm,"SelectUnlessUniqMaxSmallestOrientable"))
      {
         int mx=0,pm=0;
         unsigned ss=0; for(i=0;i<n;i++) if(EqnIsSelected(a[i])) { ss|=1u<<i; EqnDelProp(a[i],EPIsSelected); }
         EqnListOrient(o,c->literals);
         for(i=0;i<n;i++) { int m=1; for(int j=0;j<n;j++) if(j!=i&&LiteralCompare(o,a[j],a[i])==to_greater) m=0; mx+=m; if(m&&sg[i]) pm++; }
         int no=is(nm,"SelectUnlessPosMax")?pm>0:mx==1;
         sx_assert((ss!=0)==!no,"selects exactly in the documented case");
         for(i=0;i<n;i++) if(ss>>i&1) EqnSetProp(a[i],EPIsSelected);
      }
   }
   if(sn) sx_reach("selected"); else sx_reach("none"); if(sp) sx_reach("positive");
   /* generating inferences use the maximal literals after selection: these must be the selected ones */
   if(sx_param("after",1)&&sp+sn)
   {
      ClauseCondMarkMaximalTerms(o,c); int ms=0;
      for(i=0;i<n;i++) if(EqnIsMaximal(a[i])) { sx_assert(EqnIsSelected(a[i]),"with a selection only selected literals are maximal"); ms++; }
      sx_assert(ms>0,"some selected literal stays eligible");
   }
   sx_observe(sp*8+sn);
}
/* PX selects the same negative literals as X and then all positive ones */
void lt_pair(void)
{
   lt_setup((int)sx_param("pool",0));
   load_funs(); int fi=(int)sx_choose("fun",nfuns); const char *nm=funs[fi]; static const char *plain[]={"NegativeLiterals","PureVarNegLiterals","LargestNegLit","SmallestNegLit","LargestOrientable","SmallestOrientable","DiffNegLit","GroundNegLit"};
   int ok=0; if(nm[0]=='P') for(int q=0;q<8;q++) ok|=is(nm+7,plain[q]); if(!ok) { sx_done(); return; }
   LiteralSelectionFun fp=GetLitSelFun((char*)nm), fb=GetLitSelFun((char*)nm+1);
   int n=(int)sx_param("n",3), i; Eqn_p a[8]; Clause_p c=lt_clause(n,a,0), d=ClauseFlatCopy(c);
   i=0; for(Eqn_p e=c->literals;e;e=e->next) a[i++]=e;
   PC->heuristic_parms.selection_strategy=fb; DoLiteralSelection(PC,c); unsigned sb=0; for(i=0;i<n;i++) if(EqnIsSelected(a[i])) sb|=1u<<i;
   for(i=0;i<n;i++) sx_assert(!(sb>>i&1)||!EqnIsPositive(a[i]),"the plain function selects no positive literal");
   PC->heuristic_parms.selection_strategy=fp; DoLiteralSelection(PC,d);
   i=0; for(Eqn_p e=d->literals;e;e=e->next,i++)
      if(EqnIsPositive(e)) sx_assert((EqnIsSelected(e)!=0)==(sb!=0),"all positive literals are added if something is selected");
      else sx_assert((EqnIsSelected(e)!=0)==(sb>>i&1),"the same negative literals are selected");
   if(sb) sx_reach("selected");
   sx_observe(sb);
}
