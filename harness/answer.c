/* The whole prover, from its main function on: problem text and options are
   chosen by the solver-driven engine, the reported status is judged by an
   independent reading of the problem text in all small interpretations. */
#include "sx.h"
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <clb_defines.h>
#include <cio_output.h>
#include <cio_scanner.h>
static char problem[4000], problem2[2000]; static char *cap; static size_t caplen; static int nscan;
#define main eprover_main
#define OpenGlobalOut(n) (GlobalOut=open_memstream(&cap,&caplen))
#define CreateScanner(t,n,a,b,c) CreateScanner(StreamTypeInternalString,nscan++?problem2:problem,a,b,c)
#include <eprover.c>
#undef main
#undef CreateScanner
#undef OpenGlobalOut
/* ---- independent reading: evaluates formula text in a symbolic structure */
static int D; static long dom;
typedef struct { char nm[12]; int ar, isp; long tab[27]; } Sym;
static Sym syms[24]; static int nsyms;
static const char *cp; static long env[128];
static Sym *sym(const char *nm,int ar,int isp)
{
   for(int i=0;i<nsyms;i++) if(!strcmp(syms[i].nm,nm)&&syms[i].ar==ar&&syms[i].isp==isp) return &syms[i];
   Sym *s=&syms[nsyms++]; strcpy(s->nm,nm); s->ar=ar; s->isp=isp; int n=1; for(int i=0;i<ar;i++) n*=D;
   for(int i=0;i<n;i++) { s->tab[i]=sx_int("I",0,isp?1:D-1); if(!isp) sx_assume(s->tab[i]<dom); }
   return s;
}
static long look(Sym *s,long *a) { long idx=0; int mul=1; for(int i=0;i<s->ar;i++) { idx+=a[i]*mul; mul*=D; } long r=s->tab[0]; for(int i=1;i<mul;i++) r=sx_ite(idx==i,s->tab[i],r); return r; }
static void ws(void) { while(*cp==' ') cp++; }
static int eat(const char *t) { ws(); size_t n=strlen(t); if(strncmp(cp,t,n)) return 0; cp+=n; return 1; }
static long formula(void);
static char nm[12]; static long args[3]; static int nargs;
static long term(void);
static void name(char *b) { ws(); int n=0; while((*cp>='a'&&*cp<='z')||(*cp>='A'&&*cp<='Z')||(*cp>='0'&&*cp<='9')||*cp=='_'||*cp=='$') b[n++]=*cp++; b[n]=0; }
static int arglist(long *a) { int n=0; if(eat("(")) { do a[n++]=term(); while(eat(",")); eat(")"); } return n; }
static long term(void)
{
   char b[12]; long a[3]; name(b);
   if(b[0]>='A'&&b[0]<='Z') return env[(int)b[0]];
   int n=arglist(a); return look(sym(b,n,0),a);
}
static long atom(void)
{
   char b[12]; long a[3]; name(b);
   if(!strcmp(b,"$true")) return 1;
   if(!strcmp(b,"$false")) return 0;
   int var=b[0]>='A'&&b[0]<='Z', n=var?0:arglist(a); ws();
   int ne=!strncmp(cp,"!=",2), eq=!ne&&cp[0]=='='&&cp[1]!='>';
   if(!ne&&!eq) return look(sym(b,n,1),a);
   cp+=ne?2:1; long l=var?env[(int)b[0]]:look(sym(b,n,0),a); long r=term();
   return ne?sx_not(l==r):(l==r);
}
static long unit(void)
{
   ws();
   if(*cp=='(') { cp++; long r=formula(); eat(")"); return r; }
   if(*cp=='~') { cp++; return sx_not(unit()); }
   if(*cp=='!'||*cp=='?')
   {
      int all=*cp++=='!'; char vs[4]; int n=0; eat("["); do { char b[12]; name(b); vs[n++]=b[0]; } while(eat(",")); eat("]"); eat(":");
      long save[4]; for(int i=0;i<n;i++) save[i]=env[(int)vs[i]];
      const char *body=cp; int m=1; for(int i=0;i<n;i++) m*=D; long r=all;
      for(int k=0;k<m;k++)
      {
         long in=1; int q=k; for(int i=0;i<n;i++) { env[(int)vs[i]]=q%D; in=sx_and(in,q%D<dom); q/=D; }
         cp=body; long v=unit(); r=all?sx_and(r,sx_or(sx_not(in),v)):sx_or(r,sx_and(in,v));
      }
      for(int i=0;i<n;i++) env[(int)vs[i]]=save[i];
      return r;
   }
   return atom();
}
static long formula(void)
{
   long l=unit();
   if(eat("<=>")) return l==unit();
   if(eat("<~>")) return l!=unit();
   if(eat("=>")) { long r=unit(); return sx_or(sx_not(l),r); }
   if(eat("<=")) { long r=unit(); return sx_or(l,sx_not(r)); }
   for(;;)
   {
      ws();
      if(eat("&")) { long r=unit(); l=sx_and(l,r); }
      else if(*cp=='|') { cp++; long r=unit(); l=sx_or(l,r); }
      else return l;
   }
}
static long read_as(const char *b,int clause)
{
   char t[400];
   if(!clause) { cp=b; return formula(); }
   char vs[12]; int n=0; for(const char *p=b;*p;p++) if(*p>='A'&&*p<='Z'&&!memchr(vs,*p,n)) vs[n++]=*p;
   if(n) { strcpy(t,"!["); int k=2; for(int i=0;i<n;i++) { if(i) t[k++]=','; t[k++]=vs[i]; } t[k]=0; strcat(t,"]:("); strcat(t,b); strcat(t,")"); } else strcpy(t,b);
   cp=t; return formula();
}
/* ---- pools: clause texts, formula texts, conjectures; satisfiable combinations have models with at most D elements */
static const char *k0[]={"p(X)|q(X)","~p(a)","~q(X)|r(X,b)","~r(a,X)","q(b)|~p(b)","X=a|X=b","a!=b|p(b)","~r(X,X)",0};
static const char *k1[]={"g(X)=X","g(a)=b","a!=b","p(g(X))|~p(X)","p(a)","~p(b)","g(g(X))=a|p(X)","g(X)=a|g(X)=b",0};
static const char *k2[]={"p|q","~p|r","~q|r","~r|s","~s|~p","~q|~s","r|p","~r|q",0};
static const char *k3[]={"~p(g(X))","p(g(X))|X!=c","X=Y|~p(b)","p(X)|p(g(X))","~p(g(a))|~p(b)","X=a","g(a)=X|p(b)","X!=g(X)|X!=a","p(b)|~p(a)",0};
static const char **kp[]={k0,k1,k2,k3};
static const char *f0[]={"![X]:(p(X)=>?[Y]:r(X,Y))","?[X]:p(X)","![X,Y]:(r(X,Y)=>~p(Y))","![X]:(p(X)<=>q(X))","p(a)&(q(b)|a=b)","~?[X]:(q(X)&~r(X,X))",0};
static const char *f1[]={"![X]:(g(X)=a|g(X)=b)","?[X]:g(X)!=X","![X]:g(g(X))=X","a!=b=>g(a)=a","(p(a)<~>p(b))&(p(b)|a=b)","![X,Y]:(g(X)=g(Y)=>X=Y)",0};
static const char *f2[]={"(p=>q)&(q=>r)","p|(q<=>r)","~(p&r)","(s<~>q)|p","~s=>(p<=>q)","s&(r|~q)",0};
static const char **fp[]={f0,f1,f2,f1};
static const char *cj0[]={"?[X]:(p(X)&q(X))","![X]:?[Y]:r(X,Y)","q(b)|p(b)",0};
static const char *cj1[]={"g(a)=a","?[X]:g(X)=X","p(a)|p(b)",0};
static const char *cj2[]={"r|~p","s<=>q","$false",0};
static const char **jp[]={cj0,cj1,cj2,cj1};
/* options; 'c': complete search, 'i': may give up, never claims a model */
static const char *optv[][6]={
 {"c",0},{"c","--simul-paramod","-tKBO6","-winvfreqrank",0},{"c","-tLPO4","-Gunary_first","-WSelectNegativeLiterals",0},
 {"c","--forward-context-sr","--strong-destructive-er","--prefer-initial-clauses","--definitional-cnf=2",0},
 {"c","--pred-elim=true","--bce=true","--presat-simplify","-WSelectMaxLComplexAvoidPosPred",0},
 {"c","--no-preprocessing","--split-clauses=7","--split-reuse-defs","-WSelectLargestNegLit",0},
 {"c","--satcheck-proc-interval=2","--satcheck-normalize-unproc","-xWeight",0},
 {"i","--sine=GSinE(CountFormulas,,1.2,,,1,1.0)",0},{"i","--disable-eq-factoring",0},{"i","--processed-clauses-limit=2","--prefer-initial-clauses",0},{"i","--no-generation",0},{"i","--delete-bad-limit=30",0},
 {"c","--auto",0},{"c","--print-saturated=eigEIG","--answers=1",0},{"i","--rel-pruning-level=1",0},{"c","-H(1*Refinedweight(PreferGoals,1,2,2,2,0.5),1*FIFOWeight(ConstPrio))","--oriented-simul-paramod",0},
 {"c","--subsumption-indexing=None","--fp-index=NoIndex","--forward-demod-level=1",0},{"c","--ac-handling=None","--condense","--condense-aggressive","--destructive-er-aggressive",0},
 {"c","--split-clauses=3","--split-aggressive","--split-method=2","--strong-rw-inst",0},{"c","--strong-forward-subsumption","--forward-context-sr-aggressive","--backward-context-sr","--replace-inj-defs",0},
 {"c","--definitional-cnf=1","--miniscope-limit=0","--prefer-general-demodulators","--detsort-rw",0},{"i","--literal-comparison=TFOEqMax",0},{"i","--disable-given-clause-fw-contraction","--filter-orphans-limit=2","--processed-clauses-limit=9",0},
 {"i","--unprocessed-limit=3",0},{"i","--disable-paramod-into-neg-units",0},{"c","-tKBO","--fp-index=FP4M","--sos-uses-input-types","--prefer-initial-clauses",0},{"c","--presat-simplify",0}};
static const char *roles[]={"axiom","hypothesis","definition","lemma","plain","negated_conjecture"};
void an_main(void)
{
   D=(int)sx_param("D",2); dom=sx_int("dom",1,D);
   int pool=(int)sx_param("pool",0), nc=(int)sx_param("nc",2), nf=(int)sx_param("nf",1), conj=(int)sx_param("conj",1);
   long A=1, C=1; int hasc=0; char *o=problem; int id=0; int role=sx_param("roles",0)?(int)sx_choose("role",6):0;
   for(int ph=0;ph<2;ph++)
   {
      const char **p=ph?fp[pool]:kp[pool]; int np=0; while(p[np]) np++; int last=-1;
      for(int i=0;i<(ph?nf:nc)&&last<np-1;i++)
      {
         int k=(int)sx_choose(ph?"formula":"clause",np-1-last); k+=last+1; last=k; sx_trace(p[k],ph);
         A=sx_and(A,read_as(p[k],!ph)); o+=sprintf(o,"%s(n%d,%s,(%s)).\n",ph?"fof":"cnf",id++,i==0?roles[role]:"axiom",p[k]);
      }
   }
   if(conj) { const char **p=jp[pool]; int np=0; while(p[np]) np++; int k=(int)sx_choose("conjecture",np+(conj>1)); if(k<np) { sx_trace(p[k],2); hasc=1; C=read_as(p[k],0); o+=sprintf(o,"fof(goal,conjecture,(%s)).\n",p[k]); } }
   int no=(int)sx_param("nopt",sizeof optv/sizeof *optv); int k=(int)sx_param("opt",0); if(no>1) k+=(int)sx_choose("option",no);
   sx_trace("option",k);
   static char *argv[12]; int argc=0; argv[argc++]="eprover"; argv[argc++]="--tstp-format"; argv[argc++]="--processed-clauses-limit=24"; for(int i=1;optv[k][i];i++) argv[argc++]=(char*)optv[k][i]; argv[argc++]="p.p"; argv[argc]=NULL;
   int rc=eprover_main(argc,argv);
   char *s=cap?strstr(cap,"SZS status "):NULL;
   sx_assert(s!=NULL,"a status is reported"); if(!s) return;
   sx_assert(strstr(s+5,"SZS status ")==NULL,"one status is reported");
   s+=11; sx_trace(s,rc);
   int incomplete=optv[k][0][0]=='i';
#define IS(t) (!strncmp(s,t "\n",sizeof t))
   if(IS("Theorem")) { sx_assert(hasc,"a theorem needs a conjecture"); sx_assert(!sx_may("cex",sx_and(A,sx_not(C))),"a reported theorem has no counterexample"); sx_assert(rc==PROOF_FOUND,"exit code of a proof"); sx_reach("theorem"); }
   else if(IS("ContradictoryAxioms")) { sx_assert(hasc,"contradictory axioms are reported for problems with a conjecture"); sx_assert(!sx_may("cex",A),"axioms reported contradictory have no model"); sx_assert(rc==PROOF_FOUND,"exit code of a proof"); sx_reach("contradictory"); }
   else if(IS("Unsatisfiable")) { sx_assert(!hasc,"unsatisfiability is reported for problems without a conjecture"); sx_assert(!sx_may("cex",A),"a problem reported unsatisfiable has no model"); sx_assert(rc==PROOF_FOUND,"exit code of a proof"); sx_reach("unsat"); }
   else if(IS("Satisfiable")||IS("CounterSatisfiable"))
   {
      int cs=IS("CounterSatisfiable"); sx_assert(cs==hasc,"countersatisfiable is reported exactly for problems with a conjecture");
      sx_assert(sx_may("model",sx_and(A,hasc?sx_not(C):1)),"a problem reported (counter)satisfiable has a model"); sx_assert(rc==SATISFIABLE,"exit code of a saturation"); sx_reach("sat");
   }
   else { sx_assert(IS("GaveUp")||IS("ResourceOut"),"the status is a known one"); sx_assert(incomplete||IS("ResourceOut"),"the prover gives up only if an option restricts the search"); sx_assert(rc==(IS("GaveUp")?INCOMPLETE_PROOFSTATE:RESOURCE_OUT),"exit code of a failure"); sx_reach(IS("GaveUp")?"gaveup":"limit"); }
   sx_observe(rc);
}
