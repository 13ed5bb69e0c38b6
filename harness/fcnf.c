/* Clausification: the clauses imply the formula, and every model of the
   formula extends to the new symbols so that the clauses hold. The formula is
   built as a harness-side tree, printed as text and read by the real parser,
   so its meaning is fixed independently of the implementation. */
#include "prover.h"
#include <ccl_formulafunc.h>
#include <ccl_formulasets.h>

typedef struct nd { int k; struct nd *a,*b; int v; } Nd;       /* k: see below */
enum { LEAF, NOT, AND, OR, IMP, EQV, BIMP, XOR, NOR, NAND, ALL, EX };
static const char *opn[]={"","~","&","|","=>","<=>","<=","<~>","~|","~&","!","?"};
static Nd nds[64]; static int nnd;
static Nd *mk(int k) { Nd *n=&nds[nnd++]; n->k=k; n->a=n->b=NULL; n->v=0; return n; }
static char txt[4000];
static void out(const char *s) { strcat(txt,s); }

/* leaves: 0..3 atoms over X/Y or constants, depending on what is in scope */
static int leafmode;
static const char *vn[]={"X","Y","Z"};
static int nleaf;                 /* distinct propositional leaves used so far */
static int kinds[12], nkinds;
static int budget;
static int pre;                   /* variables bound by an outer prefix */

static Nd *gen_(int scope);       /* scope: bitmask of bound variables */
static Nd *leaf(int scope)
{
   Nd *n=mk(LEAF);
   if(leafmode==0)                /* propositional, canonical numbering */
   {
      int m=sx_param("konst",0)?4:nleaf+1; if(m>4) m=4;
      n->v=(int)sx_choose("leaf",m); if(n->v==nleaf) nleaf++;
      return n;
   }
   /* first-order: pick atom shape and arguments in scope */
   int c[16], k=0;
   c[k++]=0;                                             /* p(a) */
   for(int i=0;i<3;i++) if(scope>>i&1) { c[k++]=1+i; }    /* p(Vi) */
   if((scope&3)==3) { c[k++]=4; if(leafmode>1) c[k++]=5; c[k++]=6; }        /* r(X,Y) r(Y,X) X=Y */
   else if(scope&1) c[k++]=7;                            /* r(X,a) */
   else if(scope&2) c[k++]=8;                            /* r(a,Y) */
   if((scope&6)==6) c[k++]=9;                            /* r(Y,Z) */
   n->v=c[sx_choose("atom",k)];
   return n;
}
static Nd *gen_(int scope)
{
   if(budget<=0) return leaf(scope);
   int c=(int)sx_choose("node",nkinds+1);
   if(c==0) return leaf(scope);
   budget--;
   int k=kinds[c-1];
   Nd *n=mk(k);
   if(k==ALL||k==EX)
   {
      n->v=(int)sx_choose("var",leafmode>1?2:1+((scope&1)!=0));
      n->a=gen_(scope|1<<n->v);
   }
   else { n->a=gen_(scope); if(k!=NOT) n->b=gen_(scope); }
   return n;
}
static const char *patoms[]={"p(a)","a=b","q(b)","p(b)"}, *katoms[]={"p(a)","$true","$false","q(b)"};
static const char *fatoms[]={"p(a)","p(X)","p(Y)","p(Z)","r(X,Y)","r(Y,X)","X=Y","r(X,a)","r(a,Y)","r(Y,Z)"};
static int style;
static void pr(Nd *n, int par)
{
   switch(n->k)
   {
   case LEAF: out(leafmode==0?(sx_param("konst",0)?katoms:patoms)[n->v]:fatoms[n->v]); break;
   case NOT: out("~"); pr(n->a,1); break;
   case ALL: case EX:
      out(opn[n->k]);
      if(style && n->a->k==n->k && n->a->v!=n->v) { out("["); out(vn[n->v]); out(","); out(vn[n->a->v]); out("]:"); pr(n->a->a,1); }
      else { out("["); out(vn[n->v]); out("]:"); pr(n->a,1); }
      break;
   default:
      if(par) out("(");
      /* associative chains may be written without parentheses */
      pr(n->a,!(style && n->a->k==n->k && (n->k==AND||n->k==OR)));
      out(opn[n->k]); pr(n->b,1);
      if(par) out(")");
   }
}
/* embed the shared subformula s (same node printed twice) below a solver-chosen connective */
static Nd *embed(const char *name, Nd *s, int leafno)
{
   int c=(int)sx_choose(name,sx_param("nemb",6)); Nd *l=mk(LEAF); l->v=leafno; Nd *n, *t;
   static const int ks[]={OR,IMP,EQV,AND,IMP,OR};
   n=mk(ks[c]);
   t=s; if(c==5) { t=mk(NOT); t->a=s; }
   if(c==4) { n->a=l; n->b=t; } else { n->a=t; n->b=l; }
   return n;
}
static int env[3];
static long sym_val(FunCode f, long *a, int n)
{
   for(int k=0;k<sem_n;k++) if(sem_sym[k].f==f)
   {
      long idx=0; int mul=1;
      for(int i=0;i<n;i++) { idx+=a[i]*mul; mul*=sem_D; }
      long r=sem_sym[k].tab[0];
      for(int i=1;i<mul;i++) r=sx_ite(idx==i,sem_sym[k].tab[i],r);
      return r;
   }
   sx_assert(0,"harness: symbol not interpreted"); return 0;
}
static FunCode fa,fb,fp,fq,fr;
static long cst(FunCode f) { return sym_val(f,NULL,0); }
static long at1(FunCode f, long x) { return sym_val(f,&x,1); }
static long at2(FunCode f, long x, long y) { long z[2]={x,y}; return sym_val(f,z,2); }
static long ev(Nd *n)
{
   long x,y;
   switch(n->k)
   {
   case LEAF:
      if(leafmode==0 && sx_param("konst",0)) switch(n->v) { case 0: return at1(fp,cst(fa)); case 1: return 1; case 2: return 0; default: return at1(fq,cst(fb)); }
      if(leafmode==0) switch(n->v) { case 0: return at1(fp,cst(fa)); case 1: return cst(fa)==cst(fb); case 2: return at1(fq,cst(fb)); default: return at1(fp,cst(fb)); }
      switch(n->v)
      {
      case 0: return at1(fp,cst(fa));
      case 1: case 2: case 3: return at1(fp,env[n->v-1]);
      case 4: return at2(fr,env[0],env[1]);
      case 5: return at2(fr,env[1],env[0]);
      case 6: return env[0]==env[1];
      case 7: return at2(fr,env[0],cst(fa));
      case 8: return at2(fr,cst(fa),env[1]);
      default: return at2(fr,env[1],env[2]);
      }
   case NOT: return sx_not(ev(n->a));
   case ALL: case EX:
   {
      int save=env[n->v]; long r=n->k==ALL;
      for(int d=0;d<sem_D;d++)
      {
         env[n->v]=d; long v=ev(n->a); long ind=sem_dom?(d<sem_dom):1;
         r=n->k==ALL?sx_and(r,sx_or(sx_not(ind),v)):sx_or(r,sx_and(ind,v));
      }
      env[n->v]=save; return r;
   }
   }
   x=ev(n->a); y=ev(n->b);
   switch(n->k)
   {
   case AND: return sx_and(x,y);
   case OR: return sx_or(x,y);
   case IMP: return sx_or(sx_not(x),y);
   case BIMP: return sx_or(x,sx_not(y));
   case EQV: return x==y;
   case XOR: return x!=y;
   case NOR: return sx_not(sx_or(x,y));
   default: return sx_not(sx_and(x,y));
   }
}
static void parse_one(const char *role, const char *f)
{
   static char b[4200]; snprintf(b,sizeof b,"fof(in%d,%s,(%s)).",pv_count++,role,f);
   Scanner_p in=CreateScanner(StreamTypeInternalString,b,true,NULL,true); ScannerSetFormat(in,TSTPFormat);
   FormulaSetInsert(PS->f_axioms,WFormulaParse(in,PS->terms)); DestroyScanner(in);
}
static long newv[600]; static int nnew;
void fcnf_main(void)
{
   pv_init();
   sem_D=(int)sx_param("D",2);
   pv_signature(sx_param("mode",0)==0?"p(a)|q(b)":"p(a)|r(a,a)");
   fa=SigFindFCode(H.sig,"a"); fb=SigFindFCode(H.sig,"b"); fp=SigFindFCode(H.sig,"p"); fq=SigFindFCode(H.sig,"q"); fr=SigFindFCode(H.sig,"r");
   sem_anysize();
   pv_interp();
   FunCode before=H.sig->f_count;
   leafmode=(int)sx_param("mode",0); budget=(int)sx_param("n",3);
   long mask=sx_param("ops",0x3fe); for(int k=1;k<=EX;k++) if(mask>>k&1) kinds[nkinds++]=k;
   Nd *root; int scope=0; Nd *last=NULL; root=NULL;
   for(int i=0;i<(int)sx_param("prefix",0);i++)
   {
      Nd *q=mk(sx_choose("q",2)?EX:ALL); q->v=i; scope|=1<<i;
      if(last) last->a=q; else root=q; last=q;
   }
   Nd *m=gen_(scope), *root2=NULL;
   if(sx_param("share",0))
   {  /* two formulas with a common subformula */
      Nd *s=m; m=embed("emb1",s,leafmode==0?3:0);
      root2=embed("emb2",s,leafmode==0?2:0);
      for(int i=(int)sx_param("prefix",0)-1;i>=0;i--) { Nd *q=mk(sx_choose("q2",2)?EX:ALL); q->v=i; q->a=root2; root2=q; }
   }
   if(last) last->a=m; else root=m;
   style=(int)sx_choose("style",sx_param("nstyle",1));
   int conj=(int)sx_choose("conjecture",sx_param("nrole",2));
   txt[0]=0; pr(root,0);
   sx_trace(txt,conj);
   static const long defs[]={24,1,2,0,3}; static const long minis[]={1048576,0,2};
   long dl=defs[sx_choose("def_limit",sx_param("ndef",2))], ms=minis[sx_choose("miniscope",sx_param("nmini",1))];
   parse_one(conj?"conjecture":"axiom",txt);
   long F=ev(root); if(conj) F=sx_not(F);
   if(root2)
   {
      txt[0]=0; pr(root2,0); sx_trace(txt,0); parse_one("axiom",txt);
      F=sx_and(F,ev(root2));
   }
   FormulaSetPreprocConjectures(PS->f_axioms,PS->f_ax_archive,false,false);
   FormulaSetCNF2(PS->f_axioms,PS->f_ax_archive,PS->axioms,PS->terms,PS->freshvars,ms,dl,true,true,true,true);
   sx_assert(FormulaSetEmpty(PS->f_axioms),"all formulas are clausified");
   int n0=sem_n;
   for(FunCode f=before+1;f<=H.sig->f_count;f++)
   {
      int ar=SigFindArity(H.sig,f);
      if(ar>3 || sem_n>=SEM_MAX) { sx_reach("big"); return; }
      sem_add(f,ar,SigIsPredicate(H.sig,f));
      for(int i=0;i<sem_ipow(sem_D,ar);i++) newv[nnew++]=sem_sym[sem_n-1].tab[i];
   }
   sem_unknown=0; sem_maxv=5;
   long C=sem_set(PS->axioms);
   if(sem_unknown) { sx_reach("big"); return; }
   sx_assert(sx_or(sx_not(C),F),"the clauses imply the formula");
   if(nnew) { sx_reach("skolem"); sx_assert(sx_extends("ext",F,C,newv,nnew),"every model of the formula extends to a model of the clauses"); }
   else sx_assert(sx_or(sx_not(F),C),"the formula implies the clauses");
   sx_reach("end");
   sx_observe(PS->axioms->members);
}
