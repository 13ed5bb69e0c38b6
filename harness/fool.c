/* Clausification of formulas with Boolean subterms: formulas as arguments,
   Boolean equality and variables, conditionals. The formula is a harness-side
   tree, printed as text and read by the real parser. */
#include "prover.h"
#include <ccl_formulafunc.h>
#include <ccl_formulasets.h>
typedef struct nd { int k; struct nd *c[3]; int v; } Nd;
enum { PA, PX, EQ, BV, TT, FF, NOT, AND, OR, IMP, EQV, ITE, SB, PH, BEQ, BNE, HEQ, HNE, ALLX, EXX, ALLB, EXB, QP, DIST, NK };
static const int ar[]={0,0,0,0,0,0,1,2,2,2,2,3,1,1,2,2,2,2,1,1,1,1,2,0};
static Nd nds[64]; static int nnd; static char txt[3000]; static int budget; static long mask;
static void out(const char *s) { strcat(txt,s); }
static Nd *gen(int x,int b)
{
   int c[NK], n=0; c[n++]=PA; if(x) { c[n++]=PX; c[n++]=EQ; } if(b) c[n++]=BV; if(mask>>TT&1) { c[n++]=TT; c[n++]=FF; }
   if(!x&&!b) c[n++]=EQ;
   if(budget>0) for(int k=NOT;k<NK;k++) if(mask>>k&1&&(k!=DIST||!x)) c[n++]=k;
   Nd *r=&nds[nnd++]; r->k=n>1?c[sx_choose("node",n)]:c[0]; if(r->k<NOT||r->k==DIST) return r;
   budget--; for(int i=0;i<ar[r->k];i++) r->c[i]=gen(x||r->k==ALLX||r->k==EXX,b||r->k==ALLB||r->k==EXB); return r;
}
static int hasx;
static void pr(Nd *n);
static void two(const char *a,Nd *n,const char *m,const char *z) { out(a); pr(n->c[0]); out(m); pr(n->c[1]); out(z); }
static void pr(Nd *n)
{
   switch(n->k)
   {
   case PA: out("p(a)"); break; case PX: out("p(X)"); break; case EQ: out(hasx?"(X=a)":"(a=b)"); break; case BV: out("B"); break; case TT: out("$true"); break; case FF: out("$false"); break;
   case NOT: out("~("); pr(n->c[0]); out(")"); break;
   case AND: two("(",n,"&",")"); break; case OR: two("(",n,"|",")"); break; case IMP: two("(",n,"=>",")"); break; case EQV: two("(",n,"<=>",")"); break;
   case ITE: out("$ite("); pr(n->c[0]); out(","); pr(n->c[1]); out(","); pr(n->c[2]); out(")"); break;
   case SB: out("s("); pr(n->c[0]); out(")"); break; case PH: out("p(h("); pr(n->c[0]); out("))"); break;
   case BEQ: two("((",n,")=(","))"); break; case BNE: two("((",n,")!=(","))"); break;
   case HEQ: two("(h(",n,")=h(","))"); break; case HNE: two("(h(",n,")!=h(","))"); break;
   case QP: two("q(",n,",",")"); break; case DIST: out("$distinct(a,b,c)"); break;
   case ALLX: case EXX: { int o=hasx; out(n->k==ALLX?"(![X:$i]:(":"(?[X:$i]:("); hasx=1; pr(n->c[0]); hasx=o; out("))"); break; }
   default: out(n->k==ALLB?"(![B:$o]:(":"(?[B:$o]:("); pr(n->c[0]); out("))");
   }
}
static FunCode fa,fb,fc,fp,fq,fs,fh; static long X,B;
static long val(FunCode f,long *a,int n)
{
   for(int k=0;k<sem_n;k++) if(sem_sym[k].f==f)
   {
      long idx=0; int mul=1; for(int i=0;i<n;i++) { idx+=a[i]*mul; mul*=sem_D; }
      long r=sem_sym[k].tab[0]; for(int i=1;i<mul;i++) r=sx_ite(idx==i,sem_sym[k].tab[i],r); return r;
   }
   sx_assert(0,"harness: symbol not interpreted"); return 0;
}
static long v1(FunCode f,long a) { return val(f,&a,1); }
static long ev(Nd *n)
{
   long a=val(fa,NULL,0), b=val(fb,NULL,0), x, y;
   switch(n->k)
   {
   case PA: return v1(fp,a); case PX: return v1(fp,X); case EQ: return hasx?X==a:a==b; case BV: return B; case TT: return 1; case FF: return 0;
   case DIST: { long c=val(fc,NULL,0); return sx_and(sx_and(a!=b,a!=c),b!=c); }
   case NOT: return sx_not(ev(n->c[0])); case SB: return v1(fs,ev(n->c[0])); case PH: return v1(fp,v1(fh,ev(n->c[0])));
   case ALLX: case EXX: { int o=hasx; long s=X, r=n->k==ALLX; hasx=1; for(int d=0;d<sem_D;d++) { X=d; long v=ev(n->c[0]), ind=sem_dom?(d<sem_dom):1; r=n->k==ALLX?sx_and(r,sx_or(sx_not(ind),v)):sx_or(r,sx_and(ind,v)); } X=s; hasx=o; return r; }
   case ALLB: case EXB: { long s=B, r=n->k==ALLB; for(int d=0;d<2;d++) { B=d; long v=ev(n->c[0]); r=n->k==ALLB?sx_and(r,v):sx_or(r,v); } B=s; return r; }
   }
   x=ev(n->c[0]); y=ev(n->c[1]); 
   switch(n->k)
   {
   case AND: return sx_and(x,y); case OR: return sx_or(x,y); case IMP: return sx_or(sx_not(x),y); case EQV: case BEQ: return x==y; case BNE: return x!=y;
   case ITE: return sx_or(sx_and(x,y),sx_and(sx_not(x),ev(n->c[2])));
   case HEQ: return v1(fh,x)==v1(fh,y); case HNE: return v1(fh,x)!=v1(fh,y); default: { long z[2]={x,y}; return val(fq,z,2); }
   }
}
static void read_one(const char *t)
{
   static char b[3200]; strcpy(b,t); Scanner_p in=CreateScanner(StreamTypeInternalString,b,true,NULL,true); ScannerSetFormat(in,TSTPFormat);
   WFormula_p f=WFormulaParse(in,PS->terms); if(strstr(t,",type,")==NULL) FormulaSetInsert(PS->f_axioms,f); DestroyScanner(in);
}
static long newv[600]; static int nnew;
void fool_main(void)
{
   pv_init(); sem_D=2; static const char *decl[]={"tff(d,type,p:$i>$o).","tff(d,type,a:$i).","tff(d,type,b:$i).","tff(d,type,c:$i).","tff(d,type,s:$o>$o).","tff(d,type,h:$o>$i).","tff(d,type,q:($o*$o)>$o).",0};
   for(int i=0;decl[i];i++) read_one(decl[i]);
   fp=SigFindFCode(H.sig,"p"); fa=SigFindFCode(H.sig,"a"); fb=SigFindFCode(H.sig,"b"); fc=SigFindFCode(H.sig,"c"); fs=SigFindFCode(H.sig,"s"); fh=SigFindFCode(H.sig,"h"); fq=SigFindFCode(H.sig,"q");
   sem_anysize(); if(sx_param("D",2)==3) { sem_D=3; }
   sem_add(fp,1,1); sem_add(fa,0,0); sem_add(fb,0,0); if(sx_param("D",2)==3) sem_add(fc,0,0); sem_add(fs,1,1); sem_add(fh,1,0); sem_add(fq,2,1);
   FunCode before=H.sig->f_count;
   budget=(int)sx_param("n",2); mask=sx_param("ops",0); Nd *r=gen(0,0); txt[0]=0; pr(r); sx_trace(txt,0);
   int conj=(int)sx_choose("conjecture",sx_param("nrole",2)); static char b[3100]; sprintf(b,"tff(in,%s,(%s)).",conj?"conjecture":"axiom",txt); read_one(b);
   long F=ev(r); if(conj) F=sx_not(F);
   FormulaSetPreprocConjectures(PS->f_axioms,PS->f_ax_archive,false,false);
   FormulaSetCNF2(PS->f_axioms,PS->f_ax_archive,PS->axioms,PS->terms,PS->freshvars,1048576,sx_choose("def_limit",sx_param("ndef",1))?1:24,true,true,true,true);
   for(FunCode f=before+1;f<=H.sig->f_count;f++)
   {
      int k=SigFindArity(H.sig,f); if(k>3||sem_n>=SEM_MAX) { sx_reach("big"); return; }
      sem_add(f,k,SigIsPredicate(H.sig,f)); for(int i=0;i<sem_ipow(sem_D,k);i++) newv[nnew++]=sem_sym[sem_n-1].tab[i];
   }
   sem_unknown=0; sem_maxv=5; long C=sem_set(PS->axioms); if(sem_unknown) { sx_reach("unknown"); sx_assert(!sx_param("strict",1),"clauses only contain known symbols"); return; }
   sx_assert(sx_or(sx_not(C),F),"the clauses imply the formula");
   if(nnew) { sx_reach("skolem"); sx_assert(sx_extends("ext",F,C,newv,nnew),"every model of the formula extends to a model of the clauses"); }
   else sx_assert(sx_or(sx_not(F),C),"the formula implies the clauses");
   sx_reach("end"); sx_observe(PS->axioms->members);
}
