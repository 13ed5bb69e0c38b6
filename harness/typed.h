/* Typed solver-chosen terms: two sorts, variables per side. */
#ifndef VH_TYPED_H
#define VH_TYPED_H
#include "common.h"
typedef struct { FunCode f; int ar; Type_p arg, res; } TSym;
static TSym tsy[16]; static int ntsy;
static Term_p tvar[16]; static int ntvar;      /* variables available */
static FunCode vh_funs(const char *name, int n, Type_p arg, Type_p res)
{
   FunCode f=vh_fun(name,n,arg,res);
   tsy[ntsy].f=f; tsy[ntsy].ar=n; tsy[ntsy].arg=arg; tsy[ntsy].res=res; ntsy++;
   return f;
}
/* vars: bit mask of allowed variables */
static Term_p tterm_(const char *nm, Type_p ty, int depth, int *budget, unsigned vars)
{
   int opt[40], n=0;
   for(int v=0;v<ntvar;v++) if((vars>>v&1) && tvar[v]->type==ty) opt[n++]=-(v+1);
   for(int s=0;s<ntsy;s++) if(tsy[s].res==ty && (tsy[s].ar==0 || (depth>0 && tsy[s].ar<=*budget))) opt[n++]=s;
   int o=opt[n==1?0:sx_choose(nm,n)];
   if(o<0) return tvar[-o-1];
   TSym s=tsy[o]; *budget-=s.ar;
   Term_p a[8]; for(int j=0;j<s.ar;j++) a[j]=tterm_(nm,s.arg,depth-1,budget,vars);
   Term_p t=TermTopAlloc(s.f,s.ar); for(int j=0;j<s.ar;j++) t->args[j]=a[j];
   return TBTermTopInsert(H.bank,t);
}
static Term_p tterm(const char *nm, Type_p ty, int depth, int budget, unsigned vars) { return tterm_(nm,ty,depth,&budget,vars); }
/* structural views that do not rely on sharing or on cached data */
static int seq(Term_p a, Term_p b)
{
   if(a->f_code!=b->f_code||a->arity!=b->arity) return 0;
   for(int i=0;i<a->arity;i++) if(!seq(a->args[i],b->args[i])) return 0;
   return 1;
}
static int isvar(Term_p t) { return t->f_code<0; }
static Type_p vh_sort(const char *nm)
{
   TypeConsCode c=TypeBankDefineSimpleSort(H.tb,nm);
   return TypeBankInsertTypeShared(H.tb,AllocSimpleSort(c));
}
#endif
