/* A symbolic finite interpretation: every function table entry and predicate
   bit is a solver variable, so one path decides a semantic claim for all
   interpretations over the domain at once. Evaluation never branches. */
#ifndef VH_SEM_H
#define VH_SEM_H
#include <ccl_clauses.h>
#include <ccl_clausesets.h>
static int sem_D=2;
static long sem_dom=0;      /* number of domain elements in use (symbolic), 0: all D */
#define SEM_MAX 24
typedef struct { FunCode f; int ar; long tab[81]; } SemSym;
static SemSym sem_sym[SEM_MAX]; static int sem_n;
static int sem_ipow(int b, int e) { int r=1; while(e--) r*=b; return r; }
static void sem_add(FunCode f, int ar, int isp)
{
   SemSym *s=&sem_sym[sem_n++]; s->f=f; s->ar=ar;
   int n=sem_ipow(sem_D,ar);
   for(int i=0;i<n;i++) s->tab[i]=sx_int("I",0,isp?1:sem_D-1);
   if(sem_dom && !isp) for(int i=0;i<n;i++) sx_assume(s->tab[i]<sem_dom);
}
/* interpretations over 1..D elements instead of exactly D */
static void sem_anysize(void) { sem_dom=sx_int("dom",1,sem_D); }
static int sem_unknown;     /* set when a clause is outside the interpreted symbols or variable bound */
static int sem_maxv=3;
#define SEM_MAXV 16
static FunCode sem_v[SEM_MAXV]; static int sem_vb[SEM_MAXV]; static int sem_nv; static int sem_val[SEM_MAXV];   /* sem_vb: Boolean variable */
static void sem_vars(Term_p t)
{
   if(TermIsAnyVar(t)) { for(int i=0;i<sem_nv;i++) if(sem_v[i]==t->f_code) return; if(sem_nv==SEM_MAXV) { sem_unknown=1; return; } sem_vb[sem_nv]=TypeIsBool(t->type); sem_v[sem_nv++]=t->f_code; return; }
   for(int i=0;i<t->arity;i++) sem_vars(t->args[i]);
}
static long sem_term(Term_p t)
{
   if(TermIsAnyVar(t)) { for(int i=0;i<sem_nv;i++) if(sem_v[i]==t->f_code) return sem_val[i]; sem_unknown=1; return 0; }
   if(t->f_code==SIG_TRUE_CODE) return 1;
   if(t->f_code==SIG_FALSE_CODE) return 0;
   for(int k=0;k<sem_n;k++) if(sem_sym[k].f==t->f_code)
   {
      SemSym *s=&sem_sym[k];
      if(s->ar!=t->arity) { sem_unknown=1; return 0; }
      long idx=0; int mul=1; int conc=1;
      for(int i=0;i<s->ar;i++) { long a=sem_term(t->args[i]); idx+=a*mul; mul*=sem_D; }
      long r=s->tab[0];
      for(int i=1;i<mul;i++) r=sx_ite(idx==i,s->tab[i],r);
      return r;
   }
   sem_unknown=1;
   return 0;
}
static long sem_lit(Eqn_p l) { long e=sem_term(l->lterm)==sem_term(l->rterm); return EqnIsPositive(l)?e:sx_not(e); }
static long sem_eqnlist(Eqn_p list)
{
   sem_nv=0; for(Eqn_p l=list;l;l=l->next) { sem_vars(l->lterm); sem_vars(l->rterm); }
   if(sem_nv>sem_maxv) { sem_unknown=1; return 1; }
   int n=sem_ipow(sem_D,sem_nv); long all=1;
   for(int i=0;i<n;i++)
   {
      int x=i; for(int j=0;j<sem_nv;j++) { sem_val[j]=x%sem_D; x/=sem_D; }
      long any=0;
      int skip=0; for(int j=0;j<sem_nv;j++) if(sem_vb[j]) skip|=sem_val[j]>1; if(skip) continue;
      if(sem_dom) for(int j=0;j<sem_nv;j++) if(!sem_vb[j]) any=sx_or(any,sem_val[j]>=sem_dom);
      for(Eqn_p l=list;l;l=l->next) any=sx_or(any,sem_lit(l));
      all=sx_and(all,any);
   }
   return all;
}
static long sem_clause(Clause_p c) { return sem_eqnlist(c->literals); }
static long sem_set(ClauseSet_p s) { long all=1; for(Clause_p c=s->anchor->succ;c!=s->anchor;c=c->succ) all=sx_and(all,sem_clause(c)); return all; }
static void sem_set_implied(long prem, ClauseSet_p s, const char *m)
{ for(Clause_p c=s->anchor->succ;c!=s->anchor;c=c->succ) { sem_unknown=0; long v=sem_clause(c); if(!sem_unknown) sx_assert(sx_or(sx_not(prem),v),m); } }
#endif
