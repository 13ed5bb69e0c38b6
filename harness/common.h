/* Shared helpers of the harnesses: set up the real signature/term bank and
   build terms whose shape is chosen by the solver-driven engine. */
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <clb_memory.h>
#include <cio_initio.h>
#include <cio_output.h>
#include <cte_signature.h>
#include <cte_termbanks.h>
#include <cte_termfunc.h>
#include <cte_subst.h>
#include "sx.h"

extern long sx_clock_us;
bool app_encode = false;

typedef struct vh { TypeBank_p tb; Sig_p sig; TB_p bank; Type_p i, o; } VH;
static VH H;

static void vh_init(void)
{
   InitIO("harness");
   OutputLevel = 0;
   problemType = PROBLEM_FO;
   H.tb   = TypeBankAlloc();
   H.sig  = SigAlloc(H.tb);
   SigInsertInternalCodes(H.sig);
   H.bank = TBAlloc(H.sig);
   H.i = H.tb->i_type; H.o = H.tb->bool_type;
}

/* declare f: args^n -> res */
static FunCode vh_fun(const char *name, int n, Type_p arg, Type_p res)
{
   FunCode f = SigInsertId(H.sig, (char*)name, n, false);
   if(n == 0) { SigDeclareFinalType(H.sig, f, res); }
   else
   {
      Type_p *a = TypeArgArrayAlloc(n+1);
      for(int k=0;k<n;k++) a[k]=arg;
      a[n]=res;
      SigDeclareFinalType(H.sig, f, TypeBankInsertTypeShared(H.tb, AllocArrowType(n+1, a)));
   }
   return f;
}
/* the second and later variables have indices beyond initial table sizes */
static Term_p vh_var(int k) { return VarBankVarAssertAlloc(H.bank->vars, k ? -2*(k+1)-148 : -2, H.i); }
static Term_p vh_app(FunCode f, int n, Term_p a, Term_p b, Term_p c)
{
   Term_p t = TermTopAlloc(f, n);
   if(n>0) t->args[0]=a;
   if(n>1) t->args[1]=b;
   if(n>2) t->args[2]=c;
   return TBTermTopInsert(H.bank, t);
}
static Term_p vh_c(FunCode f) { return vh_app(f,0,NULL,NULL,NULL); }
static Term_p vh_f1(FunCode f, Term_p a) { return vh_app(f,1,a,NULL,NULL); }
static Term_p vh_f2(FunCode f, Term_p a, Term_p b) { return vh_app(f,2,a,b,NULL); }

/* Solver-chosen term over a fixed small signature. budget bounds symbol count. */
typedef struct { FunCode f; int ar; } VHSym;
static VHSym vh_syms[16]; static int vh_nsyms; static int vh_nvars;
static Term_p vh_term_(const char *name, int depth, int *budget)
{
   /* options: variables, then symbols that fit */
   int opt[32], n=0;
   for(int v=0; v<vh_nvars; v++) opt[n++] = -(v+1);
   for(int s=0; s<vh_nsyms; s++) if(vh_syms[s].ar==0 || (depth>0 && vh_syms[s].ar<=*budget)) opt[n++]=s;
   int k = (int)sx_choose(name, n);
   int o = opt[k];
   if(o<0) return vh_var(-o-1);
   VHSym s = vh_syms[o];
   *budget -= s.ar;
   Term_p a[4];
   for(int j=0;j<s.ar;j++) a[j] = vh_term_(name, depth-1, budget);
   return vh_app(s.f, s.ar, a[0], s.ar>1?a[1]:NULL, s.ar>2?a[2]:NULL);
}
static Term_p vh_term(const char *name, int depth, int budget) { return vh_term_(name, depth, &budget); }
#endif
