/* Drives the real prover core (proof state, control, saturation loop) on
   clauses whose text is assembled from solver-chosen pieces. */
#ifndef VH_PROVER_H
#define VH_PROVER_H
#include "common.h"
#include "sem.h"
#include <cco_proofproc.h>
#include <cco_scheduling.h>
#include <ccl_garbage_coll.h>
static ProofState_p PS; static ProofControl_p PC; static HeuristicParms_p HP; static FVIndexParms_p FVP; static PStack_p WD, HD;

static void pv_init(void)
{
   InitIO("harness");
   OutputLevel=0;
   problemType=PROBLEM_FO;
   PS=ProofStateAlloc(FPIgnoreProps);
   ProofStateLoadWatchlist(PS,NULL,TSTPFormat);
   HP=HeuristicParmsAlloc(); FVP=FVIndexParmsAlloc(); WD=PStackAlloc(); HD=PStackAlloc();
   H.tb=PS->type_bank; H.sig=PS->signature; H.bank=PS->terms; H.i=H.tb->i_type; H.o=H.tb->bool_type;
}
static Clause_p pv_clause(char *text)
{
   Scanner_p in=CreateScanner(StreamTypeInternalString,text,true,NULL,true);
   ScannerSetFormat(in,TSTPFormat);
   Clause_p c=ClauseParse(in,PS->terms);
   DestroyScanner(in);
   return c;
}
static char pv_buf[512];
static int pv_count;      /* inputs are named in1, in2, ... */
static Clause_p pv_cnf(const char *role, const char *body)
{
   snprintf(pv_buf,sizeof pv_buf,"cnf(in%d,%s,(%s)).",pv_count++,role,body);
   return pv_clause(pv_buf);
}
/* enter all symbols of the example clause into the signature */
static void pv_signature(const char *body) { Clause_p c=pv_cnf("axiom",body); ClauseFree(c); }
static void pv_interp(void)
{
   for(FunCode f=H.sig->internal_symbols+1;f<=H.sig->f_count;f++) sem_add(f,SigFindArity(H.sig,f),SigIsPredicate(H.sig,f));
}
static void pv_control(void)
{
   PC=ProofControlAlloc();
   ProofControlInit(PS,PC,HP,FVP,WD,HD);
   GlobalIndicesInit(&(PS->wlindices),PS->signature,PC->heuristic_parms.rw_bw_index_type,"NoIndex","NoIndex",PC->heuristic_parms.ext_rules_max_depth);
}
static void pv_axiom(const char *role, const char *body) { ClauseSetInsert(PS->axioms,pv_cnf(role,body)); }
#endif
