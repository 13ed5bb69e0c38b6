/* Shared term storage: maximal sharing, correct cached data, instantiation,
   replacement, positions, garbage collection. Reference: plain trees. */
#include "prover.h"
#include <cte_replace.h>
#include <cte_termpos.h>
#include <cte_termcpos.h>
#include <ccl_clausefunc.h>

typedef struct tr { long f; int ar; struct tr *a[3]; } Tr;      /* f<0: variable index -f-1 */
static Tr trs[400]; static int ntr;
static Tr *tmk(long f, int ar) { Tr *t=&trs[ntr++]; t->f=f; t->ar=ar; return t; }
static FunCode fa,fb,fg,ff,fh; static int nv=2;
static int small;
static Tr *gen_(const char *nm, int *b, int depth, int vars)
{
   long o[12]; int n=0;
   for(int i=0;i<nv;i++) if(vars>>i&1) o[n++]=-(i+1);
   o[n++]=fa; if(!small) o[n++]=fb;
   if(*b>=1 && depth) o[n++]=fg;
   if(*b>=2 && depth) o[n++]=ff;
   long f=o[n==1?0:sx_choose(nm,n)];
   int ar=f==fg?1:f==ff?2:0; *b-=ar;
   Tr *t=tmk(f,ar);
   for(int i=0;i<ar;i++) t->a[i]=gen_(nm,b,depth-1,vars);
   return t;
}
static Tr *gen(const char *nm, int b, int vars) { return gen_(nm,&b,4,vars); }
static Term_p V(int i) { return vh_var(i); }
static Term_p unshared(Tr *t)
{
   if(t->f<0) return V(-t->f-1);
   Term_p r=TermTopAlloc(t->f,t->ar);
   for(int i=0;i<t->ar;i++) r->args[i]=unshared(t->a[i]);
   TypeInferSort(H.sig,r,NULL);
   return r;
}
static Term_p shared(Tr *t)
{
   if(t->f<0) return V(-t->f-1);
   Term_p r=TermTopAlloc(t->f,t->ar);
   for(int i=0;i<t->ar;i++) r->args[i]=shared(t->a[i]);
   return TBTermTopInsert(H.bank,r);
}
static int treq(Tr *a, Tr *b) { if(a->f!=b->f) return 0; for(int i=0;i<a->ar;i++) if(!treq(a->a[i],b->a[i])) return 0; return 1; }
static int same(Term_p t, Tr *r)
{
   if(r->f<0) return t==V(-r->f-1);
   if(t->f_code!=r->f||t->arity!=r->ar) return 0;
   for(int i=0;i<r->ar;i++) if(!same(t->args[i],r->a[i])) return 0;
   return 1;
}
static long tvars(Tr *t) { if(t->f<0) return 1; long n=0; for(int i=0;i<t->ar;i++) n+=tvars(t->a[i]); return n; }
static long tfuns(Tr *t) { if(t->f<0) return 0; long n=1; for(int i=0;i<t->ar;i++) n+=tfuns(t->a[i]); return n; }
static long tdepth(Tr *t) { long n=0; for(int i=0;i<t->ar;i++) { long d=tdepth(t->a[i]); if(d>n) n=d; } return n+1; }
static int occurs(Tr *t, Tr *s) { if(treq(t,s)) return 1; for(int i=0;i<t->ar;i++) if(occurs(t->a[i],s)) return 1; return 0; }
static Tr *substt(Tr *t, Tr **b, int chain)
{
   if(t->f<0) { Tr *x=b[-t->f-1]; if(!x) return t; return chain?substt(x,b,chain):x; }
   Tr *r=tmk(t->f,t->ar); for(int i=0;i<t->ar;i++) r->a[i]=substt(t->a[i],b,chain); return r;
}
static Tr *repl(Tr *t, Tr *o, Tr *n)
{
   if(treq(t,o)) return n;
   Tr *r=tmk(t->f,t->ar); for(int i=0;i<t->ar;i++) r->a[i]=repl(t->a[i],o,n); return r;
}
/* everything the prover caches in shared cells */
static void cached(Term_p t, Tr *r)
{
   if(r->f<0) return;
   sx_assert(TermIsShared(t),"cells in the bank are shared");
   sx_assert(TBFind(H.bank,t)==t,"a shared term is found in the bank");
   sx_assert(t->v_count==tvars(r),"cached variable count");
   sx_assert(t->f_count==tfuns(r),"cached symbol count");
   sx_assert(t->weight==DEFAULT_VWEIGHT*tvars(r)+DEFAULT_FWEIGHT*tfuns(r),"cached weight");
   sx_assert(TermStandardWeight(t)==t->weight,"standard weight");
   sx_assert(TBTermIsGround(t)==(tvars(r)==0),"cached groundness");
   sx_assert(t->type==(t->f_code==fh?H.o:H.i),"term type");
   for(int i=0;i<r->ar;i++) cached(t->args[i],r->a[i]);
}
static void check(Term_p t, Tr *r, const char *m) { sx_assert(same(t,r),m); cached(t,r); }
static void tb_setup(void)
{
   vh_init(); small=(int)sx_param("small",0);
   fa=vh_fun("a",0,H.i,H.i); fb=vh_fun("b",0,H.i,H.i); fg=vh_fun("g",1,H.i,H.i); ff=vh_fun("f",2,H.i,H.i);
   fh=vh_fun("h",1,H.i,H.o); nv=(int)sx_param("nv",2);
}
static Term_p insert(int route, Tr *r)
{
   switch(route)
   {
   case 0: return TBInsert(H.bank,unshared(r),DEREF_NEVER);
   case 1: return TBInsertNoProps(H.bank,unshared(r),DEREF_NEVER);
   case 2: return TBInsertNoPropsCached(H.bank,shared(r),DEREF_NEVER);
   case 3: return TBInsertOpt(H.bank,shared(r),DEREF_NEVER);
   default: return shared(r);
   }
}
void tb_share(void)
{
   tb_setup();
   Tr *r=gen("s",(int)sx_param("n",3),3), *q=gen("t",(int)sx_param("m",3),3);
   Term_p s=insert((int)sx_choose("route",5),r);
   check(s,r,"insertion keeps the term");
   if(q->f>=0) { Term_p x=TBFind(H.bank,shared(q)); sx_assert(x!=NULL,"inserted terms are found"); }
   Term_p t=insert((int)sx_choose("route",5),q);
   check(t,q,"insertion keeps the term"); check(s,r,"earlier terms are unchanged");
   sx_assert((s==t)==treq(r,q),"identical terms are stored exactly once");
   sx_assert(TermStructEqual(s,t)==treq(r,q),"structural equality");
   long c=TermStructWeightCompare(s,t), d=TermStructWeightCompare(t,s), e=TermLexCompare(s,t), f=TermLexCompare(t,s);
   if(treq(r,q)) sx_assert(c==0,"weight comparison on identical terms"); sx_assert((c<0)==(d>0),"weight comparison is antisymmetric");
   sx_assert((e==0)==treq(r,q),"lexicographic comparison separates distinct terms"); sx_assert((e<0)==(f>0),"lexicographic comparison is antisymmetric");
   sx_assert(TermIsSubterm(s,t,DEREF_NEVER)==occurs(r,q),"subterm test");
   sx_assert(TermDepth(s)==tdepth(r),"depth");
   sx_assert(TermIsGroundCompute(s)==(tvars(r)==0),"groundness");
   sx_assert(TermWeightCompute(s,3,5)==3*tvars(r)+5*tfuns(r),"weight computation");
   PTree_p vs=NULL; long k=TermCollectVariables(s,&vs); long n=0; for(int i=0;i<nv;i++) { Tr x={-(i+1),0}; int o=occurs(r,&x); n+=o; sx_assert((PTreeFind(&vs,V(i))!=NULL)==o,"variables are collected exactly"); }
   sx_assert(PTreeNodes(vs)==n,"variable set"); PTreeFree(vs);
   long dist[64]; for(int i=0;i<64;i++) dist[i]=0;
   if(H.sig->f_count<64) { TermAddSymbolDistributionLimited(s,dist,64); long sum=0; for(int i=0;i<64;i++) sum+=dist[i]; sx_assert(sum==tfuns(r),"symbol distribution"); }
   Term_p cp=TermCopyKeepVars(s,DEREF_NEVER); sx_assert(same(cp,r),"copy is faithful");
   if(treq(r,q)) sx_reach("equal"); else sx_reach("different");
   sx_observe(c<0);
}
void tb_inst(void)
{
   tb_setup();
   Tr *r=gen("s",(int)sx_param("n",3),7&((1<<nv)-1));
   Tr *b[3]={0,0,0};
   /* acyclic bindings: x0 -> terms over x1,x2; x1 -> terms over x2 */
   if(sx_choose("bind0",2)) b[0]=gen("b0",(int)sx_param("m",2),6&((1<<nv)-1));
   if(sx_choose("bind1",2)) b[1]=gen("b1",(int)sx_param("m1",1),4&((1<<nv)-1));
   Term_p s=shared(r), bs[3]={0,0,0};
   for(int i=0;i<2;i++) if(b[i]) bs[i]=shared(b[i]);
   Subst_p su=SubstAlloc();
   for(int i=0;i<2;i++) if(b[i]) SubstAddBinding(su,V(i),bs[i]);
   Tr *full=substt(r,b,1), *once=substt(r,b,0);
   sx_assert(TermStructEqualDeref(s,s,DEREF_ALWAYS,DEREF_ALWAYS),"equality under bindings is reflexive");
   int route=(int)sx_choose("route",6); Term_p t; Tr *want=full;
   switch(route)
   {
   case 0: t=TBInsertInstantiatedDeref(H.bank,s,DEREF_ALWAYS); break;
   case 1: t=TBInsertInstantiatedDeref(H.bank,s,DEREF_ONCE); want=once; break;
   case 2: t=TBInsertNoProps(H.bank,s,DEREF_ALWAYS); break;
   case 3: t=TBInsertInstantiated(H.bank,s); want=once; break;
   case 4: t=TBInsert(H.bank,s,DEREF_ALWAYS); break;
   default: t=TBInsertOpt(H.bank,s,DEREF_ALWAYS); break;
   }
   if(want->f<0) sx_assert(t==V(-want->f-1),"instantiating a variable");
   else check(t,want,"instance is the substituted term");
   Term_p fs=shared(full);
   sx_assert(TermStructEqualDeref(s,fs,DEREF_ALWAYS,DEREF_NEVER),"equality under bindings sees the instance");
   Tr *q=gen("q",1,7&((1<<nv)-1));
   sx_assert(TermStructEqualDeref(s,shared(q),DEREF_ALWAYS,DEREF_NEVER)==treq(full,q),"equality under bindings");
   SubstDelete(su);
   check(s,r,"the instantiated term itself is unchanged");
   if(!treq(full,once)) sx_reach("chain");
   sx_reach("end");
}
void tb_repl(void)
{
   tb_setup();
   Tr *r=gen("s",(int)sx_param("n",4),3), *o=gen("o",(int)sx_param("m",1),3), *w=gen("w",(int)sx_param("k",1),3);
   Term_p s=shared(r), old=shared(o), re=shared(w);
   Tr *want=repl(r,o,w);
   Term_p t=TBInsertReplPlain(H.bank,s,old,re);
   sx_assert(same(t,want),"replacing all occurrences");
   cached(t,want); cached(s,r);
   t=TBInsertRepl(H.bank,s,DEREF_NEVER,old,re);
   sx_assert(same(t,want),"replacing all occurrences (with dereferencing)");
   if(occurs(r,o)) sx_reach("replaced");
   /* replace at one position, enumerated by the real position iterator */
   TermPos_p pos=TermPosAlloc(); int npos=0;
   for(Term_p x=TermPosFirstLIPosition(s,pos);x;x=TermPosNextLIPosition(pos))
   {
      npos++;
      sx_assert(TermPosGetSubterm(s,pos)==x,"position designates the enumerated subterm");
      TermCPos cp=PackTermPos(pos);
      TermPos_p p2=TermPosAlloc(); UnpackTermPos(p2,s,cp); sx_assert(TermPosGetSubterm(s,p2)==x,"packed position designates the same subterm");
      Term_p n=TBTermPosReplace(H.bank,re,pos,DEREF_NEVER,0,s);
      if(PStackEmpty(p2)) sx_assert(n==re,"replacement at the top");
      PStackReset(p2); UnpackTermPos(p2,n,cp); sx_assert(TermPosGetSubterm(n,p2)==re,"replacement arrives at the position");
      long v=0; sx_assert(n->f_code<0 || TermStandardWeight(n)==TermStandardWeight(s)-TermStandardWeight(x)+TermStandardWeight(re),"replacement changes only the position");
      Term_p back=n; PStackReset(p2); UnpackTermPos(p2,n,cp); back=TBTermPosReplace(H.bank,x,p2,DEREF_NEVER,0,n);
      sx_assert(back==s,"replacing back restores the term");
      TermPosFree(p2);
   }
   sx_assert(npos==tfuns(r)+tvars(r),"every position is enumerated once");
   TermPosFree(pos);
   sx_observe(npos);
}
void tb_gc(void)
{
   tb_setup();
   int k=(int)sx_param("k",3); Tr *r[4]; Term_p t[4];
   for(int i=0;i<k;i++) { r[i]=gen("t",(int)sx_param("n",2),1); t[i]=insert(4,r[i]); }
   int rounds=(int)sx_param("rounds",2);
   int alive[4]={1,1,1,1};
   Term_p min=NULL; if(sx_choose("min",2)) min=TBCreateMinTerm(H.bank,fb);
   for(int c=0;c<rounds;c++)
   {
      if(c) for(int i=0;i<k;i++) if(!alive[i] && sx_choose("again",2)) { t[i]=insert(4,r[i]); alive[i]=1; }
      for(int i=0;i<k;i++) if(alive[i]) { alive[i]=(int)sx_choose("root",2); if(alive[i]) TBGCMarkTerm(H.bank,t[i]); }
      long before=TBNonVarTermNodes(H.bank);
      /* reference: distinct non-variable subterms reachable from the roots */
      static Tr *seen[64]; int ns=0;
      for(int i=0;i<k;i++) if(alive[i]) { Tr *st[32]; int sp=0; st[sp++]=r[i]; while(sp) { Tr *x=st[--sp]; if(x->f<0) continue; int dup=0; for(int j=0;j<ns;j++) if(treq(seen[j],x)) dup=1; if(!dup) seen[ns++]=x; for(int j=0;j<x->ar;j++) st[sp++]=x->a[j]; } }
      Tr bb={fb,0}; int dup=0; if(min) { for(int j=0;j<ns;j++) if(treq(seen[j],&bb)) dup=1; if(!dup) ns++; }
      long rec=TBGCSweep(H.bank);
      long after=TBNonVarTermNodes(H.bank);
      sx_assert(before-after==rec,"reclaimed cells are counted");
      sx_assert(after==ns+2,"exactly the unreachable cells are reclaimed");
      for(int i=0;i<k;i++) if(alive[i]) { sx_assert(TBFind(H.bank,t[i])==t[i]||r[i]->f<0,"live terms are still found"); check(t[i],r[i],"live terms are unchanged"); }
      if(min) sx_assert(TBFind(H.bank,min)==min,"the minimal term survives");
      if(rec) sx_reach("reclaimed");
   }
   for(int i=0;i<k;i++) { Term_p n=insert(0,r[i]); check(n,r[i],"terms can be inserted again"); if(alive[i]) sx_assert(n==t[i],"live terms are shared with new insertions"); }
   for(int i=0;i<k;i++) for(int j=0;j<i;j++) sx_assert((insert(4,r[i])==insert(4,r[j]))==treq(r[i],r[j]),"sharing after collection");
}
/* collection through the proof state: clauses of every registered set survive */
void tb_state(void)
{
   pv_init(); pv_signature("p(a)|f(a,b)=g(a)");
   static const char *cl[]={"p(g(X))|~p(X)","f(X,Y)=f(Y,X)","g(g(a))!=b","p(f(a,g(b)))",0};
   ClauseSet_p sets[]={PS->axioms,PS->ax_archive,PS->processed_pos_rules,PS->processed_pos_eqns,PS->processed_neg_units,PS->processed_non_units,PS->unprocessed,PS->tmp_store,PS->eval_store,PS->archive,PS->f_ax_archive?NULL:NULL};
   int ns=10, si=(int)sx_choose("set",ns), ci=(int)sx_choose("clause",4);
   int si2=(int)sx_choose("set2",ns);
   Clause_p c=pv_cnf("axiom",cl[ci]), d=pv_cnf("axiom",cl[(ci+1)%4]);
   ClauseSetInsert(sets[si],c); ClauseSetInsert(sets[si2],d);
   for(int round=0;round<2;round++)
   {
      Term_p waste=TBInsert(PS->terms,c->literals->lterm,DEREF_NEVER);
      TBGCCollect(PS->terms);
      Clause_p e=pv_cnf("axiom",cl[(ci+2)%4]); ClauseFree(e);
      char *b; size_t n; FILE *f=open_memstream(&b,&n); ClausePrint(f,c,true); fflush(f);
      Clause_p c2=pv_cnf("axiom",cl[ci]), d2=pv_cnf("axiom",cl[(ci+1)%4]);
      int k=0; for(Eqn_p l=c->literals,m=c2->literals;l&&m;l=l->next,m=m->next) { sx_assert(ClauseIsEmpty(c)==0,"clause intact"); if(TBTermIsGround(l->lterm)) sx_assert(l->lterm==m->lterm,"ground terms of kept clauses stay shared"); sx_assert(l->lterm->f_code==m->lterm->f_code && TermStandardWeight(l->lterm)==TermStandardWeight(m->lterm),"kept clauses are unchanged"); k++; }
      for(Eqn_p l=d->literals,m=d2->literals;l&&m;l=l->next,m=m->next) { if(TBTermIsGround(l->lterm)) sx_assert(l->lterm==m->lterm,"ground terms of kept clauses stay shared"); sx_assert(l->lterm->f_code==m->lterm->f_code && TermStandardWeight(l->lterm)==TermStandardWeight(m->lterm),"kept clauses are unchanged"); }
      ClauseFree(c2); ClauseFree(d2); fclose(f); free(b);
   }
   sx_reach("end");
}
/* a huge but shared term (more than 8192 symbols): instantiated through the cache */
void tb_big(void)
{
   tb_setup();
   Tr *r=gen("s",(int)sx_param("n",2),3), *e=gen("e",1,3);
   Tr *b[3]={0,0,0};
   if(sx_choose("bind0",2)) b[0]=gen("b0",1,2);
   if(sx_choose("bind1",2)) b[1]=gen("b1",1,0);
   int base=(int)sx_param("levels",13);
   Term_p t=shared(r), x=shared(e), bs[2]={0,0};
   int lv=(int)sx_choose("late",base);                     /* level at which another subterm enters */
   for(int i=0;i<base;i++) { Term_p n=TermTopAlloc(ff,2); n->args[0]=t; n->args[1]=i==lv?x:t; t=TBTermTopInsert(H.bank,n); if(i==lv) base++; }
   Subst_p su=SubstAlloc();
   for(int i=0;i<2;i++) if(b[i]) bs[i]=shared(b[i]);
   for(int i=0;i<2;i++) if(b[i]) SubstAddBinding(su,V(i),bs[i]);
   Term_p res=TBInsertNoPropsCached(H.bank,t,DEREF_ALWAYS);
   SubstDelete(su);
   Tr *wr=substt(r,b,1), *we=substt(e,b,1);
   for(int i=base-1;i>=0;i--)
   {
      sx_assert(res->f_code==ff && TBFind(H.bank,res)==res,"levels of a large instance");
      sx_assert(res->v_count==res->args[0]->v_count*(res->args[0]->f_code>0)+(res->args[0]->f_code<0)+res->args[1]->v_count*(res->args[1]->f_code>0)+(res->args[1]->f_code<0),"cached variable count of a large instance");
      if(i==lv) sx_assert(same(res->args[1],we),"subterm of a large instance"); else sx_assert(res->args[0]==res->args[1],"large instances stay shared");
      res=res->args[0];
   }
   check(wr->f<0?V(-wr->f-1):res,wr,"base of a large instance"); sx_assert(same(res,wr),"base of a large instance");
   if(t->f_count>8096) sx_reach("large");
}
/* collection follows the rewrite links of live terms */
void tb_gcrw(void)
{
   tb_setup();
   int k=3; Tr *r[3]; Term_p t[3];
   for(int i=0;i<k;i++) { r[i]=gen("t",(int)sx_param("n",2),0); t[i]=shared(r[i]); }
   int rw=(int)sx_choose("rw",4); int to[3]={-1,-1,-1};
   if(rw&1) to[0]=1; if(rw&2) to[1]=2;
   for(int i=0;i<2;i++) if(to[i]>=0) { sx_assume(t[i]!=t[to[i]]); if(i==0) sx_assume(t[0]!=t[2]); TermAddRWLink(t[i],t[to[i]],NULL,false,RWAlwaysRewritable); }
   int root=(int)sx_choose("root",2); TBGCMarkTerm(H.bank,t[root]); TBGCSweep(H.bank);
   for(int i=root;;i=to[i]) { sx_assert(TBFind(H.bank,t[i])==t[i],"terms reachable through rewrite links survive"); check(t[i],r[i],"and are unchanged"); if(to[i]<0) break; sx_assert(TermRWReplaceField(t[i])==t[to[i]],"rewrite links survive"); sx_reach("link"); }
}
