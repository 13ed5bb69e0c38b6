/* P15: search trees and maps behave as finite maps/sets. Keys, values and the
   operation history are symbolic; the reference is an association list. */
#include "common.h"
#include <clb_numtrees.h>
#include <clb_numxtrees.h>
#include <clb_floattrees.h>
#include <clb_stringtrees.h>
#include <clb_quadtrees.h>
#include <clb_ptrees.h>
#include <clb_objtrees.h>
#include <clb_objmaps.h>
#include <clb_intmap.h>
#include <limits.h>

#define BIG (1L<<61)
static int dmode;
#define MAXM 10
typedef struct { long k, v; } KV;
typedef struct ops
{
   int  (*store)(long k, long v);        /* 1: newly stored, 0: already there */
   long (*find)(long k);                 /* value or -1 */
   long (*del)(long k);                  /* value (or 0/1) or -1 */
   int  (*list)(KV *out);                /* in-order listing */
   long (*nodes)(void);
   int  (*from)(long lim, KV *out);      /* entries >= lim, in order (or NULL) */
   long (*key)(const char *nm);
   int  (*cmp)(long a, long b);          /* key order, NULL: integers */
} Ops;

static KV M[MAXM]; static int nM;
static int midx(long k) { for(int i=0;i<nM;i++) if(M[i].k==k) return i; return -1; }
static void mdel(int i) { for(;i+1<nM;i++) M[i]=M[i+1]; nM--; }
static int lt(Ops *o, long a, long b) { return o->cmp ? o->cmp(a,b)<0 : a<b; }

static void check_list(Ops *o, KV *l, int n, int lim, long limit)
{
   int want=0;
   for(int i=0;i<nM;i++) if(!lim || !lt(o,M[i].k,limit)) want++;
   sx_assert(n==want, "traversal yields every entry exactly once");
   for(int i=0;i<n;i++)
   {
      int j=midx(l[i].k);
      sx_assert(j>=0, "traversal yields only stored keys");
      if(j>=0) sx_assert(M[j].v==l[i].v, "traversal yields the stored value");
      if(i) sx_assert(lt(o,l[i-1].k,l[i].k), "traversal is in ascending key order");
      if(lim) sx_assert(!lt(o,l[i].k,limit), "limited traversal starts at the limit");
   }
}

static void script(Ops *o, int valued)
{
   int n=(int)sx_param("n",4), m=(int)sx_param("m",2);
   long v=100;
   KV l[MAXM+4];
   nM=0;
   for(int i=0;i<n+m;i++)
   {
      long k=o->key("k");
      int op = i<n ? 0 : (int)sx_choose("op",2);
      if(op==0)
      {
         int j=midx(k);
         v++;
         int r=o->store(k,v);
         sx_assert(r==(j<0), "store reports whether the key was new");
         if(j<0) { M[nM].k=k; M[nM].v=valued?v:1; nM++; }
         else sx_reach("duplicate");
      }
      else
      {
         int j=midx(k);
         long r=o->del(k);
         sx_assert((r>=0)==(j>=0), "removal succeeds exactly on stored keys");
         if(j>=0) { sx_assert(r==M[j].v, "removal returns the stored value"); mdel(j); sx_reach("deleted"); }
         sx_assert(o->find(k)<0, "removed key is gone");
      }
   }
   for(int i=0;i<nM;i++) sx_assert(o->find(M[i].k)==M[i].v, "every stored key is found with its value");
   long q=o->key("q");
   int j=midx(q);
   sx_assert(o->find(q)==(j<0?-1:M[j].v), "lookup agrees with the stored set");
   if(o->nodes) sx_assert(o->nodes()==nM, "node count");
   check_list(o,l,o->list(l),0,0);
   if(o->from) { long lim=o->key("lim"); check_list(o,l,o->from(lim,l),1,lim); }
   sx_observe(nM);
}

static long key_long(const char *nm) { long r=sx_param("range",3); return sx_param("wide",0) ? sx_int(nm,-BIG,BIG) : sx_int(nm,-r,r); }

#define NUMTREE(T,VAL) \
static T##_p T##root; \
static int T##_store(long k, long v) { IntOrP a,b; a.i_val=v; b.i_val=-v; return T##Store(&T##root,k,a,b); } \
static long T##_find(long k) { T##_p e=T##Find(&T##root,k); return e? (sx_assert(e->key==k,"found key"),e->VAL.i_val) : -1; } \
static long T##_del(long k) { \
   if(dmode++&1) { T##_p e=T##ExtractEntry(&T##root,k); if(!e) return -1; long r=e->VAL.i_val; sx_assert(e->key==k,"extracted key"); T##CellFree(e); return r; } \
   long r=T##_find(k); bool d=T##DeleteEntry(&T##root,k); sx_assert(d==(r>=0),"delete result"); return r; } \
static int T##_list(KV *o) { int n=0; PStack_p s=T##TraverseInit(T##root); T##_p h; \
   while((h=T##TraverseNext(s))&&n<MAXM+2) { o[n].k=h->key; o[n].v=h->VAL.i_val; n++; } T##TraverseExit(s); return n; } \
static long T##_nodes(void) { if(T##root) { long mx=T##MaxKey(T##root); for(int i=0;i<nM;i++) sx_assert(M[i].k<=mx,"max key"); sx_assert(midx(mx)>=0,"max key stored"); } return T##Nodes(T##root); } \
static int T##_from(long lim, KV *o) { int n=0; PStack_p s=T##LimitedTraverseInit(T##root,lim); T##_p h; \
   while((h=T##TraverseNext(s))&&n<MAXM+2) { o[n].k=h->key; o[n].v=h->VAL.i_val; n++; } T##TraverseExit(s); return n; }

NUMTREE(NumTree,val1)
NUMTREE(NumXTree,vals[0])
void map_num(void)  { Ops o={NumTree_store,NumTree_find,NumTree_del,NumTree_list,NumTree_nodes,NumTree_from,key_long,NULL}; script(&o,1); NumTreeFree(NumTreeroot); }
void map_numx(void) { Ops o={NumXTree_store,NumXTree_find,NumXTree_del,NumXTree_list,NumXTree_nodes,NumXTree_from,key_long,NULL}; script(&o,1); NumXTreeFree(NumXTreeroot); }

/* float keys: solver picks from a table of representative values */
static const double FV[8]={-1e300,-2.5,-0.25,0.0,0.125,0.25,1.75,1e300};
static FloatTree_p froot;
static long key_f(const char *nm) { return sx_choose(nm,6)+1; }
static int f_store(long k,long v) { IntOrP a,b; a.i_val=v; b.i_val=-v; return FloatTreeStore(&froot,FV[k],a,b); }
static long f_find(long k) { FloatTree_p e=FloatTreeFind(&froot,FV[k]); return e? (sx_assert(e->key==FV[k]&&e->val2.i_val==-e->val1.i_val,"found key"),e->val1.i_val):-1; }
static long f_del(long k) { if(dmode++&1) { FloatTree_p e=FloatTreeExtractEntry(&froot,FV[k]); if(!e) return -1; long r=e->val1.i_val; FloatTreeCellFree(e); return r; }
   long r=f_find(k); sx_assert(FloatTreeDeleteEntry(&froot,FV[k])==(r>=0),"delete result"); return r; }
static int f_list(KV *o) { int n=0; PStack_p s=FloatTreeTraverseInit(froot); FloatTree_p h;
   while((h=FloatTreeTraverseNext(s))&&n<MAXM+2) { for(int i=0;i<8;i++) if(FV[i]==h->key) o[n].k=i; o[n].v=h->val1.i_val; n++; } FloatTreeTraverseExit(s); return n; }
static long f_nodes(void) { return FloatTreeNodes(froot); }
void map_float(void) { Ops o={f_store,f_find,f_del,f_list,f_nodes,NULL,key_f,NULL}; script(&o,1); FloatTreeFree(froot); }

/* strings: two symbolic characters */
static StrTree_p sroot;
static char sbuf[64][4]; static int nsb;
static long key_s(const char *nm) { char *b=sbuf[nsb]; b[0]=(char)sx_int(nm,0,3)*80; b[1]=(char)sx_int(nm,97,98); b[2]=0; 
   /* canonical id: characters after the terminator do not count */
   if(b[0]==0) b[1]=0; 
   return nsb++; }
static int s_eq(long a,long b) { return strcmp(sbuf[a],sbuf[b]); }
static long canon(long k) { for(long i=0;i<k;i++) if(strcmp(sbuf[i],sbuf[k])==0) return i; return k; }
static int s_store(long k,long v) { IntOrP a,b; a.i_val=v; b.i_val=-v; return StrTreeStore(&sroot,sbuf[k],a,b)!=NULL; }
static long s_find(long k) { StrTree_p e=StrTreeFind(&sroot,sbuf[k]); return e? (sx_assert(strcmp(e->key,sbuf[k])==0,"found key"),e->val1.i_val):-1; }
static long s_del(long k) { if(dmode++&1) { StrTree_p e=StrTreeExtractEntry(&sroot,sbuf[k]); if(!e) return -1; long r=e->val1.i_val; sx_assert(strcmp(e->key,sbuf[k])==0,"extracted key"); FREE(e->key); StrTreeCellFree(e); return r; }
   long r=s_find(k); sx_assert(StrTreeDeleteEntry(&sroot,sbuf[k])==(r>=0),"delete result"); return r; }
static int s_list(KV *o) { int n=0; PStack_p s=StrTreeTraverseInit(sroot); StrTree_p h;
   while((h=StrTreeTraverseNext(s))&&n<MAXM+2) { o[n].k=-1; for(int i=0;i<nsb;i++) if(strcmp(sbuf[i],h->key)==0) { o[n].k=i; break; } o[n].v=h->val1.i_val; n++; } StrTreeTraverseExit(s); return n; }
static long key_sc(const char *nm) { return canon(key_s(nm)); }
void map_str(void) { Ops o={s_store,s_find,s_del,s_list,NULL,NULL,key_sc,s_eq}; script(&o,1); StrTreeFree(sroot); }

/* quad keys: two pointers and two integers */
static QuadTree_p qroot; static QuadKey qk[64]; static int nqk;
static int q_cmp(long a,long b)
{  QuadKey *x=qk+a,*y=qk+b;
   if(x->p1!=y->p1) return (unsigned long)x->p1<(unsigned long)y->p1?-1:1;
   if(x->i1!=y->i1) return x->i1<y->i1?-1:1;
   if(x->p2!=y->p2) return (unsigned long)x->p2<(unsigned long)y->p2?-1:1;
   return x->i2<y->i2?-1:x->i2>y->i2;
}
static long key_q(const char *nm)
{  QuadKey *q=qk+nqk; memset(q,0,sizeof *q);
   q->p1=(void*)(8*sx_int(nm,1,2)); q->i1=(int)sx_int(nm,-1,0)*1000;
   q->p2=(void*)(8*sx_int(nm,1,2)); q->i2=(int)sx_int(nm,0,1)*1000;
   for(long i=0;i<nqk;i++) if(q_cmp(i,nqk)==0) return i;
   return nqk++; }
static int q_store(long k,long v) { IntOrP a; a.i_val=v; return QuadTreeStore(&qroot,qk+k,a); }
static long q_find(long k) { QuadTree_p e=QuadTreeFind(&qroot,qk+k); return e?e->val.i_val:-1; }
static long q_del(long k) { if(dmode++&1) { QuadTree_p e=QuadTreeExtractEntry(&qroot,qk+k); if(!e) return -1; long r=e->val.i_val; QuadTreeCellFree(e); return r; }
   long r=q_find(k); sx_assert(QuadTreeDeleteEntry(&qroot,qk+k)==(r>=0),"delete result"); return r; }
static int q_list(KV *o) { int n=0; PStack_p s=QuadTreeTraverseInit(qroot); QuadTree_p h;
   while((h=QuadTreeTraverseNext(s))&&n<MAXM+2) { o[n].k=-1; qk[60]=h->key; for(int i=0;i<nqk;i++) if(q_cmp(i,60)==0) { o[n].k=i; break; } o[n].v=h->val.i_val; n++; } QuadTreeTraverseExit(s); return n; }
void map_quad(void) { Ops o={q_store,q_find,q_del,q_list,NULL,NULL,key_q,q_cmp}; script(&o,1); QuadTreeFree(qroot); }

/* pointer sets */
static PTree_p proot;
#define KP(k) ((void*)(k))
static long key_p(const char *nm) { long r=sx_param("range",6); return sx_int(nm,1,sx_param("wide",0)?BIG:r); }
static int p_store(long k,long v) { return PTreeStore(&proot,KP(k)); }
static long p_find(long k) { PTree_p e=PTreeFindBinary(proot,KP(k)); PTree_p f=PTreeFind(&proot,KP(k)); sx_assert((e!=NULL)==(f!=NULL),"both lookups agree"); if(f) sx_assert(f->key==KP(k),"found key"); return f?1:-1; }
static long p_del(long k) { if(dmode++&1) { void *e=PTreeExtractKey(&proot,KP(k)); if(!e) return -1; sx_assert(e==KP(k),"extracted key"); return 1; }
   return PTreeDeleteEntry(&proot,KP(k))?1:-1; }
static int p_listt(PTree_p r,KV *o) { int n=0; PStack_p s=PTreeTraverseInit(r); PTree_p h;
   while((h=PTreeTraverseNext(s))&&n<MAXM+2) { o[n].k=(long)h->key; o[n].v=1; n++; } PTreeTraverseExit(s); return n; }
static int p_list(KV *o) { return p_listt(proot,o); }
static long p_nodes(void) { return PTreeNodes(proot); }
void map_ptr(void) { Ops o={p_store,p_find,p_del,p_list,p_nodes,NULL,key_p,NULL}; script(&o,0);
   if(proot) { void *k=PTreeExtractRootKey(&proot); int j=midx((long)k); sx_assert(j>=0,"root key was stored"); if(j>=0) mdel(j); KV l[MAXM+4]; check_list(&o,l,p_list(l),0,0); }
   PTreeFree(proot); }

/* set algebra on two pointer sets */
static int inset(long *a,int n,long k) { for(int i=0;i<n;i++) if(a[i]==k) return 1; return 0; }
void map_pset(void)
{
   int n=(int)sx_param("n",3), m=(int)sx_param("m",3);
   Ops o={p_store,p_find,p_del,p_list,p_nodes,NULL,key_p,NULL};
   long A[8],B[8]; int na=0,nb=0; PTree_p a=NULL,b=NULL;
   for(int i=0;i<n;i++) { long k=key_p("a"); bool nw=PTreeStore(&a,KP(k)); sx_assert(nw==!inset(A,na,k),"store"); if(nw) A[na++]=k; }
   for(int i=0;i<m;i++) { long k=key_p("b"); bool nw=PTreeStore(&b,KP(k)); sx_assert(nw==!inset(B,nb,k),"store"); if(nw) B[nb++]=k; }
   int op=(int)sx_choose("op",8);
   KV l[16]; nM=0;
   int sub=1; for(int i=0;i<na;i++) sub=sub&&inset(B,nb,A[i]);
   int sup=1; for(int i=0;i<nb;i++) sup=sup&&inset(A,na,B[i]);
   int shared=0; for(int i=0;i<na;i++) shared+=inset(B,nb,A[i]);
#define UNI() for(int i=0;i<na;i++) { M[nM].k=A[i]; M[nM++].v=1; } for(int i=0;i<nb;i++) if(!inset(A,na,B[i])) { M[nM].k=B[i]; M[nM++].v=1; }
#define INTER() for(int i=0;i<na;i++) if(inset(B,nb,A[i])) { M[nM].k=A[i]; M[nM++].v=1; }
   switch(op)
   {
   case 0: { bool c=PTreeMerge(&a,b); b=NULL; sx_assert(c==!sup,"merge reports new elements"); UNI(); check_list(&o,l,p_listt(a,l),0,0); break; }
   case 1: { PTreeInsertTree(&a,b); UNI(); check_list(&o,l,p_listt(a,l),0,0); nM=0; for(int i=0;i<nb;i++) { M[nM].k=B[i]; M[nM++].v=1; } check_list(&o,l,p_listt(b,l),0,0); break; }
   case 2: { PTree_p r=PTreeIntersection(a,b); INTER(); check_list(&o,l,p_listt(r,l),0,0); PTreeFree(r); if(shared) sx_reach("shared"); break; }
   case 3: { long rm=PTreeDestrIntersection(&a,b); INTER(); sx_assert(rm==na-shared,"removed count"); check_list(&o,l,p_listt(a,l),0,0); break; }
   case 4: { PTree_p r=PTreeCopy(a); for(int i=0;i<na;i++) { M[nM].k=A[i]; M[nM++].v=1; } check_list(&o,l,p_listt(r,l),0,0); PTreeFree(r); break; }
   case 5: { sx_assert(PTreeEquiv(a,b)==(sub&&sup),"set equality"); if(sub&&sup) sx_reach("equal"); break; }
   case 6: { sx_assert(PTreeIsSubset(a,&b)==sub,"subset"); void *s=PTreeSharedElement(&a,b); sx_assert((s!=NULL)==(shared>0),"shared element exists"); if(s) sx_assert(inset(A,na,(long)s)&&inset(B,nb,(long)s),"shared element is in both"); break; }
   case 7: { PStack_p st=PStackAlloc(); long c=PTreeToPStack(st,a); sx_assert(c==na&&PStackGetSP(st)==na,"elements pushed"); 
             long added=PStackToPTree(&b,st); sx_assert(added==na-shared,"new elements counted"); UNI(); check_list(&o,l,p_listt(b,l),0,0); PStackFree(st); break; }
   }
   sx_observe(op);
   PTreeFree(a); PTreeFree(b);
}

/* object trees and maps with a user-supplied order */
typedef struct { long k, v; } Obj;
static int ocmp(const void *a,const void *b) { const Obj *x=a,*y=b; return x->k<y->k?-1:x->k>y->k; }
static Obj objs[64]; static int nobj; static Obj probe;
static Obj* mkobj(long k,long v) { objs[nobj].k=k; objs[nobj].v=v; return &objs[nobj++]; }
static PObjTree_p oroot;
static int o_store(long k,long v) { Obj *x=mkobj(k,v); Obj *r=PTreeObjStore(&oroot,x,(ComparisonFunctionType)ocmp); if(r) sx_assert(r!=x&&r->k==k,"existing object returned"); return r==NULL; }
static long o_find(long k) { probe.k=k; PObjTree_p b=PTreeObjFindBinary(oroot,&probe,(ComparisonFunctionType)ocmp); Obj *f=PTreeObjFindObj(&oroot,&probe,(ComparisonFunctionType)ocmp); sx_assert((b!=NULL)==(f!=NULL),"both lookups agree"); return f?(sx_assert(f->k==k,"found key"),f->v):-1; }
static long o_del(long k) { probe.k=k; Obj *f=PTreeObjExtractObject(&oroot,&probe,(ComparisonFunctionType)ocmp); return f?(sx_assert(f->k==k,"extracted"),f->v):-1; }
static int o_list(KV *o) { int n=0; PStack_p s=PTreeTraverseInit(oroot); PTree_p h; while((h=PTreeTraverseNext(s))&&n<MAXM+2) { o[n].k=((Obj*)h->key)->k; o[n].v=((Obj*)h->key)->v; n++; } PTreeTraverseExit(s); return n; }
static long o_nodes(void) { return PObjTreeNodes(oroot); }
void map_obj(void) { Ops o={o_store,o_find,o_del,o_list,o_nodes,NULL,key_long,NULL}; script(&o,1);
   if(oroot) { Obj *k=PTreeObjExtractRootObject(&oroot,(ComparisonFunctionType)ocmp); int j=midx(k->k); sx_assert(j>=0,"root object was stored"); if(j>=0) mdel(j); KV l[MAXM+4]; check_list(&o,l,o_list(l),0,0); }
   PObjTreeFree(oroot,DummyObjDelFun); }

static PObjMap_p mroot; static long vals[64]; static int nv;
static int m_store(long k,long v)
{  vals[nv]=v; void *nw=&vals[nv++]; Obj *x=mkobj(k,v);
   if(sx_param("byref",0)) { bool upd=false; void **r=PObjMapGetRef(&mroot,x,(ComparisonFunctionType)ocmp,&upd); if(!upd) { sx_assert(*r!=NULL,"existing value"); return 0; } *r=nw; return 1; }
   long *r=PObjMapStore(&mroot,x,nw,(ComparisonFunctionType)ocmp);
   int j=midx(k); if(j>=0) { sx_assert(r&&*r==M[j].v,"storing returns the previous value"); M[j].v=v; }
   return r==NULL; }
static long m_find(long k) { probe.k=k; long *f=PObjMapFind(&mroot,&probe,(ComparisonFunctionType)ocmp); return f?*f:-1; }
static long m_del(long k) { probe.k=k; long *f=PObjMapExtract(&mroot,&probe,(ComparisonFunctionType)ocmp); return f?*f:-1; }
static int m_list(KV *o) { int n=0; PStack_p s=PObjMapTraverseInit(mroot,PStackAlloc()); void *k; long *h;
   while((h=PObjMapTraverseNext(s,&k))&&n<MAXM+2) { o[n].k=((Obj*)k)->k; o[n].v=*h; n++; } PStackFree(s); return n; }
void map_objmap(void) { Ops o={m_store,m_find,m_del,m_list,NULL,NULL,key_long,NULL}; script(&o,1); PObjMapFree(mroot); }

/* IntMap: switches between empty/single/array/tree representations. Keys are
   either symbolic over a range or picked from a table around the switch points. */
static const long KT[8]={0,3,7,8,23,25,26,70};
static int tab;
static long ikey(const char *nm) { return tab ? KT[sx_choose(nm,sx_param("keys",7))] : sx_int(nm,sx_param("lo",0),sx_param("r",20)); }
static void irange(IntMap_p im, long lo, long hi)
{
   IntMapIter_p it=IntMapIterAlloc(im,lo,hi);
   int c=0, want=0; long key, last=-100; void *v;
   while((v=IntMapIterNext(it,&key))&&c<MAXM)
   {
      int x=midx(key);
      sx_assert(x>=0&&M[x].v==*(long*)v,"iteration yields stored pairs");
      sx_assert(key>=lo&&key<=hi,"iteration stays in the range");
      sx_assert(key>last,"iteration is ascending");
      last=key; c++;
   }
   for(int i=0;i<nM;i++) want+=(M[i].k>=lo&&M[i].k<=hi);
   sx_assert(c==want,"iteration yields every pair in the range");
   IntMapIterFree(it);
}
static void int_script(void)
{
   int n=(int)sx_param("n",3), m=(int)sx_param("m",2);
   IntMap_p im=IntMapAlloc();
   static long store[16];
   nM=0;
   for(int i=0;i<n+m;i++)
   {
      long k=ikey("k");
      int op= i<n?0:(int)sx_choose("op",3);
      int j=midx(k);
      if(op==0)
      {
         store[i]=i;
         IntMapAssign(im,k,&store[i]);
         if(j>=0) M[j].v=i; else { M[nM].k=k; M[nM].v=i; nM++; }
      }
      else if(op==1)
      {
         long *p=IntMapDelKey(im,k);
         sx_assert((p!=NULL)==(j>=0),"deletion returns a value exactly for stored keys");
         if(j>=0) { if(p) sx_assert(*p==M[j].v,"deletion returns the stored value"); mdel(j); sx_reach("deleted"); }
      }
      else
      {  /* creating reference */
         void **ref=IntMapGetRef(im,k);
         if(j>=0) sx_assert(*ref!=NULL&&*(long*)*ref==M[j].v,"reference to existing value");
         else { sx_assert(*ref==NULL,"fresh reference is empty"); }
      }
      if(im->type==IMArray) sx_reach("array");
      if(im->type==IMTree) sx_reach("tree");
   }
   for(int i=0;i<nM;i++) { long *p=IntMapGetVal(im,M[i].k); sx_assert(p!=NULL&&*p==M[i].v,"stored value is retrieved"); }
   if(tab)
   {
      for(int i=0;i<8;i++) { long *p=IntMapGetVal(im,KT[i]); sx_assert((p!=NULL)==(midx(KT[i])>=0),"lookup succeeds exactly for stored keys"); }
      irange(im,0,LONG_MAX); irange(im,0,3); irange(im,4,24); irange(im,25,25); irange(im,8,70); irange(im,71,80); irange(im,5,6);
   }
   else
   {
      long q=ikey("q"); long *p=IntMapGetVal(im,q);
      sx_assert((p!=NULL)==(midx(q)>=0),"lookup succeeds exactly for stored keys");
      irange(im,ikey("l"),ikey("h"));
   }
   sx_observe(nM);
   IntMapFree(im);
}
void map_int(void)  { tab=0; int_script(); }
void map_intt(void) { tab=1; int_script(); }
