/* P16: stacks, queues, growable arrays, heaps, lists keep their contents. */
#include "common.h"
#include <clb_pqueue.h>
#include <clb_pdarrays.h>
#include <clb_pdrangearrays.h>
#include <clb_min_heap.h>
#include <clb_plist.h>
#include <clb_ddarrays.h>
#include <clb_fixdarrays.h>
#include <clb_dstacks.h>
#include <clb_simple_stuff.h>

/* --- binary heap with position tracking ------------------------------- */
typedef struct { long key; int idx; int in; } HE;
static HE he[12];
static int hcmp(IntOrP *a, IntOrP *b) { HE *x=a->p_val,*y=b->p_val; return x->key<y->key?-1:x->key>y->key; }
static void hset(void *p, int i) { ((HE*)p)->idx=i; }
static void hcheck(MinHeap_p h, int n)
{
   int in=0;
   for(int i=0;i<n;i++)
   {
      in+=he[i].in;
      if(he[i].in) { sx_assert(he[i].idx>=0&&he[i].idx<MinHeapSize(h),"recorded position in range");
                     sx_assert(PStackElementP(h->arr,he[i].idx)==&he[i],"recorded position is where the element is"); }
      else sx_assert(he[i].idx==-1,"removed element has no position");
   }
   sx_assert(MinHeapSize(h)==in,"heap size");
}
void cont_heap(void)
{
   int n=(int)sx_param("n",4), r=(int)sx_param("r",3);
   MinHeap_p h=MinHeapAllocWithIndex(hcmp,hset);
   int hp=(int)sx_param("hp",0);
   for(int i=0;i<n;i++)
   {
      he[i].key=sx_int("k",0,r); he[i].idx=-7; he[i].in=1;
      if(hp && i) sx_assume(he[i].key>=he[(i-1)/2].key);   /* larger heaps: keys arrive in heap order */
      MinHeapAddP(h,&he[i]);
   }
   hcheck(h,n);
   int op=(int)sx_choose("op",5), t=(int)sx_choose("t",n);
   switch(op)
   {
   case 0: break;
   case 1: { HE *m=MinHeapPopMinP(h); for(int i=0;i<n;i++) sx_assert(m->key<=he[i].key,"pop returns a minimum"); m->in=0; break; }
   case 2: MinHeapRemoveElement(h,he[t].idx); he[t].in=0; break;
   case 3: he[t].key=sx_int("nk",0,r); MinHeapUpdateElement(h,he[t].idx); break;
   case 4: { long o=he[t].key; he[t].key=sx_int("nk",0,r); if(he[t].key<o) MinHeapIncrKey(h,he[t].idx); else MinHeapDecrKey(h,he[t].idx); break; }
   }
   hcheck(h,n);
   long last=-1; int c=0;
   while(MinHeapSize(h))
   {
      HE *m=MinHeapPopMinP(h);
      sx_assert(m->in,"popped element was in the heap"); m->in=0;
      sx_assert(m->key>=last,"elements leave in ascending order");
      last=m->key; hcheck(h,n); c++;
   }
   if(op==2) sx_reach("removed");
   if(op>=3) sx_reach("updated");
   sx_observe(c);
   MinHeapFree(h);
}
static int icmp(IntOrP *a, IntOrP *b) { return a->i_val<b->i_val?-1:a->i_val>b->i_val; }
void cont_heapint(void)
{
   int n=(int)sx_param("n",5);
   MinHeap_p h=MinHeapAlloc(icmp);
   long k[8]; for(int i=0;i<n;i++) { k[i]=sx_int("k",-2,1); MinHeapAddInt(h,k[i]); }
   long last=-100, sum=0, s2=0; for(int i=0;i<n;i++) sum+=k[i]*k[i];
   for(int i=0;i<n;i++) { long x=MinHeapPopMinInt(h); sx_assert(x>=last,"ascending"); last=x; s2+=x*x; int f=0; for(int j=0;j<n;j++) f=f||k[j]==x; sx_assert(f,"element was stored"); }
   sx_assert(MinHeapSize(h)==0,"all popped"); sx_assert(sum==s2,"same multiset");
   sx_reach("end"); sx_observe(last); MinHeapFree(h);
}

/* --- ring queue: arbitrary rotation, filled across the growth boundary -- */
static long dq[700]; static int d0,d1;   /* model deque [d0,d1) */
void cont_queue(void)
{
   PQueue_p q=PQueueAlloc();
   d0=d1=300;
   long base=sx_int("v",-5,5);
   int rot=(int)sx_choose("rot",5);
   static const int R[5]={0,1,64,126,127};
   for(int i=0;i<R[rot];i++) { PQueueStoreInt(q,i); long x=PQueueGetNextInt(q); sx_assert(x==i,"fifo"); }
   if(sx_choose("back",2)) for(int i=0;i<3;i++) { PQueueBuryInt(q,i); long x=PQueueGetNextInt(q); sx_assert(x==i,"bury then get"); }
   static const int F[6]={0,1,126,127,128,255};
   int fill=F[sx_choose("fill",6)];
   int mode=(int)sx_choose("mode",3);
   for(int i=0;i<fill;i++)
   {
      int bury = mode==1 || (mode==2 && i%3==0);
      if(bury) { PQueueBuryInt(q,base+i); dq[--d0]=base+i; }
      else { PQueueStoreInt(q,base+i); dq[d1++]=base+i; }
   }
   for(int k=0;k<3;k++)
   {
      long nv=base-100-k;
      int op=(int)sx_choose("op",4);
      if(op==0) { PQueueStoreInt(q,nv); dq[d1++]=nv; }
      else if(op==1) { PQueueBuryInt(q,nv); dq[--d0]=nv; }
      else if(d0==d1) { sx_assert(PQueueEmpty(q),"empty"); continue; }
      else if(op==2) { sx_assert(PQueueLookInt(q)==dq[d0],"look at the oldest"); sx_assert(PQueueGetNextInt(q)==dq[d0],"oldest element first"); d0++; }
      else { sx_assert(PQueueLookLastInt(q)==dq[d1-1],"look at the newest"); sx_assert(PQueueGetLastInt(q)==dq[d1-1],"newest element last"); d1--; }
   }
   sx_assert(PQueueCardinality(q)==d1-d0,"cardinality");
   sx_assert(!!PQueueEmpty(q)==(d0==d1),"emptiness");
   int c=d0;
   for(long i=PQueueTailIndex(q); i>=0 && c<=d1; i=PQueueIncIndex(q,i)) { sx_assert(PQueueElementInt(q,i)==dq[c],"iteration order"); c++; }
   sx_assert(c==d1,"iteration visits everything");
   while(!PQueueEmpty(q)&&d0<d1) { sx_assert(PQueueGetNextInt(q)==dq[d0],"fifo order kept"); d0++; }
   sx_assert(PQueueEmpty(q)&&d0==d1,"drained");
   if(fill>=127) sx_reach("grown");
   sx_observe(fill);
   PQueueFree(q);
}

/* --- stacks ------------------------------------------------------------ */
static int scmp(const void *a,const void *b) { const IntOrP *x=a,*y=b; return x->i_val<y->i_val?-1:x->i_val>y->i_val; }
static long cells[16];
static int pcmp(const void *a,const void *b) { const long *x=a,*y=b; return *x<*y?-1:*x>*y; }
void cont_stack(void)
{
   long base=sx_int("v",-5,5);
   int var=(int)sx_choose("alloc",3);
   PStack_p s = var==0?PStackAlloc():PStackVarAlloc(var==1?1:3);
   static const int F[6]={1,2,3,4,128,257};
   int n=F[sx_choose("fill",6)];
   for(int i=0;i<n;i++) PStackPushInt(s,base+i);
   sx_assert(PStackGetSP(s)==n,"depth");
   int ok=1; for(int i=0;i<n;i++) ok=sx_and(ok,PStackElementInt(s,i)==base+i);
   sx_assert(ok,"contents survive growth");
   PStack_p c=PStackCopy(s); PStackPushStack(c,s);
   sx_assert(PStackGetSP(c)==2*n,"copy and append");
   ok=1; for(int i=0;i<2*n;i++) ok=sx_and(ok,PStackElementInt(c,i)==base+i%n);
   sx_assert(ok,"copied contents");
   int d=(int)sx_choose("d",n<4?n:4);
   PStackDiscardElement(c,d);
   sx_assert(PStackGetSP(c)==2*n-1,"one element discarded");
   sx_assert(PStackElementInt(c,d)==(d==2*n-1?PStackElementInt(c,d):base+n-1),"last element fills the gap");
   sx_assert(PStackTopInt(s)==base+n-1&&PStackTopAddr(s)->i_val==base+n-1,"top");
   if(n>1) sx_assert(PStackBelowTopInt(s)==base+n-2,"below top");
   for(int i=n-1;i>=0;i--) { long x=PStackPopInt(s); sx_assert(x==base+i,"lifo order"); }
   sx_assert(PStackEmpty(s),"empty");
   sx_reach("end"); sx_observe(n);
   PStackFree(s); PStackFree(c);
}
void cont_sorted(void)
{
   int n=(int)sx_param("n",3), m=(int)sx_param("m",3), r=(int)sx_param("r",5);
   PStack_p a=PStackAlloc(), b=PStackAlloc(), p=PStackAlloc(), res=PStackAlloc();
   long A[8],B[8];
   int na=(int)sx_choose("na",n+1), nb=(int)sx_choose("nb",m+1);
   for(int i=0;i<na;i++) { A[i]=sx_int("a",0,r); PStackPushInt(a,A[i]); }
   for(int i=0;i<nb;i++) { B[i]=sx_int("b",0,r); PStackPushInt(b,B[i]); }
   PStackSort(a,scmp); PStackSort(b,scmp);
   for(int i=1;i<na;i++) sx_assert(PStackElementInt(a,i-1)<=PStackElementInt(a,i),"sorted");
   for(int i=0;i<na;i++) { int f=0; for(int j=0;j<na;j++) f=sx_or(f,PStackElementInt(a,j)==A[i]); sx_assert(f,"sorting keeps elements"); }
   /* merging consumes from the top: result is descending without duplicates */
   long q=sx_int("q",-1,r+1);
   for(int i=0;i<na;i++) { cells[i]=PStackElementInt(a,i); PStackPushP(p,&cells[i]); }
   long pos=PStackBinSearch(p,&q,0,na,pcmp);
   int found=0, less=0; for(int i=0;i<na;i++) { found=sx_or(found,cells[i]==q); less+=(cells[i]<q); }
   if(found) { sx_assert(pos>=0&&pos<na,"search position in range"); sx_assert(cells[pos]==q,"binary search finds a stored key"); sx_reach("found"); }
   else { sx_assert(pos==less,"binary search returns the position of the next bigger key"); }
   PStackMerge(a,b,res,scmp);
   long nr=PStackGetSP(res);
   for(int i=1;i<nr;i++) sx_assert(PStackElementInt(res,i-1)!=PStackElementInt(res,i),"merge removes duplicates");
   for(int i=0;i<na;i++) { int f=0; for(int j=0;j<nr;j++) f=sx_or(f,PStackElementInt(res,j)==A[i]); sx_assert(f,"merge keeps elements of the first"); }
   for(int i=0;i<nb;i++) { int f=0; for(int j=0;j<nr;j++) f=sx_or(f,PStackElementInt(res,j)==B[i]); sx_assert(f,"merge keeps elements of the second"); }
   for(int j=0;j<nr;j++) { int f=0; for(int i=0;i<na;i++) f=sx_or(f,PStackElementInt(res,j)==A[i]); for(int i=0;i<nb;i++) f=sx_or(f,PStackElementInt(res,j)==B[i]); sx_assert(f,"merge invents nothing"); }
   sx_observe(nr);
}

/* --- growable arrays ----------------------------------------------------- */
void cont_array(void)
{
   static const long I[8]={0,1,3,4,7,8,31,100};
   int grow=(int)sx_choose("grow",3);      /* 0: exponential */
   int isint=(int)sx_choose("int",2);
   long init=1+sx_choose("init",3);
   long G[3]={0,1,4};
   PDArray_p a=isint?PDIntArrayAlloc(init,G[grow]):PDArrayAlloc(init,G[grow]);
   long M[128]; memset(M,0,sizeof M);
   long hi=-1;
   for(int k=0;k<3;k++)
   {
      long i=I[sx_choose("i",8)]; long v=sx_int("v",1,9);
      if(isint&&k==2) { long x=PDArrayElementIncInt(a,i,v); M[i]+=v; sx_assert(x==M[i],"increment"); }
      else if(isint) { PDArrayAssignInt(a,i,v); M[i]=v; } else { PDArrayAssignP(a,i,(void*)v); M[i]=v; }
      if(i>hi) hi=i;
   }
   if(!isint) { sx_assert(PDArrayFirstUnused(a)==hi+1,"first unused"); long mem=0; for(int i=0;i<128;i++) mem+=M[i]!=0; sx_assert(PDArrayMembers(a)==mem,"member count");
      long at=PDArrayStoreP(a,(void*)77L); sx_assert(at==hi+1,"stored behind the last element"); M[at]=77; }
   PDArray_p c=PDArrayCopy(a);
   int ok=1; for(int i=0;i<128;i++) { ok=sx_and(ok,PDArrayElementInt(a,i)==M[i]); ok=sx_and(ok,PDArrayElementInt(c,i)==M[i]); }
   sx_assert(ok,"elements keep their values; untouched elements are 0");
   PDArrayAdd(c,a,128); ok=1; for(int i=0;i<128;i++) ok=sx_and(ok,PDArrayElementInt(c,i)==2*M[i]);
   sx_assert(ok,"pointwise sum");
   sx_reach("end"); sx_observe(hi);
   PDArrayFree(a); PDArrayFree(c);
}
void cont_rarray(void)
{
   static const long I[9]={-40,-9,-1,0,1,7,8,9,50};
   int isint=(int)sx_choose("int",2), g=(int)sx_choose("grow",3);
   long G[3]={0,1,8}; long base=I[sx_choose("base",9)];
   PDRangeArr_p a=isint?PDIntRangeArrAlloc(base,G[g]):PDRangeArrAlloc(base,G[g]);
   long M[128]; memset(M,0,sizeof M);
   for(int k=0;k<3;k++)
   {
      long i=I[sx_choose("i",9)]; long v=sx_int("v",1,9);
      if(isint&&k==2) { long x=PDRangeArrElementIncInt(a,i,v); M[i+50]+=v; sx_assert(x==M[i+50],"increment"); }
      else if(isint) PDRangeArrAssignInt(a,i,v), M[i+50]=v; else PDRangeArrAssignP(a,i,(void*)v), M[i+50]=v;
      sx_assert(PDRangeArrLowKey(a)<=i&&i<PDRangeArrLimitKey(a),"index covered");
   }
   PDRangeArr_p c=PDRangeArrCopy(a);
   int ok=1; for(int i=-45;i<60;i++) { ok=sx_and(ok,PDRangeArrElementInt(a,i)==M[i+50]); ok=sx_and(ok,PDRangeArrElementInt(c,i)==M[i+50]); }
   sx_assert(ok,"elements keep their values in both growth directions; untouched elements are 0");
   sx_reach("end"); sx_observe(base);
   PDRangeArrFree(a); PDRangeArrFree(c);
}
void cont_fixed(void)
{
   int n=1+(int)sx_choose("n",3);
   FixedDArray_p a=FixedDArrayAlloc(n), b=FixedDArrayAlloc(n), d=FixedDArrayAlloc(n);
   long A[4],B[4],f=sx_int("f",-3,3),g=sx_int("g",-3,3);
   FixedDArrayInitialize(a,5); for(int i=0;i<n;i++) sx_assert(a->array[i]==5,"initialised");
   for(int i=0;i<n;i++) { A[i]=a->array[i]=sx_int("a",-4,4); B[i]=b->array[i]=sx_int("b",-4,4); }
   FixedDArrayAdd(d,a,b); for(int i=0;i<n;i++) sx_assert(d->array[i]==A[i]+B[i],"sum");
   FixedDArrayMulAdd(d,a,f,b,g); for(int i=0;i<n;i++) sx_assert(d->array[i]==A[i]*f+B[i]*g,"linear combination");
   FixedDArraySub(d,a,b); for(int i=0;i<n;i++) sx_assert(d->array[i]==A[i]-B[i],"difference");
   FixedDArrayMax(d,a,b); for(int i=0;i<n;i++) sx_assert(d->array[i]==sx_ite(A[i]>B[i],A[i],B[i]),"maximum");
   FixedDArrayMin(d,a,b); for(int i=0;i<n;i++) sx_assert(d->array[i]==sx_ite(A[i]<B[i],A[i],B[i]),"minimum");
   FixedDArray_p c=FixedDArrayCopy(a); sx_assert(FixedDArraySize(c)==n,"copy size"); for(int i=0;i<n;i++) sx_assert(c->array[i]==A[i],"copy");
   sx_reach("end"); sx_observe(n);
   FixedDArrayFree(a); FixedDArrayFree(b); FixedDArrayFree(c); FixedDArrayFree(d);
}
/* doubly linked list */
void cont_list(void)
{
   int n=(int)sx_param("n",3);
   PList_p l=PListAlloc(); long base=sx_int("v",-5,5);
   long M[8]; int nm=0;
   sx_assert(PListEmpty(l),"fresh list is empty");
   for(int k=0;k<n;k++)
   {
      int at=(int)sx_choose("at",nm+1);
      PList_p w=l; for(int i=0;i<at;i++) w=w->succ;
      PListStoreInt(w,base+k);   /* inserts behind w */
      for(int i=nm;i>at;i--) M[i]=M[i-1]; M[at]=base+k; nm++;
   }
   if(sx_choose("del",2))
   {
      int at=(int)sx_choose("d",nm); PList_p w=l->succ; for(int i=0;i<at;i++) w=w->succ;
      if(sx_choose("ex",2)) { PList_p e=PListExtract(w); sx_assert(e->key.i_val==M[at],"extracted the element"); PListCellFree(e); } else PListDelete(w);
      for(int i=at;i+1<nm;i++) M[i]=M[i+1]; nm--; sx_reach("deleted");
   }
   int c=0; for(PList_p w=l->succ;w!=l&&c<10;w=w->succ,c++) sx_assert(c<nm&&w->key.i_val==M[c],"forward order");
   sx_assert(c==nm,"length");
   for(PList_p w=l->pred;w!=l&&c>0;w=w->pred) { c--; sx_assert(w->key.i_val==M[c],"backward order"); }
   sx_assert(c==0,"backward length");
   sx_observe(nm);
   PListFree(l);
}
/* doubles: growth and order statistic */
void cont_double(void)
{
   static const long I[5]={0,1,3,4,9}; static const double V[4]={-1.5,0.0,2.25,7.0};
   DDArray_p a=DDArrayAlloc(1+sx_choose("init",2),1+3*sx_choose("grow",2));
   double M[16]; for(int i=0;i<16;i++) M[i]=0.0;
   for(int k=0;k<2;k++) { long i=I[sx_choose("i",5)]; double v=V[sx_choose("v",4)]; DDArrayAssign(a,i,v); M[i]=v; }
   for(int i=0;i<12;i++) { double x=DDArrayElement(a,i); sx_assert(x==M[i],"elements keep their values; untouched elements are 0"); }
   int n=3+(int)sx_choose("n",2); double S[4];
   DStack_p st=DStackAlloc();
   for(int i=0;i<n;i++) { S[i]=V[sx_choose("s",4)]; DDArrayAssign(a,i,S[i]); DStackPush(st,S[i]); }
   for(int i=0;i<40;i++) DStackPush(st,i);
   for(int i=39;i>=0;i--) { double x=DStackPop(st); sx_assert(x==i,"stack of doubles"); }
   for(int i=0;i<n;i++) sx_assert(DStackElement(st,i)==S[i],"stack of doubles keeps contents");
   sx_assert(DStackTop(st)==S[n-1]&&DStackBelowTop(st)==S[n-2],"top of stack of doubles");
   for(int i=1;i<n;i++) for(int j=i;j&&S[j-1]>S[j];j--) { double t=S[j]; S[j]=S[j-1]; S[j-1]=t; }
   double med=DDArraySelectPart(a,0.5,n);
   sx_assert(med==(n==3?S[1]:(S[1]+S[2])/2),"median");
   sx_reach("end"); sx_observe(n);
   DStackFree(st); DDArrayFree(a);
}
void cont_gcd(void)
{
   long a=sx_int("a",1,sx_param("r",10)), b=sx_int("b",1,sx_param("r",10));
   long g=ComputeGCD(a,b);
   sx_assert(g>0,"positive"); g=sx_concretize(g);
   sx_assert(a%g==0,"divides the first"); sx_assert(b%g==0,"divides the second");
   for(long d=g+1;d<=12;d++) sx_assert(!sx_and(a%d==0,b%d==0),"greatest");
   sx_reach("end"); sx_observe(g);
}
