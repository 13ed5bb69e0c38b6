#include "common.h"
#include <clb_numtrees.h>
void sanity(void)
{
   long a = sx_int("a",0,10), b = sx_int("b",0,10);
   if(a<b) sx_reach("lt"); else sx_reach("ge");
   sx_assert(a+b<=20, "sum");
   sx_observe(a*3+b);
}
void sanity_bad(void)
{
   long a = sx_int("a",0,1000), b = sx_int("b",0,1000);
   sx_assert(!(a*b==391 && a<b), "factor");
}
void sanity_tree(void)
{
   NumTree_p t=NULL; IntOrP v; v.i_val=0;
   long k[4];
   for(int i=0;i<4;i++){ k[i]=sx_int("k",-100,100); v.i_val=i; NumTreeStore(&t,k[i],v,v);} 
   for(int i=0;i<4;i++){ NumTree_p n=NumTreeFind(&t,k[i]); sx_assert(n && n->key==k[i],"find"); sx_observe(n->val1.i_val);} 
   sx_reach("end");
}
void sanity_init(void) { vh_init(); sx_reach("init"); }
