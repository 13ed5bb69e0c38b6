/* P21: proofs extracted from PCL protocols are complete and exact. */
#include "common.h"
#include <pcl_protocol.h>
#include <pcl_miniprotocol.h>

#define MAXS 6
static const char *ids[3][MAXS]={{"1","2","3","4","10","11"},{"2","2.1","2.10","10","10.3","11"}};
/* ids=2: increasing identifiers with solver-chosen digits */
static char sid[MAXS][4];
static void symids(void);
static const char *ext[]={"","'proof'","'final'","'eval'","'extract_me'"};
static int n, par[MAXS][3], np[MAXS], kind[MAXS], cont[MAXS], ex[MAXS], ty[MAXS], idp;
static char line[MAXS][200], tline[MAXS][240];
/* justification as PCL and as TSTP */
static void just(int k, char *p, char *t)
{
   const char **I=ids[idp]; int *q=par[k];
#define A I[q[0]]
#define B I[q[1]]
#define C I[q[2]]
   switch(kind[k])
   {
   case 0: sprintf(p,"initial(\"f\",c%d)",k); sprintf(t,"file('f',c%d)",k); break;
   case 1: sprintf(p,"%s",A); sprintf(t,"%s",A); break;
   case 2: sprintf(p,"cn(%s)",A); sprintf(t,"inference(cn,[status(thm)],[%s])",A); break;
   case 3: sprintf(p,"pm(%s,%s)",A,B); sprintf(t,"inference(pm,[status(thm)],[%s,%s])",A,B); break;
   case 4: sprintf(p,"rw(pm(%s,%s),%s)",A,B,C); sprintf(t,"inference(rw,[status(thm)],[inference(pm,[status(thm)],[%s,%s]),%s])",A,B,C); break;
   case 5: sprintf(p,"ar(%s,%s,%s)",A,B,C); sprintf(t,"inference(ar,[status(thm)],[%s,%s,%s])",A,B,C); break;
   case 6: sprintf(p,"spm(%s,sr(%s,%s))",A,B,C); sprintf(t,"inference(spm,[status(thm)],[%s,inference(sr,[status(thm)],[%s,%s])])",A,B,C); break;
   }
}
static const int parents[]={0,1,1,2,3,3,3};
static void squeeze(char *s) { char *d=s; for(;*s;s++) if(*s!=' ') *d++=*s; *d=0; }
static void build(char *out)
{
   int kinds=(int)sx_param("kinds",127), conts=(int)sx_param("conts",3), exts=(int)sx_param("exts",4), rev=(int)sx_param("rev",0);
   for(int k=0;k<n;k++)
   {
      int pool[8], m=0; for(int i=0;i<7;i++) if((kinds>>i&1) && (k>0||i==0)) pool[m++]=i;
      kind[k]=pool[sx_choose("kind",m)]; np[k]=parents[kind[k]];
      for(int i=0;i<np[k];i++) par[k][i]=(int)sx_choose("parent",k);
      cont[k]=k>=n-(int)sx_param("free",n)?(int)sx_choose("content",conts):0;
      int e=k>=n-(int)sx_param("roots",n)?exts:1;
      ex[k]=(int)sx_choose("extra",e);
      ty[k]=(int)sx_param("types",0)?(int)sx_choose("type",2):0;
      static char j[100], t[140]; just(k,j,t);
      const char *c=cont[k]==0?"[++p(a)]":cont[k]==1?"[]":cont[k]==2?"(p(a)&q)":"";
      const char *f=cont[k]==0?"(p(a))":cont[k]==1?"($false)":"(p(a)&q)";
      sprintf(line[k],"%s:%s:%s:%s%s%s",ids[idp][k],ty[k]?"neg":"",c,j,ex[k]?":":"",ext[ex[k]]);
      sprintf(tline[k],"%s(%s,%s,%s,%s%s%s%s).",cont[k]==2?"fof":"cnf",ids[idp][k],ty[k]?"negated_conjecture":kind[k]?"plain":"axiom",f,t,ex[k]?",[":"",ext[ex[k]],ex[k]?"]":"");
   }
   *out=0;
   for(int k=0;k<n;k++) { strcat(out,line[rev?n-1-k:k]); strcat(out,"\n"); }
   sx_trace(out,0);
}
static int want[MAXS];
static int is_root(int k) { return ex[k]==1||ex[k]==2||ex[k]==4; }
static void closure(void)
{
   for(int k=n-1;k>=0;k--)
   {
      if(is_root(k)) want[k]=1;
      if(want[k]) for(int i=0;i<np[k];i++) want[par[k][i]]=1;
   }
}
static void compare(char *buf, int tstp, int *w)
{
   squeeze(buf);
   int k=0;
   for(char *t=buf;*t;)
   {
      char *eol=strchr(t,'\n'); sx_assert(eol!=NULL,"lines are terminated"); *eol=0;
      if(*t&&*t!='%'&&*t!='#')
      {
         while(k<n&&!w[k]) k++;
         sx_assert(k<n,"no step outside of the proof is printed");
         static char e[240]; strcpy(e,tstp?tline[k]:line[k]); squeeze(e);
         sx_assert(strcmp(e,t)==0,"each step is printed as it was read");
         k++;
      }
      t=eol+1;
   }
   while(k<n&&!w[k]) k++;
   sx_assert(k==n,"every step of the proof is printed");
}
static void symids(void)
{
   int last=0;
   for(int k=0;k<n;k++)
   {
      int major=(int)sx_int("major",1,3), minor=(int)sx_int("minor",0,(int)sx_param("minor",3)), v=major*10+minor;
      sx_assume(v>last); last=v;
      sid[k][0]='0'+major; sid[k][1]='.'; sid[k][2]='0'+minor;
      if(minor==0) sid[k][1]=0; /* plain identifier */
      sid[k][3]=0; ids[2][k]=sid[k];
   }
}
static Scanner_p scan(char *txt) { Scanner_p in=CreateScanner(StreamTypeInternalString,txt,true,NULL,true); ScannerSetFormat(in,TPTPFormat); return in; }
static char txt[1400];
static void init(void) { InitIO("harness"); problemType=PROBLEM_FO; SupportShellPCL=true; ClausesHaveLocalVariables=false; OutputFormat=TPTPFormat; n=(int)sx_param("n",3); idp=(int)sx_param("ids",0); if(idp==2) symids(); }
void pcl_extract(void)
{
   init(); build(txt);
   PCLProt_p p=PCLProtAlloc(); Scanner_p in=scan(txt);
   sx_assert(PCLProtParse(in,p)==n,"every step is read"); sx_assert(TestInpTok(in,NoToken),"the protocol is read to its end"); DestroyScanner(in);
   int all=(int)sx_param("all",0), e=0, has=0; closure();
   if(all) { PCLProtSetProp(p,PCLIsProofStep); for(int k=0;k<n;k++) want[k]=1; }
   else e=PCLProtMarkProofClauses(p);
   for(int k=0;k<n;k++) if(cont[k]==1||(cont[k]==3&&ex[k]==1)) has=1;
   if(!all) sx_assert(!!e==has,"an empty clause is noticed");
   int tstp=(int)sx_param("tstp",0), c=0;
   for(int k=0;k<n;k++) c+=want[k];
   sx_assert(PCLProtCountProp(p,PCLIsProofStep)==c,"the proof has the right size");
   char *buf; size_t bn; FILE *f=open_memstream(&buf,&bn);
   PCLProtPrintProofClauses(f,p,tstp?tstp_format:pcl_format);
   fflush(f);
   compare(buf,tstp,want);
   fclose(f);
   PCLProtFree(p);
   sx_reach(c==0?"none":c==n?"all":"part");
}
/* fast extraction: plain identifiers, roots at the end of the protocol */
void pcl_mini(void)
{
   init(); build(txt);
   int fast=(int)sx_param("fast",1);
   if(fast) for(int k=0;k<n-1;k++) sx_assume(!is_root(k)||is_root(k+1));
   PCLMiniProt_p p=PCLMiniProtAlloc(); Scanner_p in=scan(txt);
   PCLMiniProtParse(in,p); sx_assert(TestInpTok(in,NoToken),"the protocol is read to its end"); DestroyScanner(in);
   closure();
   int e=PCLMiniProtMarkProofClauses(p,fast), has=0, c=0;
   for(int k=0;k<n;k++) { c+=want[k]; if(want[k]&&(cont[k]==1||(cont[k]==3&&ex[k]==1))) has=1; }
   sx_assert(!!e==has,"an empty clause in the proof is noticed");
   int tstp=(int)sx_param("tstp",0);
   char *buf; size_t bn; FILE *f=open_memstream(&buf,&bn);
   PCLMiniProtPrintProofClauses(f,p,tstp?tstp_format:pcl_format);
   fflush(f);
   compare(buf,tstp,want);
   fclose(f);
   PCLMiniProtFree(p);
   sx_reach(c==0?"none":c==n?"all":"part");
}
/* removing formula steps: clauses derived from them become initial */
void pcl_strip(void)
{
   init(); build(txt);
   PCLProt_p p=PCLProtAlloc(); Scanner_p in=scan(txt); PCLProtParse(in,p); DestroyScanner(in);
   int c=0, keep[MAXS];
   for(int k=0;k<n;k++) { keep[k]=cont[k]!=2; c+=!keep[k]; }
   for(int k=0;k<n;k++) if(keep[k])
   {
      int fp=0; for(int i=0;i<np[k];i++) fp|=!keep[par[k][i]];
      if(fp) { sprintf(line[k],"%s:%s:%s:initial%s%s",ids[idp][k],ty[k]?"neg":"",cont[k]==0?"[++p(a)]":"[]",ex[k]?":":"",ext[ex[k]]); sx_reach("initial"); }
   }
   sx_assert(PCLProtStripFOF(p)==c,"all formula steps are removed");
   PCLProtSetProp(p,PCLIsProofStep);
   char *buf; size_t bn; FILE *f=open_memstream(&buf,&bn);
   PCLProtPrintProofClauses(f,p,pcl_format);
   fflush(f);
   compare(buf,0,keep);
   fclose(f);
   PCLProtFree(p);
   sx_reach("end");
}
