/* The scanner on arbitrary bytes against an independent tokeniser. */
#include "common.h"
#include <cio_scanner.h>
#include <cio_basicparser.h>
typedef struct { TokenType t; int from, to, skip; long line, col; uintmax_t num; } Tk;
static unsigned char B[16]; static int nb; static Tk R[16]; static int nr; static int bad;
static int al(int c) { return sx_or(sx_and(c>='a',c<='z'),sx_and(c>='A',c<='Z')); }
static int dg(int c) { return sx_and(c>='0',c<='9'); }
static int sp(int c) { return sx_or(c==' ',sx_and(c>=9,c<=13)); }
static int at(int i) { return i<nb?B[i]:-1; }
static int idc(int c) { return sx_or(sx_or(al(c),dg(c)),c=='_'); }
static void ref_scan(void)
{
   long line=1,col=1; int i=0, skip=0;
   nr=0; bad=0;
   while(i<nb)
   {
      Tk k; k.from=i; k.line=line; k.col=col; k.num=0; k.skip=skip; k.t=0; int j=i, c=at(i);
      if(sp(c)) { while(j<nb&&sp(at(j))) j++; }
      else if(sx_or(al(c),c=='_')) 
      {
         while(j<nb&&idc(at(j))) j++;
         int d=j; while(d>i&&dg(at(d-1))) d--;
         k.t=Ident; if(d<j) { k.t=Idnum; for(int q=d;q<j;q++) k.num=k.num*10+(uintmax_t)(at(q)-'0'); }
      }
      else if(dg(c)) { while(j<nb&&dg(at(j))) { k.num=k.num*10+(uintmax_t)(at(j)-'0'); j++; } k.t=PosInt; }
      else if(sx_or(c=='#',c=='%')) { while(j<nb&&at(j)!='\n') j++; if(j<nb) j++; }
      else if(c=='/'&&at(i+1)=='*')
      {
         j=i+2; while(j<nb&&!(at(j)=='*'&&at(j+1)=='/')) j++;
         if(j>=nb) { bad=1; return; } j+=2;
      }
      else if(sx_or(c=='"',c=='\''))
      {
         for(j=i+1;;j++)
         {
            if(j>=nb) { bad=1; return; }
            int e=at(j); if(e==c) break;
            if(sx_and(e<=127,sx_or(e<32,e==127))) { bad=1; return; }
            if(e=='\\') { j++; if(j>=nb) { bad=1; return; } e=at(j); if(sx_and(e<=127,sx_or(e<32,e==127))) { bad=1; return; } }
         }
         j++; k.t=c=='"'?String:SQString;
      }
      else if(c=='$'&&i+1<nb&&idc(at(i+1))) { j=i+1; while(j<nb&&idc(at(j))) j++; k.t=SemIdent;
         if(j-i==4&&at(i+1)=='l'&&at(i+2)=='e'&&at(i+3)=='t') k.t=LetToken; if(j-i==4&&at(i+1)=='i'&&at(i+2)=='t'&&at(i+3)=='e') k.t=IteToken; }
      else
      {
         static const struct { const char *s; TokenType t; } P[]={{"<~>",FOFXor},{"<=>",FOFEquiv},{"<=",FOFRLImpl},{"=>",FOFLRImpl},{"~|",FOFNor},{"~&",FOFNand},{"!=",NegEqualSign},
            {"(",OpenBracket},{")",CloseBracket},{"{",OpenCurly},{"}",CloseCurly},{"[",OpenSquare},{"]",CloseSquare},{"<",LesserSign},{">",GreaterSign},{"=",EqualSign},{"~",TildeSign},{"!",Exclamation},{"?",QuestionMark},
            {",",Comma},{";",Semicolon},{":",Colon},{"-",Hyphen},{"+",Plus},{"*",Mult},{".",Fullstop},{"|",Pipe},{"/",Slash},{"&",Ampersand},{"$",Dollar},{"@",Application},{"^",Carret}};
         int q; for(q=0;q<(int)(sizeof P/sizeof *P);q++) { int len=(int)strlen(P[q].s), ok=i+len<=nb; for(int z=0;ok&&z<len;z++) ok=at(i+z)==P[q].s[z]; if(ok) { j=i+len; k.t=P[q].t; break; } }
         if(!k.t) { bad=1; return; }
      }
      for(int q=i;q<j;q++) if(at(q)=='\n') { line++; col=1; } else col++;
      k.to=j; i=j;
      if(k.t) { R[nr++]=k; skip=0; } else skip=1;
   }
   if(nr<16) { R[nr].skip=skip; R[nr].line=line; R[nr].col=col; }
}
static char text[64];
void sc_bytes(void)
{
   InitIO("harness");
   nb=(int)sx_param("n",3);
   sx_bytes("b",B,nb);
   int pre=(int)sx_param("pre",0);      /* fixed start, e.g. an open quote */
   if(pre==1) B[0]='\''; if(pre==2) B[0]='"'; if(pre==3) { B[0]='/'; B[1]='*'; } if(pre==4) B[0]='$'; if(pre==5) B[0]='%'; if(pre==6) B[0]='<';
   for(int i=0;i<nb;i++) { if(i>=(pre==3?2:pre?1:0)) sx_assume(B[i]!=0); sx_assume(B[i]<128); }
   if(sx_param("alpha",0)) for(int i=0;i<nb;i++) sx_assume(sx_or(sx_or(B[i]=='a',B[i]=='1'),sx_or(sx_or(B[i]=='_',B[i]=='$'),sx_or(B[i]==' ',B[i]=='\n'))));
   if(sx_param("quotes",0)) for(int i=0;i<nb;i++) sx_assume(sx_or(sx_or(B[i]=='\'',B[i]=='"'),sx_or(B[i]=='\\',B[i]=='a')));
   if(sx_param("cmt",0)) for(int i=0;i<nb;i++) sx_assume(sx_or(sx_or(B[i]=='/',B[i]=='*'),sx_or(B[i]=='\n',sx_or(B[i]=='a',B[i]=='%'))));
   for(int i=0;i<nb;i++) text[i]=(char)B[i]; text[nb]=0;
   ref_scan();
   if(bad) { sx_exit_ok(1); sx_reach("error"); }
   Scanner_p in=CreateScanner(StreamTypeInternalString,text,true,NULL,true);
   int i; for(i=0;i<nr;i++)
   {
      Token_p t=AktToken(in);
      sx_assert(t->tok==R[i].t,"the kind of the token");
      sx_assert(DStrLen(t->literal)==R[i].to-R[i].from,"the length of the token");
      char *s=DStrView(t->literal); for(int j=R[i].from;j<R[i].to;j++) sx_assert((unsigned char)s[j-R[i].from]==B[j],"the text of the token");
      sx_assert(s[R[i].to-R[i].from]==0,"the text is terminated");
      sx_assert(t->line==R[i].line&&t->column==R[i].col,"the position of the token");
      sx_assert((t->skipped!=0)==R[i].skip,"space before the token is noted");
      if(R[i].t==PosInt||R[i].t==Idnum) sx_assert(t->numval==R[i].num,"the value of the number");
      if(i+1<nr) { Token_p l=LookToken(in,1); if(i+1<nr) sx_assert(l->tok==R[i+1].t,"lookahead shows the next token"); }
      sx_reach("token"); if(i) sx_reach("second");
      NextToken(in);
   }
   if(bad) { for(int j=0;j<8;j++) { if(AktToken(in)->tok==NoToken) break; NextToken(in); } sx_assert(0,"malformed input is rejected"); }
   sx_assert(AktToken(in)->tok==NoToken,"the end of the input is reported"); NextToken(in); sx_assert(AktToken(in)->tok==NoToken,"the end stays the end");
   DestroyScanner(in);
   sx_observe(nr);
}
/* numbers: all digit strings of a length, with sign, within and outside of limits */
void sc_num(void)
{
   InitIO("harness");
   int sign=(int)sx_choose("sign",3), d=(int)sx_param("digits",3), i, k=0; unsigned long m=0;
   int kind=(int)sx_choose("kind",3);
   if(sign) text[k++]=sign==1?'-':'+';
   int big=(int)sx_param("big",0);      /* fixed leading digits of 2^63 */
   static const char lead[]="9223372036854775807";
   for(i=0;i<d;i++) { int c=big&&i<19-2?lead[i]-'0':(int)sx_int("digit",0,9); text[k++]=(char)('0'+c); m=m*10+(unsigned long)c; }
   int fits=d<20&&sx_or(m<=LONG_MAX,sx_and(sign==1,m==(unsigned long)LONG_MAX+1)); long v=(long)(sign==1?0-m:m);
   text[k++]=' '; text[k++]='x'; text[k]=0;
   Scanner_p in=CreateScanner(StreamTypeInternalString,text,true,NULL,true);
   long lo=LONG_MIN, hi=LONG_MAX; int range=(int)sx_choose("range",3); if(range==1) { lo=-5; hi=17; } if(range==2) { lo=0; hi=LONG_MAX; }
   long got=0; int ok;
   if(kind==0)
   {
      ok=sx_and(fits,sx_and(v>=lo,v<=hi)); if(sign==2) ok=0;
      if(!ok) { sx_exit_ok(1); sx_reach("reject"); }
      got=ParseIntLimited(in,lo,hi);
      sx_assert(ok,"a number out of range is rejected"); sx_assert(got==v,"the value of the number"); sx_reach("accept");
   }
   else if(kind==1)
   {
      if(sign==2) sx_done();
      ok=sx_and(fits,m<=LONG_MAX); if(!ok) { sx_done(); return; }
      got=(long)ParseIntMax(in); sx_assert(got==v,"the value of the number");
   }
   else
   {
      StrNumType t=ParseNumString(in); sx_assert(t==SNInteger,"an integer is an integer");
      char *s=DStrView(in->accu); for(i=0;i<k-2;i++) sx_assert(s[i]==text[i],"the text of the number is kept"); sx_assert(s[i]==0,"nothing else");
   }
   sx_assert(TestInpId(in,"x"),"exactly the number is consumed");
   DestroyScanner(in); sx_observe(kind);
}
/* fractions, rationals, exponents: classification and text */
void sc_frac(void)
{
   InitIO("harness"); int k=0;
   static const char *pre[]={"","-","+"}, *mid[]={".","/","","e","E-",".5e",".5E+","/-"};
   int p=(int)sx_choose("sign",3), m=(int)sx_choose("middle",8), gap=(int)sx_choose("gap",2);
   int a=(int)sx_int("a",0,9), b=(int)sx_int("b",0,9);
   for(const char *s=pre[p];*s;) text[k++]=*s++; text[k++]=(char)('0'+a);
   if(m==2&&gap) sx_done();
   if(gap) text[k++]=' ';
   for(const char *s=mid[m];*s;) text[k++]=*s++; int after=k; if(m!=2) text[k++]=(char)('0'+b); (void)after;
   int full=k; text[k++]=' '; text[k++]='x'; text[k]=0;
   int rat=m==1||m==7;
   if(rat&&b==0&&!gap) { sx_exit_ok(1); sx_reach("zero"); }
   if(gap) { sx_reach("gap"); }
   Scanner_p in=CreateScanner(StreamTypeInternalString,text,true,NULL,true);
   StrNumType t=ParseNumString(in);
   sx_assert(!(rat&&b==0&&!gap),"a zero denominator is rejected");
   char *s=DStrView(in->accu);
   int len=gap?(p?2:1):full;
   sx_assert((int)DStrLen(in->accu)==len,"the whole number is read and nothing else");
   for(int i=0;i<len;i++) sx_assert(s[i]==text[i]||(text[i]=='E'&&s[i]=='e'),"the text of the number is kept");
   sx_assert(t==(gap||m==2?SNInteger:rat?SNRational:SNFloat),"the kind of the number");
   if(!gap) sx_assert(TestInpId(in,"x"),"the next token follows");
   DestroyScanner(in); sx_reach("number"); sx_observe(t);
}
/* dynamic strings: any sequence of operations equals plain text */
void sc_dstr(void)
{
   InitIO("harness"); DStr_p d=DStrAlloc(); static char ref[900]; int n=0, ops=(int)sx_param("ops",4);
   for(int o=0;o<ops;o++)
   {
      int op=(int)sx_choose("op",8);
      if(op==0) { int c=(int)sx_int("char",1,127); DStrAppendChar(d,(char)c); ref[n++]=(char)c; }
      else if(op==1)
      {
         static const int len[]={0,1,2,62,63,64,65,127,128,129}; int k=len[sx_choose("len",sx_param("lens",10))]; static char buf[256];
         for(int i=0;i<k;i++) buf[i]=(char)('a'+i%26); buf[k]=0; DStrAppendStr(d,buf); for(int i=0;i<k;i++) ref[n++]=buf[i];
      }
      else if(op==2) { long v=sx_choose("int",4); v=v==0?0:v==1?-17:v==2?LONG_MIN:1234567890123L; DStrAppendInt(d,v); n+=sprintf(ref+n,"%ld",v); }
      else if(op==3) { DStrReset(d); n=0; }
      else if(op==4) { char c=DStrDeleteLastChar(d); if(n) { sx_assert(c==ref[n-1],"the last character is returned"); n--; } else sx_assert(c==0,"nothing to delete"); }
      else if(op==5) DStrMinimize(d);
      else if(op==6) { DStrSet(d,"xyz"); n=0; ref[n++]='x'; ref[n++]='y'; ref[n++]='z'; }
      else { char *b="q\0r"; DStrAppendBuffer(d,b,1); ref[n++]='q'; }
      ref[n]=0;
      sx_assert(DStrLen(d)==n,"the length is right");
      char *v=DStrView(d); for(int i=0;i<n;i++) sx_assert(v[i]==ref[i],"the text is right"); sx_assert(v[n]==0,"the text is terminated");
      sx_assert(DStrLastChar(d)==(n?ref[n-1]:0),"the last character");
      if(n>128) sx_reach("long");
   }
   char *c=DStrCopy(d); for(int i=0;i<=n;i++) sx_assert(c[i]==ref[i],"the copy is right"); FREE(c);
   if(n>=2) { c=DStrCopyCore(d); for(int i=1;i<n-1;i++) sx_assert(c[i-1]==ref[i],"the core is right"); sx_assert(c[n-2]==0,"the core is terminated"); FREE(c); }
   DStr_p e=DStrGetRef(d); DStrFree(d); sx_assert(DStrLen(e)==n,"a referenced string stays"); DStrFree(e);
   sx_observe(n);
}
