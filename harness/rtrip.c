/* Reading gives the meaning of the text, and printing followed by reading
   gives the same formula or clause again. */
#define fcnf_main fcnf_main_unused_
#include "fcnf.c"
#undef fcnf_main
#include <ccl_tformulae.h>
/* meaning of a parsed formula, variables valued by their code */
static struct { FunCode v; int d; } tv[12]; static int ntv;
static long tf_term(Term_p t)
{
   if(t->f_code<0) { for(int i=ntv-1;i>=0;i--) if(tv[i].v==t->f_code) return tv[i].d; sx_assert(0,"variable in the formula is bound"); }
   if(t->f_code==SIG_TRUE_CODE) return 1;
   if(t->f_code==SIG_FALSE_CODE) return 0;
   long a[4]; for(int i=0;i<t->arity;i++) a[i]=tf_term(t->args[i]);
   return sym_val(t->f_code,a,t->arity);
}
static long tf(TFormula_p t)
{
   Sig_p s=H.sig; FunCode f=t->f_code;
   if(f==SIG_TRUE_CODE) return 1; if(f==SIG_FALSE_CODE) return 0;
   if(f==s->not_code) return sx_not(tf(t->args[0]));
   if(f==s->qall_code||f==s->qex_code)
   {
      long r=f==s->qall_code; tv[ntv++].v=t->args[0]->f_code;
      for(int d=0;d<sem_D;d++)
      {
         tv[ntv-1].d=d; long v=tf(t->args[1]), ind=sem_dom?(d<sem_dom):1;
         r=f==s->qall_code?sx_and(r,sx_or(sx_not(ind),v)):sx_or(r,sx_and(ind,v));
      }
      ntv--; return r;
   }
   if(f==s->eqn_code) return tf_term(t->args[0])==tf_term(t->args[1]);
   if(f==s->neqn_code) return tf_term(t->args[0])!=tf_term(t->args[1]);
   if(t->arity!=2) { sx_assert(t->arity==1,"known formula shape"); return tf_term(t); }
   if(f==s->and_code||f==s->or_code||f==s->impl_code||f==s->equiv_code||f==s->nand_code||f==s->nor_code||f==s->bimpl_code||f==s->xor_code)
   {
      long x=tf(t->args[0]), y=tf(t->args[1]);
      if(f==s->and_code) return sx_and(x,y);
      if(f==s->or_code) return sx_or(x,y);
      if(f==s->impl_code) return sx_or(sx_not(x),y);
      if(f==s->bimpl_code) return sx_or(x,sx_not(y));
      if(f==s->equiv_code) return x==y;
      if(f==s->xor_code) return x!=y;
      if(f==s->nor_code) return sx_not(sx_or(x,y));
      return sx_not(sx_and(x,y));
   }
   return tf_term(t);
}
static WFormula_p readf(const char *s, IOFormat fm)
{
   Scanner_p in=CreateScanner(StreamTypeInternalString,(char*)s,true,NULL,true); ScannerSetFormat(in,fm);
   WFormula_p w=WFormulaParse(in,PS->terms); sx_assert(TestInpTok(in,NoToken),"the printed text is consumed entirely"); DestroyScanner(in); return w;
}
static char *grab; static size_t glen;
static const char *roles[]={"axiom","hypothesis","conjecture","negated_conjecture","lemma"};
static void nparams(void)
{
   leafmode=(int)sx_param("mode",0); budget=(int)sx_param("n",3);
   long mask=sx_param("ops",0x3fe); for(int k=1;k<=EX;k++) if(mask>>k&1) kinds[nkinds++]=k;
}
static Nd *withprefix(void)
{
   Nd *root=NULL, *last=NULL; int scope=0;
   for(int i=0;i<(int)sx_param("prefix",0);i++)
   {
      Nd *q=mk(sx_choose("q",2)?EX:ALL); q->v=i; scope|=1<<i;
      if(last) last->a=q; else root=q; last=q;
   }
   Nd *m=gen_(scope); if(last) last->a=m; else root=m;
   return root;
}
void rt_formula(void)
{
   pv_init();
   sem_D=2;
   pv_signature(sx_param("mode",0)==0?"p(a)|q(b)":"p(a)|r(a,a)");
   fa=SigFindFCode(H.sig,"a"); fb=SigFindFCode(H.sig,"b"); fp=SigFindFCode(H.sig,"p"); fq=SigFindFCode(H.sig,"q"); fr=SigFindFCode(H.sig,"r");
   sem_anysize(); pv_interp(); nparams();
   Nd *root=withprefix();
   style=(int)sx_choose("style",sx_param("nstyle",2));
   static char b[4200]; txt[0]=0; pr(root,0); sx_trace(txt,0);
   IOFormat fm=sx_choose("format",sx_param("nfmt",1))?TPTPFormat:TSTPFormat;
   int role=(int)sx_choose("role",sx_param("nrole",1));
   snprintf(b,sizeof b,"fof(in0,%s,(%s)).",roles[role],txt);
   WFormula_p w=readf(b,TSTPFormat);
   long F=ev(root);
   sx_assert(F==tf(w->tformula),"the formula read means what the text says");
   OutputFormat=fm;
   FILE *o=open_memstream(&grab,&glen); WFormulaPrint(o,w,true); fclose(o);
   sx_trace(grab,0);
   WFormula_p v=readf(grab,fm);
   sx_assert(F==tf(v->tformula),"printing and reading a formula preserves its meaning");
   if(fm==TSTPFormat||role<3) sx_assert(FormulaQueryType(v)==FormulaQueryType(w),"the role survives");
   sx_reach("formula"); sx_observe((long)glen);
}
/* ---- clauses */
static FunCode ra[12], rb[12]; static int nren;
static int tren(Term_p s, Term_p t)
{
   if(s->f_code<0)
   {
      if(t->f_code>=0||s->type!=t->type) return 0;
      for(int i=0;i<nren;i++) { if(ra[i]==s->f_code||rb[i]==t->f_code) return ra[i]==s->f_code&&rb[i]==t->f_code; }
      ra[nren]=s->f_code; rb[nren++]=t->f_code; return 1;
   }
   if(s->f_code!=t->f_code||s->arity!=t->arity) return 0;
   for(int i=0;i<s->arity;i++) if(!tren(s->args[i],t->args[i])) return 0;
   return 1;
}
static int lren(Eqn_p a, Eqn_p b, int flip) { return EqnIsPositive(a)==EqnIsPositive(b)&&tren(a->lterm,flip?b->rterm:b->lterm)&&tren(a->rterm,flip?b->lterm:b->rterm); }
static int variant(Eqn_p a, Eqn_p list, unsigned used)
{
   if(!a) { int n=0; for(Eqn_p b=list;b;b=b->next) n++; return used==(1u<<n)-1; }
   int i=0; for(Eqn_p b=list;b;b=b->next,i++) if(!(used>>i&1)) for(int f=0;f<2;f++)
   {
      int s=nren; if(lren(a,b,f)&&variant(a->next,list,used|1u<<i)) return 1; nren=s;
   }
   return 0;
}
static Clause_p tcf(WFormula_p w)       /* a sorted clause is read as a quantified disjunction */
{
   TFormula_p f=w->tformula; while(f->f_code==H.sig->qall_code) f=f->args[1];
   Clause_p c=TFormulaCollectClause(f,PS->terms,PS->freshvars); ClauseSetTPTPType(c,FormulaQueryType(w)); return c;
}
static const char *pool[]={"p(a)","~p(X)","r(X,f(Y))","a=b","f(X)!=Y","X=Y","~q(f(f(X)),'Quoted name')","p('it\\'s \\\\')","p(\"obj\")","prop","~'PropQ'","p('a')","f('')=b","~p(\"o\\\"b\")","n(1)","$false","~n(-12)","$true","r(X,X)","m(1.5)","k(-1/2)"};
static const char *croles[]={"axiom","hypothesis","negated_conjecture","plain","lemma"};
void rt_clause(void)
{
   pv_init();
   int n=(int)sx_choose("literals",sx_param("max",2)+1); int np=(int)sx_param("pool",21);
   static char b[600]; int role=(int)sx_choose("role",5); int any=0;
   snprintf(b,sizeof b,"cnf(in0,%s,(",croles[role]);
   for(int i=0;i<n;i++) { int k=(int)sx_choose("lit",np); if(any++) strcat(b,"|"); strcat(b,pool[k]); }
   if(!n) strcat(b,"$false");
   strcat(b,")).");
   sx_trace(b,0);
   int fm=(int)sx_choose("format",4);
   Clause_p c=pv_clause(b);
   int cnt=0; for(Eqn_p l=c->literals;l;l=l->next) cnt++;
   sx_assert(cnt==ClauseLiteralNumber(c),"literal counters agree with the literals");
   OutputFormat=fm==0?TSTPFormat:fm==1?TPTPFormat:fm==2?LOPFormat:TPTPFormat;
   if(fm==2) { EqnUseInfix=sx_choose("infix",2); }
   FILE *o=open_memstream(&grab,&glen);
   if(fm==3) ClausePCLPrint(o,c,true); else ClausePrint(o,c,true);
   fclose(o); sx_trace(grab,fm);
   Scanner_p in=CreateScanner(StreamTypeInternalString,grab,true,NULL,true); ScannerSetFormat(in,OutputFormat);
   Clause_p d=fm==3?ClausePCLParse(in,PS->terms):TestInpId(in,"tcf")?tcf(WFormulaParse(in,PS->terms)):ClauseParse(in,PS->terms);
   if(fm!=3) sx_assert(TestInpTok(in,NoToken)||(sx_trace(DStrView(AktToken(in)->literal),0),0),"the printed clause is consumed entirely");
   sx_assert(variant(c->literals,d->literals,0),"printing and reading a clause gives the same clause");
   if(fm<2 && role<3) sx_assert(ClauseQueryTPTPType(d)==ClauseQueryTPTPType(c),"the role of the clause survives");
   if(fm==2 && (role==0||role==2) && cnt) sx_assert((ClauseQueryTPTPType(d)==CPTypeNegConjecture)==(role==2),"goals stay goals");
   sx_reach(n==0?"empty":"clause"); sx_observe((long)glen);
}
/* ---- symbol names: symbolic bytes */
static char nm[2][20];
static int names(int k)
{
   int n=(int)sx_param("len",1); char t[8]; sx_bytes("name",t,n);
   int p=0; nm[k][p++]='\'';
   for(int i=0;i<n;i++)
   {
      sx_assume(sx_and(t[i]>=32,t[i]<127));
      if(sx_param("esc",1)) { if(t[i]=='\''||t[i]=='\\') nm[k][p++]='\\'; } else sx_assume(sx_and(t[i]!='\'',t[i]!='\\'));
      nm[k][p++]=t[i];
   }
   nm[k][p++]='\''; nm[k][p]=0; return p;
}
void rt_names(void)
{
   pv_init();
   int l0=names(0), l1=names(1);
   static char b[200]; strcpy(b,"cnf(i,axiom,(p(");
   strcat(b,nm[0]); strcat(b,","); strcat(b,nm[1]); strcat(b,"))).");
   Clause_p c=pv_clause(b);
   Term_p s=c->literals->lterm->args[0], t=c->literals->lterm->args[1];
   int same=l0==l1&&!memcmp(nm[0],nm[1],l0);
   sx_assert((s==t)==same,"two names denote the same symbol exactly if they are the same");
   OutputFormat=TSTPFormat;
   FILE *o=open_memstream(&grab,&glen); ClausePrint(o,c,true); fclose(o);
   Clause_p d=pv_clause(grab);
   sx_assert(d->literals->lterm==c->literals->lterm,"a printed name reads back as the same symbol");
   sx_reach(same?"same":"different");
}
/* ---- sorted formulas: structure up to renaming of bound variables, sorts included */
static Type_p T[3]; static int nT;
static int alpha(TFormula_p s, TFormula_p t)
{
   if(s->f_code<0) { if(t->f_code>=0||s->type!=t->type) return 0; for(int i=nren-1;i>=0;i--) if(ra[i]==s->f_code||rb[i]==t->f_code) return ra[i]==s->f_code&&rb[i]==t->f_code; return s->f_code==t->f_code; }
   if(s->f_code!=t->f_code||s->arity!=t->arity||s->type!=t->type) return 0;
   if(s->f_code==H.sig->qall_code||s->f_code==H.sig->qex_code)
   {
      if(s->args[0]->type!=t->args[0]->type) return 0;
      ra[nren]=s->args[0]->f_code; rb[nren++]=t->args[0]->f_code;
      int r=alpha(s->args[1],t->args[1]); nren--; return r;
   }
   for(int i=0;i<s->arity;i++) if(!alpha(s->args[i],t->args[i])) return 0;
   return 1;
}
static const char *ty_n[]={"s","t","$int"};
static const char *cst_n[]={"c","d","7"}, *fun_n[]={"g","h","i"};   /* g:s>t h:t>$int i:$int>s */
static int bnd[4], nbnd;                                           /* sorts of the bound variables */
static void tterm_txt(int ty, int depth)
{
   int o[8], n=0; for(int i=0;i<nbnd;i++) if(bnd[i]==ty) o[n++]=i;
   o[n++]=10; if(depth>0) o[n++]=11;
   int k=o[sx_choose("t",n)];
   if(k<10) { char v[4]={'V',(char)('0'+k),0}; out(v); }
   else if(k==10) out(cst_n[ty]);
   else { int from=(ty+2)%3; out(fun_n[from]); out("("); tterm_txt(from,depth-1); out(")"); }
}
static void tform_txt(int budget)
{
   int k=(int)sx_choose("f",budget>0?7:2); int slim=(int)sx_param("slim",0); if(slim && k!=5 && k!=6 && k!=1) k=1;
   if(k==0) { int ty=(int)sx_choose("eqty",3); tterm_txt(ty,1); out(sx_choose("ne",2)?"!=":"="); tterm_txt(ty,0); }
   else if(k==1) { out("p("); tterm_txt(0,1); out(","); tterm_txt(1,0); out(")"); }
   else if(k==2) { out("~("); tform_txt(budget-1); out(")"); }
   else if(k<5) { out("("); tform_txt(0); out(k==3?"&":"=>"); tform_txt(budget-1); out(")"); }
   else
   {
      int ty=(int)sx_choose("vty",3); char v[16]; snprintf(v,sizeof v,"%c[V%d:%s]:",k==5?'!':'?',nbnd,ty_n[ty]);
      out(v); bnd[nbnd++]=ty; out("("); tform_txt(budget-1); out(")"); nbnd--;
   }
}
void rt_typed(void)
{
   pv_init();
   static const char *decl[]={"tff(t1,type,(s:$tType)).","tff(t2,type,(t:$tType)).","tff(t3,type,(c:s)).","tff(t4,type,(d:t)).","tff(t5,type,(g:s>t)).","tff(t6,type,(h:t>$int)).","tff(t7,type,(i:$int>s)).","tff(t8,type,(p:(s*t)>$o))."};
   for(int i=0;i<8;i++) { Scanner_p in=CreateScanner(StreamTypeInternalString,(char*)decl[i],true,NULL,true); ScannerSetFormat(in,TSTPFormat); WFormulaParse(in,PS->terms); DestroyScanner(in); }
   static char b[4200]; txt[0]=0; tform_txt((int)sx_param("n",2));
   snprintf(b,sizeof b,"tff(in0,axiom,(%s)).",txt); sx_trace(b,0);
   WFormula_p w=readf(b,TSTPFormat);
   OutputFormat=TSTPFormat;
   FILE *o=open_memstream(&grab,&glen); WFormulaPrint(o,w,true); fclose(o); sx_trace(grab,0);
   WFormula_p v=readf(grab,TSTPFormat);
   sx_assert(alpha(w->tformula,v->tformula),"printing and reading a sorted formula gives the same formula");
   sx_reach("typed"); sx_observe((long)glen);
}
/* ---- a quoted name is not the number, distinct object or defined symbol spelled the same */
void rt_special(void)
{
   pv_init();
   char c[2]; sx_bytes("c",c,2); int k=(int)sx_choose("kind",4); static char a[20], b[20], t[100];
   if(k==0||k==3) { sx_assume(sx_and(c[0]>='1',c[0]<='9')); sx_assume(sx_and(c[1]>='0',c[1]<='9')); }
   else { sx_assume(sx_and(c[0]>='a',c[0]<='z')); sx_assume(sx_and(c[1]>='a',c[1]<='z')); }
   if(k==0) snprintf(a,sizeof a,"%c%c",c[0],c[1]);
   else if(k==1) snprintf(a,sizeof a,"\"%c%c\"",c[0],c[1]);
   else if(k==2) snprintf(a,sizeof a,"$%c%c",c[0],c[1]);
   else snprintf(a,sizeof a,"-%c%c",c[0],c[1]);
   snprintf(b,sizeof b,"'%s'",a);
   int first=(int)sx_choose("order",2);
   snprintf(t,sizeof t,"cnf(i,axiom,(p(%s))).",first?a:b); Clause_p x=pv_clause(t);
   snprintf(t,sizeof t,"cnf(i,axiom,(q(%s))).",first?b:a); Clause_p y=pv_clause(t);
   sx_assert(x->literals->lterm->args[0]->f_code!=y->literals->lterm->args[0]->f_code,"a quoted name differs from the number, object or defined symbol of the same spelling");
   /* ... while quotes around a plain lower-case word change nothing */
   if(k==1)
   {
      snprintf(t,sizeof t,"cnf(i,axiom,(r(%c%c))).",c[0],c[1]); Clause_p u=pv_clause(t);
      snprintf(t,sizeof t,"cnf(i,axiom,(r('%c%c'))).",c[0],c[1]); Clause_p v=pv_clause(t);
      sx_assert(u->literals->lterm==v->literals->lterm,"quotes around a plain word change nothing");
   }
   OutputFormat=TSTPFormat;
   FILE *o=open_memstream(&grab,&glen); ClauseTSTPCorePrint(o,first?y:x,true); fclose(o);
   snprintf(t,sizeof t,"cnf(i,axiom,%s).",grab); Clause_p z=pv_clause(t);
   sx_assert(z->literals->lterm==(first?y:x)->literals->lterm,"the quoted name reads back as itself");
   sx_reach(k==0?"number":k==1?"object":"defined");
}
/* ---- scoping: every variable occurrence refers to its innermost enclosing binder of that name */
static int ex[16], nex, nb_; static struct { int name, ty, id; } sc[8]; static int nsc;
static void sh_term(int ty)
{
   int o[3], n=0; o[n++]=-1;
   for(int k=0;k<2;k++) { int j=nsc-1; while(j>=0&&sc[j].name!=k) j--; if(j>=0&&sc[j].ty==ty) o[n++]=j; }
   int k=o[n==1?0:sx_choose("o",n)];
   if(k<0) { out(cst_n[ty]); ex[nex++]=-1; } else { out(sc[k].name?"B":"A"); ex[nex++]=sc[k].id; }
}
static void sh_form(int budget)
{
   int k=budget>0?(int)sx_choose("f",3):0;
   if(k==0) { out("p("); sh_term(0); out(","); sh_term(1); out(")"); }
   else if(k==1) { out("("); sh_form(budget-1); out("&"); sh_form(sx_param("bal",0)?budget-1:0); out(")"); }
   else
   {
      int m=(int)sx_choose("ex",sx_param("bal",0)?2:1); out(m?"?[":"![");
      int cnt=1+(int)sx_choose("two",sx_param("two",1));
      for(int i=0;i<cnt;i++) { int nm=(int)sx_choose("name",2), ty=(int)sx_choose("vty",2); if(i) out(","); out(nm?"B:":"A:"); out(ty_n[ty]); sc[nsc].name=nm; sc[nsc].ty=ty; sc[nsc++].id=nb_++; }
      out("]:("); sh_form(budget-1); out(")"); nsc-=cnt;
   }
}
static int got[16], ngot, gb; static struct { FunCode v; int id; } gs[8]; static int ngs;
static void sh_walk(Term_p t)
{
   if(t->f_code==H.sig->qall_code||t->f_code==H.sig->qex_code) { gs[ngs].v=t->args[0]->f_code; gs[ngs++].id=gb++; sh_walk(t->args[1]); ngs--; return; }
   if(t->f_code<0) { int j=ngs-1; while(j>=0&&gs[j].v!=t->f_code) j--; got[ngot++]=j<0?-2:gs[j].id; return; }
   if(t->arity==0) { if(t->f_code!=SIG_TRUE_CODE) got[ngot++]=-1; return; }
   for(int i=0;i<t->arity;i++) sh_walk(t->args[i]);
}
static int sh_same(TFormula_p f) { ngot=gb=ngs=0; sh_walk(f); int r=ngot==nex; for(int i=0;r&&i<nex;i++) r=got[i]==ex[i]; return r; }
void rt_scope(void)
{
   pv_init();
   static const char *decl[]={"tff(t1,type,(s:$tType)).","tff(t2,type,(t:$tType)).","tff(t3,type,(c:s)).","tff(t4,type,(d:t)).","tff(t8,type,(p:(s*t)>$o))."};
   for(int i=0;i<5;i++) { Scanner_p in=CreateScanner(StreamTypeInternalString,(char*)decl[i],true,NULL,true); ScannerSetFormat(in,TSTPFormat); WFormulaParse(in,PS->terms); DestroyScanner(in); }
   static char b[4200]; txt[0]=0; sh_form((int)sx_param("n",3));
   snprintf(b,sizeof b,"tff(in0,axiom,(%s)).",txt); sx_trace(b,0);
   WFormula_p w=readf(b,TSTPFormat);
   sx_assert(sh_same(w->tformula),"each variable refers to its innermost binder");
   OutputFormat=TSTPFormat;
   FILE *o=open_memstream(&grab,&glen); WFormulaPrint(o,w,true); fclose(o); sx_trace(grab,0);
   WFormula_p v=readf(grab,TSTPFormat);
   sx_assert(sh_same(v->tformula),"binding structure survives printing and reading");
   sx_reach("scoped"); sx_observe((long)glen);
}
