/* P20: messages between server and clients arrive whole, unchanged and in order. */
#include "common.h"
#include <errno.h>
#include <netdb.h>
#include <stdlib.h>
#include <cio_network.h>
#include <cio_multiplexer.h>
#include <cio_simplestuff.h>

/* The connection: bytes written and not read yet.  The solver decides how many bytes each system
   call moves and whether it fails; closed = the peer has closed its side. */
#define WIRE 2200
static unsigned char wire[WIRE]; static int wn, rp, closed, zeros, fails, wfail, rfail, maxchunk, calls, longm;
ssize_t vh_write(int fd, const void *b, size_t n)
{
   const unsigned char *p=b;
   sx_assert(fd==5,"the message goes to the connection");
   calls++;
   if(fails>0 && sx_choose("wfail",2)) { fails--; wfail=1; errno=EPIPE; return -1; }
   if(n==0) return 0;
   sx_assert(n<=(size_t)(WIRE-wn),"no more than the message is written");
   int k, m=(int)n; if(maxchunk&&m>maxchunk) m=maxchunk;
   if(zeros>0) { k=(int)sx_choose("w",m+1); if(!k) zeros--; } else k=1+(int)sx_choose("w",m);
   for(int i=0;i<(int)n;i++) { volatile unsigned char c=p[i]; (void)c; if(i<k) wire[wn++]=p[i]; }
   return k;
}
ssize_t vh_read(int fd, void *b, size_t n)
{
   unsigned char *p=b;
   sx_assert(fd==5,"the message is taken from the connection");
   calls++;
   if(fails>0 && sx_choose("rfail",2)) { fails--; rfail=1; errno=ECONNRESET; return -1; }
   if(n==0) return 0;
   /* the buffer must hold all that was asked for */
   volatile unsigned char *q=p; long last;
   if(!sx_is_symbolic((long)n)) last=(long)n-1;
   else if(n>65536) last=65535;
   else last=n<=8?sx_concretize((long)n)-1:-1;
   if(last>=0) q[last]=q[last];
   int m=wn-rp;
   if(m==0) { if(!closed) sx_done(); return 0; }   /* would block forever: end of this path */
   if((size_t)m>n) m=(int)sx_concretize((long)n);
   if(maxchunk&&m>maxchunk) m=maxchunk;
   int k;
   if(longm) { static int few; int c=few++<4?(int)sx_choose("part",3):2; k=c==0?1:c==1?(m>1?m-1:1):m; }
   else k=1+(int)sx_choose("r",m);
   for(int i=0;i<k;i++) p[i]=wire[rp++];
   return k;
}
static int open_[8], conn_[8], nsock, nconn, naddr, gai, freed; static struct addrinfo ai[4]; static struct sockaddr sa[4];
int vh_close(int fd)
{
   if(fd>=20&&fd<28) { sx_assert(open_[fd-20],"only an open socket is closed"); open_[fd-20]=0; return 0; }
   sx_assert(fd==5,"only the connection is closed"); return 0;
}
int vh_getaddrinfo(const char *h, const char *p, const struct addrinfo *hint, struct addrinfo **res)
{
   sx_assert(strcmp(h,"host")==0&&strcmp(p,"4711")==0,"the given host and port are resolved");
   if(gai) return gai;
   for(int i=0;i<naddr;i++) { ai[i].ai_family=2; ai[i].ai_socktype=1; ai[i].ai_protocol=6; ai[i].ai_addr=&sa[i]; ai[i].ai_addrlen=sizeof sa[i]; ai[i].ai_next=i+1<naddr?&ai[i+1]:NULL; }
   *res=ai; return 0;
}
void vh_freeaddrinfo(struct addrinfo *a) { freed=1; }
int vh_socket(int d, int t, int p) { errno=EMFILE; if(sx_choose("socket",2)) return -1; open_[nsock]=1; return 20+nsock++; }
int vh_connect(int fd, const struct sockaddr *a, socklen_t l)
{
   sx_assert(fd>=20&&fd<20+nsock&&open_[fd-20],"connect uses an open socket"); sx_assert(!freed,"addresses are used while they exist");
   errno=ECONNREFUSED; if(sx_choose("connect",2)) return -1;
   conn_[fd-20]=1; nconn++; return 0;
}
const char *vh_gai_strerror(int e) { sx_assert(e==gai&&gai,"the reason of a failed resolution is reported"); return "reason"; }
void vh_exit(int st) { sx_assert(nconn==0,"a connection that was made is used"); sx_assert(st!=0,"failure is reported"); sx_reach("refused"); sx_done(); for(;;); }
/* connecting: the first address that accepts is used; failure is an error exit, never a descriptor */
void net_conn(void)
{
   naddr=1+(int)sx_choose("naddr",sx_param("n",3));
   static const int errs[]={0,EAI_NONAME,EAI_AGAIN,EAI_FAIL,EAI_SERVICE,EAI_FAMILY,EAI_MEMORY};
   gai=errs[sx_choose("resolve",7)];
   int s=CreateClientSock("host",4711);
   sx_assert(!gai,"a name that cannot be resolved is an error");
   sx_assert(s>=20&&s<28&&open_[s-20]&&conn_[s-20],"the socket returned is connected");
   sx_assert(nconn==1,"one connection is made");
   for(int i=0;i<nsock;i++) sx_assert(!open_[i]||20+i==s,"no other socket stays open");
   sx_reach("connected");
}

static char msg[4][24]; static int ml[4];
static void mk(int i, int maxl, int minl)
{
   ml[i]=minl+(int)sx_choose("len",maxl-minl+1);
   for(int j=0;j<ml[i];j++) msg[i][j]=(char)sx_int("byte",1,255);
   msg[i][ml[i]]=0;
}
static void put(int i)   /* the documented wire format: total length in network byte order, then the text */
{
   unsigned len=ml[i]+4;
   wire[wn++]=len>>24; wire[wn++]=len>>16; wire[wn++]=len>>8; wire[wn++]=len;
   for(int j=0;j<ml[i];j++) wire[wn++]=msg[i][j];
}
static long same(const char *s, int i)
{
   long eq=1; int j=0;
   for(j=0;j<ml[i];j++) { eq=sx_and(eq,s[j]==msg[i][j]); if(!sx_is_symbolic(s[j])&&s[j]==0) return 0; }
   return sx_and(eq,s[j]==0);
}
/* sending: exactly the documented bytes, however the writes are split */
void net_send(void)
{
   int n=(int)sx_param("n",1), L=(int)sx_param("len",3);
   zeros=(int)sx_param("zeros",1); fails=(int)sx_param("fails",0);
   int exp=0;
   for(int i=0;i<n;i++)
   {
      mk(i,L,0); int start=wn;
      MsgStatus st=TCPStringSend(5,msg[i],false);
      if(wfail) { sx_assert(st==NWError,"a failed write is reported"); sx_reach("failed"); return; }
      sx_assert(st==NWSuccess,"a complete transmission is reported as such");
      exp+=ml[i]+4;
      sx_assert(wn==exp,"the message is written completely, once");
      unsigned len=ml[i]+4;
      sx_assert(wire[start]==0&&wire[start+1]==0&&wire[start+2]==(len>>8)&&wire[start+3]==(len&255),"the length field is the total length");
      for(int j=0;j<ml[i];j++) sx_assert(wire[start+4+j]==(unsigned char)msg[i][j],"the text is written unchanged");
      sx_observe(wn);
   }
   sx_reach("sent");
}
/* receiving: the same strings in order, however the reads are split */
void net_recv(void)
{
   int n=(int)sx_param("n",2), L=(int)sx_param("len",2);
   for(int i=0;i<n;i++) { mk(i,L,(int)sx_param("minl",0)); put(i); }
   closed=1; fails=(int)sx_param("fails",0); maxchunk=(int)sx_param("chunk",0);
   int cut=0;
   if(sx_param("cut",0)) { cut=(int)sx_choose("cut",wn); wn=cut; cut=1; }
   int end=0;
   for(int i=0;i<n;i++)
   {
      MsgStatus st=NWIncomplete; int before=rp;
      end+=ml[i]+4;
      char *s=TCPStringRecv(5,&st,false);
      if(rfail) { sx_assert(st==NWError&&!s,"a failed read is reported"); sx_reach("failed"); return; }
      if(cut && wn<end) { sx_assert(st==NWConnClosed&&!s,"a connection closed within a message is reported, not a message"); sx_reach("cut"); return; }
      sx_assert(st==NWSuccess&&s!=NULL,"a complete message is reported as such");
      sx_assert(rp==end,"exactly the message is taken from the connection"); (void)before;
      sx_assert(same(s,i),"the text arrives unchanged");
      FREE(s);
   }
   MsgStatus st; char *s=TCPStringRecv(5,&st,false);
   if(rfail) { sx_assert(st==NWError&&!s,"a failed read is reported"); return; }
   sx_assert(st==NWConnClosed&&!s,"the end of the connection is reported");
   sx_reach("received");
}
/* whatever a peer sends: no memory error, and only a well-formed message is accepted */
void net_bad(void)
{
   int k=(int)sx_param("k",6);
   k=(int)sx_choose("size",k+1);
   for(int i=0;i<k;i++) { if(i<4) sx_bytes("hdr",wire+i,1); else wire[i]=(unsigned char)sx_int("byte",1,255); }
   wn=k; closed=1; maxchunk=(int)sx_param("chunk",0);
   unsigned len=k<4?0:((unsigned)wire[0]<<24|wire[1]<<16|wire[2]<<8|wire[3]);
   MsgStatus st; char *s=TCPStringRecv(5,&st,false);
   if(st==NWSuccess)
   {
      sx_assert(s!=NULL&&k>=4,"a message needs a header");
      sx_assert(len>=4&&len<=(unsigned)k,"an accepted message has the length its header says");
      sx_assert(strlen(s)==len-4,"an accepted message has the announced text"); 
      sx_reach("accepted");
   }
   else { sx_assert(s==NULL,"no text without a message"); sx_assert(!(k>=4&&len>=4&&len<=(unsigned)k),"a complete message is accepted"); sx_reach("rejected"); }
}
/* the non-blocking channels: any interleaving of writes and reads */
void net_chan(void)
{
   int n=(int)sx_param("n",2), L=(int)sx_param("len",1), steps=(int)sx_param("steps",9);
   TCPChannel_p a=TCPChannelAlloc(5), b=TCPChannelAlloc(5);
   for(int i=0;i<n;i++) { mk(i,L,0); TCPChannelSendStr(a,msg[i]); }
   maxchunk=(int)sx_param("chunk",0);
   int got=0, tot=0; for(int i=0;i<n;i++) tot+=ml[i]+4;
   while(steps-- && got<n)
   {
      int canw=wn<tot, canr=wn>rp;
      if(!canw&&!canr) break;
      int c=(canw&&canr)?(int)sx_choose("op",2):canr;
      if(!c) { int w0=wn; MsgStatus st=TCPChannelWrite(a); sx_assert(st==NWSuccess||st==NWIncomplete,"writing reports progress"); sx_assert(wn>w0,"a queued message is written"); }
      else   { MsgStatus st=TCPChannelRead(b); sx_assert(st==NWSuccess||st==NWIncomplete,"reading reports progress"); }
      while(TCPChannelHasInMsg(b))
      {
         sx_assert(got<n,"no message is received twice");
         char *s=TCPMsgUnpack(PQueueGetNextP(b->in));
         sx_assert(same(s,got),"messages arrive unchanged and in order"); FREE(s); got++;
      }
   }
   if(wn==tot&&rp==tot)
   {
      sx_assert(got==n,"every message arrives");
      int c0=calls; sx_assert(TCPChannelWrite(a)==NWSuccess&&calls==c0,"nothing is sent when nothing is queued");
      sx_reach("drained");
   }
   else sx_reach("bounded");
   TCPChannelFree(a); TCPChannelFree(b);
}
/* a block of messages up to a terminator */
void net_block(void)
{
   int n=(int)sx_param("n",3), L=(int)sx_param("len",2), t=-1;
   static char exp[80]; int el=0;
   for(int i=0;i<n;i++) { mk(i,L,1); }
   const char *term="go\n";
   if(sx_param("term",1)) { strcpy(msg[n],term); ml[n]=3; }
   DStr_p d=DStrAlloc(); DStrAppendStr(d,"<"); exp[el++]='<';
   for(int i=0;i<=n;i++) { put(i); if(i<n) for(int j=0;j<ml[i];j++) exp[el++]=msg[i][j]; }
   closed=1; maxchunk=(int)sx_param("chunk",0); (void)t;
   sx_assert(TCPReadTextBlock(d,5,(char*)term),"a terminated block is read");
   sx_assert(DStrLen(d)==el,"the block is the text before the terminator");
   for(int j=0;j<el;j++) sx_assert(DStrAddress(d,0)[j]==exp[j],"the block arrives unchanged");
   sx_assert(rp==wn,"the terminator is consumed");
   sx_reach("end");
}
/* messages around and beyond the size of the receive buffer */
void net_long(void)
{
   static const int ls[]={1019,1020,1021,1023,1024,1025,2047,2050}; static char big[2100];
   int n=ls[sx_choose("len",8)];
   for(int i=0;i<n;i++) big[i]='a'+i%23;
   big[n/2]=(char)sx_int("byte",1,255); big[n-1]=(char)sx_int("byte",1,255);
   unsigned len=n+4; wire[0]=0; wire[1]=len>>16; wire[2]=len>>8; wire[3]=len; for(int i=0;i<n;i++) wire[4+i]=big[i]; wn=n+4;
   closed=1; longm=1;
   MsgStatus st; char *s=TCPStringRecv(5,&st,false);
   sx_assert(st==NWSuccess&&s,"a long message is received");
   for(int i=0;i<=n;i++) sx_assert(s[i]==big[i],"a long message arrives unchanged");
   sx_assert(rp==wn,"a long message is taken from the connection completely");
   sx_reach("long");
}
