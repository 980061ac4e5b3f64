/* athsim: deterministic simulator for a whole Athena job in one process.
 *
 * The code under test is compiled, unmodified, to a shared object; every
 * simulated MPI rank is its own private copy of that object running on its own
 * coroutine.  All sources of nondeterminism go through this file: the order in
 * which ranks run, message delivery, completion order, send buffering,
 * collectives, the file system (in memory, under real stdio), clocks, signals,
 * allocation.  Every decision is one call of choose(); decision 0 is the calm
 * default, so a run is fully described by (job spec, list of non-zero
 * decisions).  A seed generates that list; a replay file stores it.
 *
 * Protocol: athsim SO ; then one spec path per stdin line; answers one line. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "mpi.h"

#define MAXR 32
#define MAXDEV 400000
#define MAXFAULT 64
#define STACKSZ (64L<<20)

/* ------------------------------------------------------------------ shared */
typedef struct { uint32_t idx, val; } dev_t_;
typedef struct {
  volatile int started, finished;      /* child finished writing its result  */
  volatile int cur_rank;
  volatile long nchoice, ndev, nseam, nsched, nio;
  volatile uint64_t hash;
  volatile int fired[32];
  volatile double simtime;
  char last[160];
  dev_t_ dev[MAXDEV];
} shared_t;
static shared_t *S;

/* ------------------------------------------------------------------- spec  */
enum { F_CRASH_SEAM, F_CRASH_IO, F_SIG, F_ALLOC, F_OPENFAIL, F_ENOSPC, F_WFAIL,
       F_RFAIL, F_CLOSEFAIL, F_MKDIRFAIL, F_CLOCKJUMP, F_RTRUNC, F_SHORTREAD, F_CHDIRFAIL, F_NKIND };
static const char *fname_[] = {"crash_seam","crash_io","signal","alloc_fail",
  "open_fail","disk_full","write_fail","read_fail","close_fail","mkdir_fail",
  "clock_jump","read_trunc","short_read","chdir_fail"};
typedef struct { int kind, rank, fired; long k, v; double x; char pat[128]; } fault_t;
static struct {
  uint64_t seed;
  int nranks, replay, nargs, nfault;
  char *argv[128];
  char out[512];
  fault_t fault[MAXFAULT];
  double skew[MAXR];
  long bufsize, budget;
  int cpu;
  int junk;               /* 0 zero fill, 1 NaN bytes, 2 random              */
  int redperm;            /* permuted reduction order                        */
  int quiet;              /* ignore                                          */
  char fsin[512];
  int obs_every, obs_out;
  int pol_set; int pol_net, pol_rank, pol_send, pol_lazy, pol_coll, pol_any;
  int wantio, wantdev;
} P;
int sim_obs_every(void){ return P.obs_every; }
int sim_obs_out(void){ return P.obs_out; }

/* ------------------------------------------------------------------- PRNG  */
typedef struct { uint64_t s; } rng_t;
static uint64_t rnd(rng_t *r){
  uint64_t z=(r->s+=0x9E3779B97F4A7C15ULL);
  z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL;
  return z^(z>>31);
}
static double rndu(rng_t *r){ return (rnd(r)>>11)*(1.0/9007199254740992.0); }
static rng_t G, GJ;       /* scheduling decisions; junk contents             */

/* -------------------------------------------------------------- violations */
typedef struct { char kind[40]; char text[400]; } viol_t;
static viol_t viols[64]; static int nviol;
static void violate(const char *kind, const char *fmt, ...){
  if(nviol>=64) return;
  for(int i=0;i<nviol;i++) if(!strcmp(viols[i].kind,kind) && i>8) return;
  va_list ap; va_start(ap,fmt);
  snprintf(viols[nviol].kind,40,"%s",kind);
  vsnprintf(viols[nviol].text,400,fmt,ap);
  va_end(ap); nviol++;
}

/* ------------------------------------------------------------------- ranks */
typedef struct stream_s stream_t;
typedef struct request_s req_t;
enum { R_NEW, R_READY, R_BLOCKED, R_DONE };
typedef struct {
  int id, state;
  ucontext_t ctx; void *stack;
  int (*mainfn)(int,char**);
  int (*pred)(void*); void *predarg;
  char where[96];
  int err, exitcode, mpi_init, mpi_fin, exited;
  char cwd[512];
  FILE *so,*se; char *sobuf,*sebuf; size_t solen,selen;
  char *outb; size_t outn,outcap; char *errb; size_t errn,errcap;
  void (*sigh[65])(int);
  long nseam, nalloc; unsigned randst;
  stream_t *streams;
  req_t **req; int nreq, capreq;
  int *posted, nposted, capposted;       /* request ids in post order         */
  struct msg_s **unexp; int nunexp,capunexp;
  uint64_t collseq[4096];
  char *obs; size_t obsn, obscap;
  double prio;
} rank_t;
static rank_t R[MAXR];
static int cur=-1;                        /* running rank, -1 = scheduler      */
static ucontext_t schedctx;
static int in_rank=0;
static int job_over=0, job_status=0; static char job_why[256];
static double simt=0;
static long nwrites=0, nopens=0, nreads=0, ncloses=0, nmkdirs=0, totbytes=0, nchdirs=0;
static FILE *real_out,*real_err;

/* io log */
static char *iolog; static size_t iologn,iologcap;
static void iol(const char *fmt,...){
  if(!P.wantio) return;
  char b[700]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(n>(int)sizeof b-1) n=sizeof b-1;
  if(iologn+n+1>iologcap){ iologcap=iologcap?2*iologcap:65536; if(iologcap<iologn+n+1) iologcap=iologn+n+1; iolog=realloc(iolog,iologcap);}
  memcpy(iolog+iologn,b,n); iologn+=n;
}

static double rclock(void);
/* the output driver starts a round on this process */
void sim_mark(int nstep,int flag,double t,double dt){ iol("k %d %d %d %a %a %a\n",cur,nstep,flag,t,dt,rclock()); }

/* ---------------------------------------------------------------- decisions */
static dev_t_ *repdev; static long nrep, irep;
static void hashin(uint64_t v){ S->hash=(S->hash^v)*0x100000001b3ULL; S->hash^=S->hash>>29; }
static int choose(int kind,int n,int sugg){
  if(n<=1) return 0;
  long idx=S->nchoice++; int c=0;
  if(P.replay){
    while(irep<nrep && repdev[irep].idx<idx) irep++;
    if(irep<nrep && repdev[irep].idx==idx) c=repdev[irep].val;
    if(c>=n) c=n-1;
  } else c=sugg;
  if(c<0) c=0; if(c>=n) c=n-1;
  if(c && S->ndev<MAXDEV){ S->dev[S->ndev].idx=idx; S->dev[S->ndev].val=c; S->ndev++; }
  hashin(((uint64_t)kind<<32)|(uint32_t)c);
  return c;
}
/* per-run policy, drawn from the seed */
static struct { int net,rank,send,coll,any; double pnet,plazy,psync,pswitch; int starve; long thresh; int pctn; long pct[8]; } Q;
static void draw_policy(void){
  Q.net=rnd(&G)%4; Q.rank=rnd(&G)%5; Q.send=rnd(&G)%4; Q.coll=rnd(&G)%3; Q.any=rnd(&G)%3;
  Q.pnet=rndu(&G); Q.plazy=(rnd(&G)%3)*0.5; Q.psync=rndu(&G); Q.pswitch=rndu(&G)*rndu(&G);
  Q.starve=rnd(&G)%P.nranks; Q.thresh=1L<<(rnd(&G)%16);
  for(int i=0;i<P.nranks;i++) R[i].prio=rndu(&G);
  if(P.pol_set){
    if(P.pol_net>=0) Q.net=P.pol_net; if(P.pol_rank>=0) Q.rank=P.pol_rank;
    if(P.pol_send>=0) Q.send=P.pol_send; if(P.pol_coll>=0) Q.coll=P.pol_coll;
    if(P.pol_any>=0) Q.any=P.pol_any; if(P.pol_lazy>=0) Q.plazy=0.5*P.pol_lazy;
  }
}

/* ------------------------------------------------------------- switching   */
static void to_sched(void){ int me=cur; R[me].err=errno; in_rank=0; swapcontext(&R[me].ctx,&schedctx); errno=R[me].err; }
static void die_rank(void){ in_rank=0; setcontext(&schedctx); }
static void end_job(int st,const char *fmt,...){
  if(!job_over){ va_list ap; va_start(ap,fmt); vsnprintf(job_why,sizeof job_why,fmt,ap); va_end(ap); job_over=1; job_status=st; }
  if(in_rank) die_rank();
}
static void fire(int k){ S->fired[k]++; }
static void deliver_signal(int s);
static long sigcount[MAXFAULT];
/* a point at which faults may strike; no rescheduling */
static void tick(const char *what){
  if(cur<0||job_over) return;
  rank_t *r=&R[cur]; S->nseam++; r->nseam++; simt+=1e-3; S->simtime=simt;
  snprintf(S->last,sizeof S->last,"rank %d: %s",cur,what);
  if(S->nseam>P.budget){ end_job(3,"event budget exhausted in rank %d at %s",cur,what); }
  for(int i=0;i<P.nfault;i++){ fault_t *f=&P.fault[i];
    if(f->fired) continue;
    if(f->kind==F_CRASH_SEAM && f->k==S->nseam){ f->fired=1; fire(f->kind); end_job(9,"simulated crash of the job at seam %ld (%s, rank %d)",f->k,what,cur); }
    if(f->kind==F_SIG && f->rank==cur && (f->x<=0 || R[cur].sigh[f->v]!=SIG_DFL) && (f->pat[0]&&strcmp(f->pat,"*") ? (strstr(what,f->pat)&&++sigcount[i]==f->k) : r->nseam>=f->k)){ f->fired=1; fire(f->kind); deliver_signal((int)f->v); }
    if(f->kind==F_CLOCKJUMP && (f->rank<0||f->rank==cur) && S->nseam>=f->k){ f->fired=1; fire(f->kind); if(f->rank<0) for(int q=0;q<MAXR;q++) P.skew[q]+=f->x; else P.skew[f->rank]+=f->x; }
  }
}
static void seam(const char *what){ if(cur<0) return; snprintf(R[cur].where,96,"%s",what); tick(what); to_sched(); }
static void block(int (*pred)(void*),void *arg,const char *what){
  while(!pred(arg)){ rank_t *r=&R[cur]; snprintf(r->where,96,"%s",what); r->pred=pred; r->predarg=arg; r->state=R_BLOCKED; to_sched(); }
}

/* ----------------------------------------------------------- memory layer  */
typedef struct { uint64_t magic; size_t n; int rank; int pad; uint64_t magic2; } hdr_t;
#define MAGIC 0x51AC0DEDBADC0FFEULL
#define TAIL 16
static int alloc_fault(size_t n){
  if(!in_rank||cur<0) return 0;
  rank_t *r=&R[cur]; r->nalloc++;
  for(int i=0;i<P.nfault;i++){ fault_t *f=&P.fault[i];
    if(f->kind!=F_ALLOC||f->rank!=cur) continue;
    if(r->nalloc==f->k || (f->v && r->nalloc>f->k)){ fire(F_ALLOC); f->fired=1; return 1; } }
  return 0;
}
static void *galloc(size_t n,int zero){
  if(n>(1UL<<36)){ errno=ENOMEM; return NULL; }
  char *b=malloc(sizeof(hdr_t)+n+TAIL); if(!b) return NULL;
  hdr_t *h=(hdr_t*)b; h->magic=MAGIC; h->n=n; h->rank=cur; h->magic2=~(MAGIC^(uint64_t)n);
  char *p=b+sizeof(hdr_t);
  if(zero||P.junk==0) memset(p,0,n);
  else if(P.junk==1) memset(p,0xFF,n);
  else { size_t i; for(i=0;i+8<=n;i+=8){ uint64_t v=rnd(&GJ); memcpy(p+i,&v,8);} for(;i<n;i++) p[i]=(char)rnd(&GJ); }
  memset(p+n,0xA5,TAIL);
  return p;
}
static hdr_t *ghdr(void *p){ hdr_t *h=(hdr_t*)((char*)p-sizeof(hdr_t)); return (h->magic==MAGIC && h->magic2==~(MAGIC^(uint64_t)h->n))?h:NULL; }
static void gcheck(hdr_t *h,const char *w){ unsigned char *t=(unsigned char*)(h+1)+h->n; for(int i=0;i<TAIL;i++) if(t[i]!=0xA5){ violate("heap-overflow","rank %d wrote past a %zu-byte block (found at %s)",h->rank,h->n,w); break; } }
static int range_active(const char *a,size_t n);
void *__wrap_malloc(size_t n){ if(alloc_fault(n)){ errno=ENOMEM; return NULL;} return galloc(n,0); }
void *__wrap_calloc(size_t a,size_t b){ if(alloc_fault(a*b)){ errno=ENOMEM; return NULL;} if(b&&a>((size_t)-1)/b) return NULL; return galloc(a*b,1); }
void __wrap_free(void *p){
  if(!p) return; hdr_t *h=ghdr(p); if(!h){ free(p); return; }
  gcheck(h,"free");
  if(cur>=0 && in_rank && range_active(p,h->n)) violate("buffer-freed","rank %d freed a buffer of a pending communication",cur);
  h->magic=0xDEADDEADDEADDEADULL; memset(p,0xDD,h->n); free(h);
}
void *__wrap_realloc(void *p,size_t n){
  if(!p) return __wrap_malloc(n);
  hdr_t *h=ghdr(p);
  if(alloc_fault(n)){ errno=ENOMEM; return NULL; }
  if(!h) return realloc(p,n);
  gcheck(h,"realloc"); void *q=galloc(n,0); memcpy(q,p,h->n<n?h->n:n); h->magic=0; free(h); return q;
}
char *__wrap_strdup(const char *s){ size_t n=strlen(s)+1; char *p=__wrap_malloc(n); if(p) memcpy(p,s,n); return p; }

/* --------------------------------------------------------------- filesystem */
typedef struct { char *path; int dir, gone; char *d; size_t n,cap; } inode_t;
static inode_t *fs; static int nfs,capfs;
static inode_t *fs_find(const char *p){ for(int i=0;i<nfs;i++) if(!fs[i].gone&&!strcmp(fs[i].path,p)) return &fs[i]; return NULL; }
static inode_t *fs_add(const char *p,int dir){ if(nfs==capfs){ capfs=capfs?2*capfs:256; fs=realloc(fs,capfs*sizeof *fs);} inode_t *f=&fs[nfs++]; memset(f,0,sizeof *f); f->path=strdup(p); f->dir=dir; return f; }
static void norm(const char *cwd,const char *p,char *out){
  char tmp[2048]; if(*p=='/') snprintf(tmp,sizeof tmp,"%s",p); else snprintf(tmp,sizeof tmp,"%s/%s",cwd,p);
  char *parts[128]; int n=0; char *sv=NULL;
  for(char *t=strtok_r(tmp,"/",&sv);t;t=strtok_r(NULL,"/",&sv)){ if(!strcmp(t,".")) continue; if(!strcmp(t,"..")){ if(n) n--; continue; } if(n<128) parts[n++]=t; }
  out[0]=0; for(int i=0;i<n;i++){ strcat(out,"/"); strcat(out,parts[i]); } if(!n) strcpy(out,"/");
}
static int path_dirs_ok(const char *orig,const char *cwd){
  /* every intermediate directory named in the path (also before '..') must exist */
  char tmp[2048],acc[2048]; if(*orig=='/') snprintf(tmp,sizeof tmp,"%s",orig); else snprintf(tmp,sizeof tmp,"%s/%s",cwd,orig);
  char *sl=tmp; while((sl=strchr(sl+1,'/'))){ char c=*sl; *sl=0; norm("/",tmp,acc); inode_t *f=fs_find(acc); *sl=c; if(strcmp(acc,"/")&&(!f||!f->dir)) return 0; }
  return 1;
}
struct stream_s { FILE *fp; int ino,rd,wr,app,rank,dead; size_t pos; char path[512]; char *buf; stream_t *next; };
static int faultmatch(fault_t *f,int kind,long count,const char *path){
  if(f->kind!=kind) return 0;
  if(f->rank>=0 && f->rank!=cur) return 0;
  if(f->pat[0] && strcmp(f->pat,"*") && !strstr(path,f->pat)) return 0;
  return 1;
}
/* count matching operations per fault (so k counts only operations on matching paths) */
static long fcount[MAXFAULT];
static int fault_hit(int kind,const char *path,fault_t **out){
  for(int i=0;i<P.nfault;i++){ fault_t *f=&P.fault[i];
    if(!faultmatch(f,kind,0,path)) continue;
    fcount[i]++;
    if(fcount[i]==f->k || (f->x>0 && fcount[i]>=f->k)){ f->fired++; fire(kind); *out=f; return 1; } }
  return 0;
}
static ssize_t ck_read(void *c,char *b,size_t n){
  stream_t *s=c; if(s->dead) return 0;
  nreads++; seam("file read"); fault_t *f;
  if(fault_hit(F_RFAIL,s->path,&f)){ errno=(int)f->v; return -1; }
  inode_t *I=&fs[s->ino]; size_t av=I->n>s->pos?I->n-s->pos:0; if(n>av) n=av;
  if(n>1 && fault_hit(F_SHORTREAD,s->path,&f)) n=1+n/3;
  memcpy(b,I->d+s->pos,n); s->pos+=n; return n;
}
static void put(inode_t *I,size_t pos,const char *b,size_t n){
  if(pos+n>I->cap){ I->cap=2*(pos+n)+4096; I->d=realloc(I->d,I->cap); }
  if(pos>I->n) memset(I->d+I->n,0,pos-I->n);
  memcpy(I->d+pos,b,n); if(pos+n>I->n) I->n=pos+n;
}
static ssize_t ck_write(void *c,const char *b,size_t n){
  stream_t *s=c; if(s->dead) return n;
  seam("file write"); nwrites++; S->nio=nwrites;
  iol("w %d %s %zu %ld\n",s->rank,s->path,n,nwrites);
  fault_t *f; size_t want=n; int er=0;
  for(int i=0;i<P.nfault;i++){ f=&P.fault[i];
    if(f->kind==F_CRASH_IO && f->k==nwrites){ size_t m=(size_t)(f->x*(double)n); if(m>n) m=n; inode_t *I=&fs[s->ino]; put(I,s->app?I->n:s->pos,b,m); fire(F_CRASH_IO); end_job(9,"simulated crash of the job in write %ld (%zu of %zu bytes of %s)",nwrites,m,n,s->path); }
    if(f->kind==F_ENOSPC && (!f->pat[0]||!strcmp(f->pat,"*")||strstr(s->path,f->pat)) && totbytes+(long)n>f->k && (f->v==0 || totbytes+(long)n<=f->k+f->v || fcount[i]==0)){
      long room=f->k-totbytes; if(room<0) room=0; if((long)want>room) want=room; er=ENOSPC; fcount[i]++; fire(F_ENOSPC); f->fired++; }
  }
  if(!er && fault_hit(F_WFAIL,s->path,&f)){ want=0; er=(int)f->v; }
  inode_t *I=&fs[s->ino]; size_t pos=s->app?I->n:s->pos;
  put(I,pos,b,want); s->pos=pos+want; totbytes+=want;
  if(er){ iol("e %d %s errno=%d\n",s->rank,s->path,er); errno=er; return want?(ssize_t)want:0; }
  return n;
}
static int ck_seek(void *c,off64_t *o,int wh){
  stream_t *s=c; if(s->dead) return 0; off64_t b=wh==SEEK_SET?0:wh==SEEK_CUR?(off64_t)s->pos:(off64_t)fs[s->ino].n; if(b+*o<0){ errno=EINVAL; return -1;} s->pos=b+*o; *o=s->pos; return 0;
}
static int ck_close(void *c){ stream_t *s=c; if(s->dead) return 0; fault_t *f; ncloses++; seam("file close");
  iol("c %d %s %ld\n",s->rank,s->path,ncloses);
  if(s->wr && fault_hit(F_CLOSEFAIL,s->path,&f)){ iol("e %d %s close errno=%ld\n",s->rank,s->path,f->v); errno=(int)f->v; return -1; } return 0; }
FILE *__wrap_fopen(const char *name,const char *mode){
  char p[2048]; seam("fopen"); if(!name){ errno=EINVAL; return NULL; }
  rank_t *r=&R[cur]; norm(r->cwd,name,p); fault_t *f; nopens++;
  int rd=mode[0]=='r'||strchr(mode,'+'), wr=mode[0]!='r'||strchr(mode,'+'), app=mode[0]=='a';
  iol("o %d %s %s %ld\n",cur,p,mode,nopens);
  if(wr){ if(fault_hit(F_OPENFAIL,p,&f)){ errno=(int)f->v; iol("e %d %s open errno=%d\n",cur,p,errno); return NULL; } }
  if(!path_dirs_ok(name,r->cwd)){ errno=ENOENT; return NULL; }
  inode_t *I=fs_find(p);
  if(I&&I->dir){ errno=EISDIR; return NULL; }
  if(!I){ if(mode[0]=='r'){ errno=ENOENT; return NULL; } I=fs_add(p,0); }
  else if(mode[0]=='w'){ I->n=0; }
  stream_t *s=calloc(1,sizeof *s); s->ino=I-fs; s->rd=rd; s->wr=wr; s->app=app; s->rank=cur; snprintf(s->path,sizeof s->path,"%s",p);
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close};
  s->fp=fopencookie(s,mode,io); if(!s->fp) return NULL;
  s->buf=malloc(P.bufsize); setvbuf(s->fp,s->buf,_IOFBF,P.bufsize);
  s->next=r->streams; r->streams=s; return s->fp;
}
static stream_t *find_stream(FILE *fp,int unlink_){ for(int q=0;q<P.nranks;q++) for(stream_t **pp=&R[q].streams;*pp;pp=&(*pp)->next) if((*pp)->fp==fp){ stream_t *s=*pp; if(unlink_) *pp=s->next; return s; } return NULL; }
int __wrap_fclose(FILE *fp){ seam("fclose"); stream_t *s=find_stream(fp,1);
  if(!s){ if(fp==R[cur].so||fp==R[cur].se) return 0; violate("bad-fclose","rank %d closes a stream that is not open",cur); return EOF; }
  return fclose(fp); }
FILE *__wrap_freopen(const char *n,const char *m,FILE *fp){ if(fp) __wrap_fclose(fp); return __wrap_fopen(n,m); }
int __wrap_fflush(FILE *fp){ seam("fflush"); if(!fp) return 0; return fflush(fp); }
int __wrap_mkdir(const char *name,mode_t m){ char p[2048]; seam("mkdir"); norm(R[cur].cwd,name,p); fault_t *f; nmkdirs++; iol("m %d %s\n",cur,p);
  if(fault_hit(F_MKDIRFAIL,p,&f)){ iol("e %d %s mkdir errno=%ld\n",cur,p,f->v); errno=(int)f->v; return -1; }
  if(!path_dirs_ok(name,R[cur].cwd)){ errno=ENOENT; return -1; }
  if(fs_find(p)){ errno=EEXIST; return -1; } fs_add(p,1); return 0; }
int __wrap_chdir(const char *name){ char p[2048]; seam("chdir"); norm(R[cur].cwd,name,p); fault_t *f; nchdirs++; iol("d %d %s\n",cur,p);
  if(fault_hit(F_CHDIRFAIL,p,&f)){ iol("e %d %s chdir errno=%ld\n",cur,p,f->v); errno=(int)f->v; return -1; }
  inode_t *I=fs_find(p); if(strcmp(p,"/")&&(!I||!I->dir)){ errno=ENOENT; return -1; } snprintf(R[cur].cwd,512,"%s",p); return 0; }
char *__wrap_getcwd(char *b,size_t n){ if(!b){ n=512; b=galloc(n,1);} snprintf(b,n,"%s",R[cur].cwd); return b; }
int __wrap_stat(const char *name,struct stat *st){ char p[2048]; seam("stat"); norm(R[cur].cwd,name,p); inode_t *I=fs_find(p); if(!I){ errno=ENOENT; return -1;} memset(st,0,sizeof *st); st->st_mode=I->dir?S_IFDIR|0775:S_IFREG|0664; st->st_size=I->n; return 0; }
int __wrap_access(const char *name,int m){ char p[2048]; seam("access"); norm(R[cur].cwd,name,p); if(fs_find(p)) return 0; errno=ENOENT; return -1; }
int __wrap_unlink(const char *name){ char p[2048]; seam("unlink"); norm(R[cur].cwd,name,p); inode_t *I=fs_find(p); if(!I||I->dir){ errno=ENOENT; return -1;} I->gone=1; iol("u %d %s\n",cur,p); return 0; }
int __wrap_remove(const char *name){ return __wrap_unlink(name); }
int __wrap_rmdir(const char *name){ char p[2048]; seam("rmdir"); norm(R[cur].cwd,name,p); inode_t *I=fs_find(p); if(!I||!I->dir){ errno=ENOENT; return -1;} I->gone=1; return 0; }
int __wrap_rename(const char *a,const char *b){ char p[2048],q[2048]; seam("rename"); norm(R[cur].cwd,a,p); norm(R[cur].cwd,b,q); inode_t *I=fs_find(p); if(!I){ errno=ENOENT; return -1;} inode_t *J=fs_find(q); if(J) J->gone=1; I->path=strdup(q); iol("n %d %s %s\n",cur,p,q); return 0; }
int __wrap_system(const char *c){ seam("system"); iol("S %d %s\n",cur,c?c:""); return 0; }
/* userland stdio calls: fault points without rescheduling */
int __wrap_vfprintf(FILE *fp,const char *f,va_list ap){ tick("fprintf"); return vfprintf(fp,f,ap); }
int __wrap_fprintf(FILE *fp,const char *f,...){ tick("fprintf"); va_list ap; va_start(ap,f); int n=vfprintf(fp,f,ap); va_end(ap); return n; }
size_t __wrap_fwrite(const void *p,size_t a,size_t b,FILE *fp){ tick("fwrite"); return fwrite(p,a,b,fp); }
size_t __wrap_fread(void *p,size_t a,size_t b,FILE *fp){ tick("fread"); return fread(p,a,b,fp); }
char *__wrap_fgets(char *p,int n,FILE *fp){ tick("fgets"); return fgets(p,n,fp); }
int __wrap_fputs(const char *s,FILE *fp){ tick("fputs"); return fputs(s,fp); }

/* ------------------------------------------------------- clocks, signals   */
static double rclock(void){ return 1.7e9+simt+(cur>=0?P.skew[cur]:0); }
time_t __wrap_time(time_t *t){ tick("time"); time_t v=(time_t)rclock(); if(t) *t=v; return v; }
int __wrap_gettimeofday(struct timeval *tv,void *z){ tick("gettimeofday"); double v=rclock(); tv->tv_sec=(long)v; tv->tv_usec=(long)((v-(long)v)*1e6); return 0; }
clock_t __wrap_times(struct tms *b){ long v=(long)(simt*100); memset(b,0,sizeof *b); b->tms_utime=v; return v+1000; }
clock_t __wrap_clock(void){ return (clock_t)(simt*CLOCKS_PER_SEC); }
typedef void (*sigfn)(int);
sigfn __wrap_signal(int s,sigfn h){ tick("signal"); if(s<1||s>64){ errno=EINVAL; return SIG_ERR;} sigfn o=R[cur].sigh[s]; R[cur].sigh[s]=h; return o; }
int __wrap_sigaction(int s,const struct sigaction *a,struct sigaction *o){ tick("sigaction"); if(o){ memset(o,0,sizeof *o); o->sa_handler=R[cur].sigh[s]; } if(a) R[cur].sigh[s]=a->sa_handler; return 0; }
static void deliver_signal(int s){ sigfn h=R[cur].sigh[s];
  if(h==SIG_IGN) return;
  if(h==SIG_DFL) end_job(128+s,"rank %d killed by signal %d",cur,s);
  iol("s %d %d\n",cur,s);
  int e=errno; h(s); errno=e; }
int __wrap_rand(void){ return rand_r(&R[cur].randst); }
void __wrap_srand(unsigned s){ R[cur].randst=s; }
unsigned __wrap_sleep(unsigned s){ simt+=s; seam("sleep"); return 0; }

static void flush_rank(rank_t *r){ for(stream_t *s=r->streams;s;s=s->next) if(s->wr && !s->dead) fflush(s->fp); }
void __wrap_exit(int code){
  rank_t *r=&R[cur]; seam("exit"); flush_rank(r);
  r->exited=1; r->exitcode=code;
  /* only this process is gone (a launcher may, but need not, end the others) */
  if(r->mpi_init && !r->mpi_fin && P.nranks==1) end_job(code?code:1,"rank %d called exit(%d) before MPI_Finalize",cur,code);
  r->state=R_DONE; die_rank();
}
void __wrap__exit(int code){ rank_t *r=&R[cur]; r->exited=1; r->exitcode=code; r->state=R_DONE; die_rank(); }
void __wrap_abort(void){ end_job(134,"rank %d called abort()",cur); }
void __wrap___assert_fail(const char *a,const char *f,unsigned l,const char *fn){ end_job(134,"rank %d assertion %s",cur,a); }

/* ----------------------------------------------------------------- fftw     */
typedef void *fftw_plan_;
extern fftw_plan_ __attribute__((weak)) __real_dummy(void);
static void *fftwsym(const char *n){ static void *h; if(!h) h=dlopen("libfftw3.so.3",RTLD_NOW|RTLD_GLOBAL); return h?dlsym(h,n):NULL; }
fftw_plan_ __wrap_fftw_plan_dft_2d(int a,int b,void *i,void *o,int s,unsigned fl){
  fftw_plan_ (*f)(int,int,void*,void*,int,unsigned)=fftwsym("fftw_plan_dft_2d"); if(!(fl&64)){ memset(i,0xFF,16L*a*b); memset(o,0xFF,16L*a*b);} return f(a,b,i,o,s,64); }
fftw_plan_ __wrap_fftw_plan_dft_3d(int a,int b,int c,void *i,void *o,int s,unsigned fl){
  fftw_plan_ (*f)(int,int,int,void*,void*,int,unsigned)=fftwsym("fftw_plan_dft_3d"); if(!(fl&64)){ memset(i,0xFF,16L*a*b*c); memset(o,0xFF,16L*a*b*c);} return f(a,b,c,i,o,s,64); }

/* --------------------------------------------------------------- observers  */
void sim_obs(const void *p,long n){ if(cur<0) return; rank_t *r=&R[cur]; if(r->obsn+n>r->obscap){ r->obscap=2*(r->obsn+n)+65536; r->obs=realloc(r->obs,r->obscap);} memcpy(r->obs+r->obsn,p,n); r->obsn+=n; }
void sim_note(const char *kind,const char *text){ violate(kind,"rank %d: %s",cur,text); }
void *sim_scratch(void *p,size_t n){ return realloc(p,n); }
int sim_rank(void){ return cur; }

/* -------------------------------------------------------------------- MPI   */
static const int tsz[]={0,1,1,sizeof(int),sizeof(long),sizeof(float),sizeof(double),2,4,8,8,1,1,16};
static const char *tnm[]={"null","char","byte","int","long","float","double","short","unsigned","ulong","longlong","uchar","packed","double_int"};
#define NT ((int)(sizeof tsz/sizeof *tsz))
typedef struct { int n; int rank[MAXR]; int freed; } comm_t;
static comm_t comms[4096]; static int ncomm;
static comm_t groups[8192]; static int ngroup;
typedef struct msg_s { long id; int src,dst,comm,tag,type,count; size_t n; char *snap; const char *user; int sync,delivered,matched,dead; int sreq,lateread,ref; } msg_t;
static void msg_put(msg_t *m){ if(--m->ref==0){ free(m->snap); free(m); } }
static msg_t **net; static int nnet,capnet; static long nmsg,nbytesmsg,ncollectives;
struct request_s { int kind,active,done,rank; char *buf; size_t n; int count,type,src,tag,comm; msg_t *m; char *orig; int lazy,copied; int rsrc,rtag; size_t rn; char *snap; };
static int commidx(int c,int rank){ if(c<1||c>=ncomm) return -1; for(int i=0;i<comms[c].n;i++) if(comms[c].rank[i]==rank) return i; return -1; }
static void mpierr(const char *fmt,...){ char b[300]; va_list ap; va_start(ap,fmt); vsnprintf(b,300,fmt,ap); va_end(ap); violate("mpi-misuse","rank %d: %s",cur,b); end_job(15,"MPI error in rank %d: %s",cur,b); }
static void pre(const char *w){ rank_t *r=&R[cur]; if(!r->mpi_init) mpierr("%s before MPI_Init",w); if(r->mpi_fin) mpierr("%s after MPI_Finalize",w); seam(w); }
static size_t bytes(int count,int type){ if(type<1||type>=NT) mpierr("bad datatype %d",type); if(count<0) mpierr("negative count %d",count); return (size_t)count*tsz[type]; }
static int range_active(const char *a,size_t n){ rank_t *r=&R[cur]; for(int i=1;i<r->nreq;i++){ req_t *q=r->req[i]; if(q&&q->active&&q->n&&q->buf<a+n&&a<q->buf+q->n) return 1; } return 0; }
static int newreq(rank_t *r){ if(!r->req){ r->capreq=64; r->req=calloc(64,sizeof(req_t*)); r->nreq=1; }
  for(int i=1;i<r->nreq;i++) if(!r->req[i]){ r->req[i]=calloc(1,sizeof(req_t)); return i; }
  if(r->nreq==r->capreq){ r->capreq*=2; r->req=realloc(r->req,r->capreq*sizeof(req_t*)); }
  r->req[r->nreq]=calloc(1,sizeof(req_t)); return r->nreq++; }
static int comm_check(int c,const char *w){ int i=commidx(c,cur); if(c==MPI_COMM_NULL||i<0) mpierr("%s on a communicator the rank is not a member of",w); if(comms[c].freed) mpierr("%s on a freed communicator",w); return i; }
static const unsigned char POISON=0xFF;
static void transfer(req_t *q){
  if(q->copied) return; msg_t *m=q->m; q->copied=1;
  for(size_t i=0;i<q->n;i++) if((unsigned char)q->buf[i]!=POISON){ violate("recv-buffer-touched","rank %d wrote into the buffer of a pending receive (src %d tag %d)",q->rank,q->src,q->tag); break; }
  size_t n=m->n<q->n?m->n:q->n;
  if(q->orig) memcpy(q->buf,q->orig,q->n);
  memcpy(q->buf,m->snap,n);
}
static void do_match(req_t *q,msg_t *m){
  q->m=m; q->done=1; m->matched=1; q->rsrc=commidx(q->comm,m->src); q->rtag=m->tag; q->rn=m->n;
  if(m->n>q->n) { violate("truncation","message of %zu bytes from rank %d tag %d does not fit the %zu-byte receive of rank %d",m->n,m->src,m->tag,q->n,q->rank); if(!job_over){ job_over=1; job_status=15; snprintf(job_why,sizeof job_why,"MPI_ERR_TRUNCATE in rank %d",q->rank);} }
  if(m->type!=q->type && m->type!=MPI_PACKED && q->type!=MPI_PACKED) violate("type-mismatch","message of type %s received as %s (rank %d -> %d tag %d)",tnm[m->type],tnm[q->type],m->src,q->rank,m->tag);
  if(m->lateread && m->user && m->sreq){ req_t *sq=R[m->src].req[m->sreq]; if(sq&&sq->active&&sq->m==m) memcpy(m->snap,m->user,m->n); }
  int lz=choose(3,2,(rndu(&G)<Q.plazy)); q->lazy=lz; if(!lz) transfer(q);
}
static int req_match(req_t *q,msg_t *m){ if(q->comm!=m->comm) return 0; if(q->src>=0&&comms[q->comm].rank[q->src]!=m->src) return 0; if(q->tag!=MPI_ANY_TAG&&q->tag!=m->tag) return 0; return 1; }
static void deliver(msg_t *m){
  m->delivered=1; rank_t *d=&R[m->dst];
  for(int i=0;i<nnet;i++) if(net[i]==m){ memmove(net+i,net+i+1,(nnet-i-1)*sizeof *net); nnet--; break; }
  for(int i=0;i<d->nposted;i++){ req_t *q=d->req[d->posted[i]]; if(req_match(q,m)){ memmove(d->posted+i,d->posted+i+1,(d->nposted-i-1)*sizeof(int)); d->nposted--; do_match(q,m); return; } }
  if(d->nunexp==d->capunexp){ d->capunexp=d->capunexp?2*d->capunexp:64; d->unexp=realloc(d->unexp,d->capunexp*sizeof *d->unexp);} d->unexp[d->nunexp++]=m;
}
static int send_common(const void *b,int count,int type,int dst,int tag,int comm,int force,int blocking,const char *w){
  comm_check(comm,w); if(dst<0||dst>=comms[comm].n) mpierr("%s to rank %d of a communicator of size %d",w,dst,comms[comm].n);
  if(tag<0) mpierr("%s with negative tag",w);
  size_t n=bytes(count,type); if(n&&!b) mpierr("%s from a NULL buffer",w);
  if(n && blocking){ rank_t *r=&R[cur]; for(int i=1;i<r->nreq;i++){ req_t *q=r->req[i]; if(q&&q->active&&q->kind==2&&q->n&&q->buf<(char*)b+n&&(char*)b<q->buf+q->n) violate("buffer-overlap","rank %d sends from the buffer of a pending receive",cur); } }
  msg_t *m=calloc(1,sizeof *m); m->ref=2; m->id=nmsg++; nbytesmsg+=n; m->src=cur; m->dst=comms[comm].rank[dst]; m->comm=comm; m->tag=tag; m->type=type; m->count=count; m->n=n; m->snap=malloc(n+1); memcpy(m->snap,b,n);
  int sg= Q.send==0?0:Q.send==1?1:Q.send==2?(rndu(&G)<Q.psync):((long)n>=Q.thresh);
  m->sync=choose(2,2,sg); if(force) m->sync=1;
  if(nnet==capnet){ capnet=capnet?2*capnet:256; net=realloc(net,capnet*sizeof *net);} net[nnet++]=m;
  rank_t *r=&R[cur]; int id=newreq(r); req_t *q=r->req[id]; q->kind=1; q->active=1; q->rank=cur; q->buf=(char*)b; q->n=n; q->count=count; q->type=type; q->src=dst; q->tag=tag; q->comm=comm; q->m=m; m->sreq=id; m->user=b; m->lateread=blocking?0:1; q->snap=malloc(n+1); memcpy(q->snap,b,n);
  return id;
}
static int recv_common(void *b,int count,int type,int src,int tag,int comm,const char *w){
  comm_check(comm,w); if(src!=MPI_ANY_SOURCE&&(src<0||src>=comms[comm].n)) mpierr("%s from rank %d of a communicator of size %d",w,src,comms[comm].n);
  size_t n=bytes(count,type); if(n&&!b) mpierr("%s into a NULL buffer",w);
  if(n&&range_active(b,n)) violate("buffer-overlap","rank %d posts a receive into the buffer of another pending communication (tag %d)",cur,tag);
  rank_t *r=&R[cur]; int id=newreq(r); req_t *q=r->req[id]; q->kind=2; q->active=1; q->rank=cur; q->buf=b; q->n=n; q->count=count; q->type=type; q->src=src; q->tag=tag; q->comm=comm;
  q->orig=malloc(n+1); memcpy(q->orig,b,n); memset(b,POISON,n);
  for(int i=0;i<r->nunexp;i++) if(req_match(q,r->unexp[i])){ msg_t *m=r->unexp[i]; memmove(r->unexp+i,r->unexp+i+1,(r->nunexp-i-1)*sizeof *r->unexp); r->nunexp--; do_match(q,m); return id; }
  if(r->nposted==r->capposted){ r->capposted=r->capposted?2*r->capposted:64; r->posted=realloc(r->posted,r->capposted*sizeof(int)); } r->posted[r->nposted++]=id;
  return id;
}
static int isdone(req_t *q){ if(q->kind==1) return q->m->sync?q->m->matched:1; return q->done; }
static void complete(rank_t *r,int id,MPI_Status *st){
  req_t *q=r->req[id];
  if(q->kind==2){ transfer(q); if(st){ st->MPI_SOURCE=q->rsrc; st->MPI_TAG=q->rtag; st->MPI_ERROR=0; st->bytes_=q->rn; } free(q->orig); msg_put(q->m); }
  else { if(q->n&&memcmp(q->buf,q->snap,q->n)) violate("send-buffer-touched","rank %d modified a %zu-byte buffer (to %d, tag %d) before its send had completed",r->id,q->n,q->src,q->tag); free(q->snap); if(st){ st->MPI_SOURCE=cur; st->MPI_TAG=q->tag; st->MPI_ERROR=0; st->bytes_=0; } q->m->user=NULL; q->m->sreq=0; msg_put(q->m); }
  q->active=0; free(q); r->req[id]=NULL;
}
typedef struct { rank_t *r; int n; MPI_Request *a; } wset;
static req_t *getreq(rank_t *r,int id){ if(id<1||id>=r->nreq||!r->req[id]) mpierr("wait on an invalid request"); return r->req[id]; }
static int p_all(void *v){ wset *w=v; for(int i=0;i<w->n;i++) if(w->a[i]!=MPI_REQUEST_NULL && !isdone(getreq(w->r,w->a[i]))) return 0; return 1; }
static int p_any(void *v){ wset *w=v; int k=0; for(int i=0;i<w->n;i++) if(w->a[i]!=MPI_REQUEST_NULL){ k=1; if(isdone(getreq(w->r,w->a[i]))) return 1; } return !k; }
static void checkset(rank_t *r,int n,MPI_Request *a){ for(int i=0;i<n;i++) if(a[i]!=MPI_REQUEST_NULL){ getreq(r,a[i]); for(int j=0;j<i;j++) if(a[j]==a[i]) mpierr("request listed twice in one wait"); } }
static void desc(char *o,rank_t *r,int n,MPI_Request *a,const char *w){ int l=snprintf(o,96,"%s",w); for(int i=0;i<n&&l<70;i++) if(a[i]){ req_t *q=r->req[a[i]]; if(q&&!isdone(q)) l+=snprintf(o+l,96-l," %s(%d,tag %d)",q->kind==1?"send":"recv",q->src,q->tag); } }
int MPI_Wait(MPI_Request *q,MPI_Status *st){ pre("MPI_Wait"); rank_t *r=&R[cur]; if(*q==MPI_REQUEST_NULL) return 0; getreq(r,*q); wset w={r,1,q}; char d[96]; desc(d,r,1,q,"MPI_Wait"); block(p_all,&w,d); complete(r,*q,st); *q=MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n,MPI_Request *a,MPI_Status *st){ pre("MPI_Waitall"); rank_t *r=&R[cur]; checkset(r,n,a); wset w={r,n,a}; char d[96]; desc(d,r,n,a,"MPI_Waitall"); block(p_all,&w,d); for(int i=0;i<n;i++) if(a[i]){ complete(r,a[i],st?st+i:NULL); a[i]=0; } return 0; }
static int pickdone(rank_t *r,int n,MPI_Request *a){ int c[4096],k=0; for(int i=0;i<n&&k<4096;i++) if(a[i]&&isdone(r->req[a[i]])) c[k++]=i; if(!k) return -1; int sg=Q.any==0?0:Q.any==1?k-1:(int)(rnd(&G)%k); return c[choose(4,k,sg)]; }
int MPI_Waitany(int n,MPI_Request *a,int *ix,MPI_Status *st){ pre("MPI_Waitany"); rank_t *r=&R[cur]; checkset(r,n,a); wset w={r,n,a}; char d[96]; desc(d,r,n,a,"MPI_Waitany"); block(p_any,&w,d); int i=pickdone(r,n,a); if(i<0){ *ix=MPI_UNDEFINED; return 0; } complete(r,a[i],st); a[i]=0; *ix=i; return 0; }
int MPI_Waitsome(int n,MPI_Request *a,int *oc,int *ix,MPI_Status *st){ int i; MPI_Waitany(n,a,&i,st); if(i==MPI_UNDEFINED){ *oc=MPI_UNDEFINED; return 0;} *oc=1; ix[0]=i; return 0; }
int MPI_Test(MPI_Request *q,int *f,MPI_Status *st){ pre("MPI_Test"); rank_t *r=&R[cur]; if(!*q){ *f=1; return 0;} if(isdone(getreq(r,*q))){ complete(r,*q,st); *q=0; *f=1; } else *f=0; return 0; }
int MPI_Testall(int n,MPI_Request *a,int *f,MPI_Status *st){ pre("MPI_Testall"); rank_t *r=&R[cur]; wset w={r,n,a}; if(p_all(&w)){ for(int i=0;i<n;i++) if(a[i]){ complete(r,a[i],st?st+i:NULL); a[i]=0; } *f=1; } else *f=0; return 0; }
int MPI_Testany(int n,MPI_Request *a,int *ix,int *f,MPI_Status *st){ pre("MPI_Testany"); rank_t *r=&R[cur]; int i=pickdone(r,n,a); if(i<0){ *f=0; *ix=MPI_UNDEFINED; return 0;} complete(r,a[i],st); a[i]=0; *ix=i; *f=1; return 0; }
int MPI_Request_free(MPI_Request *q){ pre("MPI_Request_free"); *q=0; return 0; }
static int blocking_send(const void *b,int c,int t,int d,int tag,int comm,int force,const char *w){ pre(w); if(d==MPI_PROC_NULL) return 0; MPI_Request q=send_common(b,c,t,d,tag,comm,force,1,w); rank_t *r=&R[cur]; wset ws={r,1,&q}; char ds[96]; snprintf(ds,96,"%s to %d tag %d",w,d,tag); block(p_all,&ws,ds); complete(r,q,NULL); return 0; }
int MPI_Send(const void *b,int c,MPI_Datatype t,int d,int tag,MPI_Comm m){ return blocking_send(b,c,t,d,tag,m,0,"MPI_Send"); }
int MPI_Ssend(const void *b,int c,MPI_Datatype t,int d,int tag,MPI_Comm m){ return blocking_send(b,c,t,d,tag,m,1,"MPI_Ssend"); }
int MPI_Rsend(const void *b,int c,MPI_Datatype t,int d,int tag,MPI_Comm m){ return blocking_send(b,c,t,d,tag,m,0,"MPI_Rsend"); }
int MPI_Isend(const void *b,int c,MPI_Datatype t,int d,int tag,MPI_Comm m,MPI_Request *q){ pre("MPI_Isend"); if(d==MPI_PROC_NULL){ *q=0; return 0;} *q=send_common(b,c,t,d,tag,m,0,0,"MPI_Isend"); return 0; }
int MPI_Issend(const void *b,int c,MPI_Datatype t,int d,int tag,MPI_Comm m,MPI_Request *q){ pre("MPI_Issend"); if(d==MPI_PROC_NULL){ *q=0; return 0;} *q=send_common(b,c,t,d,tag,m,1,0,"MPI_Issend"); return 0; }
int MPI_Irecv(void *b,int c,MPI_Datatype t,int s,int tag,MPI_Comm m,MPI_Request *q){ pre("MPI_Irecv"); if(s==MPI_PROC_NULL){ *q=0; return 0;} *q=recv_common(b,c,t,s,tag,m,"MPI_Irecv"); return 0; }
int MPI_Recv(void *b,int c,MPI_Datatype t,int s,int tag,MPI_Comm m,MPI_Status *st){ pre("MPI_Recv"); if(s==MPI_PROC_NULL) return 0; MPI_Request q=recv_common(b,c,t,s,tag,m,"MPI_Recv"); rank_t *r=&R[cur]; wset w={r,1,&q}; char ds[96]; snprintf(ds,96,"MPI_Recv from %d tag %d",s,tag); block(p_all,&w,ds); complete(r,q,st); return 0; }
int MPI_Sendrecv(const void *sb,int sc,MPI_Datatype stp,int d,int stag,void *rb,int rc,MPI_Datatype rt,int s,int rtag,MPI_Comm m,MPI_Status *st){ pre("MPI_Sendrecv"); MPI_Request q[2]={0,0}; rank_t *r=&R[cur]; if(s!=MPI_PROC_NULL) q[0]=recv_common(rb,rc,rt,s,rtag,m,"MPI_Sendrecv"); if(d!=MPI_PROC_NULL) q[1]=send_common(sb,sc,stp,d,stag,m,0,0,"MPI_Sendrecv"); wset w={r,2,q}; block(p_all,&w,"MPI_Sendrecv"); if(q[0]) complete(r,q[0],st); if(q[1]) complete(r,q[1],NULL); return 0; }
typedef struct { rank_t *r; int src,tag,comm; msg_t *m; } pset;
static int p_probe(void *v){ pset *p=v; req_t q={0}; q.src=p->src; q.tag=p->tag; q.comm=p->comm; for(int i=0;i<p->r->nunexp;i++) if(req_match(&q,p->r->unexp[i])){ p->m=p->r->unexp[i]; return 1; } return 0; }
int MPI_Probe(int s,int tag,MPI_Comm m,MPI_Status *st){ pre("MPI_Probe"); pset p={&R[cur],s,tag,m,0}; block(p_probe,&p,"MPI_Probe"); if(st){ st->MPI_SOURCE=commidx(m,p.m->src); st->MPI_TAG=p.m->tag; st->bytes_=p.m->n; } return 0; }
int MPI_Iprobe(int s,int tag,MPI_Comm m,int *f,MPI_Status *st){ pre("MPI_Iprobe"); pset p={&R[cur],s,tag,m,0}; *f=p_probe(&p); if(*f&&st){ st->MPI_SOURCE=commidx(m,p.m->src); st->MPI_TAG=p.m->tag; st->bytes_=p.m->n; } return 0; }
int MPI_Get_count(const MPI_Status *st,MPI_Datatype t,int *c){ *c=(int)(st->bytes_/tsz[t]); return 0; }

/* collectives */
typedef struct { int comm; uint64_t seq; int kind,root,count,type,op,arr,left; char *data[MAXR]; size_t len[MAXR]; int in[MAXR]; int newcomm; int grp[MAXR][MAXR+1]; int key[MAXR][2]; int res[MAXR]; } coll_t;
enum { C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_ALLGATHER, C_GATHER, C_SCATTER, C_ALLTOALL, C_COMMCREATE, C_COMMDUP, C_SPLIT };
static const char *cnm[]={"MPI_Barrier","MPI_Bcast","MPI_Reduce","MPI_Allreduce","MPI_Allgather","MPI_Gather","MPI_Scatter","MPI_Alltoall","MPI_Comm_create","MPI_Comm_dup","MPI_Comm_split"};
static coll_t **colls; static int ncoll,capcoll;
static coll_t *coll_enter(int comm,int kind,int root,int count,int type,int op,const void *data,size_t len,int *me){
  pre(cnm[kind]); *me=comm_check(comm,cnm[kind]); ncollectives++;
  uint64_t sq=R[cur].collseq[comm]++; coll_t *c=NULL;
  for(int i=0;i<ncoll;i++) if(colls[i]->comm==comm&&colls[i]->seq==sq){ c=colls[i]; break; }
  if(!c){ c=calloc(1,sizeof *c); c->comm=comm; c->seq=sq; c->kind=kind; c->root=root; c->count=count; c->type=type; c->op=op; if(ncoll==capcoll){ capcoll=capcoll?2*capcoll:64; colls=realloc(colls,capcoll*sizeof *colls);} colls[ncoll++]=c; }
  else if(c->kind!=kind||c->root!=root||c->count!=count||c->type!=type||c->op!=op){
    violate("collective-mismatch","rank %d calls %s(root %d,count %d,type %s,op %d) where another rank of the communicator calls %s(root %d,count %d,type %s,op %d)",cur,cnm[kind],root,count,tnm[type],op,cnm[c->kind],c->root,c->count,tnm[c->type],c->op);
    end_job(15,"mismatched collective in rank %d: %s vs %s",cur,cnm[kind],cnm[c->kind]); }
  c->data[*me]=malloc(len+1); if(len) memcpy(c->data[*me],data,len); c->len[*me]=len; c->in[*me]=1; c->arr++;
  return c;
}
typedef struct { coll_t *c; int root; } cw;
static int p_callall(void *v){ cw *w=v; return w->c->arr==comms[w->c->comm].n; }
static int p_croot(void *v){ cw *w=v; return w->c->in[w->root]; }
static int coll_async(void){ int sg= Q.coll==0?0:Q.coll==1?1:(int)(rnd(&G)&1); return choose(5,2,sg); }
static void coll_leave(coll_t *c){ if(++c->left==comms[c->comm].n){ for(int i=0;i<MAXR;i++) free(c->data[i]); for(int i=0;i<ncoll;i++) if(colls[i]==c){ colls[i]=colls[--ncoll]; break; } free(c); } }
#define RED(T) { T *a=(T*)acc; const T *b=(const T*)x; for(int i=0;i<n;i++) switch(op){ case MPI_SUM: a[i]+=b[i]; break; case MPI_PROD: a[i]*=b[i]; break; case MPI_MIN: if(b[i]<a[i]) a[i]=b[i]; break; case MPI_MAX: if(b[i]>a[i]) a[i]=b[i]; break; case MPI_LAND: a[i]=a[i]&&b[i]; break; case MPI_LOR: a[i]=a[i]||b[i]; break; default: mpierr("unsupported reduction"); } }
static void red1(char *acc,const char *x,int n,int type,int op){
  switch(type){ case MPI_DOUBLE: RED(double) break; case MPI_FLOAT: RED(float) break; case MPI_INT: RED(int) break; case MPI_LONG: case MPI_LONG_LONG: RED(long) break; case MPI_UNSIGNED: RED(unsigned) break; case MPI_UNSIGNED_LONG: RED(unsigned long) break; case MPI_SHORT: RED(short) break; case MPI_CHAR: case MPI_BYTE: RED(signed char) break; default: mpierr("reduction on unsupported type"); }
}
static void reduce_to(coll_t *c,char *out){ int n=comms[c->comm].n, perm[MAXR]; for(int i=0;i<n;i++) perm[i]=i;
  if(P.redperm){ rng_t g={P.seed*77+c->seq*13+c->comm}; for(int i=n-1;i>0;i--){ int j=rnd(&g)%(i+1); int t=perm[i]; perm[i]=perm[j]; perm[j]=t; } }
  memcpy(out,c->data[perm[0]],c->len[perm[0]]); for(int i=1;i<n;i++) red1(out,c->data[perm[i]],c->count,c->type,c->op); }
static void cblock(int(*p)(void*),cw *w,const char *nm){ char d[96]; snprintf(d,96,"%s (comm %d, collective #%llu)",nm,w->c->comm,(unsigned long long)w->c->seq); block(p,w,d); }
int MPI_Barrier(MPI_Comm m){ int me; coll_t *c=coll_enter(m,C_BARRIER,0,0,1,0,NULL,0,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Barrier"); coll_leave(c); return 0; }
int MPI_Bcast(void *b,int n,MPI_Datatype t,int root,MPI_Comm m){ size_t l=bytes(n,t); int me; int am=(commidx(m,cur)==root); coll_t *c=coll_enter(m,C_BCAST,root,n,t,0,b,am?l:0,&me); cw w={c,root}; int as=coll_async(); if(as){ if(!am) cblock(p_croot,&w,"MPI_Bcast"); } else cblock(p_callall,&w,"MPI_Bcast"); if(!am&&l) memcpy(b,c->data[root],l); coll_leave(c); return 0; }
static void alias(const void *s,void *r,const char *w){ if(s==r) violate("mpi-misuse","rank %d: %s with the same send and receive buffer",cur,w); }
int MPI_Reduce(const void *s,void *r,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm m){ size_t l=bytes(n,t); int me; int am=commidx(m,cur)==root; if(s==MPI_IN_PLACE) s=r; else if(am) alias(s,r,"MPI_Reduce"); coll_t *c=coll_enter(m,C_REDUCE,root,n,t,op,s,l,&me); cw w={c,root}; int as=coll_async(); if(!as||me==root) cblock(p_callall,&w,"MPI_Reduce"); if(me==root&&l) reduce_to(c,r); coll_leave(c); return 0; }
int MPI_Allreduce(const void *s,void *r,int n,MPI_Datatype t,MPI_Op op,MPI_Comm m){ size_t l=bytes(n,t); int me; if(s==MPI_IN_PLACE) s=r; else alias(s,r,"MPI_Allreduce"); coll_t *c=coll_enter(m,C_ALLREDUCE,0,n,t,op,s,l,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Allreduce"); if(l) reduce_to(c,r); coll_leave(c); return 0; }
int MPI_Allgather(const void *s,int n,MPI_Datatype t,void *r,int rn,MPI_Datatype rt,MPI_Comm m){ size_t l=bytes(n,t); int me; if(bytes(rn,rt)!=l) mpierr("MPI_Allgather with different send and receive sizes"); if(s==MPI_IN_PLACE) s=(char*)r+commidx(m,cur)*l; coll_t *c=coll_enter(m,C_ALLGATHER,0,n,t,0,s,l,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Allgather"); for(int i=0;i<comms[m].n;i++) memcpy((char*)r+i*l,c->data[i],l); coll_leave(c); return 0; }
int MPI_Gather(const void *s,int n,MPI_Datatype t,void *r,int rn,MPI_Datatype rt,int root,MPI_Comm m){ size_t l=bytes(n,t); int me; coll_t *c=coll_enter(m,C_GATHER,root,n,t,0,s,l,&me); cw w={c,0}; int as=coll_async(); if(!as||me==root) cblock(p_callall,&w,"MPI_Gather"); if(me==root) for(int i=0;i<comms[m].n;i++) memcpy((char*)r+i*l,c->data[i],l); coll_leave(c); return 0; }
int MPI_Scatter(const void *s,int n,MPI_Datatype t,void *r,int rn,MPI_Datatype rt,int root,MPI_Comm m){ size_t l=bytes(rn,rt); int me; int am=commidx(m,cur)==root; coll_t *c=coll_enter(m,C_SCATTER,root,rn,rt,0,s,am?l*comms[m].n:0,&me); cw w={c,root}; cblock(p_callall,&w,"MPI_Scatter"); memcpy(r,c->data[root]+me*l,l); coll_leave(c); return 0; }
int MPI_Alltoall(const void *s,int n,MPI_Datatype t,void *r,int rn,MPI_Datatype rt,MPI_Comm m){ size_t l=bytes(n,t); int me; coll_t *c=coll_enter(m,C_ALLTOALL,0,n,t,0,s,l*comms[m].n,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Alltoall"); for(int i=0;i<comms[m].n;i++) memcpy((char*)r+i*l,c->data[i]+me*l,l); coll_leave(c); return 0; }
int MPI_Comm_group(MPI_Comm m,MPI_Group *g){ pre("MPI_Comm_group"); comm_check(m,"MPI_Comm_group"); groups[ngroup]=comms[m]; *g=ngroup++; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int *rk,MPI_Group *o){ comm_t x; memset(&x,0,sizeof x); if(g<1||g>=ngroup) mpierr("bad group"); if(n>groups[g].n) mpierr("MPI_Group_incl of %d ranks from %d",n,groups[g].n); x.n=n; for(int i=0;i<n;i++){ if(rk[i]<0||rk[i]>=groups[g].n) mpierr("MPI_Group_incl: rank %d out of range",rk[i]); for(int j=0;j<i;j++) if(rk[j]==rk[i]) mpierr("MPI_Group_incl: duplicate rank %d",rk[i]); x.rank[i]=groups[g].rank[rk[i]]; } if(ngroup>=8192) mpierr("too many groups"); groups[ngroup]=x; *o=ngroup++; return 0; }
int MPI_Group_free(MPI_Group *g){ *g=0; return 0; }
int MPI_Group_rank(MPI_Group g,int *r){ *r=MPI_UNDEFINED; for(int i=0;i<groups[g].n;i++) if(groups[g].rank[i]==cur) *r=i; return 0; }
int MPI_Group_size(MPI_Group g,int *n){ *n=groups[g].n; return 0; }
int MPI_Comm_create(MPI_Comm m,MPI_Group g,MPI_Comm *o){ int me; coll_t *c=coll_enter(m,C_COMMCREATE,0,0,1,0,groups[g].rank,sizeof(int)*groups[g].n,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Comm_create");
  for(int i=0;i<comms[m].n;i++) if(c->len[i]!=c->len[me]||memcmp(c->data[i],c->data[me],c->len[i])) mpierr("MPI_Comm_create with different groups");
  if(!c->newcomm){ if(ncomm>=4096) mpierr("too many communicators"); c->newcomm=ncomm; comms[ncomm]=groups[g]; comms[ncomm].freed=0; ncomm++; } int nc=c->newcomm; coll_leave(c); *o=commidx(nc,cur)>=0?nc:MPI_COMM_NULL; return 0; }
int MPI_Comm_dup(MPI_Comm m,MPI_Comm *o){ int me; coll_t *c=coll_enter(m,C_COMMDUP,0,0,1,0,NULL,0,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Comm_dup"); if(!c->newcomm){ c->newcomm=ncomm; comms[ncomm]=comms[m]; ncomm++; } *o=c->newcomm; coll_leave(c); return 0; }
int MPI_Comm_split(MPI_Comm m,int color,int key,MPI_Comm *o){ int me; int ck[2]={color,key}; coll_t *c=coll_enter(m,C_SPLIT,0,0,1,0,ck,sizeof ck,&me); cw w={c,0}; cblock(p_callall,&w,"MPI_Comm_split");
  if(!c->newcomm){ c->newcomm=1; int n=comms[m].n; for(int i=0;i<n;i++) c->res[i]=0; for(int i=0;i<n;i++){ int *a=(int*)c->data[i]; if(a[0]==MPI_UNDEFINED||c->res[i]) continue; int id=ncomm++; comms[id].n=0; comms[id].freed=0; int used[MAXR]={0}; for(;;){ int best=-1; for(int j=0;j<n;j++){ int *b=(int*)c->data[j]; if(b[0]!=a[0]||used[j]) continue; if(best<0||b[1]<((int*)c->data[best])[1]) best=j; } if(best<0) break; used[best]=1; comms[id].rank[comms[id].n++]=comms[m].rank[best]; c->res[best]=id; } } }
  *o=c->res[me]; coll_leave(c); return 0; }
int MPI_Comm_free(MPI_Comm *m){ pre("MPI_Comm_free"); *m=MPI_COMM_NULL; return 0; }
int MPI_Comm_rank(MPI_Comm m,int *r){ pre("MPI_Comm_rank"); *r=comm_check(m,"MPI_Comm_rank"); return 0; }
int MPI_Comm_size(MPI_Comm m,int *n){ pre("MPI_Comm_size"); comm_check(m,"MPI_Comm_size"); *n=comms[m].n; return 0; }
int MPI_Init(int *a,char ***b){ seam("MPI_Init"); R[cur].mpi_init=1; return 0; }
int MPI_Initialized(int *f){ *f=R[cur].mpi_init; return 0; }
int MPI_Finalized(int *f){ *f=R[cur].mpi_fin; return 0; }
int MPI_Finalize(void){ pre("MPI_Finalize"); rank_t *r=&R[cur]; for(int i=1;i<r->nreq;i++) if(r->req[i]&&r->req[i]->active){ req_t *q=r->req[i]; violate("leaked-request","rank %d finalizes with a pending %s (peer %d, tag %d)",cur,q->kind==1?"send":"receive",q->src,q->tag); } r->mpi_fin=1; return 0; }
int MPI_Abort(MPI_Comm m,int code){ rank_t *r=&R[cur]; seam("MPI_Abort"); r->exitcode=code; end_job(code?code:1,"rank %d called MPI_Abort(%d)",cur,code); return 0; }
double MPI_Wtime(void){ tick("MPI_Wtime"); return rclock()-1.7e9+100.0; }
double MPI_Wtick(void){ return 1e-3; }
int MPI_Get_processor_name(char *n,int *l){ sprintf(n,"simnode%d",cur); *l=strlen(n); return 0; }
int MPI_Error_string(int e,char *s,int *l){ sprintf(s,"error %d",e); *l=strlen(s); return 0; }
int MPI_Type_size(MPI_Datatype t,int *n){ *n=tsz[t]; return 0; }

/* --------------------------------------------------------------- scheduler  */
static ssize_t ck_mem_out(void *c,const char *b,size_t n){ rank_t *r=c; if(r->outn+n>r->outcap){ r->outcap=2*(r->outn+n)+4096; r->outb=realloc(r->outb,r->outcap);} memcpy(r->outb+r->outn,b,n); r->outn+=n; return n; }
static ssize_t ck_mem_err(void *c,const char *b,size_t n){ rank_t *r=c; if(r->errn+n>r->errcap){ r->errcap=2*(r->errn+n)+4096; r->errb=realloc(r->errb,r->errcap);} memcpy(r->errb+r->errn,b,n); r->errn+=n; return n; }
static void trampoline(int id){ rank_t *r=&R[id]; in_rank=1;
  char **av=calloc(P.nargs+2,sizeof(char*)); av[0]="athena"; for(int i=0;i<P.nargs;i++) av[i+1]=strdup(P.argv[i]);
  int rc=r->mainfn(P.nargs+1,av);
  r->exitcode=rc; r->exited=1; flush_rank(r);
  if(r->mpi_init&&!r->mpi_fin) end_job(rc?rc:1,"rank %d returned from main without MPI_Finalize",id);
  r->state=R_DONE; die_rank(); }
static int fifo_head(int i){ msg_t *m=net[i]; for(int j=0;j<i;j++){ msg_t *o=net[j]; if(o->src==m->src&&o->dst==m->dst&&o->comm==m->comm&&o->tag==m->tag) return 0; } return 1; }
static int lastrank=0;
static void run_job(void){
  int cand[4096]; long steps=0;
  while(!job_over){
    int nr=0, rr[MAXR], alld=1;
    for(int i=0;i<P.nranks;i++){ rank_t *r=&R[i]; if(r->state==R_BLOCKED){ cur=i; if(r->pred(r->predarg)) r->state=R_READY; cur=-1; } if(r->state!=R_DONE) alld=0; }
    if(job_over||alld) break;
    /* canonical candidate order: deliverable messages, last rank, other ranks */
    int nn=0; for(int i=0;i<nnet&&nn<2048;i++) if(fifo_head(i)) cand[nn++]=i;
    if(R[lastrank].state==R_READY||R[lastrank].state==R_NEW) rr[nr++]=lastrank;
    for(int i=0;i<P.nranks;i++) if(i!=lastrank&&(R[i].state==R_READY||R[i].state==R_NEW)) rr[nr++]=i;
    if(nn==0&&nr==0){
      char b[4096]; int l=0; for(int i=0;i<P.nranks&&l<3900;i++) if(R[i].state!=R_DONE) l+=snprintf(b+l,4096-l," [rank %d: %s]",i,R[i].where); else l+=snprintf(b+l,4096-l," [rank %d: finished]",i);
      violate("deadlock","no rank can proceed:%.360s",b); job_over=1; job_status=2; snprintf(job_why,sizeof job_why,"deadlock"); break; }
    int sg=0;
    if(!P.replay){
      int takenet=0;
      if(nn&&!nr) takenet=1; else if(nn) switch(Q.net){ case 0: takenet=1; break; case 1: takenet=rndu(&G)<Q.pnet; break; case 2: takenet=0; break; case 3: takenet=rndu(&G)<0.3; break; }
      if(takenet) sg= Q.net==0?0: Q.net==2?nn-1 : (int)(rnd(&G)%nn);
      else { int k=0;
        switch(Q.rank){
        case 0: k=0; break;                                     /* run to block   */
        case 1: k=rnd(&G)%nr; break;                            /* uniform        */
        case 2: { double b=-1; for(int i=0;i<nr;i++) if(R[rr[i]].prio>b){ b=R[rr[i]].prio; k=i; } if(rndu(&G)<0.002) R[rr[k]].prio=rndu(&G)*0.01; break; } /* PCT */
        case 3: { k=rnd(&G)%nr; if(rr[k]==Q.starve&&nr>1) k=(k+1)%nr; break; } /* starve one rank */
        case 4: k= rndu(&G)<Q.pswitch? (int)(rnd(&G)%nr):0; break; }
        sg=nn+k; }
    }
    int c=choose(1,nn+nr,sg); S->nsched++; steps++;
    if(c<nn){ deliver(net[cand[c]]); continue; }
    int id=rr[c-nn]; rank_t *r=&R[id]; lastrank=id;
    if(r->state==R_NEW){ getcontext(&r->ctx); r->stack=mmap(NULL,STACKSZ,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); r->ctx.uc_stack.ss_sp=r->stack; r->ctx.uc_stack.ss_size=STACKSZ; r->ctx.uc_link=&schedctx; makecontext(&r->ctx,(void(*)(void))trampoline,1,id); }
    r->state=R_READY; cur=id; S->cur_rank=id; in_rank=1; stdout=r->so; stderr=r->se; errno=r->err;
    swapcontext(&schedctx,&r->ctx);
    in_rank=0; cur=-1; stdout=real_out; stderr=real_err;
  }
  cur=-1;
  int clean=!job_over;
  if(clean){ for(int i=0;i<P.nranks;i++) for(int j=0;j<R[i].nunexp;j++){ msg_t *m=R[i].unexp[j]; violate("unreceived-message","message from rank %d to rank %d (tag %d, %zu bytes) was never received",m->src,m->dst,m->tag,m->n); }
    for(int i=0;i<nnet;i++) violate("unreceived-message","message from rank %d to rank %d (tag %d, %zu bytes) was never received",net[i]->src,net[i]->dst,net[i]->tag,net[i]->n); 
    for(int i=0;i<P.nranks;i++) if(R[i].mpi_init&&!R[i].mpi_fin) violate("no-finalize","rank %d ended without MPI_Finalize",i); }
}

/* ------------------------------------------- line coverage (development only) */
static unsigned char *covmap; static char *covbase[MAXR]; static int covn; static long covsz=16L<<20;
void __sanitizer_cov_trace_pc(void){ if(!covmap||cur<0) return; long o=(char*)__builtin_return_address(0)-covbase[cur]; if(o>=0&&o<covsz) covmap[o]=1; }
static void cov_open(void **h,int n,const char *so){ const char *p=getenv("ATHSIM_COVOUT"); if(!p) return; if(!covmap){ char b[600]; const char *q=strrchr(so,'/'); snprintf(b,600,"%s/%s.cov",p,q?q+1:so); int fd=open(b,O_RDWR|O_CREAT,0644); ftruncate(fd,covsz); covmap=mmap(NULL,covsz,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); }
  for(;covn<n;covn++){ Dl_info d; dladdr(dlsym(h[covn],"athena_main"),&d); covbase[covn]=d.dli_fbase; } }

/* ------------------------------------------------------------------- child  */
static void load_fs(const char *path){
  FILE *f=fopen(path,"rb"); if(!f) return; uint32_t t[2]; uint64_t n;
  while(fread(t,4,2,f)==2&&fread(&n,8,1,f)==1){ char *p=calloc(1,t[1]+1); if(fread(p,1,t[1],f)!=t[1]) break; inode_t *I=fs_add(p,t[0]); if(n){ I->d=malloc(n); I->cap=n; I->n=fread(I->d,1,n,f); } free(p); }
  fclose(f);
}
static void wfile(const char *suf,const void *p,size_t n){ char b[600]; snprintf(b,600,"%s.%s",P.out,suf); int fd=open(b,O_WRONLY|O_CREAT|O_TRUNC,0644); size_t o=0; while(o<n){ ssize_t k=write(fd,(char*)p+o,n-o); if(k<=0) break; o+=k; } close(fd); }
static void child(void **handles){
  real_out=stdout; real_err=stderr;
  struct rlimit rl={(rlim_t)6<<30,(rlim_t)6<<30}; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl);
  G.s=P.seed*0x2545F4914F6CDD1DULL+1; GJ.s=P.seed^0xABCDEF;
  ncomm=1; comms[1].n=P.nranks; for(int i=0;i<P.nranks;i++) comms[1].rank[i]=i; comms[2].n=0; ncomm=3; ngroup=1;
  load_fs(P.fsin); if(!fs_find("/w")) fs_add("/w",1);
  for(int i=0;i<P.nranks;i++){ rank_t *r=&R[i]; memset(r,0,sizeof *r); r->id=i; r->state=R_NEW; strcpy(r->cwd,"/w"); r->mainfn=(int(*)(int,char**))dlsym(handles[i],"athena_main"); r->randst=1;
    cookie_io_functions_t io={NULL,ck_mem_out,NULL,NULL}, ie={NULL,ck_mem_err,NULL,NULL}; r->so=fopencookie(r,"w",io); r->se=fopencookie(r,"w",ie); setvbuf(r->se,NULL,_IONBF,0); setvbuf(r->so,NULL,_IONBF,0); }
  draw_policy();
  struct itimerval it={{0,0},{P.cpu,0}}; signal(SIGPROF,SIG_DFL); setitimer(ITIMER_PROF,&it,NULL);
  run_job();
  struct itimerval z={{0,0},{0,0}}; setitimer(ITIMER_PROF,&z,NULL);
  /* result */
  char *b=NULL; size_t n=0; FILE *o=open_memstream(&b,&n);
  fprintf(o,"status %s\nwhy %s\ncode %d\n",!job_over?"ok":job_status==2?"deadlock":job_status==3?"budget":job_status==9?"crashed":"aborted",job_why,job_over?job_status:0);
  int ec=0; for(int i=0;i<P.nranks;i++){ fprintf(o,"exit %d %d %d\n",i,R[i].exited,R[i].exitcode); if(R[i].exitcode) ec=R[i].exitcode; }
  fprintf(o,"jobexit %d\n",job_over?(job_status?job_status:1):ec);
  for(int i=0;i<nviol;i++) fprintf(o,"viol %s %s\n",viols[i].kind,viols[i].text);
  fprintf(o,"nmsg %ld\nmsgbytes %ld\nncoll %ld\nnopen %ld\nnwrite %ld\nnread %ld\nbytes %ld\n",nmsg,nbytesmsg,ncollectives,nopens,nwrites,nreads,totbytes);
  for(int i=0;i<P.nranks;i++) fprintf(o,"rseam %d %ld\nralloc %d %ld\n",i,R[i].nseam,i,R[i].nalloc);
  fprintf(o,"policy net=%d rank=%d send=%d coll=%d any=%d plazy=%g\n",Q.net,Q.rank,Q.send,Q.coll,Q.any,Q.plazy);
  fclose(o); wfile("res",b,n);
  b=NULL; n=0; o=open_memstream(&b,&n);
  for(int i=0;i<nfs;i++) if(!fs[i].gone){ uint32_t t[2]={fs[i].dir,(uint32_t)strlen(fs[i].path)}; uint64_t m=fs[i].n; fwrite(t,4,2,o); fwrite(&m,8,1,o); fwrite(fs[i].path,1,t[1],o); fwrite(fs[i].d,1,m,o); }
  fclose(o); wfile("fs",b,n);
  b=NULL; n=0; o=open_memstream(&b,&n);
  for(int i=0;i<P.nranks;i++){ uint64_t h[3]={R[i].outn,R[i].errn,R[i].obsn}; fwrite(h,8,3,o); fwrite(R[i].outb,1,h[0],o); fwrite(R[i].errb,1,h[1],o); fwrite(R[i].obs,1,h[2],o); }
  fclose(o); wfile("rk",b,n);
  if(P.wantio) wfile("io",iolog?iolog:"",iologn);
  S->finished=1; _exit(0);
}

/* ------------------------------------------------------------------ worker  */
static int faultkind(const char *s){ for(int i=0;i<F_NKIND;i++) if(!strcmp(s,fname_[i])) return i; return -1; }
static int read_spec(const char *path){
  FILE *f=fopen(path,"r"); if(!f) return -1; static char line[1<<16]; memset(&P,0,sizeof P);
  P.nranks=1; P.bufsize=4096; P.budget=20000000; P.cpu=60; P.junk=1; repdev=NULL; nrep=irep=0; long caprep=0;
  P.pol_net=P.pol_rank=P.pol_send=P.pol_lazy=P.pol_coll=P.pol_any=-1;
  while(fgets(line,sizeof line,f)){ char k[64]; int o=0; line[strcspn(line,"\n")]=0; if(sscanf(line,"%63s %n",k,&o)<1) continue; char *v=line+o;
    if(!strcmp(k,"seed")) P.seed=strtoull(v,0,10); else if(!strcmp(k,"nranks")) P.nranks=atoi(v); else if(!strcmp(k,"arg")&&P.nargs<128) P.argv[P.nargs++]=strdup(v);
    else if(!strcmp(k,"out")) snprintf(P.out,512,"%s",v); else if(!strcmp(k,"fsin")) snprintf(P.fsin,512,"%s",v); else if(!strcmp(k,"bufsize")) P.bufsize=atol(v); else if(!strcmp(k,"budget")) P.budget=atol(v); else if(!strcmp(k,"cpu")) P.cpu=atoi(v); else if(!strcmp(k,"junk")) P.junk=atoi(v); else if(!strcmp(k,"redperm")) P.redperm=atoi(v); else if(!strcmp(k,"obs_every")) P.obs_every=atoi(v); else if(!strcmp(k,"obs_out")) P.obs_out=atoi(v); else if(!strcmp(k,"replay")) P.replay=atoi(v); else if(!strcmp(k,"wantio")) P.wantio=atoi(v); else if(!strcmp(k,"wantdev")) P.wantdev=atoi(v);
    else if(!strcmp(k,"skew")){ int r; double x; if(sscanf(v,"%d %lf",&r,&x)==2&&r<MAXR) P.skew[r]=x; }
    else if(!strcmp(k,"policy")){ P.pol_set=1; sscanf(v,"%d %d %d %d %d %d",&P.pol_net,&P.pol_rank,&P.pol_send,&P.pol_lazy,&P.pol_coll,&P.pol_any); }
    else if(!strcmp(k,"fault")&&P.nfault<MAXFAULT){ fault_t *q=&P.fault[P.nfault]; char kn[64]; memset(q,0,sizeof *q); q->rank=-1; if(sscanf(v,"%63s %d %ld %ld %lf %127s",kn,&q->rank,&q->k,&q->v,&q->x,q->pat)>=1&&(q->kind=faultkind(kn))>=0) P.nfault++; else { fclose(f); return -2; } }
    else if(!strcmp(k,"dev")){ char *p=v; for(;;){ char *e; unsigned long a=strtoul(p,&e,10); if(e==p||*e!=':') break; unsigned long b=strtoul(e+1,&p,10); if(nrep==caprep){ caprep=caprep?2*caprep:1024; repdev=realloc(repdev,caprep*sizeof *repdev);} repdev[nrep].idx=a; repdev[nrep++].val=b; } }
  }
  fclose(f); return P.nranks<1||P.nranks>MAXR?-3:0;
}
static void *load_copy(const char *so){ int in=open(so,O_RDONLY); if(in<0) return NULL; int m=memfd_create("athena",0); char b[65536]; ssize_t n; while((n=read(in,b,sizeof b))>0) if(write(m,b,n)!=n) return NULL; close(in); char p[64]; sprintf(p,"/proc/self/fd/%d",m); void *h=dlopen(p,RTLD_NOW|RTLD_LOCAL); if(!h) fprintf(stderr,"dlopen: %s\n",dlerror()); return h; }
int main(int ac,char **av){
  if(!getenv("ATHSIM_NOASLR")){ setenv("ATHSIM_NOASLR","1",1); if(personality(ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",av); }
  if(ac<2){ fprintf(stderr,"usage: athsim SO\n"); return 2; }
  static void *h[MAXR]; int nh=0; char line[1024];
  S=mmap(NULL,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  while(fgets(line,sizeof line,stdin)){ line[strcspn(line,"\n")]=0;
    int e=read_spec(line); if(e){ printf("badspec %d\n",e); fflush(stdout); continue; }
    while(nh<P.nranks){ h[nh]=load_copy(av[1]); if(!h[nh]||!dlsym(h[nh],"athena_main")){ printf("badso\n"); fflush(stdout); return 3; } nh++; }
    cov_open(h,nh,av[1]);
    memset(S,0,offsetof(shared_t,dev)); S->hash=0xcbf29ce484222325ULL; S->cur_rank=-1;
    fflush(stdout); pid_t pid=fork(); if(pid==0) child(h);
    int st=0; while(waitpid(pid,&st,0)<0&&errno==EINTR);
    if(!S->finished){ /* the simulated program crashed or hung */
      char b[600]; snprintf(b,600,"%s.res",P.out); FILE *o=fopen(b,"w"); int sg=WIFSIGNALED(st)?WTERMSIG(st):0;
      fprintf(o,"status %s\nwhy signal %d, last event: %s\ncode %d\njobexit %d\n",sg==SIGPROF?"hang":"segv",sg,S->last,sg,128+sg);
      fprintf(o,"viol %s rank %d: signal %d, last event %s\n",sg==SIGPROF?"hang":"memory-fault",S->cur_rank,sg,S->last); fclose(o);
      const char *sf[]={"fs","rk","io"}; for(int i=0;i<3;i++){ snprintf(b,600,"%s.%s",P.out,sf[i]); unlink(b); } }
    { char b[600]; snprintf(b,600,"%s.res",P.out); FILE *o=fopen(b,"a"); fprintf(o,"hash %016llx\nnchoice %ld\nndev %ld\nnseam %ld\nnsched %ld\nsimtime %g\n",(unsigned long long)S->hash,S->nchoice,S->ndev,S->nseam,S->nsched,S->simtime);
      for(int i=0;i<F_NKIND;i++) if(S->fired[i]) fprintf(o,"fired %s %d\n",fname_[i],S->fired[i]); fclose(o);
      if(P.wantdev){ snprintf(b,600,"%s.dev",P.out); o=fopen(b,"w"); for(long i=0;i<S->ndev;i++) fprintf(o,"%u:%u ",S->dev[i].idx,S->dev[i].val); fclose(o); } }
    free(repdev); repdev=NULL; for(int i=0;i<P.nargs;i++) free(P.argv[i]);
    printf("done\n"); fflush(stdout);
  }
  return 0;
}
