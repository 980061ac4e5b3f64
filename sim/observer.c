/* Observation point of the simulation: interposed (linker --wrap) on the two
 * user hooks every problem generator must provide, so it needs no change to the
 * code under test.  Reports the state of every Grid this rank owns. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

extern void sim_obs(const void *p,long n);
extern int  sim_obs_every(void);
extern int  sim_obs_out(void);
extern void sim_mark(int nstep,int flag,double t,double dt);
void __real_Userwork_in_loop(MeshS *pM);
void __real_Userwork_after_loop(MeshS *pM);

static unsigned char *buf; static size_t bn, bcap;
extern void *sim_scratch(void *p,size_t n);
static void put(const void *p,size_t n){ if(bn+n>bcap){ bcap=2*(bn+n)+65536; buf=sim_scratch(buf,bcap);} memcpy(buf+bn,p,n); bn+=n; }
static void pi(int v){ int32_t x=v; put(&x,4); }
static void pd(double v){ put(&v,8); }

#if defined(BAROTROPIC)
#define NC0 4
#else
#define NC0 5
#endif
#ifdef MHD
#define NCB 3
#else
#define NCB 0
#endif
#define NV (NC0+NCB+NSCALARS)

static void cons(const ConsS *u,double *v){
  int n=0; v[n++]=u->d; v[n++]=u->M1; v[n++]=u->M2; v[n++]=u->M3;
#ifndef BAROTROPIC
  v[n++]=u->E;
#endif
#ifdef MHD
  v[n++]=u->B1c; v[n++]=u->B2c; v[n++]=u->B3c;
#endif
#if (NSCALARS > 0)
  { int s; for(s=0;s<NSCALARS;s++) v[n++]=u->s[s]; }
#endif
}
static uint64_t H;
static void hd(double x){ uint64_t b; memcpy(&b,&x,8); H=(H^b)*0x100000001b3ULL; H^=H>>31; }

static void step(MeshS *pM,int phase,int full)
{
  int nl,nd,i,j,k,n; bn=0; H=0xcbf29ce484222325ULL;
  /* per-grid sums and divergence; whole-state hash */
  size_t mark; int ng=0;
  pi(1); pi(phase); pi(pM->nstep); pi(0); mark=bn; pd(pM->time); pd(pM->dt); { uint64_t z=0; put(&z,8); }
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++){
    GridS *pG=pM->Domain[nl][nd].Grid; if(!pG) continue;
    double sum[NV+2], v[NV], dmax=0, bmax=0; long np=0; ng++;
    for(n=0;n<NV+2;n++) sum[n]=0;
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){
      double w=1.0;
#ifdef CYLINDRICAL
      w=pG->r[i];
#endif
      cons(&pG->U[k][j][i],v); for(n=0;n<NV;n++){ sum[n]+=w*v[n]; hd(v[n]); }
#ifdef MHD
      { double b1=pG->B1i[k][j][i],b2=pG->B2i[k][j][i],b3=pG->B3i[k][j][i],dv=0;
        hd(b1); hd(b2); hd(b3);
#ifndef CYLINDRICAL
        if(pG->Nx[0]>1) dv+=(pG->B1i[k][j][i+1]-b1)/pG->dx1;
        if(pG->Nx[1]>1) dv+=(pG->B2i[k][j+1][i]-b2)/pG->dx2;
        if(pG->Nx[2]>1) dv+=(pG->B3i[k+1][j][i]-b3)/pG->dx3;
#else
        if(pG->Nx[0]>1) dv+=(pG->ri[i+1]*pG->B1i[k][j][i+1]-pG->ri[i]*b1)/(pG->r[i]*pG->dx1);
        if(pG->Nx[1]>1) dv+=(pG->B2i[k][j+1][i]-b2)/(pG->r[i]*pG->dx2);
        if(pG->Nx[2]>1) dv+=(pG->B3i[k+1][j][i]-b3)/pG->dx3;
#endif
        if(!(fabs(dv)<=dmax)) dmax=fabs(dv);
        { double bb=fabs(b1)+fabs(b2)+fabs(b3); if(bb>bmax) bmax=bb; } }
#endif
#ifdef SELF_GRAVITY
      hd(pG->Phi[k][j][i]);
#endif
    }
#ifdef PARTICLES
    { long p; for(p=0;p<pG->nparticle;p++) { GrainS *g=&pG->particle[p]; if(g->pos!=0) { np++; hd(g->x1); hd(g->x2); hd(g->x3); hd(g->v1); hd(g->v2); hd(g->v3); } } }
#endif
    pi(nl); pi(nd); pi(NV); pi((int)np); for(n=0;n<NV;n++) pd(sum[n]); pd(dmax); pd(bmax); pd(pG->time);
  }
  memcpy(buf+mark+16,&H,8); { int32_t g=ng; memcpy(buf+mark-4,&g,4); }
  if(phase<2) sim_obs(buf,bn);
  if(!full) return;
  bn=0; pi(2); pi(phase); pi(pM->nstep); pi(ng); pd(pM->time); pd(pM->dt);
  for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++){
    DomainS *pD=&pM->Domain[nl][nd]; GridS *pG=pD->Grid; double v[NV]; if(!pG) continue;
    int hasB=0,hasPhi=0,np=0;
#ifdef MHD
    hasB=1;
#endif
#ifdef SELF_GRAVITY
    hasPhi=1;
#endif
#ifdef PARTICLES
    { long p; for(p=0;p<pG->nparticle;p++) if(pG->particle[p].pos!=0) np++; }
#endif
    pi(nl); pi(nd); for(n=0;n<3;n++) pi(pD->Nx[n]); for(n=0;n<3;n++) pi(pD->Disp[n]);
    for(n=0;n<3;n++) pi(pG->Nx[n]); for(n=0;n<3;n++) pi(pG->Disp[n]); pi(NV); pi(hasB); pi(hasPhi); pi(np);
    pd(pG->dx1); pd(pG->dx2); pd(pG->dx3); pd(pG->MinX[0]); pd(pG->MinX[1]); pd(pG->MinX[2]);
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){ cons(&pG->U[k][j][i],v); put(v,sizeof v); }
#ifdef MHD
    { int u1=pG->Nx[0]>1,u2=pG->Nx[1]>1,u3=pG->Nx[2]>1;
      for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie+u1;i++) pd(pG->B1i[k][j][i]);
      for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je+u2;j++) for(i=pG->is;i<=pG->ie;i++) pd(pG->B2i[k][j][i]);
      for(k=pG->ks;k<=pG->ke+u3;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++) pd(pG->B3i[k][j][i]); }
#endif
#ifdef SELF_GRAVITY
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++) pd(pG->Phi[k][j][i]);
#endif
#ifdef PARTICLES
    { long p; for(p=0;p<pG->nparticle;p++){ GrainS *g=&pG->particle[p]; if(g->pos==0) continue; pd(g->x1); pd(g->x2); pd(g->x3); pd(g->v1); pd(g->v2); pd(g->v3); pd(g->property); pd(g->pos); pd((double)g->my_id);
#ifdef MPI_PARALLEL
      pd(g->init_id);
#else
      pd(-1);
#endif
      } }
#endif
  }
  sim_obs(buf,bn);
}
void __wrap_Userwork_in_loop(MeshS *pM)
{ int e=sim_obs_every(); __real_Userwork_in_loop(pM); step(pM,0,e>0&&(pM->nstep+1)%e==0); }
void __wrap_Userwork_after_loop(MeshS *pM)
{ step(pM,1,sim_obs_every()>=0); __real_Userwork_after_loop(pM); }
/* what the output functions are given: the state at every call of data_output */
void __real_data_output(MeshS *pM,const int flag);
void __wrap_data_output(MeshS *pM,const int flag)
{ sim_mark(pM->nstep,flag,pM->time,pM->dt); if(sim_obs_out()) step(pM,2+flag,1); __real_data_output(pM,flag); }
