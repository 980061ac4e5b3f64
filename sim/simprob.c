/* Generic problem generator used by the simulation (a user problem file like
 * any in src/prob).  The initial state is a function of global zone indices and
 * position only, never of the decomposition. */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef PARTICLES
#include "particles/particle.h"
#endif

static Real L[3], X0[3], amp, vamp, den0, pres0, vel[3], b0, bamp, gacc;
static double ucoef; static int iseed, useinflow, udatan, failrank, failstep, nanrank, nanstep, nanwhat;
static double *udata; static long ucount;

static double hsh(int l,int i,int j,int k,int n){
  uint64_t z=(uint64_t)(unsigned)iseed*0x9E3779B97F4A7C15ULL;
  z^=((uint64_t)(l+1)<<56)^((uint64_t)(unsigned)(i+64)<<40)^((uint64_t)(unsigned)(j+64)<<24)^((uint64_t)(unsigned)(k+64)<<8)^(uint64_t)n;
  z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; z^=z>>31;
  return (double)(z>>11)*(2.0/9007199254740992.0)-1.0;
}
/* positions from global indices: bitwise the same for every tiling */
#define GX(d,q,DX) (X0[d]+((double)(q))*(DX))
static double ph(int n){ return 3.14159265358979*hsh(9,n,0,0,77); }
static double sw(double x,int d,int n){ return sin(2.0*PI*n*(x-X0[d])/L[d]+ph(10*d+n)); }
/* each component of A is independent of its own coordinate */
static double A1(double y,double z){ return bamp*L[1]*(0.10*sw(y,1,1)+0.07*sw(z,2,1)+0.05*sw(y,1,1)*sw(z,2,1)); }
static double A2(double x,double z){ return bamp*L[0]*(0.09*sw(x,0,1)+0.06*sw(z,2,1)+0.04*sw(x,0,1)*sw(z,2,1)); }
static double A3(double x,double y){ return bamp*L[0]*(0.08*sw(x,0,1)+0.05*sw(y,1,1)+0.06*sw(x,0,1)*sw(y,1,1)); }

static Real grav_pot(const Real x1,const Real x2,const Real x3){ return gacc*(0.3*sin(2.0*PI*(x1-X0[0])/L[0])+0.2*x2+0.1*x3); }
#ifdef SHEARING_BOX
static Real shear_pot(const Real x1,const Real x2,const Real x3){
#ifndef FARGO
  return -1.0*qshear*Omega_0*Omega_0*x1*x1;
#else
  return 0.0;
#endif
}
#endif
static void inflow_ix1(GridS *pG){ int i,j,k; 
  int ju=pG->je,jl=pG->js,ku=pG->ke,kl=pG->ks; if(pG->Nx[1]>1){ jl-=nghost; ju+=nghost; } if(pG->Nx[2]>1){ kl-=nghost; ku+=nghost; }
  for(k=kl;k<=ku;k++) for(j=jl;j<=ju;j++) for(i=1;i<=nghost;i++){ pG->U[k][j][pG->is-i]=pG->U[k][j][pG->is];
    pG->U[k][j][pG->is-i].d*=(1.0+0.05*sin(20.0*pG->time)); }
#ifdef MHD
  for(k=kl;k<=ku;k++) for(j=jl;j<=ju;j++) for(i=1;i<=nghost-1;i++) pG->B1i[k][j][pG->is-i]=pG->B1i[k][j][pG->is];
  { int jj=pG->Nx[1]>1?ju:ju; for(k=kl;k<=ku;k++) for(j=jl;j<=jj;j++) for(i=1;i<=nghost;i++) pG->B2i[k][j][pG->is-i]=pG->B2i[k][j][pG->is]; }
  for(k=kl;k<=ku;k++) for(j=jl;j<=ju;j++) for(i=1;i<=nghost;i++) pG->B3i[k][j][pG->is-i]=pG->B3i[k][j][pG->is];
#endif
}
static Real hst_d2(const GridS *pG,const int i,const int j,const int k){ return pG->U[k][j][i].d*pG->U[k][j][i].d; }
static Real hst_x(const GridS *pG,const int i,const int j,const int k){ Real x1,x2,x3; cc_pos(pG,i,j,k,&x1,&x2,&x3); return x1*pG->U[k][j][i].M2+x2*pG->U[k][j][i].d; }
static Real expr_v2(const GridS *pG,const int i,const int j,const int k){ return (pG->U[k][j][i].M1*pG->U[k][j][i].M1+pG->U[k][j][i].M2*pG->U[k][j][i].M2)/pG->U[k][j][i].d; }

#ifdef CYLINDRICAL
static Real cyl_pot(const Real x1,const Real x2,const Real x3){ return -1.0/x1; }
#ifdef FARGO
static Real cyl_om(const Real r){ return pow(r,-1.5); }
static Real cyl_q(const Real r){ return 1.5; }
#endif
#endif
#ifdef OPERATOR_SPLIT_COOLING
static void coolunits(GridS *pG){ ConstS c; init_consts(&c); pG->units.Dcode=1.4*c.mH; pG->units.Vcode=c.kms; pG->units.Lcode=c.pc; pG->units.Tcode=pG->units.Lcode/pG->units.Vcode; pG->heat0=2.e-26; pG->heat_ratio=1.0; }
#endif
static void setup(MeshS *pM,DomainS *pD)
{
  int n; static int first=1;
  for(n=0;n<3;n++){ Real a=pM?pM->RootMinX[n]:pD->RootMinX[n], b=pM?pM->RootMaxX[n]:pD->RootMaxX[n]; X0[n]=a; L[n]=b-a; }
  iseed=par_geti_def("problem","iseed",1); amp=par_getd_def("problem","amp",0.1); vamp=par_exist("problem","vamp")?par_getd("problem","vamp"):amp;
  den0=par_getd_def("problem","den",1.0); pres0=par_getd_def("problem","pres",1.0);
  vel[0]=par_getd_def("problem","v1",0.0); vel[1]=par_getd_def("problem","v2",0.0); vel[2]=par_getd_def("problem","v3",0.0);
  b0=par_getd_def("problem","b0",0.3); bamp=par_getd_def("problem","bamp",1.0);
  gacc=par_getd_def("problem","gacc",0.0); useinflow=par_geti_def("problem","inflow",0); udatan=par_geti_def("problem","udata",0); ucoef=par_getd_def("problem","ucoef",1e-4/3.0);
  failrank=par_geti_def("problem","fail_rank",-1); failstep=par_geti_def("problem","fail_step",-1); nanrank=par_geti_def("problem","nan_rank",-1); nanstep=par_geti_def("problem","nan_step",-1); nanwhat=par_geti_def("problem","nan_what",0);
  if(gacc!=0.0) StaticGravPot=grav_pot;
#ifdef CYLINDRICAL
  StaticGravPot=cyl_pot;
#ifdef FARGO
  OrbitalProfile=cyl_om; ShearProfile=cyl_q;
#endif
#endif
#ifdef OPERATOR_SPLIT_COOLING
  { int nl,nd; if(pM) for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++) if(pM->Domain[nl][nd].Grid) coolunits(pM->Domain[nl][nd].Grid); if(pD&&pD->Grid) coolunits(pD->Grid); }
#endif
#ifdef SHEARING_BOX
  Omega_0=par_getd_def("problem","Omega",1.0); qshear=par_getd_def("problem","qshear",1.5); ShearingBoxPot=shear_pot; ShBoxCoord=par_geti_def("problem","xz",0)?xz:xy;
#endif
#ifdef SELF_GRAVITY
  four_pi_G=par_getd_def("problem","fpG",1.0); grav_mean_rho=den0;
#endif
#ifdef VISCOSITY
  nu_iso=par_getd_def("problem","nu_iso",0.0); nu_aniso=par_getd_def("problem","nu_aniso",0.0);
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso=par_getd_def("problem","kappa_iso",0.0); kappa_aniso=par_getd_def("problem","kappa_aniso",0.0);
#endif
#ifdef RESISTIVITY
  eta_Ohm=par_getd_def("problem","eta_O",0.0); Q_Hall=par_getd_def("problem","Q_H",0.0); Q_AD=par_getd_def("problem","Q_A",0.0); d_ind=par_getd_def("problem","d_ind",0.0);
#endif
  if(first){ first=0; 
    { int q,nu=par_geti_def("problem","userhst",2); for(q=0;q<nu;q++) dump_history_enroll(q%2?hst_x:hst_d2,q%2?"<xM>":"<d2>"); }
    if(udatan>0){ int q; udata=(double*)calloc(udatan,sizeof(double)); if(!udata) ath_error("[simprob]: no memory\n"); for(q=0;q<udatan;q++) udata[q]=hsh(3,q,1,1,5); }
  }
  if(useinflow){ if(pM) { if(pM->Domain[0][0].Disp[0]==0) bvals_mhd_fun(&pM->Domain[0][0],left_x1,inflow_ix1); } else if(pD->Level==0) bvals_mhd_fun(pD,left_x1,inflow_ix1); }
}

#ifdef PARTICLES
static void particles(DomainS *pD);
#endif
void problem(DomainS *pD)
{
  GridS *pG=pD->Grid; int i,j,k,l=pD->Level; Real x,y,z; setup(NULL,pD);
  int is=pG->is,ie=pG->ie,js=pG->js,je=pG->je,ks=pG->ks,ke=pG->ke;
  int m1=pG->Nx[0]>1,m2=pG->Nx[1]>1,m3=pG->Nx[2]>1; (void)y;(void)z;
#ifdef MHD
  for(k=ks;k<=ke+m3;k++) for(j=js;j<=je+m2;j++) for(i=is;i<=ie+m1;i++){
    Real xf,yf,zf,dx=pG->dx1,dy=pG->dx2,dz=pG->dx3; xf=GX(0,i-is+pG->Disp[0],dx); yf=GX(1,j-js+pG->Disp[1],dy); zf=GX(2,k-ks+pG->Disp[2],dz);
    double f1=b0*0.7,f2=b0*0.5,f3=b0*0.4;
#ifdef CYLINDRICAL
    { double rc=xf+0.5*dx; f1/=xf;
    if(m2) f1+=(A3(xf,yf+dy)-A3(xf,yf))/(xf*dy); if(m3) f1-=(A2(xf,zf+dz)-A2(xf,zf))/dz;
    if(m3) f2+=(A1(yf,zf+dz)-A1(yf,zf))/dz; f2-=(A3(xf+dx,yf)-A3(xf,yf))/dx;
    f3+=((xf+dx)*A2(xf+dx,zf)-xf*A2(xf,zf))/(rc*dx); if(m2) f3-=(A1(yf+dy,zf)-A1(yf,zf))/(rc*dy); }
#else
    if(m2) f1+=(A3(xf,yf+dy)-A3(xf,yf))/dy; if(m3) f1-=(A2(xf,zf+dz)-A2(xf,zf))/dz;
    if(m3) f2+=(A1(yf,zf+dz)-A1(yf,zf))/dz; f2-=(A3(xf+dx,yf)-A3(xf,yf))/dx;
    f3+=(A2(xf+dx,zf)-A2(xf,zf))/dx; if(m2) f3-=(A1(yf+dy,zf)-A1(yf,zf))/dy;
#endif
    if((j<=je||!m2)&&(k<=ke||!m3)) pG->B1i[k][j][i]=f1;
    if(i<=ie&&(k<=ke||!m3)) pG->B2i[k][j][i]=f2;
    if(i<=ie&&(j<=je||!m2)) pG->B3i[k][j][i]=f3;
  }
#endif
  for(k=ks;k<=ke;k++) for(j=js;j<=je;j++) for(i=is;i<=ie;i++){
    int gi=i-is+pG->Disp[0],gj=j-js+pG->Disp[1],gk=k-ks+pG->Disp[2]; double d,v1,v2,v3,p;
    x=GX(0,gi+0.5,pG->dx1); y=GX(1,gj+0.5,pG->dx2); z=GX(2,gk+0.5,pG->dx3);
    d=den0*(1.0+amp*hsh(l,gi,gj,gk,0)+0.2*sw(x,0,1)*(m2?sw(y,1,1):1.0)*(m3?sw(z,2,1):1.0));
    v1=vel[0]+vamp*hsh(l,gi,gj,gk,1)+0.2*(m2?sw(y,1,1):0); v2=vel[1]+vamp*hsh(l,gi,gj,gk,2)+0.2*sw(x,0,1); v3=vel[2]+vamp*hsh(l,gi,gj,gk,3)+0.2*sw(x,0,2);
    p=pres0*(1.0+amp*hsh(l,gi,gj,gk,4)+0.2*sw(x,0,1)); 
#if defined(SHEARING_BOX) && !defined(FARGO)
    if(ShBoxCoord==xy) v2-=qshear*Omega_0*x; else v3-=qshear*Omega_0*x;
#endif
#ifdef CYLINDRICAL
#ifndef FARGO
    v2+=pow(x,-0.5);
#endif
#endif
    pG->U[k][j][i].d=d; pG->U[k][j][i].M1=d*v1; pG->U[k][j][i].M2=d*v2; pG->U[k][j][i].M3=d*v3;
#ifdef MHD
#ifdef CYLINDRICAL
    pG->U[k][j][i].B1c= m1?0.5*((pG->ri[i]/pG->r[i])*pG->B1i[k][j][i]+(pG->ri[i+1]/pG->r[i])*pG->B1i[k][j][i+1]):pG->B1i[k][j][i];
#else
    pG->U[k][j][i].B1c= m1?0.5*(pG->B1i[k][j][i]+pG->B1i[k][j][i+1]):pG->B1i[k][j][i];
#endif
    pG->U[k][j][i].B2c= m2?0.5*(pG->B2i[k][j][i]+pG->B2i[k][j+1][i]):pG->B2i[k][j][i];
    pG->U[k][j][i].B3c= m3?0.5*(pG->B3i[k][j][i]+pG->B3i[k+1][j][i]):pG->B3i[k][j][i];
#endif
#ifndef BAROTROPIC
    pG->U[k][j][i].E=p/Gamma_1+0.5*d*(v1*v1+v2*v2+v3*v3)
#ifdef MHD
      +0.5*(SQR(pG->U[k][j][i].B1c)+SQR(pG->U[k][j][i].B2c)+SQR(pG->U[k][j][i].B3c))
#endif
      ;
#endif
#ifdef SPECIAL_RELATIVITY
    { PrimS W; memset(&W,0,sizeof W); W.d=d; W.V1=0.5*v1; W.V2=0.5*v2; W.V3=0.5*v3; W.P=p;
#ifdef MHD
      W.B1c=pG->U[k][j][i].B1c; W.B2c=pG->U[k][j][i].B2c; W.B3c=pG->U[k][j][i].B3c;
#endif
      pG->U[k][j][i]=Prim_to_Cons(&W); }
#endif
#if (NSCALARS > 0)
    { int s; for(s=0;s<NSCALARS;s++) pG->U[k][j][i].s[s]=d*(0.5+0.4*hsh(l,gi,gj,gk,10+s)); }
#endif
  }
#ifdef PARTICLES
  particles(pD);
#endif
}
#ifdef PARTICLES
static void partpars(void)
{ int t; for(t=0;t<npartypes;t++){ tstop0[t]=par_getd_def("problem","tstop",0.1)*(1.0+t); grrhoa[t]=0.3*(1+t);
#ifdef FEEDBACK
    grproperty[t].m=par_getd_def("problem","mpar",0.02)*(1+t);
#endif
  } alamcoeff=par_getd_def("problem","alam",1.0); }
static void particles(DomainS *pD)
{ GridS *pG=pD->Grid; int npc=par_exist("problem","npc")?par_geti("problem","npc"):par_geti_def("particle","parnumcell",1),i,j,k,t,q,d,cl=0; double cx[3],cw[3]; long p=0,n=(long)npartypes*npc*pG->Nx[0]*pG->Nx[1]*pG->Nx[2];
  int m2=pG->Nx[1]>1,m3=pG->Nx[2]>1; double vp=par_getd_def("problem","vpar",0.3);
  if(n+2>pG->arrsize) particle_realloc(pG,n+2);
  partpars(); for(t=0;t<npartypes;t++) grproperty[t].num=0;
  for(d=0;d<3;d++){ char nm[8]; sprintf(nm,"cl%d",d+1); if(par_exist("problem",nm)){ cl=1; cx[d]=par_getd("problem",nm); sprintf(nm,"cw%d",d+1); cw[d]=par_getd("problem",nm); } else { cx[d]=0.0; cw[d]=1.0; } }
  /* a clump: the particles of the whole Domain in a part of it; a process keeps those inside its Grid */
  if(cl) for(k=0;k<pD->Nx[2];k++) for(j=0;j<pD->Nx[1];j++) for(i=0;i<pD->Nx[0];i++) for(t=0;t<npartypes;t++) for(q=0;q<npc;q++){
    int h=100+20*(t*npc+q); double c[3],v[3]; int in=1,u[3]={i,j,k};
    for(d=0;d<3;d++){ c[d]=pD->Nx[d]>1?X0[d]+L[d]*(cx[d]+cw[d]*(u[d]+0.5+0.49*hsh(0,i,j,k,h+d))/pD->Nx[d]):0.5*(pG->MinX[d]+pG->MaxX[d]); v[d]=vel[d]+vp*hsh(0,i,j,k,h+3+d); }
    for(d=0;d<3;d++) if(pD->Nx[d]>1&&(c[d]<pG->MinX[d]||c[d]>=pG->MaxX[d])) in=0;
    if(!in) continue;
    if(p+2>pG->arrsize) particle_realloc(pG,p+2);
    GrainS *g=&pG->particle[p]; g->property=t; g->x1=c[0]; g->x2=c[1]; g->x3=c[2]; g->v1=v[0]; g->v2=v[1]; g->v3=v[2];
#if defined(SHEARING_BOX) && !defined(FARGO)
    if(ShBoxCoord==xy) g->v2-=qshear*Omega_0*g->x1; else g->v3-=qshear*Omega_0*g->x1;
#endif
    g->pos=1; g->my_id=(((long)k*pD->Nx[1]+j)*pD->Nx[0]+i)*npartypes*npc+t*npc+q;
#ifdef MPI_PARALLEL
    g->init_id=(int)(g->my_id%89)+1;
#endif
    grproperty[t].num++; p++; }
  else for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++) for(t=0;t<npartypes;t++) for(q=0;q<npc;q++){
    int gi=i-pG->is+pG->Disp[0],gj=j-pG->js+pG->Disp[1],gk=k-pG->ks+pG->Disp[2],h=100+20*(t*npc+q); GrainS *g=&pG->particle[p]; double lo,hi;
    g->property=t; g->x1=GX(0,gi+0.5+0.49*hsh(0,gi,gj,gk,h),pG->dx1);
    g->x2= m2?GX(1,gj+0.5+0.49*hsh(0,gi,gj,gk,h+1),pG->dx2):0.5*(pG->MinX[1]+pG->MaxX[1]);
    g->x3= m3?GX(2,gk+0.5+0.49*hsh(0,gi,gj,gk,h+2),pG->dx3):0.5*(pG->MinX[2]+pG->MaxX[2]);
    g->v1=vel[0]+vp*hsh(0,gi,gj,gk,h+3); g->v2=vel[1]+vp*hsh(0,gi,gj,gk,h+4); g->v3=vel[2]+vp*hsh(0,gi,gj,gk,h+5); (void)lo;(void)hi;
#if defined(SHEARING_BOX) && !defined(FARGO)
    if(ShBoxCoord==xy) g->v2-=qshear*Omega_0*g->x1; else g->v3-=qshear*Omega_0*g->x1;
#endif
    g->pos=1; g->my_id=(((long)gk*pD->Nx[1]+gj)*pD->Nx[0]+gi)*npartypes*npc+t*npc+q; 
#ifdef MPI_PARALLEL
    g->init_id=(int)(g->my_id%89)+1;
#endif
    grproperty[t].num++; p++; }
  pG->nparticle=p; }
#endif
void problem_write_restart(MeshS *pM,FILE *fp){ fwrite(&ucount,sizeof(long),1,fp); if(udatan>0) fwrite(udata,sizeof(double),udatan,fp); }
void problem_read_restart(MeshS *pM,FILE *fp){ setup(pM,NULL);
 if(fread(&ucount,sizeof(long),1,fp)!=1) ath_error("[simprob]: user data missing\n"); if(udatan>0&&fread(udata,sizeof(double),udatan,fp)!=(size_t)udatan) ath_error("[simprob]: user data missing\n"); }
ConsFun_t get_usr_expr(const char *expr){ if(!strcmp(expr,"v2")) return expr_v2; return NULL; }
VOutFun_t get_usr_out_fun(const char *name){ return NULL; }
#ifdef PARTICLES
static int odd_particles(const GrainS *gr,const GrainAux *sub){ return (int)(gr->my_id&1); }
PropFun_t get_usr_par_prop(const char *name){ return !strcmp(name,"odd")?odd_particles:NULL; }
void gasvshift(const Real x1,const Real x2,const Real x3,Real *u1,Real *u2,Real *u3){}
void Userforce_particle(Real3Vect *ft,const Real x1,const Real x2,const Real x3,const Real v1,const Real v2,const Real v3){}
#endif
#ifdef RESISTIVITY
void get_eta_user(GridS *pG,int i,int j,int k,Real *eta_O,Real *eta_H,Real *eta_A){ *eta_O=eta_Ohm*pG->U[k][j][i].d; *eta_H=0.0; *eta_A=0.0; }
#endif
void Userwork_in_loop(MeshS *pM)
{ /* user data evolves every step and feeds back weakly into the gas, so a lost
   * or stale copy after a restart is visible in the solution */
  int nl,nd,q; ucount++;
  if(failstep==ucount&&failrank==myID_Comm_world) ath_error("[simprob]: the user's code gives up in step %d\n",failstep);
  if(nanstep==ucount&&nanrank==myID_Comm_world) for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++) if(pM->Domain[nl][nd].Grid){ GridS *pG=pM->Domain[nl][nd].Grid; int i,j,k;
    if(nanwhat<3) pG->U[pG->ks][pG->js][pG->is].M1=nanwhat==0?0.0/(double)(nanwhat):nanwhat==1?1.0/0.0:-1.0/0.0;
    else for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++){ if(nanwhat==3) pG->U[k][j][i].d=0.0/(double)(nanwhat-3); else pG->U[k][j][i].d=-1.0; } }
  for(q=0;q<udatan;q++) udata[q]=0.9*udata[q]+0.1*sin((double)(ucount+q));
  if(udatan>0&&pM->NLevels==1) for(nl=0;nl<pM->NLevels;nl++) for(nd=0;nd<pM->DomainsPerLevel[nl];nd++) if(pM->Domain[nl][nd].Grid){ GridS *pG=pM->Domain[nl][nd].Grid; int i,j,k;
    for(k=pG->ks;k<=pG->ke;k++) for(j=pG->js;j<=pG->je;j++) for(i=pG->is;i<=pG->ie;i++) pG->U[k][j][i].M3+=ucoef*udata[0]*pG->U[k][j][i].d; }
}
void Userwork_after_loop(MeshS *pM){}
