// The operations run by the simulated threads: calls into the C library. Each has
// its own outputs, and takes what it needs from read-only inputs shared by all
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <assert.h>
#include <unistd.h>
#include <suitesparse/cholmod.h>
#include "mrcal.h"
#include "triangulation.h"
#include "stereo.h"
#include "image.h"
#include "heap.h"
#include "tsched.h"

typedef struct { uint64_t s; } rng_t;
static uint64_t r64(rng_t* r)
{
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z>>30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z>>27)) * 0x94d049bb133111ebull;
    return z ^ (z>>31);
}
static double ru(rng_t* r,double a,double b) { return a + (b-a)*((double)(r64(r)>>11)/9007199254740992.); }
static int    ri(rng_t* r,int n) { return (int)(r64(r)%(uint64_t)n); }

//////////////// shared, read-only
#define NM   14
#define MAXI 400
#define NP   24
typedef struct
{
    char               name[128];
    mrcal_lensmodel_t  lm;
    double             intr[MAXI];
    int                N;
    double             rt[6];
    unsigned int       imagersize[2];
    char*              text;     // .cameramodel
    char               path[256];
} model_t;
typedef struct
{
    int Nci,Nce,Nf,Np,Npf,Nob,Nop,W,H;
    mrcal_lensmodel_t lm;
    int Nintr;
    double* intr; mrcal_pose_t* ext; mrcal_pose_t* frames; mrcal_point3_t* points; mrcal_calobject_warp_t warp;
    mrcal_observation_board_t* ob; mrcal_observation_point_t* op;
    mrcal_point3_t* pb; mrcal_point3_t* pp;
    int Ntri; mrcal_observation_point_triangulated_t* tri;
    int* imagersizes;
    mrcal_problem_selections_t sel;
    mrcal_problem_constants_t  con;
    double spacing;
} problem_t;
#define NPROB 5
typedef struct
{
    model_t  m[NM];
    mrcal_point3_t p[NP]; mrcal_point2_t q[NM][NP];
    problem_t prob[NPROB];
    uint8_t  img8[40*30]; uint16_t img16[40*30]; mrcal_bgr_t img24[40*30];
    char     impath[6][256];
    int      Nimages;
} shared_t;

static const char* names[NM] = {
    "LENSMODEL_PINHOLE","LENSMODEL_STEREOGRAPHIC","LENSMODEL_LONLAT","LENSMODEL_LATLON",
    "LENSMODEL_OPENCV4","LENSMODEL_OPENCV5","LENSMODEL_OPENCV8","LENSMODEL_OPENCV12","LENSMODEL_CAHVOR",
    "LENSMODEL_CAHVORE_linearity=0.34","LENSMODEL_CAHVORE_linearity=1.00",
    "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120",
    "LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=7_Ny=5_fov_x_deg=150",
    "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=9_Ny=8_fov_x_deg=100" };

static void mk_problem(problem_t* P,int kind,rng_t* r,const model_t* models)
{
    const model_t* m = &models[ (int[]){4,0,11,8,4}[kind] ];
    memset(P,0,sizeof *P);
    P->lm = m->lm; P->Nintr = m->N;
    P->Nci = kind==1?1:2; P->Nce = P->Nci-1;
    P->Nf  = kind==4?0:3; P->W=4; P->H=3; P->spacing=.1;
    P->Np  = (kind==3||kind==0)?4:0; P->Npf = kind==3?1:0;
    P->Nob = P->Nf*P->Nci; P->Nop = P->Np*P->Nci;
    P->intr = malloc(sizeof(double)*P->Nci*P->Nintr);
    P->imagersizes = malloc(sizeof(int)*2*P->Nci);
    for(int i=0;i<P->Nci;i++)
    {
        memcpy(&P->intr[i*P->Nintr],m->intr,sizeof(double)*P->Nintr);
        P->intr[i*P->Nintr+0] *= 1+.01*i; P->imagersizes[2*i]=m->imagersize[0]; P->imagersizes[2*i+1]=m->imagersize[1];
    }
    P->ext = calloc(P->Nce+1,sizeof(mrcal_pose_t));
    for(int i=0;i<P->Nce;i++)
    { P->ext[i].r=(mrcal_point3_t){.x=.01,.y=.02*i,.z=-.01}; P->ext[i].t=(mrcal_point3_t){.x=-.2*(i+1),.y=.01,.z=.02}; }
    P->frames = calloc(P->Nf+1,sizeof(mrcal_pose_t));
    for(int i=0;i<P->Nf;i++)
    { P->frames[i].r=(mrcal_point3_t){.x=ru(r,-.3,.3),.y=ru(r,-.3,.3),.z=ru(r,-.3,.3)}; P->frames[i].t=(mrcal_point3_t){.x=ru(r,-.2,.1),.y=ru(r,-.2,.1),.z=ru(r,1,2)}; }
    P->points = calloc(P->Np+1,sizeof(mrcal_point3_t));
    for(int i=0;i<P->Np;i++) P->points[i]=(mrcal_point3_t){.x=ru(r,-.4,.4),.y=ru(r,-.4,.4),.z=ru(r,1.5,4)};
    P->ob = calloc(P->Nob+1,sizeof *P->ob); P->op = calloc(P->Nop+1,sizeof *P->op);
    P->pb = calloc(P->Nob*P->W*P->H+1,sizeof(mrcal_point3_t)); P->pp = calloc(P->Nop+1,sizeof(mrcal_point3_t));
    for(int f=0,o=0;f<P->Nf;f++) for(int c=0;c<P->Nci;c++,o++)
    {
        P->ob[o] = (mrcal_observation_board_t){.icam={.intrinsics=c,.extrinsics=c-1},.iframe=f};
        for(int i=0;i<P->W*P->H;i++)
        {
            mrcal_point3_t x={.x=(i%P->W)*P->spacing,.y=(i/P->W)*P->spacing,.z=0},y,z; mrcal_point2_t q;
            mrcal_transform_point_rt(y.xyz,NULL,NULL,(double*)&P->frames[f],x.xyz);
            if(c>0) mrcal_transform_point_rt(z.xyz,NULL,NULL,(double*)&P->ext[c-1],y.xyz); else z=y;
            mrcal_project(&q,NULL,NULL,&z,1,&P->lm,&P->intr[c*P->Nintr]);
            P->pb[o*P->W*P->H+i]=(mrcal_point3_t){.x=q.x+ru(r,-.4,.4)+(ri(r,20)==0?9.:0.),.y=q.y+ru(r,-.4,.4),.z=ri(r,15)==0?-1.:1.};
        }
    }
    for(int p=0,o=0;p<P->Np;p++) for(int c=0;c<P->Nci;c++,o++)
    {
        P->op[o] = (mrcal_observation_point_t){.icam={.intrinsics=c,.extrinsics=c-1},.i_point=p};
        mrcal_point3_t z=P->points[p],y; mrcal_point2_t q;
        if(c>0) { mrcal_transform_point_rt(y.xyz,NULL,NULL,(double*)&P->ext[c-1],z.xyz); z=y; }
        mrcal_project(&q,NULL,NULL,&z,1,&P->lm,&P->intr[c*P->Nintr]);
        P->pp[o]=(mrcal_point3_t){.x=q.x+ru(r,-.4,.4),.y=q.y+ru(r,-.4,.4),.z=1.};
    }
    if(kind==4)
    {
        // triangulated points: fixed intrinsics
        int N=6; P->Ntri=2*N; P->tri=calloc(P->Ntri,sizeof *P->tri);
        for(int i=0;i<N;i++)
        {
            mrcal_point3_t x={.x=ru(r,-.4,.4),.y=ru(r,-.4,.4),.z=ru(r,1.5,4)},y;
            mrcal_transform_point_rt(y.xyz,NULL,NULL,(double*)&P->ext[0],x.xyz);
            x.x+=ru(r,-.001,.001); y.y+=ru(r,-.001,.001);
            P->tri[2*i]  =(mrcal_observation_point_triangulated_t){.icam={.intrinsics=0,.extrinsics=-1},.last_in_set=false,.px=x};
            P->tri[2*i+1]=(mrcal_observation_point_triangulated_t){.icam={.intrinsics=1,.extrinsics=0}, .last_in_set=true, .px=y};
        }
    }
    P->warp.x2=.001; P->warp.y2=-.002;
    P->sel.do_optimize_intrinsics_core        = kind!=4;
    P->sel.do_optimize_intrinsics_distortions = kind!=4;
    P->sel.do_optimize_extrinsics             = true;
    P->sel.do_optimize_frames                 = kind!=4;
    P->sel.do_optimize_calobject_warp         = kind!=4 && kind!=1;
    P->sel.do_apply_regularization            = true;
    P->sel.do_apply_outlier_rejection         = kind!=1;
    P->sel.do_apply_regularization_unity_cam01= kind==4;
}

// Made once, in one thread. dir: where to write the shared files
void* ts_shared(uint64_t seed,const char* dir)
{
    shared_t* S = calloc(1,sizeof *S);
    rng_t r = {seed};
    for(int i=0;i<NM;i++)
    {
        model_t* m = &S->m[i];
        strcpy(m->name,names[i]);
        if(!mrcal_lensmodel_from_name(&m->lm,names[i])) return NULL;
        m->N = mrcal_lensmodel_num_params(&m->lm);
        if(m->N>MAXI) return NULL;
        m->imagersize[0]=1000+ri(&r,1000); m->imagersize[1]=800+ri(&r,500);
        bool ll = i==2||i==3;
        m->intr[0]=ll?600:ru(&r,900,1500); m->intr[1]=ll?620:ru(&r,900,1500); m->intr[2]=m->imagersize[0]/2.+ru(&r,-20,20); m->intr[3]=m->imagersize[1]/2.+ru(&r,-20,20);
        if(i>=11) m->intr[0]=m->intr[1]=ru(&r,500,700);
        double s = i>=11 ? .02 : i==7 ? .002 : .01;
        for(int k=4;k<m->N;k++) m->intr[k]=ru(&r,-s,s);
        for(int k=0;k<6;k++) m->rt[k]=ru(&r,-.5,.5);
        snprintf(m->path,sizeof m->path,"%s/shared%d.cameramodel",dir,i);
        mrcal_cameramodel_VOID_t* cm = malloc(sizeof *cm + sizeof(double)*m->N);
        memcpy(cm->rt_cam_ref,m->rt,sizeof m->rt); cm->lensmodel=m->lm; memcpy(cm->imagersize,m->imagersize,sizeof m->imagersize);
        memcpy(cm->intrinsics,m->intr,sizeof(double)*m->N);
        if(!mrcal_write_cameramodel_file(m->path,cm)) return NULL;
        free(cm);
        FILE* f=fopen(m->path,"r"); m->text=calloc(1,1<<16); if(!f||!fread(m->text,1,(1<<16)-1,f)) return NULL; fclose(f);
    }
    for(int i=0;i<NP;i++) S->p[i]=(mrcal_point3_t){.x=ru(&r,-.5,.5),.y=ru(&r,-.5,.5),.z=ru(&r,.9,3)};
    for(int k=0;k<NM;k++) for(int i=0;i<NP;i++) S->q[k][i]=(mrcal_point2_t){.x=S->m[k].imagersize[0]/2.+ru(&r,-300,300),.y=S->m[k].imagersize[1]/2.+ru(&r,-250,250)};
    for(int i=0;i<NPROB;i++) mk_problem(&S->prob[i],i,&r,S->m);
    for(int i=0;i<40*30;i++)
    { S->img8[i]=r64(&r); S->img16[i]=r64(&r); for(int k=0;k<3;k++) S->img24[i].bgr[k]=r64(&r); }
    static const char* ext[6]={"a.png","a.pgm","b.png","b.pgm","c.png","c.jpg"};
    for(int i=0;i<6;i++)
    {
        snprintf(S->impath[i],256,"%s/%s",dir,ext[i]);
        bool ok;
        if(i<2)      { mrcal_image_uint8_t  im={.w=40,.h=30,.stride=40, .data=S->img8 }; ok=mrcal_image_uint8_save(S->impath[i],&im); }
        else if(i<4) { mrcal_image_uint16_t im={.w=40,.h=30,.stride=80, .data=S->img16}; ok=mrcal_image_uint16_save(S->impath[i],&im); }
        else         { mrcal_image_bgr_t    im={.w=40,.h=30,.stride=120,.data=S->img24}; ok=mrcal_image_bgr_save(S->impath[i],&im); }
        if(!ok) return NULL;
    }
    return S;
}
// so that writes to what's supposed to be read-only are noticed
static uint64_t fnv(uint64_t h,const void* p,size_t n)
{ const unsigned char* c=p; for(size_t i=0;i<n;i++) h=(h^c[i])*0x100000001b3ull; return h; }
uint64_t ts_shared_hash(const void* v)
{
    const shared_t* S=v; uint64_t h=fnv(0xcbf29ce484222325ull,S,sizeof *S);
    for(int i=0;i<NM;i++) h=fnv(h,S->m[i].text,strlen(S->m[i].text));
    for(int i=0;i<NPROB;i++)
    {
        const problem_t* P=&S->prob[i];
        h=fnv(h,P->intr,sizeof(double)*P->Nci*P->Nintr); h=fnv(h,P->ext,sizeof(mrcal_pose_t)*P->Nce); h=fnv(h,P->frames,sizeof(mrcal_pose_t)*P->Nf);
        h=fnv(h,P->points,sizeof(mrcal_point3_t)*P->Np); h=fnv(h,P->pb,sizeof(mrcal_point3_t)*P->Nob*P->W*P->H); h=fnv(h,P->pp,sizeof(mrcal_point3_t)*P->Nop);
        for(int k=0;k<P->Ntri;k++) h=fnv(h,&P->tri[k].px,sizeof P->tri[k].px);
    }
    return h;
}

//////////////// operations
#define H(x)     do { R->hash=fnv(R->hash,&(x),sizeof(x)); } while(0)
#define HN(p_,n_) do { R->hash=fnv(R->hash,(p_),(n_)*sizeof(*(p_))); R->n+=(n_); } while(0)
#define V(d)     do { if(nv<5) R->v[nv++]=(d); } while(0)
static int file_hash(result_t* R,const char* path)
{
    FILE* f=fopen(path,"r"); if(!f) return -1;
    char b[4096]; size_t n; while((n=fread(b,1,sizeof b,f))) HN(b,n);
    fclose(f); return 0;
}
static void hash_model(result_t* R,const mrcal_cameramodel_VOID_t* m)
{
    if(!m) { R->rc=0; return; }
    R->rc=1;
    char nm[1024]={}; mrcal_lensmodel_name(nm,sizeof nm,&m->lensmodel); HN(nm,strlen(nm));
    HN(m->rt_cam_ref,6); HN(m->imagersize,2); HN(m->intrinsics,mrcal_lensmodel_num_params(&m->lensmodel));
}
static char* spoil(const char* text,rng_t* r)
{
    char* s=strdup(text); int n=strlen(s);
    switch(ri(r,5))
    {
    case 0: s[ri(r,n)]=0; break;
    case 1: s[ri(r,n)]='x'; break;
    case 2: { char* p=strstr(s,"intrinsics"); if(p) *p='j'; break; }
    case 3: { char* p=strstr(s,"LENSMODEL"); if(p) p[9]='?'; break; }
    case 4: { char* p=strrchr(s,'}'); if(p) *p=' '; break; }
    }
    return s;
}
typedef struct { result_t* R; int fail; } cookie_t;
static bool linkcb(const uint16_t to,const uint16_t from,void* c)
{
    cookie_t* k=c; result_t* R=k->R; H(to); H(from); R->n++;
    return k->fail-- != 0;
}
int ts_nops(void) { return 53; }
const char* ts_opname(int i)
{
    static const char* n[]={"project","project+gradients","unproject","project_simple","unproject_simple","lensmodel_from_name","lensmodel_name","metadata","knots",
      "rotate_point_R","rotate_point_r","transform_point_Rt","transform_point_rt","r_from_R","R_from_r","invert","rt_Rt","compose_Rt","compose_rt","compose_r","procrustes","aligned",
      "triangulate","triangulated_error","rectified_resolution","rectified_system","rectification_maps","stereo_range","stereo_range_dense",
      "read_string","read_file","read_into","write_file","read_bad","image_load","image_save","image_bad",
      "optimize","optimizer_callback","drt","layout","pack","triangulated_layout","corresponding","color_map","traverse","traverse_fail","heap","supported","tiny","optimize_bad","project_behind","image_save_full"};
    _Static_assert(sizeof n/sizeof n[0]==53,"");
    return i<53?n[i]:NULL;
}

static void run_problem(result_t* R,const problem_t* P,rng_t* r,int what)
{
    int nv=0;
    int Nst = mrcal_num_states(P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->Nob,P->sel,&P->lm);
    int Nme = mrcal_num_measurements(P->Nob,P->Nop,P->tri,P->Ntri,P->W,P->H,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->sel,&P->lm);
    double* b=calloc(Nst,sizeof(double)); double* x=calloc(Nme,sizeof(double));
    double* intr=malloc(sizeof(double)*P->Nci*P->Nintr); memcpy(intr,P->intr,sizeof(double)*P->Nci*P->Nintr);
    mrcal_pose_t* ext=malloc(sizeof(mrcal_pose_t)*(P->Nce+1)); memcpy(ext,P->ext,sizeof(mrcal_pose_t)*P->Nce);
    mrcal_pose_t* fr=malloc(sizeof(mrcal_pose_t)*(P->Nf+1)); memcpy(fr,P->frames,sizeof(mrcal_pose_t)*P->Nf);
    mrcal_point3_t* pt=malloc(sizeof(mrcal_point3_t)*(P->Np+1)); memcpy(pt,P->points,sizeof(mrcal_point3_t)*P->Np);
    mrcal_calobject_warp_t w=P->warp;
    // different seeds, so the solves differ
    for(int i=0;i<P->Nf;i++) fr[i].t.x+=ru(r,-.005,.005);
    for(int i=0;i<P->Nce;i++) ext[i].t.y+=ru(r,-.01,.01);
    for(int i=P->Npf?0:0;i<P->Np-P->Npf;i++) pt[i].y+=ru(r,-.01,.01);
    if(what==0 || what==3)
    {
        mrcal_point3_t* pb=malloc(sizeof(mrcal_point3_t)*(P->Nob*P->W*P->H+1)); memcpy(pb,P->pb,sizeof(mrcal_point3_t)*P->Nob*P->W*P->H);
        mrcal_point3_t* pp=malloc(sizeof(mrcal_point3_t)*(P->Nop+1)); memcpy(pp,P->pp,sizeof(mrcal_point3_t)*P->Nop);
        int bs = Nst*sizeof(double); if(what==3) bs+=8;
        mrcal_stats_t st = mrcal_optimize(b,bs,x,Nme*sizeof(double),intr,ext,fr,pt,&w,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->ob,P->op,P->Nob,P->Nop,
                                          P->tri,P->Ntri,pb,pp,&P->lm,P->imagersizes,P->sel,&P->con,P->spacing,P->W,P->H,false,false);
        V(st.rms_reproj_error__pixels); H(st.rms_reproj_error__pixels); H(st.Noutliers_board);
        HN(b,Nst); HN(x,Nme); HN(intr,P->Nci*P->Nintr); HN((double*)ext,6*P->Nce); HN((double*)fr,6*P->Nf); HN((double*)pt,3*P->Np);
        HN((double*)pb,3*P->Nob*P->W*P->H); HN((double*)pp,3*P->Nop); H(w);
        free(pb); free(pp);
    }
    else
    {
        int Nj=_mrcal_num_j_nonzero(P->Nob,P->Nop,P->tri,P->Ntri,P->W,P->H,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->ob,P->op,P->sel,&P->lm);
        int* jp=calloc(Nme+1,sizeof(int)); int* ji=calloc(Nj,sizeof(int)); double* jx=calloc(Nj,sizeof(double));
        struct cholmod_sparse_struct Jt={.nrow=Nst,.ncol=Nme,.nzmax=Nj,.p=jp,.i=ji,.x=jx,.stype=0,.itype=CHOLMOD_INT,.xtype=CHOLMOD_REAL,.dtype=CHOLMOD_DOUBLE,.sorted=1,.packed=1};
        R->rc=mrcal_optimizer_callback(b,Nst*sizeof(double),x,Nme*sizeof(double),&Jt,intr,ext,fr,pt,&w,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->ob,P->op,P->Nob,P->Nop,
                                       P->tri,P->Ntri,P->pb,P->pp,&P->lm,P->imagersizes,P->sel,&P->con,P->spacing,P->W,P->H,false);
        HN(b,Nst); HN(x,Nme); HN(jp,Nme+1); HN(ji,Nj); HN(jx,Nj);
        if(Nme) V(x[0]);
        if(what==2 && P->Nob>0)
        {
            double *Ke=calloc(6*6*(P->Nce+1),8),*Kf=calloc(6*6*(P->Nf+1),8),*Kp=calloc(6*3*(P->Np+1),8),*Kc=calloc(6*2,8);
            int ne=6*P->Nce,nf=6*P->Nf,np=3*(P->Np-P->Npf);
            bool ok=_mrcal_drt_cross_reprojection__dbpacked(P->Nce?Ke:NULL,ne*8,8,P->Nf?Kf:NULL,nf*8,8,np?Kp:NULL,np*8,8,P->sel.do_optimize_calobject_warp?Kc:NULL,2*8,8,
                       -1,b,Nst*sizeof(double),&Jt,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->Nob,P->Nop,&P->lm,P->sel,P->W,P->H);
            H(ok); HN(Ke,6*ne); HN(Kf,6*nf); HN(Kp,6*np); HN(Kc,12);
            free(Ke);free(Kf);free(Kp);free(Kc);
        }
        free(jp);free(ji);free(jx);
    }
    free(b);free(x);free(intr);free(ext);free(fr);free(pt);
}

void op_run(const op_t* op,const void* shared,result_t* R)
{
    const shared_t* S=shared;
    rng_t rr={op->seed}, *r=&rr;
    const model_t* m=&S->m[op->ishared % NM];
    R->hash=0xcbf29ce484222325ull;
    int nv=0;
    double a[6],b[6],Rt0[12],Rt1[12],J[64*9],o[64];
    memset(J,0,sizeof J); memset(o,0,sizeof o);
    for(int i=0;i<6;i++) { a[i]=ru(r,-1,1); b[i]=ru(r,-1,1); }
    switch(op->type)
    {
    case 0: { mrcal_point2_t q[NP]={}; R->rc=mrcal_project(q,NULL,NULL,S->p,NP,&m->lm,m->intr); HN((double*)q,2*NP); V(q[0].x); break; }
    case 1:
    {
        mrcal_point2_t q[NP]={}; mrcal_point3_t dp[2*NP]={}; double* di=calloc(2*NP*m->N,sizeof(double));
        int n=1+ri(r,NP);
        R->rc=mrcal_project(q,ri(r,4)?dp:NULL,ri(r,4)?di:NULL,S->p,n,&m->lm,m->intr);
        HN((double*)q,2*NP); HN((double*)dp,6*NP); HN(di,2*NP*m->N); V(q[0].x); V(dp[0].x);
        free(di); break;
    }
    case 2: { mrcal_point3_t v[NP]={}; int n=1+ri(r,NP/2); R->rc=mrcal_unproject(v,S->q[op->ishared%NM],n,&m->lm,m->intr); HN((double*)v,3*NP); V(v[0].x); break; }
    case 3:
    {
        mrcal_point2_t q[NP]={}; mrcal_point3_t dp[2*NP]={};
        void (*f[])(mrcal_point2_t*,mrcal_point3_t*,const mrcal_point3_t*,int,const double*)={mrcal_project_pinhole,mrcal_project_stereographic,mrcal_project_lonlat,mrcal_project_latlon};
        f[ri(r,4)](q,ri(r,2)?dp:NULL,S->p,NP,m->intr); HN((double*)q,2*NP); HN((double*)dp,6*NP); V(q[0].x); break;
    }
    case 4:
    {
        mrcal_point3_t v[NP]={}; mrcal_point2_t dq[3*NP]={};
        void (*f[])(mrcal_point3_t*,mrcal_point2_t*,const mrcal_point2_t*,int,const double*)={mrcal_unproject_pinhole,mrcal_unproject_stereographic,mrcal_unproject_lonlat,mrcal_unproject_latlon};
        f[ri(r,4)](v,ri(r,2)?dq:NULL,S->q[op->ishared%NM],NP,m->intr); HN((double*)v,3*NP); HN((double*)dq,6*NP); V(v[0].x); break;
    }
    case 5:
    {
        static const char* bad[]={"LENSMODEL_XXX","LENSMODEL_CAHVORE","LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=x","LENSMODEL_OPENCV4_","","LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=4_Ny=4_fov_x_deg=50_"};
        mrcal_lensmodel_t lm; memset(&lm,0,sizeof lm);
        const char* n = ri(r,3)?m->name:bad[ri(r,6)];
        R->rc=mrcal_lensmodel_from_name(&lm,n); int t=lm.type; H(t); int t2=mrcal_lensmodel_type_from_name(n); H(t2);
        if(R->rc) { char s[256]={}; mrcal_lensmodel_name(s,sizeof s,&lm); HN(s,strlen(s)); int N=mrcal_lensmodel_num_params(&lm); H(N); }
        break;
    }
    case 6: { char s[256]={}; int n=ri(r,3)?256:1+ri(r,60); R->rc=mrcal_lensmodel_name(s,n,&m->lm); HN(s,256); const char* u=mrcal_lensmodel_name_unconfigured(&m->lm); HN(u,strlen(u)); break; }
    case 7: { mrcal_lensmodel_metadata_t md=mrcal_lensmodel_metadata(&m->lm); int x=md.has_core|md.can_project_behind_camera<<1|md.has_gradients<<2|md.noncentral<<3; H(x); int N=mrcal_lensmodel_num_params(&m->lm); H(N); break; }
    case 8: { double ux[64]={},uy[64]={}; const model_t* k=&S->m[9+op->ishared%5]; R->rc=mrcal_knots_for_splined_models(ux,uy,&k->lm); HN(ux,64); HN(uy,64); V(ux[0]); break; }
    case 9: { mrcal_R_from_r(Rt0,NULL,a); mrcal_rotate_point_R(o,J,&J[27],Rt0,S->p[ri(r,NP)].xyz); mrcal_rotate_point_R_inverted(&o[3],&J[36],&J[63],Rt0,S->p[1].xyz); HN(o,64); HN(J,100); V(o[0]); break; }
    case 10:{ mrcal_rotate_point_r(o,J,&J[9],a,S->p[ri(r,NP)].xyz); mrcal_rotate_point_r_inverted(&o[3],&J[18],&J[27],a,S->p[1].xyz); HN(o,64); HN(J,64); V(o[0]); break; }
    case 11:{ mrcal_Rt_from_rt(Rt0,NULL,a); mrcal_transform_point_Rt(o,J,&J[36],Rt0,S->p[ri(r,NP)].xyz); mrcal_transform_point_Rt_inverted(&o[3],&J[64],&J[128],Rt0,S->p[1].xyz); HN(o,64); HN(J,200); V(o[0]); break; }
    case 12:{ mrcal_transform_point_rt(o,J,&J[18],a,S->p[ri(r,NP)].xyz); mrcal_transform_point_rt_inverted(&o[3],&J[32],&J[64],a,S->p[1].xyz); HN(o,64); HN(J,100); V(o[0]); break; }
    case 13:{ mrcal_R_from_r(Rt0,NULL,a); mrcal_r_from_R(o,J,Rt0); HN(o,64); HN(J,27); V(o[0]); break; }
    case 14:{ mrcal_R_from_r(o,J,a); HN(o,64); HN(J,27); V(o[0]); break; }
    case 15:{ mrcal_Rt_from_rt(Rt0,NULL,a); mrcal_invert_Rt(o,Rt0); mrcal_invert_rt(&o[12],J,&J[9],a); mrcal_invert_R(&o[20],Rt0); HN(o,64); HN(J,18); V(o[0]); break; }
    case 16:{ mrcal_Rt_from_rt(o,J,a); mrcal_rt_from_Rt(&o[12],&J[27],o); HN(o,64); HN(J,54); V(o[12]); break; }
    case 17:{ mrcal_Rt_from_rt(Rt0,NULL,a); mrcal_Rt_from_rt(Rt1,NULL,b); mrcal_compose_Rt_full(o,0,0,Rt0,0,0,Rt1,0,0,ri(r,2),ri(r,2)); HN(o,64); V(o[0]); break; }
    case 18:{ mrcal_compose_rt_full(o,0,J,0,0,&J[9],0,0,&J[18],0,0,&J[27],0,0,&J[36],0,0,&J[45],0,0,a,0,b,0,ri(r,2),ri(r,2)); HN(o,64); HN(J,54); V(o[0]); break; }
    case 19:{ mrcal_compose_r_full(o,0,J,0,0,&J[9],0,0,a,0,b,0,ri(r,2),ri(r,2)); HN(o,64); HN(J,18); V(o[0]); break; }
    case 20:
    {
        double w[NP]; for(int i=0;i<NP;i++) w[i]=ru(r,.1,1);
        mrcal_point3_t y[NP]; for(int i=0;i<NP;i++) mrcal_transform_point_rt(y[i].xyz,NULL,NULL,a,S->p[i].xyz);
        int n = ri(r,8)?NP:ri(r,3);
        R->rc = ri(r,2)?mrcal_align_procrustes_points_Rt01(o,n,(double*)S->p,(double*)y,ri(r,2)?w:NULL):mrcal_align_procrustes_vectors_R01(o,n,(double*)S->p,(double*)y,ri(r,2)?w:NULL);
        HN(o,12); V(o[0]); break;
    }
    case 21:{ mrcal_R_aligned_to_vector(o,a); HN(o,9); V(o[0]); break; }
    case 22:
    {
        mrcal_point3_t v0=S->p[ri(r,NP)],v1,t01={.x=a[0],.y=a[1]*.1,.z=a[2]*.1}; v1=(mrcal_point3_t){.x=v0.x-t01.x,.y=v0.y-t01.y+.001*b[0],.z=v0.z-t01.z};
        if(ri(r,5)==0) { v1.x=-v1.x; v1.z=-v1.z; }
        mrcal_point3_t j[18]={},out;
        int k=ri(r,6); bool g=ri(r,2);
        mrcal_point3_t *d0=g?&j[0]:NULL,*d1=g?&j[3]:NULL,*dt=g?&j[6]:NULL;
        if(k==5) { mrcal_Rt_from_rt(Rt0,NULL,a); out=mrcal_triangulate_lindstrom(d0,d1,dt,&v0,&v1,(mrcal_point3_t*)Rt0); }
        else
        {
            mrcal_point3_t (*f[])(mrcal_point3_t*,mrcal_point3_t*,mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*,const mrcal_point3_t*)=
              {mrcal_triangulate_geometric,mrcal_triangulate_leecivera_l1,mrcal_triangulate_leecivera_linf,mrcal_triangulate_leecivera_mid2,mrcal_triangulate_leecivera_wmid2};
            out=f[k](d0,d1,dt,&v0,&v1,&t01);
        }
        HN(out.xyz,3); HN((double*)j,54); V(out.x); break;
    }
    case 23:
    {
        mrcal_point3_t v0=S->p[ri(r,NP)],v1=S->p[ri(r,NP)],t01={.x=a[0],.y=a[1]*.1,.z=a[2]*.1},j[2]={};
        double e=_mrcal_triangulated_error(&j[0],&j[1],&v0,&v1,&t01); bool c=_mrcal_triangulate_leecivera_mid2_is_convergent(&v0,&v1,&t01);
        H(e); H(c); HN((double*)j,6); V(e); break;
    }
    case 24:
    {
        double pa=ri(r,2)?-1:20,pe=ri(r,2)?-.5:20; mrcal_point2_t fov={.x=60,.y=50},c={.x=a[0]*5,.y=a[1]*5};
        double r3[3]={a[0]*.1,a[1]*.1,a[2]*.1}; mrcal_R_from_r(o,NULL,r3);
        R->rc=mrcal_rectified_resolution(&pa,&pe,&m->lm,m->intr,&fov,&c,o,ri(r,2)?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE);
        H(pa); H(pe); V(pa); break;
    }
    case 25:
    {
        unsigned int sz[2]={}; double fx[4]={},rt[6]={},base=0,pa=-1,pe=-1; mrcal_point2_t fov={.x=60,.y=50},c={};
        double t0[6]={},t1[6]; for(int i=0;i<3;i++) t1[i]=a[i]*.05; t1[3]=-1; t1[4]=.1*a[4]; t1[5]=.1*a[5];
        if(ri(r,6)==0) { t1[3]=.01; t1[5]=5; }
        int k=ri(r,4);
        R->rc=k?mrcal_rectified_system(sz,fx,rt,&base,&pa,&pe,&fov,&c,&m->lm,m->intr,t0,t1,ri(r,2)?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,ri(r,2),false,false,false)
               :mrcal_rectified_system2(sz,fx,rt,&base,&pa,&pe,&fov,&c,7.,&m->lm,m->intr,t0,t1,MRCAL_LENSMODEL_LATLON,ri(r,2),ri(r,6)==0,ri(r,2),ri(r,2));
        HN(sz,2); HN(fx,4); HN(rt,6); H(base); H(pa); H(pe); H(fov); H(c); V(fx[0]); break;
    }
    case 26:
    {
        const model_t* m1=&S->m[(op->ishared+ri(r,NM))%NM];
        unsigned int sz[2]={6+ri(r,6),5}; float* map=calloc(2*2*sz[0]*sz[1],4); double fx[4]={20,22,sz[0]/2.,sz[1]/2.},r0[3]={a[0]*.05,a[1]*.05,0},r1[3]={b[0]*.05,0,b[1]*.05},rr0[3]={.01,.02,a[2]*.02};
        R->rc=mrcal_rectification_maps(map,&m->lm,m->intr,r0,&m1->lm,m1->intr,r1,ri(r,2)?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,sz,rr0);
        HN(map,2*2*sz[0]*sz[1]); V(map[0]); free(map); break;
    }
    case 27:
    {
        double d[NP],g[NP]={}; mrcal_point2_t q[NP]; for(int i=0;i<NP;i++) { d[i]=ru(r,-3,30); q[i]=(mrcal_point2_t){.x=ru(r,0,200),.y=ru(r,0,100)}; }
        double fx[4]={100,110,100,50};
        R->rc=mrcal_stereo_range_sparse(g,d,q,NP,0,25,ri(r,2)?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,1.5); HN(g,NP); V(g[0]); break;
    }
    case 28:
    {
        double g[12*10]={}; uint16_t d[12*10]; for(int i=0;i<120;i++) d[i]=r64(r)%2000;
        mrcal_image_double_t go={.w=12,.h=10,.stride=96,.data=g}; mrcal_image_uint16_t di={.w=12,.h=10,.stride=24,.data=d}; double fx[4]={100,110,100,50};
        R->rc=mrcal_stereo_range_dense(&go,&di,16,0,1800,ri(r,2)?MRCAL_LENSMODEL_LATLON:MRCAL_LENSMODEL_PINHOLE,fx,1.5); HN(g,120); V(g[0]); break;
    }
    case 29: { mrcal_cameramodel_VOID_t* c=mrcal_read_cameramodel_string(m->text,ri(r,2)?(int)strlen(m->text):-1); hash_model(R,c); mrcal_free_cameramodel(&c); break; }
    case 30: { mrcal_cameramodel_VOID_t* c=mrcal_read_cameramodel_file(ri(r,6)?m->path:"/nonexistent/x"); hash_model(R,c); mrcal_free_cameramodel(&c); break; }
    case 31:
    {
        int N=ri(r,3)?m->N:ri(r,m->N); mrcal_cameramodel_VOID_t* c=calloc(1,sizeof *c+sizeof(double)*(m->N+1));
        bool ok=ri(r,2)?mrcal_read_cameramodel_file_into(c,&N,m->path):mrcal_read_cameramodel_string_into(c,&N,m->text,strlen(m->text));
        if(ok) hash_model(R,c); H(ok); H(N); R->rc=ok; free(c); break;
    }
    case 32:
    {
        mrcal_cameramodel_VOID_t* c=calloc(1,sizeof *c+sizeof(double)*m->N); c->lensmodel=m->lm; memcpy(c->imagersize,m->imagersize,8); memcpy(c->rt_cam_ref,a,48); memcpy(c->intrinsics,m->intr,8*m->N);
        R->rc=mrcal_write_cameramodel_file(ri(r,8)?op->path:"/nonexistent/x",c);
        if(R->rc) file_hash(R,op->path); free(c); unlink(op->path); break;
    }
    case 33: { char* s=spoil(m->text,r); mrcal_cameramodel_VOID_t* c=mrcal_read_cameramodel_string(s,ri(r,2)?(int)strlen(s):-1); hash_model(R,c); mrcal_free_cameramodel(&c); free(s); break; }
    case 34:
    {
        mrcal_image_void_t im={}; int bpp=0,ch=0; R->rc=mrcal_image_anytype_load(&im,&bpp,&ch,S->impath[op->ishared%6]);
        H(bpp); H(ch); H(im.w); H(im.h); if(R->rc) for(int i=0;i<im.h;i++) HN((uint8_t*)im.data+i*im.stride,im.w*bpp/8);
        free(im.data);
        mrcal_image_uint8_t i8={}; bool ok=mrcal_image_uint8_load(&i8,S->impath[ri(r,6)]); H(ok); if(ok) HN(i8.data,i8.w*i8.h); free(i8.data);
        break;
    }
    case 35:
    {
        char p[200]; static const char* e[]={"png","pgm","jpg","ppm"}; int k=ri(r,4),t=ri(r,3); snprintf(p,sizeof p,"%s.%s",op->path,e[k]);
        if(t==0)      { mrcal_image_uint8_t  im={.w=40,.h=30,.stride=40, .data=(uint8_t*)S->img8 };    R->rc=mrcal_image_uint8_save(p,&im); }
        else if(t==1) { mrcal_image_uint16_t im={.w=40,.h=30,.stride=80, .data=(uint16_t*)S->img16};   R->rc=mrcal_image_uint16_save(p,&im); }
        else          { mrcal_image_bgr_t    im={.w=40,.h=30,.stride=120,.data=(mrcal_bgr_t*)S->img24};R->rc=mrcal_image_bgr_save(p,&im); }
        if(R->rc) file_hash(R,p); unlink(p); break;
    }
    case 36:
    {
        char p[200]; snprintf(p,sizeof p,"%s.png",op->path); FILE* f=fopen(p,"w"); FILE* g=fopen(S->impath[op->ishared%6],"r"); char buf[500]; size_t n=0;
        if(f&&g) n=fread(buf,1,1+ri(r,499),g); if(f&&g) fwrite(buf,1,n,f); if(f) fclose(f); if(g) fclose(g);
        mrcal_image_void_t im={}; int bpp=0,ch=0; R->rc=mrcal_image_anytype_load(&im,&bpp,&ch,p); free(im.data); unlink(p);
        mrcal_image_uint16_t i16={}; bool ok=mrcal_image_uint16_load(&i16,S->impath[0]); H(ok); ok=mrcal_image_bgr_load((mrcal_image_bgr_t*)&im,"/nonexistent/x.png"); H(ok); break;
    }
    case 37: run_problem(R,&S->prob[op->ishared%NPROB],r,0); break;
    case 38: run_problem(R,&S->prob[op->ishared%NPROB],r,1); break;
    case 39: run_problem(R,&S->prob[op->ishared%NPROB],r,2); break;
    case 40:
    {
        const problem_t* P=&S->prob[op->ishared%NPROB];
#define A P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->Nob,P->sel,&P->lm
        int x[]={ mrcal_num_states(A), mrcal_state_index_intrinsics(ri(r,3),A), mrcal_state_index_extrinsics(ri(r,3),A), mrcal_state_index_frames(ri(r,4),A), mrcal_state_index_points(ri(r,5),A), mrcal_state_index_calobject_warp(A),
          mrcal_num_states_intrinsics(P->Nci,P->sel,&P->lm),mrcal_num_states_extrinsics(P->Nce,P->sel),mrcal_num_states_frames(P->Nf,P->sel),mrcal_num_states_points(P->Np,P->Npf,P->sel),mrcal_num_states_calobject_warp(P->sel,P->Nob),
          mrcal_measurement_index_boards(ri(r,8),P->Nob,P->Nop,P->W,P->H),mrcal_measurement_index_points(ri(r,8),P->Nob,P->Nop,P->W,P->H),
          mrcal_measurement_index_regularization(P->tri,P->Ntri,P->W,P->H,P->Nci,P->Nce,P->Nf,P->Np,P->Npf,P->Nob,P->Nop,P->sel,&P->lm),
          mrcal_num_measurements_regularization(A), mrcal_num_intrinsics_optimization_params(P->sel,&P->lm) };
        HN(x,sizeof x/sizeof x[0]); break;
    }
    case 41:
    {
        const problem_t* P=&S->prob[op->ishared%NPROB]; int n=mrcal_num_states(A); double* v=calloc(n+1,8); for(int i=0;i<n;i++) v[i]=ru(r,-1,1);
        mrcal_pack_solver_state_vector(v,A); HN(v,n); mrcal_unpack_solver_state_vector(v,A); HN(v,n); mrcal_unpack_solver_state_vector(v,A); HN(v,n); V(n?v[0]:0); free(v); break;
    }
    case 42:
    {
        const problem_t* P=&S->prob[4]; int x[6]={}; int n=mrcal_num_measurements_points_triangulated(P->tri,P->Ntri);
        R->rc=mrcal_decode_observation_indices_points_triangulated(&x[0],&x[1],&x[2],&x[3],&x[4],&x[5],ri(r,n),P->tri,P->Ntri); HN(x,6);
        int y=mrcal_measurement_index_points_triangulated(ri(r,4),P->Nob,P->Nop,P->tri,P->Ntri,P->W,P->H); H(y); y=mrcal_num_measurements_points_triangulated_initial_Npoints(P->tri,P->Ntri,ri(r,5)); H(y); break;
    }
    case 43: { const problem_t* P=&S->prob[op->ishared%NPROB]; int e=-9; R->rc=mrcal_corresponding_icam_extrinsics(&e,ri(r,P->Nci),P->Nci,P->Nce,P->Nob,P->ob,P->Nop,P->op); H(e); break; }
    case 44:
    {
        mrcal_bgr_t out[40*30]={}; mrcal_image_bgr_t io={.w=40,.h=30,.stride=120,.data=out};
        int t=ri(r,4); bool am=ri(r,2),ax=ri(r,2),af=ri(r,2); int fr=ri(r,36),fg=ri(r,36),fb=ri(r,36);
        if(t==0) { mrcal_image_uint8_t im={.w=40,.h=30,.stride=40,.data=(uint8_t*)S->img8}; R->rc=mrcal_apply_color_map_uint8(&io,&im,am,ax,af,10,240,fr,fg,fb); }
        else if(t==1) { mrcal_image_uint16_t im={.w=40,.h=30,.stride=80,.data=(uint16_t*)S->img16}; R->rc=mrcal_apply_color_map_uint16(&io,&im,am,ax,af,100,64000,fr,fg,fb); }
        else if(t==2) { float d[200]; for(int i=0;i<200;i++) d[i]=ru(r,-5,50); mrcal_image_float_t im={.w=20,.h=10,.stride=80,.data=d}; io.w=20; io.h=10; io.stride=60; R->rc=mrcal_apply_color_map_float(&io,&im,am,ax,af,0,40,fr,fg,fb); }
        else { double d[200]; for(int i=0;i<200;i++) d[i]=ru(r,-5,50); mrcal_image_double_t im={.w=20,.h=10,.stride=160,.data=d}; io.w=20; io.h=10; io.stride=60; R->rc=mrcal_apply_color_map_double(&io,&im,am,ax,af,0,40,fr,fg,fb); }
        HN((uint8_t*)out,40*30*3); break;
    }
    case 45: case 46:
    {
        int N=2+ri(r,8); uint16_t c[64]={}; for(int i=0;i<N*(N-1)/2;i++) c[i]=ri(r,3)?ri(r,50):0;
        cookie_t k={.R=R,.fail=op->type==46?ri(r,3):-1}; R->rc=mrcal_traverse_sensor_links(N,c,linkcb,&k); break;
    }
    case 47:
    {
        mrcal_heap_node_t nodes[20]; memset(nodes,0,sizeof nodes); uint16_t buf[20]; mrcal_heap_t h={.buffer=buf,.size=0};
        for(int i=0;i<20;i++) nodes[i].cost=ri(r,30);
        for(int i=0;i<20;i++) { mrcal_heap_push(&h,nodes,i); if(ri(r,3)==0) { uint16_t x=mrcal_heap_pop(&h,nodes); H(x); } if(h.size && ri(r,4)==0) { nodes[buf[ri(r,h.size)]].cost=ri(r,30); mrcal_heap_resort(&h,nodes); } }
        while(!mrcal_heap_empty(&h,nodes)) { uint16_t x=mrcal_heap_pop(&h,nodes); uint64_t c=nodes[x].cost; H(c); }
        break;
    }
    case 48: { const char* const* n=mrcal_supported_lensmodel_names(); for(int i=0;n[i];i++) HN(n[i],strlen(n[i])); break; }
    case 49: { mrcal_compose_r_tinyr0_gradientr0(J,a); mrcal_compose_r_tinyr1_gradientr1(&J[9],b); mrcal_identity_Rt(o); mrcal_identity_r(&o[12]); mrcal_identity_rt(&o[15]); mrcal_identity_R(&o[24]); HN(J,18); HN(o,64); break; }
    case 50: run_problem(R,&S->prob[op->ishared%NPROB],r,3); break;
    case 51:
    {
        mrcal_point3_t p[8]; for(int i=0;i<8;i++) p[i]=(mrcal_point3_t){.x=ru(r,-2,2),.y=ru(r,-2,2),.z=ru(r,-1,.5)};
        mrcal_point2_t q[8]={}; R->rc=mrcal_project(q,NULL,NULL,p,8,&m->lm,m->intr); HN((double*)q,16);
        mrcal_point2_t far[4]; mrcal_point3_t v[4]={}; for(int i=0;i<4;i++) far[i]=(mrcal_point2_t){.x=ru(r,-9000,9000),.y=ru(r,-9000,9000)};
        bool ok=mrcal_unproject(v,far,4,&m->lm,m->intr); H(ok); HN((double*)v,12); break;
    }
    case 52:
    {
        // the device is full: an error found inside another library
        char p[200]; static const char* e[]={"jpg","jpg","png","pgm"}; int k=ri(r,4); snprintf(p,sizeof p,"%s.%s",op->path,e[k]);
        int full = ri(r,4); if(full && 0!=symlink("/dev/full",p)) { R->rc=-98; break; }
        if(ri(r,2)) { mrcal_image_uint8_t  im={.w=40,.h=30,.stride=40, .data=(uint8_t*)S->img8 };    R->rc=mrcal_image_uint8_save(p,&im); }
        else        { mrcal_image_bgr_t    im={.w=40,.h=30,.stride=120,.data=(mrcal_bgr_t*)S->img24};R->rc=mrcal_image_bgr_save(p,&im); }
        if(!full && R->rc) file_hash(R,p); unlink(p); break;
    }
    default: R->rc=-99;
    }
}
