'''A catalogue of calls of the Python API: what C10 makes its histories of

Each entry builds, from a seeded generator, the arguments of one call. They are
drawn from few, similar values: a call tends to look like another one, without
being it. Models and optimization inputs come from a World: shared by all the
calls in a history, and made anew for the reference.

'''
import random
import re
import threading
import numpy as np
from . import core, models

OPS = {}
NVARIANTS = 24

class Call:
    '''fn(*args,**kw), which may modify only the arguments whose names (or indices) are in `modified`'''
    def __init__(self,fn,*args,_modified=(),_retains=None,**kw):
        self.fn,self.args,self.kw,self.modified,self.retains = fn,args,kw,_modified,_retains

def op(f):
    OPS[f.__name__] = f
    return f

LM = ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LATLON','LENSMODEL_LONLAT',
      'LENSMODEL_CAHVORE_linearity=0.34','LENSMODEL_OPENCV12',
      'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=80','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=5_fov_x_deg=80',
      'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120')

def intrinsics(lm,seed):
    rs = np.random.RandomState(seed)
    N  = models.num_params(lm)
    v  = np.zeros(N)
    f  = 600. if 'LATLON' in lm or 'LONLAT' in lm else 900.
    v[:4] = (f+rs.randn()*20,f+rs.randn()*20,500+rs.randn()*10,400+rs.randn()*10)
    if lm.startswith('LENSMODEL_SPLINED'): v[0]=v[1]=500+rs.randn()*10
    s = .02 if 'SPLINED' in lm else 1e-3 if 'OPENCV12' in lm else 5e-3
    v[4:] = rs.randn(N-4)*s
    if 'CAHVORE' in lm: v[9:] = 0
    return v

class World:
    def __init__(self,problems,root):
        self.problems = problems
        self.root     = root
        self.cache    = {}
    def get(self,what,*key):
        k = (what,)+key
        if k not in self.cache:
            self.cache[k] = getattr(self,'_'+what)(*key)
        return self.cache[k]
    def _model(self,lm,seed,pose,region=False):
        import mrcal
        rs = np.random.RandomState(1000+pose)
        rt = rs.randn(6)*np.array((.02,.02,.02,.3,.02,.02)) + np.array((0,0,0,.8*pose,0,0))
        m = mrcal.cameramodel(intrinsics=(lm,intrinsics(lm,seed)),imagersize=(1000,800),rt_cam_ref=rt)
        if region: m.valid_intrinsics_region(np.array(((100,100),(900,120),(880,700),(500,780),(90,690.+seed)),dtype=float))
        return m
    def _solved(self,i,icam):
        import mrcal
        return mrcal.cameramodel(optimization_inputs=models.copy_kw(self.problems[i]),icam_intrinsics=icam)
    def _array(self,kind,seed,*shape):
        rs = np.random.RandomState(seed*7+len(kind))
        if kind=='p':   a = rs.randn(*shape,3)*.3; a[...,2] += 2; return a
        if kind=='q':   return rs.rand(*shape,2)*np.array((900,700))+50
        if kind=='n':   return rs.randn(*shape)
        if kind=='r':   return rs.randn(*shape,3)*(.5,1e-9,3.)[seed%3]
        if kind=='rt':  a=rs.randn(*shape,6)*.5; return a
        if kind=='R':
            import mrcal; return mrcal.R_from_r(rs.randn(*shape,3))
        if kind=='Rt':
            import mrcal; return mrcal.Rt_from_rt(rs.randn(*shape,6))
        if kind=='quat':a=rs.randn(*shape,4); return a/np.sqrt((a*a).sum(-1,keepdims=True))
        if kind=='qt':  a=rs.randn(*shape,7); a[...,:4]/=np.sqrt((a[...,:4]**2).sum(-1,keepdims=True)); return a
        raise core.HarnessError(kind)
    def _rectified(self,lm,seed,kind):
        import mrcal
        return tuple(mrcal.rectified_system((self.get('model',lm,seed,0),self.get('model',lm,seed+1,1)),
                                            az_fov_deg=20,el_fov_deg=15,az0_deg=0,el0_deg=0,pixels_per_deg_az=2.,pixels_per_deg_el=2.,rectification_model=kind))
    def _kw(self,i):
        return models.copy_kw(self.problems[i])
    def _factorization(self,i):
        import mrcal
        kw = self.get('kw',i)
        return mrcal.optimizer_callback(**kw)[3]
    def _fac_direct(self,seed):
        import mrcal
        return mrcal.CHOLMOD_factorization(csr(seed))
    def _image(self,shape,dtype,seed):
        rs = np.random.RandomState(seed)
        if dtype.startswith('float'): return (rs.rand(*shape)*100).astype(dtype)
        a = rs.randint(0,255 if dtype=='uint8' else 60000,size=shape).astype(dtype)
        return a
    def _smooth(self,seed):
        import cv2
        rs = np.random.RandomState(seed)
        return cv2.GaussianBlur(rs.randint(0,255,size=(60,80)).astype(np.uint8),(5,5),0)

def csr(seed):
    import scipy.sparse
    rs = np.random.RandomState(seed)
    J = rs.randn(12,5)*(rs.rand(12,5)<.6) + np.eye(12,5)*3
    return scipy.sparse.csr_matrix(J)

def lmod(r): return r.choice(LM)
def sh(r):   return r.choice(((),(),(4,),(2,3),(1,)))
def view(r,a):
    '''the same array, perhaps laid out differently'''
    k = r.randrange(6)
    if a.ndim<1 or k>2: return a
    if k==0: return np.asfortranarray(a)
    if k==1: b=np.zeros(a.shape[:-1]+(a.shape[-1]+3,),a.dtype); b[...,:a.shape[-1]]=a; return b[...,:a.shape[-1]]
    b=np.zeros(tuple(2*n for n in a.shape),a.dtype); s=tuple(slice(None,None,2) for n in a.shape); b[s]=a; return b[s]
def M(W,r,lm=None,region=None): return W.get('model',lm or lmod(r),r.randrange(3),r.randrange(2),r.random()<.3 if region is None else region)
CENTRAL = ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=80')
def solved(W,r):
    i = r.randrange(4)
    return W.get('solved',i,r.randrange((2,2,3,1)[i]))
BAD = (None,'x',np.zeros((2,)),np.zeros((3,),dtype=np.float32),np.zeros((0,3)),5,np.zeros((3,3,3)),np.array(('a','b')))

######## projections
@op
def project(r,W):
    import mrcal
    lm=lmod(r); kw={}
    if r.random()<.4: kw['get_gradients']=True
    i=r.choice((intrinsics(lm,r.randrange(3)),np.array([intrinsics(lm,s) for s in range(4)])))
    s=(4,) if i.ndim>1 else sh(r)
    if r.random()<.15 and not kw: kw['out']=np.zeros(s+(2,))
    return Call(mrcal.project,view(r,W.get('array','p',r.randrange(3),*s)),lm,i,_modified=('out',),**kw)
WILD = LM+('LENSMODEL_CAHVORE_linearity=2.00','LENSMODEL_CAHVORE_linearity=9.00','LENSMODEL_CAHVORE_linearity=1.00')
def wild(lm,seed):
    '''Intrinsics that don't make much sense, and make projections fail'''
    i=intrinsics(lm,seed); rs=np.random.RandomState(seed)
    i[4:]=rs.randn(len(i)-4)*(1e-3,.3,3.)[seed%3]
    if 'CAHVORE' in lm and seed%3==0: i[9:]=0
    return i
@op
def project_wild(r,W):
    import mrcal
    lm=r.choice(WILD if r.random()<.6 else WILD[-3:]); s=r.randrange(9); i=wild(lm,s) if r.random()<.7 else np.array([wild(lm,s+k) for k in range(4)])
    if r.random()<.3: return Call(mrcal.unproject,W.get('array','q',s%3,4),lm,wild(lm,s),normalize=r.random()<.4,get_gradients=r.random()<.4)
    return Call(mrcal.project,W.get('array','p',s%3,4)*np.array((r.choice((1.,5.)),1.,r.choice((1.,1.,-1.)))),lm,i,get_gradients=r.random()<.7)
@op
def project_bad(r,W):
    import mrcal
    lm=r.choice(LM+('LENSMODEL_XXX','LENSMODEL_CAHVORE','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6',None))
    return Call(mrcal.project,r.choice(BAD+(W.get('array','p',0,4),)),lm,r.choice(BAD+(intrinsics('LENSMODEL_OPENCV4',0),)),get_gradients=r.random()<.3)
@op
def unproject(r,W):
    import mrcal
    lm=lmod(r)
    kw=dict(normalize=r.random()<.4)
    if r.random()<.4: kw['get_gradients']=True
    return Call(mrcal.unproject,view(r,W.get('array','q',r.randrange(3),*sh(r))),lm,intrinsics(lm,r.randrange(3)),**kw)
@op
def unproject_bad(r,W):
    import mrcal
    return Call(mrcal.unproject,r.choice(BAD+(W.get('array','q',0,4),)),r.choice(LM+('x',None)),r.choice(BAD))
@op
def project_simple(r,W):
    import mrcal
    f=r.choice((mrcal.project_pinhole,mrcal.project_stereographic,mrcal.project_lonlat,mrcal.project_latlon))
    a=(W.get('array','p',r.randrange(3),*sh(r)),)
    if r.random()<.6: a+=(np.array((500.+r.randrange(2),510.,300.,200.)),)
    return Call(f,*a,get_gradients=r.random()<.5)
@op
def unproject_simple(r,W):
    import mrcal
    f=r.choice((mrcal.unproject_pinhole,mrcal.unproject_stereographic,mrcal.unproject_lonlat,mrcal.unproject_latlon))
    q=W.get('array','q',r.randrange(3),*sh(r))
    if r.random()<.5: return Call(f,q*1e-3,get_gradients=r.random()<.5)
    return Call(f,q,np.array((500.+r.randrange(2),510.,300.,200.)),get_gradients=r.random()<.5)
@op
def lensmodel_info(r,W):
    import mrcal
    lm=r.choice(LM+('LENSMODEL_XXX','','LENSMODEL_CAHVORE'))
    return Call(r.choice((mrcal.lensmodel_num_params,mrcal.lensmodel_metadata_and_config,mrcal.knots_for_splined_models)),lm)
@op
def knots(r,W):
    import mrcal
    return Call(mrcal.knots_for_splined_models,r.choice(LM[-3:]+('LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=7_Ny=5_fov_x_deg=80',)))
@op
def supported(r,W):
    import mrcal
    return Call(mrcal.supported_lensmodels)

######## poses
def _pose1(name,kind,grad=True,extra=()):
    def f(r,W):
        import mrcal
        kw={}
        if grad and r.random()<.4: kw['get_gradients']=True
        elif r.random()<.2:
            x=getattr(mrcal,name)(W.get('array',kind,9,3)); kw['out']=np.zeros_like(x)
            return Call(getattr(mrcal,name),view(r,W.get('array',kind,r.randrange(3),3)),_modified=('out',),**kw)
        if r.random()<.1: return Call(getattr(mrcal,name),r.choice(BAD))
        return Call(getattr(mrcal,name),view(r,W.get('array',kind,r.randrange(3),*sh(r))),**kw)
    f.__name__=name; op(f)
for n,k,g in (('R_from_r','r',1),('r_from_R','R',1),('Rt_from_rt','rt',1),('rt_from_Rt','Rt',1),('invert_R','R',0),('invert_Rt','Rt',0),('invert_rt','rt',1),
              ('R_from_quat','quat',0),('quat_from_R','R',0),('qt_from_Rt','Rt',0),('Rt_from_qt','qt',0),('R_aligned_to_vector','p',0),('skew_symmetric','p',0),
              ('compose_r_tinyr0_gradientr0','r',0),('compose_r_tinyr1_gradientr1','r',0),('compose_rt_tinyrt0_gradientrt0','rt',0),('compose_rt_tinyrt1_gradientrt1','rt',0)):
    _pose1(n,k,g)
def _compose(name,kind,grad):
    def f(r,W):
        import mrcal
        n=r.choice((2,2,2,3)); s=sh(r)
        a=[W.get('array',kind,r.randrange(3),*(s if i==0 else r.choice((s,())))) for i in range(n)]
        kw={}
        if grad and n==2 and r.random()<.4: kw['get_gradients']=True
        if n==2 and r.random()<.4: kw['inverted0']=r.random()<.5; kw['inverted1']=r.random()<.5
        if r.random()<.2 and not kw.get('get_gradients'):
            kw['out']=np.zeros(np.broadcast_shapes(*[x.shape for x in a]))
        return Call(getattr(mrcal,name),*a,_modified=('out',),**kw)
    f.__name__=name; op(f)
_compose('compose_r','r',1); _compose('compose_rt','rt',1); _compose('compose_Rt','Rt',0)
def _xf(name,kind):
    def f(r,W):
        import mrcal
        s=sh(r); kw=dict(inverted=r.random()<.4)
        if r.random()<.4: kw['get_gradients']=True
        elif r.random()<.2: kw['out']=np.zeros(s+(3,))
        return Call(getattr(mrcal,name),view(r,W.get('array',kind,r.randrange(3),*r.choice((s,())))),view(r,W.get('array','p',r.randrange(3),*s)),_modified=('out',),**kw)
    f.__name__=name; op(f)
_xf('rotate_point_R','R'); _xf('rotate_point_r','r'); _xf('transform_point_Rt','Rt'); _xf('transform_point_rt','rt')
@op
def identities(r,W):
    import mrcal
    f,s=r.choice(((mrcal.identity_R,(3,3)),(mrcal.identity_r,(3,)),(mrcal.identity_Rt,(4,3)),(mrcal.identity_rt,(6,))))
    if r.random()<.4: return Call(f,out=np.ones(s),_modified=('out',))
    return Call(f)
@op
def procrustes(r,W):
    import mrcal
    s=r.randrange(3); p=W.get('array','p',s,7); k=r.random()<.5
    f=mrcal.align_procrustes_points_Rt01 if k else mrcal.align_procrustes_vectors_R01
    q=mrcal.rotate_point_r(np.array((.1,.2*s,.3)),p)+np.random.RandomState(s).randn(7,3)*1e-3
    if r.random()<.2: p=p*0
    kw={}
    if r.random()<.4: kw['weights']=np.random.RandomState(s).rand(7)
    return Call(f,p,q,**kw)
@op
def eig(r,W):
    import mrcal
    a=W.get('array','n',r.randrange(3),3,3); a=a.dot(a.T)
    return Call(r.choice((mrcal.sorted_eig,)),a)
@op
def worst(r,W):
    import mrcal
    a=W.get('array','n',r.randrange(3),4,2,2); a=np.matmul(a,np.swapaxes(a,-1,-2))
    return Call(mrcal.worst_direction_stdev,a[0] if r.random()<.4 else a)

######## triangulation
@op
def triangulate_rays(r,W):
    import mrcal
    f=r.choice((mrcal.triangulate_geometric,mrcal.triangulate_leecivera_l1,mrcal.triangulate_leecivera_linf,mrcal.triangulate_leecivera_mid2,mrcal.triangulate_leecivera_wmid2,mrcal.triangulate_lindstrom))
    s=sh(r); v0=W.get('array','p',r.randrange(3),*s); t01=np.array((.5,.02*r.randrange(2),.01))
    v1=v0-t01
    if r.random()<.2: v1=-v1
    g=r.random()<.4
    if f is mrcal.triangulate_lindstrom: return Call(f,v0,v1,np.vstack((np.eye(3),t01)),get_gradients=g)
    if r.random()<.3: return Call(f,v0,v1,Rt01=np.vstack((np.eye(3),t01)),v_are_local=True,get_gradients=g)
    return Call(f,v0,v1,t01,get_gradients=g)
@op
def triangulate(r,W):
    import mrcal
    lm=r.choice(CENTRAL)
    ms=(W.get('model',lm,0,0),W.get('model',lm,1,1)); kw={}
    p=W.get('array','p',r.randrange(3),*sh(r))
    q=np.stack([mrcal.project(mrcal.transform_point_rt(m.rt_cam_ref(),p),*m.intrinsics()) for m in ms],-2)
    if r.random()<.4: kw.update(q_observation_stdev=.3+.1*r.randrange(2),q_observation_stdev_correlation=.1*r.randrange(2))
    kw['method']=r.choice((mrcal.triangulate_leecivera_mid2,mrcal.triangulate_geometric,mrcal.triangulate_leecivera_l1))
    return Call(mrcal.triangulate,q,ms,**kw)
@op
def triangulate_uncertainty(r,W):
    import mrcal
    i=r.choice((0,2)); ms=(W.get('solved',i,0),W.get('solved',i,1))
    p=np.array(((.2,.1,4.),(.1,-.3,6.)))[:r.choice((1,2))]
    q=np.stack([mrcal.project(mrcal.transform_point_rt(m.rt_cam_ref(),p),*m.intrinsics()) for m in ms],-2)
    return Call(mrcal.triangulate,q,ms,q_calibration_stdev=r.choice((-1,.5)),q_observation_stdev=r.choice((None,.4)),stabilize_coords=r.random()<.5)

######## stereo
@op
def rectified_system(r,W):
    import mrcal
    lm=r.choice(CENTRAL); s=r.randrange(3)
    kw=dict(az_fov_deg=20+r.randrange(2),el_fov_deg=15,el0_deg=r.randrange(2),rectification_model=r.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE')))
    if r.random()<.5: kw['az0_deg']=1.
    if r.random()<.5: kw.update(pixels_per_deg_az=3.,pixels_per_deg_el=3.)
    if r.random()<.3: kw['return_metadata']=True
    if r.random()<.1: kw['rectification_model']='LENSMODEL_OPENCV4'
    return Call(mrcal.rectified_system,(W.get('model',lm,s,0),W.get('model',lm,s,1)),**kw)
@op
def rectified_resolution(r,W):
    import mrcal
    return Call(mrcal.rectified_resolution,M(W,r,r.choice(CENTRAL)),az_fov_deg=20.,el_fov_deg=15.,az0_deg=1.*r.randrange(2),el0_deg=2.,R_cam0_rect0=mrcal.R_from_r(np.array((.01,.02*r.randrange(2),.03))),
                pixels_per_deg_az=r.choice((-1.,-.5)),pixels_per_deg_el=r.choice((-1.,7.)),rectification_model=r.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE')))
@op
def rectification_maps(r,W):
    import mrcal
    lm=r.choice(CENTRAL); s=r.randrange(2); k=r.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE'))
    return Call(mrcal.rectification_maps,(W.get('model',lm,s,0),W.get('model',lm,s+1,1)),W.get('rectified',lm,s,k))
@op
def stereo_range(r,W):
    import mrcal
    k=r.choice(('LENSMODEL_LATLON','LENSMODEL_PINHOLE')); mr=W.get('rectified','LENSMODEL_OPENCV4',0,k)
    w,h=mr[0].imagersize(); rs=np.random.RandomState(r.randrange(3)); kw={}
    t=r.randrange(3); sc=r.choice((1,1,16,16,4)); dt=r.choice((np.uint16,np.int16,np.float32,np.float64,np.float64))
    if sc!=1: kw['disparity_scale']=sc
    if t==0:   d=(rs.rand(h,w)*30*sc-2).astype(dt)
    elif t==1: d=(rs.rand(5)*30*sc).astype(dt); kw['qrect0']=rs.rand(5,2)*np.array((w,h))
    else:      d=dt(rs.rand()*30*sc); kw['qrect0']=rs.rand(2)*np.array((w,h))
    f=r.choice((mrcal.stereo_range,mrcal.stereo_unproject))
    if f is mrcal.stereo_range:
        u=r.randrange(4)
        if u==1: kw.update(disparity_min=1.,disparity_max=25)
        if u==2: kw.update(disparity_scaled_min=20)
        if u==3: kw.update(disparity_scaled_max=20*sc)
    elif r.random()<.3: kw['ranges']=rs.rand(*np.shape(d))*10; d=None
    return Call(f,d,mr,**kw)
@op
def match_feature(r,W):
    import mrcal
    im=W.get('smooth',r.randrange(2)); kw={}
    if r.random()<.5: kw['H10']=np.array(((1,0,2.),(0,1,1.+r.randrange(2)),(0,0,1)))
    else: kw['q1_estimate']=np.array((42.,31.+r.randrange(2)))
    return Call(mrcal.match_feature,im,np.roll(im,(1,2),axis=(0,1)),np.array((40.,30.)),search_radius1=8,template_size1=(13,13) if r.random()<.5 else 11,**kw)

######## images
@op
def image_transformation_map(r,W):
    import mrcal
    lm=r.choice(CENTRAL[:3]); kw={}
    k=r.randrange(4)
    if k==0: kw['intrinsics_only']=True
    elif k==1: kw['distance']=5.+r.randrange(2)
    elif k==2: kw.update(plane_n=np.array((0,.1,1.)),plane_d=3.+r.randrange(2))
    if r.random()<.3: kw['mask_valid_intrinsics_region_from']=True
    a=mrcal.cameramodel(W.get('model',lm,r.randrange(2),0,True))
    lo=mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((25.+r.randrange(2),25,12,10))),imagersize=(25,20),rt_cam_ref=np.array((0,.01,0,.1,0,0)))
    return Call(mrcal.image_transformation_map,a,lo,**kw)
@op
def pinhole_model(r,W):
    import mrcal
    m=M(W,r,r.choice(CENTRAL)); k=r.randrange(4)
    kw=[dict(),dict(fit=r.choice(('corners','centers-horizontal','centers-vertical'))),dict(scale_focal=.5+.1*r.randrange(2)),dict(fit=np.array(((100.,100),(900,700.),(50,600.+r.randrange(2)))))][k]
    if r.random()<.4: kw['scale_image']=.5
    return Call(mrcal.pinhole_model_for_reprojection,m,**kw)
@op
def scale_focal(r,W):
    import mrcal
    return Call(mrcal.scale_focal__best_pinhole_fit,M(W,r,r.choice(CENTRAL)),r.choice((None,'corners','centers-horizontal','centers-vertical')))
@op
def transform_image(r,W):
    import mrcal
    rs=np.random.RandomState(r.randrange(3)); mp=(rs.rand(9,11,2)*np.array((90,70))-5).astype(np.float32); kw={}
    im=W.get('image',(60,80) if r.random()<.5 else (60,80,3),r.choice(('uint8','uint16','float32')),r.randrange(2))
    if r.random()<.3: kw['out']=np.zeros((9,11)+im.shape[2:],im.dtype)
    if r.random()<.3: kw['borderValue']=7
    return Call(mrcal.transform_image,im,mp,_modified=('out',),**kw)
@op
def color_map(r,W):
    import mrcal
    im=W.get('image',(6,9),r.choice(('uint8','uint16','float32','float64')),r.randrange(3)); kw={}
    if r.random()<.5: kw.update(a_min=r.choice((3,5)))
    if r.random()<.5: kw.update(a_max=r.choice((90,80)))
    if r.random()<.3: kw.update(function_red=r.randrange(35),function_green=r.randrange(35),function_blue=-r.randrange(35))
    return Call(mrcal.apply_color_map,im,**kw)
@op
def annotate(r,W):
    import mrcal
    return Call(mrcal.annotate_image__valid_intrinsics_region,np.zeros((80,100,3),np.uint8)+r.randrange(2),M(W,r,region=True),_modified=(0,),**(dict(color=(9,8,7)) if r.random()<.4 else {}))
@op
def image_io(r,W):
    import mrcal
    im=W.get('image',(6,9) if r.random()<.6 else (6,9,3),r.choice(('uint8','uint8','uint16')),r.randrange(3))
    e=r.choice(('png','pgm','jpg','ppm')); path=f'{W.root}/im{r.randrange(3)}.{e}'
    def save_load(im,path):
        mrcal.save_image(path,im)
        import os
        a=mrcal.load_image(path); os.unlink(path); return a
    return Call(save_load,im,path)
@op
def load_bad(r,W):
    import mrcal
    return Call(mrcal.load_image,f'{W.root}/none.{r.choice(("png","jpg"))}',**r.choice(({},dict(bits_per_pixel=8,channels=1),dict(bits_per_pixel=7,channels=1),dict(bits_per_pixel=24,channels=3))))
@op
def homography(r,W):
    import mrcal
    H=np.eye(3)+.01*W.get('array','n',r.randrange(3),3,3)
    return Call(mrcal.apply_homography,H,W.get('array','q',r.randrange(3),*sh(r)))
@op
def contour(r,W):
    import mrcal
    m=M(W,r,region=True)
    return Call(mrcal.is_within_valid_intrinsics_region,W.get('array','q',r.randrange(3),*r.choice(((),(5,)))),m)
@op
def close(r,W):
    import mrcal
    a=W.get('array','q',r.randrange(3),5)
    return Call(mrcal.close_contour,r.choice((a,np.vstack((a,a[:1])),None)))
@op
def polygons(r,W):
    import mrcal
    a=np.array(((0,0),(10,0),(10,10),(0,10.)))
    return Call(mrcal.polygon_difference,a,a*.5+r.randrange(3)*4)
@op
def grids(r,W):
    import mrcal
    k=r.randrange(3); n=6+r.randrange(2)
    if k==0: return Call(mrcal.imagergrid_using,np.array((1000,800)),n,r.choice((None,5)))
    if k==1: return Call(mrcal.sample_imager,n,5,1000,800)
    lm=lmod(r); i=intrinsics(lm,r.randrange(2))
    return Call(mrcal.sample_imager_unproject,n,5,1000,800,lm if r.random()<.8 else [lm,lm],i if r.random()<.8 else [i,i],normalize=r.random()<.4)
@op
def small_utils(r,W):
    import mrcal
    k=r.randrange(4)
    if k==0: return Call(mrcal.shellquote,r.choice(("a","a b","a'b",b'x y',5,"")))
    if k==1: return Call(mrcal.fitted_gaussian_equation,binwidth=.1,x=W.get('array','n',r.randrange(3),50),legend=r.choice((None,'x')))
    if k==2: return Call(mrcal.mapping_file_framenocameraindex,*[[f'/d/frame{f:03d}-cam{c}.jpg' for f in range(3+r.randrange(2))] for c in range(2)])
    return Call(mrcal.fitted_gaussian_equation,binwidth=.1,mean=.1*r.randrange(2),sigma=1.,N=r.choice((30,40)))

######## calibration
@op
def ref_object(r,W):
    import mrcal
    k=r.randrange(3)
    if k==0: return Call(mrcal.ref_calibration_object,optimization_inputs=W.get('kw',r.randrange(4)))
    kw={}
    if r.random()<.5: kw['calobject_warp']=np.array((1e-3,2e-3*r.randrange(2)))
    if r.random()<.3: kw.update(x_corner0=.5,x_corner1=3.,Nx=4)
    return Call(mrcal.ref_calibration_object,5,4,r.choice((.1,.2,(.1,.2))),**kw)
@op
def board_positions(r,W):
    import mrcal
    i=r.randrange(4); kw={}
    if r.random()<.4: kw['icam_intrinsics']=r.randrange((2,2,3,1)[i])
    return Call(mrcal.hypothesis_board_corner_positions,**kw,**W.get('kw',i))
LAYOUT=('num_states','num_states_intrinsics','num_states_extrinsics','num_states_frames','num_states_points','num_states_calobject_warp','num_measurements','num_measurements_boards',
        'num_measurements_points','num_measurements_regularization','measurement_index_regularization','num_intrinsics_optimization_params','state_index_calobject_warp')
@op
def layout(r,W):
    import mrcal
    i=r.randrange(len(W.problems)); kw=dict(W.get('kw',i))
    if r.random()<.4: kw['do_optimize_'+r.choice(('intrinsics_core','intrinsics_distortions','extrinsics','frames'))]=False
    if r.random()<.5: return Call(getattr(mrcal,r.choice(LAYOUT)),**kw)
    return Call(getattr(mrcal,r.choice(('state_index_intrinsics','state_index_extrinsics','state_index_frames','state_index_points','measurement_index_boards','measurement_index_points'))),r.choice((0,1,2,99)),**kw)
@op
def pack(r,W):
    import mrcal
    kw=W.get('kw',r.randrange(len(W.problems))); n=mrcal.num_states(**kw)
    b=np.random.RandomState(r.randrange(3)).rand(n+(r.random()<.1))
    return Call(r.choice((mrcal.pack_state,mrcal.unpack_state)),b,_modified=(0,),**kw)
class WrongResult(Exception): '''An operation found that a result is wrong: a violation'''
@op
def ingest(r,W):
    import mrcal
    i=r.randrange(len(W.problems)); kw=dict(W.get('kw',i))
    for k in ('intrinsics_core','intrinsics_distortions','extrinsics','frames'):
        if r.random()<.2: kw['do_optimize_'+k]=False
    if r.random()<.3 and kw.get('points') is not None: kw['Npoints_fixed']=0
    b=mrcal.optimizer_callback(**kw,no_jacobian=True,no_factorization=True)[0]
    b=b+1e-3*np.random.RandomState(r.randrange(3)).randn(*b.shape)
    def f(b,kw):
        # documented to write to the arrays
        kw=models.copy_kw(kw)
        mrcal.ingest_packed_state(b,**kw)
        b1=mrcal.optimizer_callback(**kw,no_jacobian=True,no_factorization=True)[0]
        if not np.allclose(b,b1,rtol=0,atol=1e-9): raise WrongResult('ingest_packed_state() did not store the given state')
        return kw
    return Call(f,b,kw)
INPLACE = (('invert_R','R',None,0,()),('invert_Rt','Rt',None,0,()),('invert_rt','rt',None,1,()),
           *[('compose_'+k,k,k,k!='Rt',('inverted0','inverted1')) for k in ('r','rt','Rt')],
           *[(n,k,'p',1,('inverted',)) for n,k in (('rotate_point_R','R'),('rotate_point_r','r'),('transform_point_Rt','Rt'),('transform_point_rt','rt'))])
@op
def pose_inplace(r,W):
    # documented: the output may be the same array as an input
    import mrcal
    name,k0,k1,grad,flags=r.choice(INPLACE); s=r.choice(((),(),(5,),(2,3)))
    a=[W.get('array',k,r.randrange(3),*s) for k in (k0,k1) if k]
    if len(a)>1 and k0==k1 and r.random()<.2: a[1]=a[0]
    same=len(a)>1 and a[1] is a[0]
    kw={k:r.random()<.5 for k in flags}
    if grad and r.random()<.4: kw['get_gradients']=True
    who=len(a)-1 if k1=='p' else r.randrange(len(a))
    lay=r.randrange(3)
    def view(x):
        if lay==0: return x.copy()
        if lay==1: v=np.zeros(x.shape[::-1]).T
        else:      v=np.zeros(tuple(2*n for n in x.shape))[tuple(slice(None,None,2) for n in x.shape)]
        v[...]=x
        return v
    def f(*a):
        F=getattr(mrcal,name)
        want=F(*[x.copy() for x in a],**kw)
        b=[view(x) for x in a]
        if same: b[1]=b[0]
        g=kw.get('get_gradients')
        out=(b[who],*[np.zeros_like(x) for x in want[1:]]) if g else b[who]
        F(*b,out=out,**kw)
        for x,y in zip(out if g else (out,),want if g else (want,)):
            if not np.array_equal(x,y): raise WrongResult(f'{name}() with {kw}: the in-place result is different')
        return want
    return Call(f,*a)
_OUT_1 = ('R_from_r','r_from_R','Rt_from_rt','rt_from_Rt','invert_R','invert_Rt','invert_rt','quat_from_R','qt_from_Rt','Rt_from_qt','compose_rt_tinyrt0_gradientrt0','compose_rt_tinyrt1_gradientrt1',
          'compose_r','compose_rt','compose_Rt','rotate_point_R','rotate_point_r','transform_point_Rt','transform_point_rt','transform_image','project','unproject')
OUTS    = (*_OUT_1,*[f'{p}project_{k}' for p in ('','un') for k in ('pinhole','stereographic','latlon','lonlat')],
           *['triangulate_'+k for k in ('geometric','leecivera_l1','leecivera_linf','leecivera_mid2','leecivera_wmid2','lindstrom')])
OUTS_OF = (*_OUT_1,'project_wild','project_wild','project','project','unproject','unproject','unproject','project_simple','unproject_simple','unproject_simple','triangulate_rays','triangulate_rays')
OUTS_LAYOUT = re.compile('contiguous|stride|Layout of the output array')
@op
def outs(r,W):
    # documented: results are written into the given arrays, whatever those contained
    import mrcal
    while True:
        c=OPS[r.choice(OUTS_OF)](r,W)
        if getattr(c.fn,'__name__','') in OUTS: break
    name=c.fn.__name__; F=c.fn; lay=r.randrange(5); fill=r.choice((np.nan,np.nan,np.inf,0.,7.,-1e300))
    def alloc(x):
        x=np.asarray(x)
        if x.ndim==0: lay_=0
        else: lay_=lay
        if   lay_==1: v=np.zeros(x.shape[::-1],dtype=x.dtype).T
        elif lay_==2: v=np.zeros(tuple(2*n for n in x.shape),dtype=x.dtype)[tuple(slice(None,None,2) for n in x.shape)]
        elif lay_==3: v=np.zeros((*x.shape[:-1],x.shape[-1]+3),dtype=x.dtype)[...,:x.shape[-1]]
        elif lay_==4: v=np.zeros((x.shape[0]+2,*x.shape[1:]),dtype=x.dtype)[1:-1]
        else:         v=np.zeros(x.shape,dtype=x.dtype)
        with np.errstate(all='ignore'): v[...]=fill if x.dtype.kind=='f' else 77
        return v
    def f(*a,**kw):
        kw.pop('out',None)
        want=F(*a,**kw)
        if isinstance(want,tuple): out=tuple(alloc(x) for x in want)
        else:                      out=alloc(want)
        try: got=F(*a,out=out,**kw)
        except Exception as e:
            if lay and OUTS_LAYOUT.search(str(e)): return want,'layout'
            raise
        for i,(x,y,z) in enumerate(zip(*[v if isinstance(v,tuple) else (v,) for v in (out,want,got)])):
            for w,n in ((x,'array given'),(z,'result')):
                if not np.allclose(w,y,rtol=1e-9,atol=1e-12,equal_nan=True): raise WrongResult(f'{name}() with {sorted(kw)} and an output array full of {fill}, layout {lay}: output {i}: the {n} is different: {w.ravel()[:6]}, without out= {np.ravel(y)[:6]}')
        return want,'same'
    return Call(f,*c.args,**c.kw)
@op
def corresponding(r,W):
    import mrcal
    i=r.randrange(4); return Call(mrcal.corresponding_icam_extrinsics,r.choice((0,1,7)),**W.get('kw',i))
@op
def decode_triangulated(r,W):
    import mrcal
    kw=dict(observations_point_triangulated=np.random.RandomState(r.randrange(2)).rand(4,3)+.5,indices_point_triangulated_camintrinsics_camextrinsics=np.array(((0,0,-1),(0,1,0),(1,0,-1),(1,1,0)),dtype=np.int32))
    kw=dict(W.get('kw',0),**kw); kw.update(do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False)
    f=r.choice((mrcal.num_measurements_points_triangulated,mrcal.measurement_index_points_triangulated,mrcal.decode_observation_indices_points_triangulated))
    return Call(f,**kw) if f is mrcal.num_measurements_points_triangulated else Call(f,r.randrange(2),**kw)
@op
def optimizer_callback(r,W):
    import mrcal
    i=r.randrange(len(W.problems)); kw=dict(W.get('kw',i))
    if r.random()<.4: kw.update(no_factorization=True)
    if r.random()<.2: kw.update(no_jacobian=True,no_factorization=True)
    if r.random()<.4: kw['do_optimize_'+r.choice(('intrinsics_core','intrinsics_distortions','extrinsics','frames'))]=False
    if r.random()<.3: kw['do_apply_regularization']=False
    return Call(mrcal.optimizer_callback,**kw)
@op
def callback_models(r,W):
    # all the lens models; some of the projections fail
    import mrcal
    kw=dict(W.get('kw',r.randrange(4))); n=len(kw['intrinsics']); lm=r.choice(WILD); kw['lensmodel']=lm
    kw['intrinsics']=np.array([(intrinsics if r.random()<.6 else wild)(lm,r.randrange(6)) for i in range(n)])
    if r.random()<.3: kw.update(no_jacobian=True,no_factorization=True)
    elif r.random()<.8: kw.update(no_factorization=True)
    return Call(mrcal.optimizer_callback,**kw)
def triangulated_kw(r):
    import mrcal
    lm=r.choice(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_CAHVOR','LENSMODEL_CAHVORE_linearity=1.00')); i=intrinsics(lm,r.randrange(3)); rs=np.random.RandomState(r.randrange(20)); K=r.choice((2,3,4)); N=r.choice((2,5,12))
    rt=np.zeros((K,6)); rt[1:]=rs.randn(K-1,6)*np.array((.05,.05,.05,.4,.1,.1))
    p=rs.randn(N,3)*np.array((1.,1.,.5))+np.array((0,0,4.))
    obs,idx=[],[]
    for n in range(N):
        cams=[c for c in range(K) if K==2 or rs.rand()<.8]
        if len(cams)<2: cams=[0,1]
        for c in cams:
            q=mrcal.project(mrcal.transform_point_rt(rt[c],p[n]),lm,i)+rs.randn(2)*r.choice((.1,3.,300.) if n==0 else (.1,3.))
            obs.append((*q,-1. if rs.rand()<.1 else r.choice((1.,1.,.5)))); idx.append((n,0,c-1))
    return dict(intrinsics=np.atleast_2d(i),rt_cam_ref=rt[1:]+rs.randn(K-1,6)*r.choice((1e-6,1e-2,.2)),observations_point_triangulated=np.array(obs),indices_point_triangulated_camintrinsics_camextrinsics=np.array(idx,dtype=np.int32),
                lensmodel=lm,imagersizes=np.array(((1000,800),),dtype=np.int32),do_optimize_intrinsics_core=False,do_optimize_intrinsics_distortions=False,do_optimize_extrinsics=True,do_optimize_frames=r.random()<.8,
                do_apply_outlier_rejection=False,do_apply_regularization=r.random()<.7,do_apply_regularization_unity_cam01=r.random()<.7,verbose=False)
@op
def callback_triangulated(r,W):
    import mrcal
    kw=triangulated_kw(r)
    if r.random()<.3: kw.update(no_jacobian=True,no_factorization=True)
    elif r.random()<.5: kw.update(no_factorization=True)
    return Call(mrcal.optimizer_callback,**kw)
@op
def optimizer_bad(r,W):
    import mrcal
    from checks import c08
    k=r.choice([m for m in c08.MUTATIONS if m not in ('','malloc','nan')])
    args,kw=c08.mutate(W.get('kw',r.randrange(4)),k,r)
    return Call(lambda kw,args: mrcal.optimizer_callback(*args,**kw),kw,args)
@op
def optimize(r,W):
    import mrcal
    kw=models.copy_kw(W.problems[r.choice((0,0,0,1,4,5,5) if len(W.problems)>5 else (0,1))])
    kw['rt_ref_frame']=kw['rt_ref_frame']*(1+1e-4*r.randrange(1,3))
    if r.random()<.3: kw['do_optimize_'+r.choice(('intrinsics_core','intrinsics_distortions','extrinsics','frames'))]=False
    if r.random()<.3: kw['do_apply_outlier_rejection']=True
    return Call(mrcal.optimize,_modified=('intrinsics','rt_cam_ref','rt_ref_frame','points','calobject_warp','observations_board','observations_point'),**kw)
@op
def factorization_solve(r,W):
    import mrcal
    if r.random()<.6: i=r.randrange(len(W.problems)); F=W.get('factorization',i); n=mrcal.num_states(**W.get('kw',i))
    else:             F=W.get('fac_direct',r.randrange(3)); n=5
    def f(F,b,sys):
        x=F.solve_xt_JtJ_bt(b) if sys=='A' else F.solve_xt_JtJ_bt(b,sys=sys)
        return x,F.rcond()
    b=np.random.RandomState(r.randrange(3)).rand(*r.choice(((n,),(1,n),(2,n),(6,n),(8,n),(3,n+1))))
    return Call(f,F,b,r.choice(('A','A','A','P','L','LD','D','x')))
@op
def factorization_new(r,W):
    import mrcal
    seed=r.randrange(4)
    def f(seed,J,b):
        F=mrcal.CHOLMOD_factorization(J)
        return F.solve_xt_JtJ_bt(b),F.rcond()
    J=csr(seed)
    return Call(f,seed,J,np.random.RandomState(seed).rand(3,5))
@op
def factorization_bad(r,W):
    import mrcal
    import scipy.sparse
    k=r.randrange(4)
    return Call(lambda x: (mrcal.CHOLMOD_factorization(x),1)[1],[np.eye(3),scipy.sparse.csc_matrix(np.eye(3)),5,scipy.sparse.csr_matrix(np.zeros((3,2)))][k])
@op
def residuals(r,W):
    import mrcal
    i=r.randrange(4); kw=W.get('kw',i); a={}
    if r.random()<.4: a['icam_intrinsics']=r.randrange((2,2,3,1)[i])
    if r.random()<.5: a['return_observations']=True
    if r.random()<.2: return Call(mrcal.residuals_point if i==2 and r.random()<.5 else mrcal.residuals_board,kw,**a)
    return Call(mrcal.measurements_point if i==2 and r.random()<.5 else mrcal.measurements_board,kw,**a)
@op
def perfect(r,W):
    import mrcal
    def f(kw,sigma):
        kw=models.copy_kw(kw); mrcal.make_perfect_observations(kw,observed_pixel_uncertainty=sigma); return kw
    return Call(f,W.get('kw',r.randrange(4)),r.choice((None,0,.3)))
@op
def synthesize(r,W):
    import mrcal
    def f(*a,**kw):
        return mrcal.synthesize_board_observations(*a,**kw)
    lm=r.choice(CENTRAL[:3])
    return Call(f,(W.get('model',lm,0,0),W.get('model',lm,1,1)),object_width_n=4,object_height_n=3,object_spacing=.1,calobject_warp=r.choice((None,np.array((1e-3,2e-3)))),rt_ref_boardcenter=np.array((0,0,0,0,0,3.+r.randrange(2))),
                rt_ref_boardcenter__noiseradius=np.array((.2,.2,.2,.1,.1,.2)),Nframes=3,which=r.choice(('all-cameras-must-see-full-board','some-cameras-must-see-full-board')))
@op
def seeds(r,W):
    import mrcal
    i=r.choice((0,0,1)); kw=W.get('kw',i); ii=kw['indices_frame_camintrinsics_camextrinsics']; obs=kw['observations_board']
    k=r.randrange(3); d=kw['calibration_object_spacing']
    if k==0: return Call(mrcal.seed_stereographic,kw['imagersizes'],900.+10*r.randrange(2),ii[:,:2].copy(),obs,d)
    Rt=mrcal.estimate_monocular_calobject_poses_Rt_tocam(ii[:,:2].copy(),obs,d,[('LENSMODEL_PINHOLE',np.array((900.+r.randrange(2),910,500,400)))]*2)
    if k==1: return Call(mrcal.estimate_monocular_calobject_poses_Rt_tocam,ii[:,:2].copy(),obs,d,[('LENSMODEL_PINHOLE',np.array((900.+r.randrange(2),910,500,400)))]*2)
    return Call(mrcal.estimate_joint_frame_poses,Rt,mrcal.Rt_from_rt(kw['rt_cam_ref']),ii[:,:2].copy(),4,4,d)
@op
def traverse(r,W):
    import mrcal
    N=r.choice((3,5)); rs=np.random.RandomState(r.randrange(4)); c=np.triu(rs.randint(0,6,size=(N,N)),1); c=(c+c.T).astype(np.uint16)
    fail=r.choice((None,None,0,1))
    def f(c,fail):
        out=[]
        def cb(a,b):
            if fail is not None and len(out)==fail: raise RuntimeError('from the callback')
            out.append((a,b))
        mrcal.traverse_sensor_links(connectivity_matrix=c,callback_sensor_link=cb)
        return out
    return Call(f,c,fail)

######## analysis
METHODS=('cross-reprojection-ccp','mean-pcam','cross-reprojection-rrp-Jfp')
@op
def uncertainty(r,W):
    import mrcal
    m=solved(W,r); kw=dict(method=r.choice(METHODS+METHODS[:2]),what=r.choice(('covariance','worstdirection-stdev','rms-stdev')),atinfinity=r.random()<.3)
    if r.random()<.3: kw['observed_pixel_uncertainty']=.5
    p=W.get('array','p',r.randrange(3),*r.choice(((),(3,))))
    return Call(mrcal.projection_uncertainty,p*2,m,**kw)
@op
def projection_diff(r,W):
    import mrcal
    kw=dict(gridn_width=8,gridn_height=6)
    if r.random()<.4:
        i=r.choice((0,2)); ms=(W.get('solved',i,0),W.get('solved',i,1)); kw['intrinsics_only']=r.random()<.5; kw['distance']=r.choice((None,5.))
    else:
        lm=r.choice(CENTRAL); ms=tuple(W.get('model',lm,s,0) for s in range(r.choice((2,2,3)))); kw['use_uncertainties']=False
        if r.random()<.4: kw['focus_center']=np.array((500.,400.)); kw['focus_radius']=r.choice((200.,-1.,0.))
        if r.random()<.3: kw['distance']=np.array((2.,5.))
        elif r.random()<.3: kw['implied_Rt10']=np.vstack((mrcal.R_from_r(np.array((.001,.002*r.randrange(2),0))),np.zeros(3)))
    return Call(mrcal.projection_diff,ms,**kw)
@op
def pair_diff(r,W):
    import mrcal
    lm=r.choice(CENTRAL[:4]); return Call(mrcal.stereo_pair_diff,((W.get('model',lm,0,0),W.get('model',lm,1,1)),(W.get('model',lm,1,0),W.get('model',lm,2,1))),gridn_width=7,gridn_height=5,distance=r.choice((None,4.,5.)))
@op
def implied(r,W):
    import mrcal
    p=W.get('array','p',r.randrange(2),6,5); R=mrcal.R_from_r(np.array((.01,.02,.03*r.randrange(2)))); v=np.array(mrcal.rotate_point_R(R,p)); v/=np.sqrt((v*v).sum(-1,keepdims=True))
    q=W.get('array','q',0,6,5); kw={}
    if r.random()<.5: kw['focus_center']=np.array((400.,300.)); kw['focus_radius']=r.choice((300.,1e6))
    if r.random()<.4: kw['weights']=np.random.RandomState(1).rand(6,5)
    return Call(mrcal.implied_Rt10__from_unprojections,q,p,v,atinfinity=r.random()<.5,**kw)
@op
def implied_missing(r,W):
    '''Some of the points are unknown'''
    import mrcal
    p=np.array(W.get('array','p',r.randrange(2),6,5)); R=mrcal.R_from_r(np.array((.01,.02,.03*r.randrange(2)))); v=np.array(mrcal.rotate_point_R(R,p)); v/=np.sqrt((v*v).sum(-1,keepdims=True))
    w=np.random.RandomState(1).rand(6,5)
    for x in r.sample(('p','v','w'),r.choice((1,1,2,3))):
        a=dict(p=p,v=v,w=w)[x]; a.reshape(-1)[r.sample(range(a.size),r.choice((1,3)))]=r.choice((np.nan,np.inf))
    kw=dict(weights=w) if r.random()<.8 else {}
    if r.random()<.3: p=np.array((p,p+.01)); kw=dict(weights=np.array((w,w))) if kw else kw
    return Call(mrcal.implied_Rt10__from_unprojections,W.get('array','q',0,6,5),p,v,atinfinity=r.random()<.5,**kw)
@op
def propagate(r,W):
    '''Private, but documented: how to get the uncertainty of anything that depends on a solve'''
    import mrcal
    i=r.randrange(4); kw=W.get('kw',i); N=mrcal.num_states(**kw); rs=np.random.RandomState(r.randrange(3)); F=rs.randn(*r.choice(((2,),(3,),(2,2),(1,))),N)*1e-3
    a=dict(dF_dbpacked=F) if r.random()<.3 else dict(dF_dbunpacked=F)
    if r.random()<.4: a['observed_pixel_uncertainty']=.5
    return Call(mrcal.model_analysis._propagate_calibration_uncertainty,r.choice(('covariance','worstdirection-stdev','rms-stdev')),optimization_inputs=kw,**a)
@op
def tracks(r,W):
    import mrcal
    m=M(W,r,r.choice(CENTRAL[:4])); z=np.eye(4)[:,:3].copy(); z[3]=(0,0,-5.-r.randrange(2))
    return Call(mrcal.make_tracks,m,Rt_NED_cam0=z,R_cam_camnext=mrcal.R_from_r(np.array((0,.05,.25*r.random()))),t_cam_camnext__world=np.array((0,.2,0.)),Nobservations_total=r.choice((60,150)),
                track_length=r.choice((4,8)),Nobservations_image=r.choice((20,40)),gridn=r.choice((2,3)),Npoint_observations_min=r.choice((2,4)))
@op
def resolution(r,W):
    import mrcal
    return Call(mrcal.model_resolution__deg_pixel,W.get('array','q',r.randrange(3),*r.choice(((4,),(2,3),(1,)))),M(W,r,r.choice(CENTRAL)),mode=r.choice(('min','max','mean','eccentricity')))
def _plot(name,f):
    def g(r,W):
        import mrcal
        a,kw=f(r,W)
        return Call(getattr(mrcal,name),*a,return_plot_args=True,**kw)
    g.__name__=name; op(g)
xt=lambda r: dict(extratitle='x') if r.random()<.3 else dict(title='y') if r.random()<.2 else dict(_set=['key top']) if r.random()<.3 else {}
_plot('show_distortion_off_pinhole',lambda r,W:((M(W,r,r.choice(CENTRAL)),),dict(gridn_width=7,vectorfield=r.random()<.5,**xt(r))))
_plot('show_distortion_off_pinhole_radial',lambda r,W:((M(W,r,r.choice(('LENSMODEL_OPENCV4','LENSMODEL_OPENCV8'))),),dict(show_fisheye_projections=r.random()<.5,**xt(r))))
_plot('show_projection_diff',lambda r,W:(((W.get('solved',0,0),W.get('solved',0,1)),),dict(gridn_width=7,intrinsics_only=True,vectorfield=r.random()<.4,directions=r.random()<.3,observations=r.choice((False,True,'dots')),valid_intrinsics_region=r.random()<.4,use_uncertainties=r.random()<.5,**xt(r))))
_plot('show_projection_uncertainty',lambda r,W:((solved(W,r),),dict(gridn_width=5,gridn_height=4,observations=r.choice((False,True,'dots')),valid_intrinsics_region=r.random()<.4,distance=r.choice((None,5.)),isotropic=r.random()<.4,**xt(r))))
_plot('show_projection_uncertainty_vs_distance',lambda r,W:((solved(W,r),),dict(method=r.choice(METHODS[1:]),where=r.choice(('centroid',np.array((500.,400.)))),isotropic=r.random()<.4,distance_min=1.,distance_max=10.,**xt(r))))
_plot('show_residuals_board_observation',lambda r,W:((W.get('kw',r.randrange(4)),r.choice((0,1,2))),dict(from_worst=r.random()<.5,showimage=False,circlescale=1.+r.randrange(2),**xt(r))))
_plot('show_residuals_histogram',lambda r,W:((W.get('kw',r.randrange(4)),),dict(icam_intrinsics=r.choice((None,0)),**xt(r))))
for n_ in ('show_residuals_directions','show_residuals_magnitudes','show_residuals_vectorfield'):
    _plot(n_,lambda r,W:((W.get('solved',*r.choice(((0,0),(0,1),(1,0),(1,1),(3,0)))),),dict(valid_intrinsics_region=False,**xt(r))))
_plot('show_residuals_regional',lambda r,W:((W.get('solved',*r.choice(((0,0),(0,1),(1,0),(1,1),(3,0)))),),dict(valid_intrinsics_region=False,gridn_width=4,gridn_height=3,**xt(r))))
_plot('show_splined_model_correction',lambda r,W:((W.get('model',r.choice(LM[-3:]),r.randrange(2),0,True),),dict(vectorfield=r.random()<.4,imager_domain=r.random()<.4,gridn_width=8,xy=None if r.random()<.6 else r.choice(('x','y')),**xt(r))))
_plot('show_stereo_pair_diff',lambda r,W:((((W.get('model','LENSMODEL_OPENCV4',0,0),W.get('model','LENSMODEL_OPENCV4',1,1)),(W.get('model','LENSMODEL_OPENCV4',1,0),W.get('model','LENSMODEL_OPENCV4',2,1))),),dict(gridn_width=7,vectorfield=r.random()<.4,**xt(r))))
_plot('show_valid_intrinsics_region',lambda r,W:((r.choice((M(W,r,region=True),[M(W,r,region=True) for i in range(2)])),),dict(points=r.choice((None,np.ones((3,2)))),**xt(r))))
@op
def show_geometry(r,W):
    import mrcal
    if r.random()<.5:
        ms=[W.get('model','LENSMODEL_OPENCV4',s,s%2) for s in range(2)]; kw=dict(cameranames=r.choice((None,['a','b'])))
        if r.random()<.3: kw['points']=W.get('array','p',r.randrange(2),5)
        if r.random()<.3: kw['cameras_Rt_plot_ref']=W.get('array','Rt',1)
    else:
        ms=[W.get('solved',2,i) for i in range(3)]; kw=dict(show_calobjects=r.choice(('all','thiscamera',None)),show_points=r.choice(('all',None)),axis_scale=r.choice((None,.4)))
    kw.update(xt(r))
    return Call(mrcal.show_geometry,ms,return_plot_args=True,**kw)
@op
def plotoptions(r,W):
    import mrcal
    return Call(r.choice((mrcal.plotoptions_state_boundaries,mrcal.plotoptions_measurement_boundaries)),**W.get('kw',r.randrange(4)))
@op
def private_calibration(r,W):
    import mrcal
    m=solved(W,r); k=r.randrange(2)
    if k==0: return Call(mrcal.calibration._report_regional_statistics,m)
    return Call(mrcal.calibration._compute_valid_intrinsics_region,m,.3,.5,1.,3,r.choice((None,2.,5.)),8,6)

######## models
@op
def model_methods(r,W):
    m=r.choice((lambda:solved(W,r),lambda:M(W,r)))()
    def f(m):
        return [m.intrinsics(),m.rt_cam_ref(),m.Rt_ref_cam(),m.rt_ref_cam(),m.Rt_cam_ref(),m.imagersize(),m.valid_intrinsics_region(),m.optimization_inputs(),m.icam_intrinsics(),m.icam_extrinsics(),str(m)]
    return Call(f,m)
@op
def model_setters(r,W):
    import mrcal
    m=r.choice((lambda:solved(W,r),lambda:M(W,r)))(); rt=W.get('array','rt',r.randrange(3))
    def f(m,rt):
        c=mrcal.cameramodel(m); c.rt_ref_cam(rt); a=c.rt_cam_ref()
        try: c.intrinsics(('LENSMODEL_PINHOLE',np.array((1.,2,3)))); b=0
        except MemoryError: raise
        except Exception as e: b=type(e).__name__
        return [a,b,c,m.rt_cam_ref()]
    return Call(f,m,rt)
@op
def model_write_read(r,W):
    import mrcal,os
    m=r.choice((lambda:solved(W,r),lambda:M(W,r)))(); path=f'{W.root}/m{r.randrange(3)}.{r.choice(("cameramodel","cameramodel","cahvor","yaml"))}'
    def f(m,path):
        m.write(path)
        try: return mrcal.cameramodel(path)
        finally: os.unlink(path)
    return Call(f,m,path)
@op
def moved_since(r,W):
    m=solved(W,r)
    return Call(lambda m: m._extrinsics_moved_since_calibration(),m)

################ running

def canon(x):
    '''A hashable, bit-exact description of anything the API takes or returns'''
    import mrcal
    if isinstance(x,mrcal.cameramodel):
        o=models.observe(x,False); o['hasopt']=x._optimization_inputs_string is not None if hasattr(x,'_optimization_inputs_string') else None
        return ('model',models.canon(o))
    if isinstance(x,np.ndarray) and x.dtype.kind!='O': return models.canon(x)
    if isinstance(x,(list,tuple)): return ('T',tuple(canon(v) for v in x))
    if isinstance(x,dict): return ('D',tuple((str(k),canon(v)) for k,v in sorted(x.items(),key=lambda kv:str(kv[0]))))
    if isinstance(x,np.ndarray): return ('O',x.shape,tuple(canon(v) for v in x.ravel()))
    if isinstance(x,(set,frozenset)): return ('set',tuple(sorted(map(repr,x))))
    if callable(x): return ('fn',)
    return models.canon(x)

def scrub(s): return re.sub(r'0x[0-9a-f]+','0x',s)

def build(name,variant,W):
    r = random.Random(f'{name}/{variant}')
    c = OPS[name](r,W)
    if variant%4==3: vary(c,random.Random(f'vary/{name}/{variant}'))
    return c
def vary(c,r):
    '''The same call, with one of its arrays being of another type or layout'''
    def arrays(x,at=()):
        if isinstance(x,np.ndarray) and x.dtype.kind in 'fiu' and x.size: yield at
        elif isinstance(x,(list,tuple)) and type(x) in (list,tuple):
            for i,v in enumerate(x): yield from arrays(v,at+(i,))
    choices = [at for k,v in [*enumerate(c.args),*c.kw.items()] if k not in c.modified for at in arrays(v,(k,))]
    if not choices: return
    at = r.choice(choices)
    how = r.choice(('f4','f8','i4','i8','view','view','f2','F','rev'))
    def new(a):
        if how=='view': return view(r,a)
        if how=='F':    return np.asfortranarray(a)
        if how=='rev':  return np.ascontiguousarray(a[::-1])[::-1] if a.ndim else a
        return a.astype(how)
    def rep(x,at):
        if not at: return new(x)
        return type(x)(rep(v,at[1:]) if i==at[0] else v for i,v in enumerate(x))
    if isinstance(at[0],int): c.args = tuple(rep(c.args,at))
    else: c.kw = {k:rep(v,at[1:]) if k==at[0] else v for k,v in c.kw.items()}
def relayout(c,r):
    '''The same call with strided, transposed, overlapping arrays; and with contiguous copies of those. And were there any?'''
    kinds = []
    def new(a,out):
        k = r.choice(('','F','pad','step','rev','revlast','slide','bcast') if not out else ('','F','pad','step'))
        b = np.array(a,order='C')
        if   k=='F':   b = np.asfortranarray(b)
        elif k=='pad': z = np.full(b.shape[:-1]+(b.shape[-1]+3,),7,b.dtype); z[...,:b.shape[-1]] = b; b = z[...,:b.shape[-1]]
        elif k=='step':z = np.full(tuple(2*n for n in b.shape),7,b.dtype); q = tuple(slice(None,None,2) for n in b.shape); z[q] = b; b = z[q]
        elif k=='rev': b = b[::-1].copy()[::-1]
        elif k=='revlast': b = b[...,::-1].copy()[...,::-1]
        elif k=='slide' and b.ndim==2 and b.shape[0]>1:
            b = np.lib.stride_tricks.sliding_window_view(b.ravel()[:b.shape[0]+b.shape[1]-1],b.shape[1])
        elif k=='bcast' and b.ndim>1: b = np.broadcast_to(b[:1],b.shape)
        if not b.flags.c_contiguous: kinds.append(k)
        return b,np.array(b,order='C',copy=True)
    def walk(x,out):
        if isinstance(x,np.ndarray) and x.dtype.kind in 'fiu' and x.size and x.ndim: return new(x,out)
        if type(x) in (list,tuple):
            y = [walk(v,out) for v in x]
            return type(x)(v[0] for v in y),type(x)(v[1] for v in y)
        if type(x) is dict:
            y = {k:walk(v,out) for k,v in x.items()}
            return {k:v[0] for k,v in y.items()},{k:v[1] for k,v in y.items()}
        return x,x
    args = [walk(a,i in c.modified) for i,a in enumerate(c.args)]
    kw   = {k:walk(a,k in c.modified) for k,a in c.kw.items()}
    return Call(c.fn,*[a[0] for a in args],_modified=c.modified,**{k:a[0] for k,a in kw.items()}),\
           Call(c.fn,*[a[1] for a in args],_modified=c.modified,**{k:a[1] for k,a in kw.items()}),kinds
SALT = (float('nan'),float('nan'),float('inf'),-float('inf'),0.,-1.,1e-300,1e30)
def salt(c,r):
    '''The same call, with a few values of its floating-point arrays replaced. And how many were?'''
    n = [0]
    def walk(x):
        if isinstance(x,np.ndarray) and x.dtype.kind=='f' and x.size and r.random()<.6:
            b = x.copy()
            for i in range(r.choice((1,1,2,4))):
                j = r.randrange(b.size); v = r.choice(SALT)
                if abs(v)==float('inf') and r.random()<.5: v = float('nan')
                b.reshape(-1)[j] = v if b.flags.c_contiguous else b.reshape(-1)[j]
                n[0] += b.flags.c_contiguous
            return b
        if type(x) in (list,tuple): return type(x)(walk(v) for v in x)
        if type(x) is dict:         return {k:walk(v) for k,v in x.items()}
        return x
    return Call(c.fn,*[walk(a) for a in c.args],_modified=c.modified,**{k:walk(a) for k,a in c.kw.items()}),n[0]
_rng = threading.local()
def randomness():
    '''The seam: numpy's global generator becomes one per thread, seeded by call()'''
    for f in ('random','rand','randn','uniform','normal','randint','multivariate_normal','permutation','shuffle','choice','random_sample','seed'):
        setattr(np.random,f,lambda *a,_f=f,**kw: getattr(_rng.rs,_f)(*a,**kw))
POISON = [0]
def poison():
    '''The seam: what uninitialized memory contains: heap, stack and numpy's cache of small arrays. Each call finds something else'''
    POISON[0] += 1
    c = (POISON[0]*0x35)&0xff
    core.shimlib().dst_poison(c)
    for n in range(8,1024,8):
        a = [np.full(n,c,np.uint8) for i in range(7)]
        del a
    a = [np.full(n,c,np.uint8) for n in (1,2,3,4,5,6,7,9,12,20) for i in range(7)]
    del a
    core.shimlib().dst_poison(c)
def call(c,W,arm=None):
    _rng.rs = np.random.RandomState(12345)
    poison()
    try:
        if arm: arm(1)
        try:     v = c.fn(*c.args,**c.kw)
        finally:
            if arm: arm(0)
    except Exception as e:
        return None,('exc',type(e).__name__,scrub(str(e).replace(W.root,'ROOT'))[:500])
    return v,('ok',canon(v),canon({str(k):a for k,a in [*enumerate(c.args),*c.kw.items()] if k in c.modified}) if c.modified else None)
def snapshot(c):
    return {**{i:canon(a) for i,a in enumerate(c.args) if i not in c.modified},
            **{k:canon(a) for k,a in c.kw.items() if k not in c.modified}}
