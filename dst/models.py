'''Random camera models, small optimization problems: shared by the checks'''
import re
import threading
import numpy as np
import ctypes
import math
from . import core, build

STATIC = ('LENSMODEL_PINHOLE','LENSMODEL_STEREOGRAPHIC','LENSMODEL_LONLAT','LENSMODEL_LATLON',
          'LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_OPENCV12','LENSMODEL_CAHVOR')

def random_lensmodel(rng, small=False):
    r = rng.random()
    if r < 0.6: return rng.choice(STATIC)
    if r < 0.75:return f'LENSMODEL_CAHVORE_linearity={rng.choice(("0.00","1.00","0.34","0.40","0.75"))}'
    n = 8 if small else 14
    return (f'LENSMODEL_SPLINED_STEREOGRAPHIC_order={rng.choice((2,3))}'
            f'_Nx={rng.randrange(4,n)}_Ny={rng.randrange(4,n)}_fov_x_deg={rng.randrange(30,200)}')

NP = dict(LENSMODEL_PINHOLE=4,LENSMODEL_STEREOGRAPHIC=4,LENSMODEL_LONLAT=4,LENSMODEL_LATLON=4,
          LENSMODEL_OPENCV4=8,LENSMODEL_OPENCV5=9,LENSMODEL_OPENCV8=12,LENSMODEL_OPENCV12=16,LENSMODEL_CAHVOR=9)
def num_params(lensmodel):
    if lensmodel in NP: return NP[lensmodel]
    if lensmodel.startswith('LENSMODEL_CAHVORE'): return 12
    import re
    m = re.search(r'_Nx=(\d+)_Ny=(\d+)',lensmodel)
    return 4 + 2*int(m.group(1))*int(m.group(2))

def rand_float(rng, wild=True):
    r = rng.random()
    if r < 0.06: return 0.0
    if r < 0.10: return float(rng.randrange(-5,6))
    if r < 0.12: return -0.0
    e = rng.uniform(-14,9) if (wild and rng.random()<0.5) else rng.uniform(-4,3)
    return rng.choice((-1,1))*rng.uniform(1,10)*10.**e

def random_model_spec(rng, wild=True, small=True):
    '''A JSON-able description of a cameramodel'''
    lm = random_lensmodel(rng,small)
    N  = num_params(lm)
    W,H = rng.choice(((640,480),(3840,2160),(1,1),(rng.randrange(1,70000),rng.randrange(1,70000))))
    if rng.random() < 0.75:
        core4 = [rng.uniform(200,3000),rng.uniform(200,3000),W*rng.uniform(.3,.7),H*rng.uniform(.3,.7)]
    else:
        core4 = [rand_float(rng,wild) for i in range(4)]
    region = None
    r = rng.random()
    if r < 0.15: region = []
    elif r < 0.5:
        n = rng.randrange(3,12)
        region = [[rng.uniform(-10,W+10),rng.uniform(-10,H+10)] for i in range(n)]
        if rng.random()<.3: region.append(list(region[0]))
        elif rng.random()<.2: region = [[round(a),round(b)] for a,b in region]
        if len(region)==3 and region[0]==region[-1]: region=None
    opt = rng.choice((None,None,0,1,2))
    d = dict(lensmodel=lm, intrinsics=core4+[rand_float(rng,wild) for i in range(N-4)],
             rt=[rand_float(rng,False) for i in range(6)] if rng.random()<.8 else [0.]*6,
             imagersize=[W,H], region=region, opt=opt)
    if rng.random()<.1: d['rt'] = [rand_float(rng,True) for i in range(6)]
    return d

def make_model(spec, problems=None):
    import mrcal
    if spec.get('opt') is not None and problems:
        p,icam = problems[spec['opt'] % len(problems)]
        m = mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=icam)
        if spec.get('movecam'): m.rt_cam_ref(np.array(spec['rt'],dtype=float))
    else:
        m = mrcal.cameramodel(intrinsics=(spec['lensmodel'],np.array(spec['intrinsics'],dtype=float)),
                              imagersize=spec['imagersize'],
                              rt_cam_ref=np.array(spec['rt'],dtype=float))
    if spec.get('region') is not None:
        m.valid_intrinsics_region(np.array(spec['region'],dtype=float).reshape(-1,2))
    return m

FULL = threading.local() # .on: canon() reports the arrays themselves; for close()

def canon(x):
    '''Something hashable, comparable, bit-exact, for whatever the API returns'''
    if x is None or isinstance(x,(bool,str,bytes,int)): return x
    if isinstance(x,float): return ('f',x.hex() if x==x else 'nan')
    if isinstance(x,np.ndarray):
        a = np.ascontiguousarray(x)
        if a.dtype.kind == 'O': return ('O',a.shape,tuple(canon(v) for v in a.ravel()))
        return ('A',a.shape,a.dtype.str,np.array(a) if getattr(FULL,'on',False) else core.digest(a.tobytes()))
    if isinstance(x,np.generic): return canon(x.item())
    if isinstance(x,dict):       return ('D',tuple((str(k),canon(v)) for k,v in sorted(x.items(),key=lambda kv:str(kv[0]))))
    if isinstance(x,(list,tuple)):return ('T',tuple(canon(v) for v in x))
    try:
        import scipy.sparse
        if scipy.sparse.issparse(x): return ('S',canon(x.toarray()))
    except ImportError: pass
    return ('?',type(x).__name__)

_number = re.compile(r'[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?')
def close(a,b,tol=1e-9):
    '''Are two results of canon() with FULL the same, up to rounding?'''
    if isinstance(a,tuple) and isinstance(b,tuple):
        if len(a)!=len(b): return False
        if len(a)==4 and a[0]=='A' and b[0]=='A':
            if a[1:3]!=b[1:3]: return False
            x,y = a[3],b[3]
            if x.dtype.kind not in 'fc': return np.array_equal(x,y)
            if not np.array_equal(np.isfinite(x),np.isfinite(y)) or not np.array_equal(np.isnan(x),np.isnan(y)): return False
            f = np.isfinite(x)
            return bool(np.all(np.abs(x[f]-y[f]) <= max(tol,1e-5 if x.dtype.itemsize==4 else 0)*(np.max(np.abs(x[f]),initial=0.)+1e-3)))
        if len(a)==2 and a[0]=='f' and b[0]=='f':
            if a==b: return True
            if 'nan' in (a[1],b[1]) : return False
            x,y = float.fromhex(a[1]),float.fromhex(b[1])
            return abs(x-y) <= tol*(abs(x)+1e-3)
        return all(close(x,y,tol) for x,y in zip(a,b))
    if isinstance(a,str) and isinstance(b,str) and a!=b:
        if _number.sub('#',a) != _number.sub('#',b): return False
        return all(x==y or abs(float(x)-float(y)) <= max(tol,1e-4 if len(x)<12 else 0)*(abs(float(x))+1e-3) for x,y in zip(_number.findall(a),_number.findall(b)))
    return type(a)==type(b) and a==b

def r10(a):
    '''What 10 significant digits can store'''
    return np.array([float('%.10g' % v) for v in np.array(a,dtype=float).ravel()]).reshape(np.shape(a))

def observe(m,opt=True):
    '''Everything about a model that is visible through its API'''
    lm,intr = m.intrinsics()
    return dict(lensmodel = lm, intrinsics = np.array(intr), imagersize = np.array(m.imagersize()),
                rt_cam_ref = np.array(m.rt_cam_ref()), region = m.valid_intrinsics_region(),
                icam = (m.icam_intrinsics(),m.icam_extrinsics()),
                opt = m.optimization_inputs() if opt else None)

def rounded(o):
    o = dict(o)
    for k in ('intrinsics','rt_cam_ref'): o[k] = r10(o[k])
    if o['region'] is not None: o['region'] = r10(o['region'])
    return o

def same_num(a,b):
    if a is None or b is None: return (a is None) == (b is None)
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))

def diff(a,b):
    '''The first difference between two observe() results, or None'''
    if a['lensmodel'] != b['lensmodel']: return f"lensmodel: {a['lensmodel']} {b['lensmodel']}"
    for k in ('intrinsics','imagersize','rt_cam_ref','region'):
        if not same_num(a[k],b[k]): return f"{k}: {a[k]} vs {b[k]}"[:600]
    if a['icam'] != b['icam']: return f"icam: {a['icam']} {b['icam']}"
    ca,cb = canon(a['opt']),canon(b['opt'])
    if ca != cb:
        if a['opt'] is None or b['opt'] is None: return f"optimization_inputs: {a['opt'] is None} {b['opt'] is None}"
        ks = [k for k in sorted(set(a['opt'])|set(b['opt'])) if canon(a['opt'].get(k,'MISSING'))!=canon(b['opt'].get(k,'MISSING'))]
        return f"optimization_inputs differ in {ks}"
    return None

_IDS = ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV8','LENSMODEL_CAHVOR',
        'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=60')

def problem(seed, lensmodel='LENSMODEL_OPENCV4', Ncameras=2, Nframes=4, N=4, points=False, warp=True, solve=True,
            outliers=False):
    '''A small calibration problem: kwargs for mrcal.optimize()'''
    import mrcal
    rs = np.random.RandomState(seed)
    Nint = mrcal.lensmodel_num_params(lensmodel)
    intr = np.zeros((Ncameras,Nint))
    intr[:,:4] = np.array((900.,910.,500.,400.)) + rs.randn(Ncameras,4)*5
    if not lensmodel.startswith('LENSMODEL_SPLINED'):
        intr[:,4:] = rs.randn(Ncameras,Nint-4)*1e-3
        if lensmodel == 'LENSMODEL_CAHVOR': intr[:,4:6] *= .1
    rt_cam_ref = np.zeros((Ncameras-1,6))
    if Ncameras>1:
        rt_cam_ref[:,:3] = rs.randn(Ncameras-1,3)*.05
        rt_cam_ref[:,3]  = np.arange(1,Ncameras)*.5
        rt_cam_ref[:,4:] = rs.randn(Ncameras-1,2)*.05
    rt_ref_frame = np.zeros((Nframes,6))
    rt_ref_frame[:,:3] = rs.randn(Nframes,3)*.3
    rt_ref_frame[:,3:5]= rs.randn(Nframes,2)*.5
    rt_ref_frame[:,5]  = 3. + rs.rand(Nframes)
    spacing = .2
    board = mrcal.ref_calibration_object(N,N,spacing)
    board = board - np.array((N-1,N-1,0))*spacing/2
    obs,idx = [],[]
    for f in range(Nframes):
        for c in range(Ncameras):
            p = mrcal.transform_point_rt(rt_ref_frame[f],board + np.array((N-1,N-1,0))*spacing/2*0)
            if c>0: p = mrcal.transform_point_rt(rt_cam_ref[c-1],p)
            q = mrcal.project(p,lensmodel,intr[c]) + rs.randn(N,N,2)*.2
            w = np.ones((N,N,1))*(.5+.5*rs.rand(N,N,1))
            obs.append(np.concatenate((q,w),axis=-1)); idx.append((f,c,c-1))
    obs = np.array(obs)
    if outliers:
        obs[0,0,0,:2] += 40.
        obs[1,1,1,2]   = -1.
    # the reference of the board is its corner
    R = mrcal.R_from_r(rt_ref_frame[:,:3])
    off = -np.array((N-1,N-1,0))*spacing/2
    rt_ref_frame[:,3:] += np.array([r.dot(off) for r in R])
    kw = dict(intrinsics = intr*(1+1e-3*rs.randn(*intr.shape)),
              rt_cam_ref = rt_cam_ref + 1e-3*rs.randn(*rt_cam_ref.shape),
              rt_ref_frame = rt_ref_frame + 1e-3*rs.randn(*rt_ref_frame.shape),
              points = None,
              observations_board = obs,
              indices_frame_camintrinsics_camextrinsics = np.array(idx,dtype=np.int32),
              observations_point = None,
              indices_point_camintrinsics_camextrinsics = None,
              lensmodel = lensmodel,
              calobject_warp = np.zeros((2,)) if warp else None,
              imagersizes = np.array([(1000,800)]*Ncameras,dtype=np.int32),
              calibration_object_spacing = spacing,
              verbose = False,
              do_optimize_intrinsics_core = True,
              do_optimize_intrinsics_distortions = True,
              do_optimize_extrinsics = True,
              do_optimize_frames = True,
              do_optimize_calobject_warp = bool(warp),
              do_apply_regularization = True,
              do_apply_outlier_rejection = bool(outliers))
    if points:
        Np = 6
        pts = np.concatenate((rs.randn(Np,2)*.8, 4.+rs.rand(Np,1)),axis=-1)
        po,pi = [],[]
        for i in range(Np):
            for c in range(Ncameras):
                p = pts[i]
                if c>0: p = mrcal.transform_point_rt(rt_cam_ref[c-1],p)
                q = mrcal.project(p,lensmodel,intr[c]) + rs.randn(2)*.2
                po.append((q[0],q[1],1.)); pi.append((i,c,c-1))
        kw['points'] = pts + 1e-3*rs.randn(*pts.shape)
        kw['observations_point'] = np.array(po)
        kw['indices_point_camintrinsics_camextrinsics'] = np.array(pi,dtype=np.int32)
        kw['Npoints_fixed'] = 2
    if solve:
        mrcal.optimize(**kw)
    return kw

def copy_kw(kw):
    return { k:(np.array(v) if isinstance(v,np.ndarray) else v) for k,v in kw.items() }

def default_problems():
    return [ (problem(1),0),
             (problem(1),1),
             (problem(2,'LENSMODEL_OPENCV8',Ncameras=3,Nframes=5,points=True,warp=False),2),
             (problem(3,_IDS[4],Ncameras=1,Nframes=6,N=5,outliers=True),0) ]

################ the C API
C_HELPER = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "mrcal.h"
// text dump; returns the length or <0
static int dump(char* out, int n, const mrcal_cameramodel_VOID_t* m)
{
    char name[1024];
    if(!mrcal_lensmodel_name(name,sizeof name,&m->lensmodel)) return -2;
    int N = mrcal_lensmodel_num_params(&m->lensmodel);
    int k = snprintf(out,n,"%s;%u,%u;",name,m->imagersize[0],m->imagersize[1]);
    for(int i=0;i<6;i++) k += snprintf(out+k,n-k,"%a,",m->rt_cam_ref[i]);
    k += snprintf(out+k,n-k,";");
    for(int i=0;i<N && k<n;i++) k += snprintf(out+k,n-k,"%a,",m->intrinsics[i]);
    return k;
}
int h_read_file(char* out, int n, const char* filename)
{
    mrcal_cameramodel_VOID_t* m = mrcal_read_cameramodel_file(filename);
    if(!m) return -1;
    int k = dump(out,n,m);
    mrcal_free_cameramodel(&m);
    return k;
}
int h_read_string(char* out, int n, const char* s, int len)
{
    mrcal_cameramodel_VOID_t* m = mrcal_read_cameramodel_string(s,len);
    if(!m) return -1;
    int k = dump(out,n,m);
    mrcal_free_cameramodel(&m);
    return k;
}
// Nmax: in/out
int h_read_into(char* out, int n, const char* filename, const char* s, int len, int* Nmax)
{
    static union { mrcal_cameramodel_VOID_t m; char b[65536]; } buf;
    memset(&buf,0,sizeof buf);
    bool ok = filename ?
        mrcal_read_cameramodel_file_into(&buf.m,Nmax,filename) :
        mrcal_read_cameramodel_string_into(&buf.m,Nmax,s,len);
    if(!ok) return -1;
    return dump(out,n,&buf.m);
}
// the string abuts an unmapped page
#include <sys/mman.h>
int h_read_string_guarded(char* out, int n, const char* s, int len, int terminated, int into, int* Nmax)
{
    size_t L  = len + (terminated ? 1 : 0);
    size_t np = (L + 4095)/4096;
    if(np==0) np=1;
    char* m = mmap(NULL,(np+1)*4096,PROT_READ|PROT_WRITE,MAP_ANONYMOUS|MAP_PRIVATE,-1,0);
    if(m == MAP_FAILED) return -9;
    mprotect(m+np*4096,4096,PROT_NONE);
    char* p = m+np*4096-L;
    memcpy(p,s,len);
    if(terminated) p[len] = 0;
    int r = into ? h_read_into(out,n,NULL,p,terminated ? 0 : len,Nmax) :
                   h_read_string(out,n,p,terminated ? 0 : len);
    munmap(m,(np+1)*4096);
    return r;
}
// text: what dump() wrote is parsed back in python; here we take arrays
int h_write_file(const char* filename, const char* lensmodel, const unsigned* imagersize, const double* rt, const double* intrinsics)
{
    static union { mrcal_cameramodel_VOID_t m; char b[65536]; } buf;
    memset(&buf,0,sizeof buf);
    if(!mrcal_lensmodel_from_name(&buf.m.lensmodel,lensmodel)) return -2;
    buf.m.imagersize[0]=imagersize[0]; buf.m.imagersize[1]=imagersize[1];
    memcpy(buf.m.rt_cam_ref,rt,6*8);
    memcpy(buf.m.intrinsics,intrinsics,8*mrcal_lensmodel_num_params(&buf.m.lensmodel));
    return mrcal_write_cameramodel_file(filename,&buf.m) ? 0 : -1;
}
// the Python "O&" converter
int mrcal_cameramodel_converter(void* py_model, mrcal_cameramodel_VOID_t** model);
int h_converter(char* out, int n, void* py_model)
{
    mrcal_cameramodel_VOID_t* m = NULL;
    if(!mrcal_cameramodel_converter(py_model,&m)) return m==NULL ? -1 : -3;
    if(!m) return -4;
    int k = dump(out,n,m);
    mrcal_free_cameramodel(&m);
    return k;
}
'''
_lib = None
def clib():
    '''ctypes handle to the helper, linked to the tree's libmrcal'''
    global _lib
    if _lib is not None: return _lib
    import os
    tree = os.environ['DST_TREE']
    src  = f'{build.BUILD}/chelper.c'
    os.makedirs(build.BUILD,exist_ok=True)
    with open(src,'w') as f: f.write(C_HELPER)
    pre = os.environ.pop('LD_PRELOAD',None)
    so = build.compile_cached('chelper.so',[src],
             ['gcc','-O1','-shared','-fPIC',f'-I{tree}','-I/usr/include/suitesparse','-o','@OUT@',src,
              f'-L{tree}','-lmrcal',f'-Wl,-rpath,{tree}'],
             extra=os.environ['DST_TREE_HASH'])
    if pre: os.environ['LD_PRELOAD'] = pre
    L = ctypes.PyDLL(so)
    L.h_converter.argtypes = [ctypes.c_char_p,ctypes.c_int,ctypes.py_object]
    _lib = L
    return L

def parse_dump(b):
    name,wh,rt,intr = b.decode().split(';')
    f = lambda s: np.array([float.fromhex(x) for x in s.split(',') if x])
    return dict(lensmodel=name,imagersize=np.array([int(x) for x in wh.split(',')]),rt_cam_ref=f(rt),intrinsics=f(intr))

_buf = None
def _cbuf():
    global _buf
    if _buf is None: _buf = ctypes.create_string_buffer(1<<18)
    return _buf
def c_read(filename):
    b = _cbuf()
    n = clib().h_read_file(b,len(b),filename.encode())
    return None if n<0 else parse_dump(b.raw[:n])
def c_read_string(s,length):
    b = _cbuf()
    n = clib().h_read_string(b,len(b),s,length)
    return None if n<0 else parse_dump(b.raw[:n])
def c_read_guarded(s,terminated,into=None):
    b = _cbuf(); N = ctypes.c_int(into or 0)
    n = clib().h_read_string_guarded(b,len(b),s,len(s),int(terminated),int(into is not None),ctypes.byref(N))
    return None if n<0 else parse_dump(b.raw[:n])
def c_read_into(filename,s,length,nmax):
    b = _cbuf(); N = ctypes.c_int(nmax)
    n = clib().h_read_into(b,len(b),None if filename is None else filename.encode(),s,length,ctypes.byref(N))
    return (None if n<0 else parse_dump(b.raw[:n])), N.value
def c_converter(x):
    b = _cbuf()
    n = clib().h_converter(b,len(b),x)
    return None if n<0 else parse_dump(b.raw[:n])
def c_write(filename,lensmodel,imagersize,rt,intrinsics):
    s = (ctypes.c_uint*2)(*[int(x) for x in imagersize])
    r = (ctypes.c_double*6)(*rt)
    i = (ctypes.c_double*len(intrinsics))(*intrinsics)
    return clib().h_write_file(filename.encode(),lensmodel.encode(),s,r,i)

def cdiff(c,o):
    '''C dump vs observe()/rounded()'''
    if c['lensmodel'] != o['lensmodel']: return f"lensmodel {c['lensmodel']} {o['lensmodel']}"
    for k in ('intrinsics','imagersize','rt_cam_ref'):
        if not same_num(c[k],o[k]): return f"{k}: {c[k]} vs {o[k]}"[:500]
    return None

def c_converter_rc(x):
    b = _cbuf()
    return clib().h_converter(b,len(b),x)
