'''C13: a calibration run is reproducible, and its models are consistent'''
import io
import json
import os
import random
import subprocess
import sys
import warnings
from dst import core, faults, models, tool, simproc

TOOL   = 'mrcal-calibrate-cameras'
NOISE  = .15
LENS   = ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8','LENSMODEL_STEREOGRAPHIC',
          'LENSMODEL_CAHVOR','LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=6_Ny=5_fov_x_deg=80','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=80')
STATS  = ('stat','lstat','access','statx','fstat')
def probe(e):
    '''os.path.exists() and such take any failure for an answer'''
    return e[0] in STATS

def env_of(rng):
    return dict(t=rng.choice((0,1e9,1.7e9,4e9,951782399)),host=rng.choice(('a','host2','x.y.z')),user=rng.choice(('root','u')),
                dirs=rng.getrandbits(30),rows=rng.getrandbits(30),jobs=rng.choice((1,2,8)),leftover=rng.random()<.4,world=rng.getrandbits(30),
                columns=rng.choice((20,80,300)))
CANON = dict(t=1.7e9,host='simhost',user='simuser',dirs=0,rows=0,jobs=1,leftover=False,world=1,columns=80)

def driver(plan,argv,d,env):
    '''Another interpreter, with its own hash seed'''
    C = PROPERTY
    class S: armed = 0
    os.chdir(d)
    import numpy
    numpy.random.seed(plan['npseed']); random.seed(5)
    st = C._run(S,plan,argv,d,env)[0]
    os._exit(st)

class Scandir:
    '''The order of directory entries is the simulation's'''
    def __init__(self,it,r):
        with it: self.l = list(it)
        self.l.sort(key=lambda x:x.name); r.shuffle(self.l)
        self.i = iter(self.l)
    def __iter__(self): return self
    def __next__(self): return next(self.i)
    def __enter__(self): return self
    def __exit__(self,*a): pass
    def close(self): pass

class C13(core.Property):
    id    = 'C13'
    level = 'exploration'
    technique = 'deterministic simulation: calibration runs in seeded environments, with system-call faults, crashes and a failing detector, against fault-free runs and the known truth'
    rule  = ('mrcal-calibrate-cameras calibrates 1..3 simulated cameras from simulated observations (cached or detected). One run in a canonical environment is '
             'judged against the truth the observations were made from: the models, and what is embedded in them, must agree with each other, '
             'with the observations, and with the truth. Another one has a different clock, host, directory order, detector timing, order of '
             'images, hash seed, leftover outputs; or has system-call faults, crashes, a full disk, C-c, or a failing detector. Status 0 means that every model has '
             'the same contents; otherwise a model file is the old one, none, not readable, or the right one.')
    runs  = dict(quick=1600,thorough=40000)
    wall  = dict(quick=100.,thorough=1500.)
    real  = ['mrcal-calibrate-cameras: the whole tool','mrcal.calibration','the solver, libdogleg, cholmod','mrcal.cameramodel','kernel file system (tmpfs)']
    stub  = ['mrgingham: a simulated process','results of faulted system calls','clock, host and user names, order of directory entries, random generators','the images (blank)']
    assumptions = ['the random numbers used to seed the distortions are given; with others, the solves agree with the truth equally well',
                   'failing stat() calls are not simulated']

    def prepare(self,tier):
        import numpy, mrcal, scipy.linalg, glob, mrcal.calibration, mrcal.model_analysis, shapely.geometry, cv2
        self.np,self.mrcal = numpy,mrcal
        self.refs = {}; self.scenes = {}
        tool.compiled(TOOL)
        self.imgdir = core.scratch()
        mrcal.save_image(f'{self.imgdir}/1000x800.png',numpy.full((800,1000),127,dtype=numpy.uint8))

    ################ The world that is observed
    def make_scene(self,seed):
        '''dict: truth, observations'''
        if seed in self.scenes: return self.scenes[seed]
        np,mrcal = self.np,self.mrcal
        r  = random.Random(f'scene{seed}')
        N  = r.choice((1,2,2,2,3))
        W  = r.choice((5,6)); H = W if r.random()<.6 else W+r.choice((-1,1))
        nf = r.choice((5,6,7))
        lm = r.choice(LENS)
        truth_lm = 'LENSMODEL_STEREOGRAPHIC' if 'STEREOGRAPHIC' in lm else 'LENSMODEL_PINHOLE' if lm in('LENSMODEL_PINHOLE','LENSMODEL_CAHVOR') else 'LENSMODEL_OPENCV4'
        sp = r.choice((.1,.1,.05))
        wh = (1000,800)
        M  = []
        for c in range(N):
            f = r.uniform(900,1100)
            i = [f,f+r.uniform(-5,5),r.uniform(480,520),r.uniform(380,420)]
            if truth_lm=='LENSMODEL_OPENCV4': i += [r.uniform(-.15,-.05),r.uniform(0,.05),r.uniform(-.001,.001),r.uniform(-.001,.001)]
            rt = np.zeros(6) if c==0 else np.array([r.uniform(-.05,.05) for k in range(3)]+[-.25*c*sp*10+r.uniform(-.03,.03)]+[r.uniform(-.05,.05) for k in range(2)])
            M.append(mrcal.cameramodel(intrinsics=(truth_lm,np.array(i)),imagersize=wh,rt_cam_ref=rt))
        obj = mrcal.ref_calibration_object(W,H,sp)
        num = sorted(r.sample(range(3,99),nf)) if r.random()<.5 else list(range(nf))
        rn  = np.random.RandomState(r.getrandbits(31))
        imgs= {}     # (c,frame number): (q true (HW,2), q observed, level or None per point)
        gross = set()
        outl  = r.random()<.4
        for fi,f in enumerate(num):
            k = sp*10
            rt = np.array([r.uniform(-.45,.45) for k_ in range(3)]+[r.uniform(-.7,.1)*k,r.uniform(-.45,.0)*k,r.uniform(1.1,1.8)*k])
            for c in range(N):
                p = mrcal.transform_point_rt(M[c].rt_cam_ref(),mrcal.transform_point_rt(rt,obj))
                q = mrcal.project(p,*M[c].intrinsics()).reshape(-1,2)
                lev = [r.choice((0,0,0,1)) for x in q]
                qo  = q + rn.randn(*q.shape)*NOISE*np.array([[2.**l] for l in lev])
                for i in range(len(q)):
                    if not (1<qo[i,0]<wh[0]-2 and 1<qo[i,1]<wh[1]-2): lev[i] = None
                    elif r.random()<.01: lev[i] = None
                    elif outl and r.random()<.01: qo[i] += (80.,-60.); gross.add((c,f,i))
                if N>1 and fi not in (0,1,nf-1) and r.random()<.1: lev = None      # not seen at all
                imgs[c,f] = (q,qo,lev)
        # an OPENCV8 or a spline has too much freedom for this little data to be compared with the truth away from the observations
        s = dict(seed=seed,N=N,W=W,H=H,num=num,lensmodel=lm,truth=M,sp=sp,wh=wh,imgs=imgs,gross=gross,obj=obj)
        self.scenes[seed] = s
        return s

    def fname(self,plan,c,f): return f'f{f:02d}-cam{c}.png'

    def corners(self,s,plan,rows):
        r  = random.Random(rows)
        kk = sorted(s['imgs'])
        if rows: r.shuffle(kk)
        w  = plan['weights']
        L  = []
        if rows and r.random()<.5: L.append('## made on Jan 1')
        L.append('# filename x y '+('weight' if w else 'level'))
        pre = 'there/' if plan['images']=='directory' else ''
        for c,f in kk:
            q,qo,lev = s['imgs'][c,f]
            n = pre+self.fname(plan,c,f)
            if lev is None: L.append(f'{n} - - -'); continue
            for x,l in zip(qo,lev):
                L.append(f'{n} - - -' if l is None else f'{n} {x[0]:.5f} {x[1]:.5f} '+(str(2.**-l) if w else str(l)))
            if rows and r.random()<.1: L.append('# a comment')
        return '\n'.join(L)+'\n'

    ################ The runs
    def generate(self,rng,k,tier):
        seed = rng.randrange(40 if tier=='quick' else 4000)
        s    = self.make_scene(seed)
        # few variations of each scene: the canonical runs are shared
        r    = random.Random(f'{seed} {rng.randrange(2)}')
        p    = dict(scene=seed,npseed=12345)
        p['mode']    = r.choice(('cache','cache','detect','detect+cache')) if s['W']==s['H'] else 'cache'
        p['weights'] = p['mode']=='cache' and r.random()<.3
        p['images']  = r.choice(('none','none','here','prefix','directory')) if p['mode']=='cache' else 'here'
        p['seeded']  = r.random()<.35
        p['skip']    = [x for x in ('--skip-regularization','--skip-outlier-rejection','--skip-calobject-warp-solve') if r.random()<.25]
        if p['seeded']:
            if s['N']>1 and r.random()<.3: p['skip'].append('--skip-extrinsics-solve')
            if r.random()<.3: p['skip'].append('--skip-intrinsics-solve')
        p['pairs']   = s['N']==2 and r.random()<.4
        p['imagersize'] = p['images']=='none' and not p['seeded'] or r.random()<.2
        p['focals']  = r.random()<.3
        p['kind']    = rng.choice(('env',)*4+('hash','rng')+('fault',)*9+('quota','detector'))
        if p['kind']=='detector' and p['mode']=='cache': p['kind'] = 'fault'
        if p['kind'] in ('env','hash'): p['env'] = env_of(rng)
        if p['kind']=='rng':      p['npseed'] = rng.randrange(1<<30)
        if p['kind']=='fault':
            p['faults'] = faults.gen(rng,kinds=('err','err','short','crash_before','crash_after','torn_crash','do_then_err','sigint'),
                                     classes=('write','write','open','close','read','read',None,None))
            p['leftover'] = rng.random()<.3
        if p['kind']=='quota':    p['quota'] = round(rng.random(),4); p['leftover'] = False
        if p['kind']=='detector': p['program'] = [rng.choice((0,.3,.9,1.)),rng.choice((['exit',1],['exit',255],['kill',9],['kill',11],['spawn',2],['spawn',12]))]
        return p

    def outputs(self,s,plan):
        return [f'out/camera{i//2}-{i%2}.cameramodel' if plan['pairs'] else f'out/camera-{i}.cameramodel' for i in range(s['N'])]

    def lay_out(self,d,plan,env):
        s = self.make_scene(plan['scene'])
        def put(n,x):
            os.makedirs(os.path.dirname(f'{d}/{n}'),exist_ok=True)
            with open(f'{d}/{n}','w') as f: f.write(x)
        os.makedirs(f'{d}/out')
        argv = ['--outdir','out','--object-spacing',str(s['sp']),'--object-width-n',str(s['W'])]
        if s['H']!=s['W']: argv += ['--object-height-n',str(s['H'])]
        if plan['mode']!='detect':
            argv += ['--corners-cache','corners.vnl']
            if plan['mode']=='cache': put('corners.vnl',self.corners(s,plan,env['rows']))
        if plan['weights']: argv += ['--corners-cache-has-weights']
        im = plan['images']
        if im=='prefix':    argv += ['--image-path-prefix','img']
        if im=='directory': argv += ['--image-directory','img']
        if im!='none':
            dd = '' if im=='here' else 'img/'
            if dd: os.makedirs(f'{d}/img')
            for c,f in s['imgs']: os.link(f'{self.imgdir}/1000x800.png',f'{d}/{dd}{self.fname(plan,c,f)}')
        if plan['imagersize']: argv += ['--imagersize','1000','800']
        if plan['seeded']:
            fixed = '--skip-intrinsics-solve' in plan['skip']
            r = random.Random(s['seed'])
            np,mrcal = self.np,self.mrcal
            for c,m in enumerate(s['truth']):
                i = m.intrinsics()[1].copy()
                rt= m.rt_cam_ref().copy()
                if not fixed: i[:4] += [r.uniform(-5,5) for k in range(4)]
                if '--skip-extrinsics-solve' not in plan['skip'] and c>0: rt[3:] += [r.uniform(-.005,.005) for k in range(3)]
                # the whole thing can be anywhere
                rt = mrcal.compose_rt(rt,np.array((.1,.2,-.1,1.,2.,3.)))
                lm = m.intrinsics()[0]
                with io.StringIO() as b:
                    mrcal.cameramodel(intrinsics=(lm,i),imagersize=s['wh'],rt_cam_ref=rt).write(b)
                    put(f'seed{c}.cameramodel',b.getvalue())
            argv += ['--seed','seed*.cameramodel']
        else:
            argv += ['--lensmodel',s['lensmodel'],'--focal',','.join(['1000']*s['N']) if plan['focals'] else '1000']
        argv += plan['skip']
        if plan['pairs']: argv += ['--pairs']
        if env['jobs']!=1: argv += ['--jobs',str(env['jobs'])]
        dd = 'img/' if im=='prefix' else ''
        argv += [f'{dd}f*-cam{c}.png' for c in range(s['N'])]
        if env['leftover']:
            old = mrcal_old(self.mrcal,self.np)
            for o in self.outputs(s,plan): put(o,old)
        return argv

    def _run(self,S,plan,argv,d,env):
        import shutil
        s = self.make_scene(plan['scene'])
        if plan.get('npseed')!=12345: self.np.random.seed(plan['npseed'])
        os.environ['COLUMNS'] = str(env['columns'])
        if env['dirs']:
            r  = random.Random(env['dirs'])
            sd,ld = os.scandir,os.listdir
            def listdir(*a):
                l = sorted(ld(*a)); r.shuffle(l); return l
            os.scandir = lambda *a: Scandir(sd(*a),r)
            os.listdir = listdir
        progs = []
        if plan['mode']!='cache':
            text = self.corners(s,plan,env['rows'])
            p = plan.get('program')
            if p and p[1][0]=='spawn': progs = [dict(spawn=p[1][1],ops=[])]
            else:
                ops = [['err','hello\n'*3],['out',text[:int(len(text)*(p[0] if p else 1))]],['sleep',1.],p[1] if p else ['exit',0]]
                progs = [dict(spawn=None,ops=ops)]
        W = simproc.World(core.rng_for('world',env['world']),progs)
        W.install()
        if env['columns']!=80: os.environ.update(TZ='Pacific/Auckland',LC_ALL='C')
        try: st = tool.run(S,TOOL,argv,d,t=env['t'],host=env['host'],user=env['user'])
        except simproc.Deadlock: st = 'deadlock'
        return st,[p.args for p in W.launched]

    def snapshot(self,d):
        out = {}
        for p,dd,ff in os.walk(d):
            for f in ff:
                n = os.path.relpath(f'{p}/{f}',d)
                if n in ('STDOUT','STDERR') or n.endswith('.png'): continue
                with open(f'{p}/{f}','rb') as x: out[n] = x.read()
        return out

    def one(self,plan,env,place=(),quota=None,interp=None):
        d = core.scratch()
        try:
            argv   = self.lay_out(d,plan,env)
            before = self.snapshot(d)
            if interp is None:
                sim  = core.Sim(d,faults=place,quota=quota,timeout=100.,nofault_probes=True)
                st,v = sim.run(self._run,plan,argv,d,env)
                ev,fired,wr = sim.events(),sim.fired(),sim.S.bytes_written
            else:
                with open(f'{d}.json','w') as f: json.dump([plan,argv,d,env],f)
                e = dict(os.environ,PYTHONHASHSEED=str(interp)); e.pop('LD_PRELOAD',None)
                code = ('import sys,json; sys.path.insert(0,%r)\nfrom dst import core\nimport ctypes\nfrom checks import c13\n'
                        'P=c13.PROPERTY; P.bare(%r); c13.driver(*json.load(open(%r)))' % (core.VERIF,self.imgdir,f'{d}.json'))
                p = subprocess.run([sys.executable,'-c',code],env=e,cwd=d,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=200)
                os.unlink(f'{d}.json')
                st,v,ev,fired,wr = 'ok',(p.returncode,[]),[],{},0
                if p.returncode==99: raise core.HarnessError(p.stderr.decode()[-2000:])
            def text(n):
                try:
                    with open(f'{d}/{n}',errors='replace') as f: return f.read().replace(d,'ROOT')
                except OSError: return ''
            return dict(argv=argv,before=before,after=self.snapshot(d),st=st,v=v,events=ev,fired=fired,written=wr,stdout=text('STDOUT'),stderr=text('STDERR'))
        finally: core.scratch_remove(d)

    def bare(self,imgdir):
        '''Set up in another interpreter: no shim, no preparation in a parent'''
        class L:
            def dst_track_fd(self,*a): pass
        core.shimlib = lambda: L()
        import numpy, mrcal
        self.np,self.mrcal = numpy,mrcal
        self.refs = {}; self.scenes = {}; self.imgdir = imgdir

    ################ The oracle
    def read(self,b):
        '''dict of what a model says, or None if it can't be read'''
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try: m = self.mrcal.cameramodel(io.StringIO(b.decode()))
            except Exception: return None
        return m

    def data(self,b):
        '''without the comments'''
        return b'\n'.join(l for l in b.split(b'\n') if not l.lstrip().startswith(b'#'))

    def judge_ref(self,plan,r):
        '''Is this fault-free run right? None or (class, message)'''
        np,mrcal = self.np,self.mrcal
        s = self.make_scene(plan['scene'])
        if r['st']!='ok': return 'died',f'{r["st"]} {r["v"]}'
        if r['v'][0]!=0: return 'failed',f'status {r["v"][0]}; {r["stderr"][-600:]}'
        if plan['mode']!='cache':
            a = r['v'][1]
            if len(a)!=1: return 'detector',f'the detector was launched {len(a)} times'
        M = []
        for o in self.outputs(s,plan):
            if o not in r['after']: return 'missing-model',f'{o} was not written'
            m = self.read(r['after'][o])
            if m is None: return 'unreadable-model',f'{o} can not be read'
            M.append(m)
        extra = set(r['after'])-set(r['before'])-set(self.outputs(s,plan))-{'corners.vnl'}
        if extra: return 'extra-file',f'{extra} were made'
        O = [m.optimization_inputs() for m in M]
        if any(o is None for o in O): return 'no-inputs','a model has no optimization inputs'
        lm = s['truth'][0].intrinsics()[0] if plan['seeded'] else s['lensmodel']
        o  = O[0]
        for c,m in enumerate(M):
            w = f'camera {c}: '
            if models.canon(O[c])!=models.canon(o): return 'different-solves',w+f'its embedded solve differs from that of camera 0: {[k for k in o if models.canon(o[k])!=models.canon(O[c].get(k))]}'
            if m.intrinsics()[0]!=lm: return 'wrong-lensmodel',w+f'{m.intrinsics()[0]}'
            if not np.array_equal(m.imagersize(),s['wh']): return 'wrong-imagersize',w+f'{m.imagersize()}'
            if m.icam_intrinsics()!=c: return 'wrong-camera',w+f'icam_intrinsics()={m.icam_intrinsics()}'
            # numbers are written with 10 digits
            if not np.allclose(m.intrinsics()[1],o['intrinsics'][c],rtol=1e-8,atol=1e-9): return 'inconsistent-model',w+f'intrinsics {m.intrinsics()[1]}; in the solve: {o["intrinsics"][c]}'
            rt = np.zeros(6) if c==0 else o['rt_cam_ref'][c-1]
            if not np.allclose(m.rt_cam_ref(),rt,rtol=1e-8,atol=1e-9): return 'inconsistent-model',w+f'pose {m.rt_cam_ref()}; in the solve: {rt}'
            if not np.array_equal(o['imagersizes'][c],s['wh']): return 'wrong-imagersize',w+'in the solve'
            v = m.valid_intrinsics_region()
            if v is not None and len(v) and (v.min()<-1 or (v.max(axis=0)>np.array(s['wh'])).any()): return 'wrong-region',w+f'valid-intrinsics region out of the imager: {v}'
            if v is not None and '--skip-intrinsics-solve' in plan['skip']: return 'wrong-region',w+'there is a valid-intrinsics region'
            if v is None and '--skip-intrinsics-solve' not in plan['skip'] and 'WARNING' not in r['stderr']: return 'wrong-region',w+'no valid-intrinsics region'
        # what was observed is what is embedded
        want = []
        minpts = 2*min(s['W'],s['H'])
        seen = {k for k,(q,qo,lev) in s['imgs'].items() if lev is not None and sum(l is not None for l in lev)>minpts}
        ff   = sorted({f for c,f in seen})
        want = sorted((ff.index(f),c) for c,f in seen)
        idx  = o['indices_frame_camintrinsics_camextrinsics']
        if idx.tolist() != [[i,c,c-1] for i,c in want]: return 'wrong-indices',f'indices {idx.tolist()}; observed {want}'
        err = []; x = None
        obs = o['observations_board']
        if obs.shape!=(len(want),s['H'],s['W'],3): return 'wrong-observations',f'shape {obs.shape}'
        x = mrcal.optimizer_callback(**o,no_jacobian=True,no_factorization=True)[1]
        x = x[:obs.shape[0]*s['W']*s['H']*2].reshape(-1,s['W']*s['H'],2)
        nout = 0; ntot = 0; missed = 0; sq = 0.; nin = 0
        pre = {'none':'','here':'','prefix':'img/','directory':'img/'}[plan['images']]
        for i,(fi,c) in enumerate(want):
            q,qo,lev = s['imgs'][c,ff[fi]]
            ob = obs[i].reshape(-1,3)
            p  = str(o['imagepaths'][i])
            if p != pre+self.fname(plan,c,ff[fi]): return 'wrong-path',f'observation {i}: path {p}'
            for k in range(len(q)):
                if lev[k] is None:
                    if ob[k,2]>0: return 'wrong-observations',f'{p} point {k}: not observed, but has weight {ob[k,2]}'
                    continue
                ntot += 1
                if abs(ob[k,:2]-qo[k]).max()>2e-5: return 'wrong-observations',f'{p} point {k}: observed {qo[k]}; in the model: {ob[k]}'
                if ob[k,2]<=0: nout += (c,ff[fi],k) not in s['gross']; continue
                if ob[k,2]!=2.**-lev[k]: return 'wrong-observations',f'{p} point {k}: weight {ob[k,2]} for level {lev[k]}'
                if (c,ff[fi],k) in s['gross']: missed += 1; continue
                pred = ob[k,:2] + x[i,k]/ob[k,2]
                sq += ((pred-q[k])**2).sum(); nin += 2
        if '--skip-outlier-rejection' in plan['skip']:
            if nout: return 'wrong-outliers',f'{nout} outliers, without outlier rejection'
            if missed: return None
        elif missed: return 'wrong-outliers',f'{missed} of {len(s["gross"])} points that are off by 100 pixels are not outliers'
        if nout > max(4,.06*ntot): return 'wrong-outliers',f'{nout} of {ntot} good points are outliers'
        rms = (sq/nin)**.5
        r['rms'] = rms
        if rms > 1.5*NOISE: return 'wrong-solve',f'the solution is off by {rms:.3f} pixels RMS; the noise is {NOISE}'
        # geometry
        for c in range(1,s['N']):
            d = mrcal.compose_rt(M[c].rt_cam_ref(),mrcal.invert_rt(s['truth'][c].rt_cam_ref()))
            r['geom'] = max(r.get('geom',0.),float(np.linalg.norm(d[3:]))/(s['sp']*10))
            if '--skip-extrinsics-solve' in plan['skip'] and np.abs(d).max()>1e-6: return 'wrong-geometry',f'camera {c} moved by {d}, with --skip-extrinsics-solve'
        for c in range(s['N']):
            if '--skip-intrinsics-solve' in plan['skip'] and not np.allclose(M[c].intrinsics()[1],s['truth'][c].intrinsics()[1],rtol=1e-8): return 'wrong-intrinsics',f'camera {c}: with --skip-intrinsics-solve: {M[c].intrinsics()[1]}'
        cw = o.get('calobject_warp')
        if '--skip-calobject-warp-solve' in plan['skip'] and cw is not None and np.any(cw): return 'wrong-warp',f'{cw}'
        return None

    def ref(self,plan):
        '''The same in the canonical environment'''
        p = {k:v for k,v in plan.items() if k not in ('kind','env','faults','leftover','quota','program','npseed','interp')}
        p['npseed'] = 12345
        k = json.dumps(p,sort_keys=True)
        if k not in self.refs:
            r = self.one(p,CANON)
            self.refs[k] = r,self.judge_ref(p,r)
            if len(self.refs)>60: del self.refs[next(iter(self.refs))]
        return self.refs[k]

    def execute(self,plan):
        kind = plan['kind']
        s    = self.make_scene(plan['scene'])
        ref,bad = self.ref(plan)
        stats = {'probe:'+kind:1,'probe:'+plan['mode']:1,'probe:seeded' if plan['seeded'] else 'probe:from scratch':1}
        V = lambda r,cls,msg: core.violation(cls,f'{" ".join(r["argv"])}: {msg}',key=cls)
        if bad: return core.result(V(ref,*bad),stats,(bad[0],ref['st']))
        env = CANON
        kw  = {}
        old = mrcal_old(self.mrcal,self.np).encode()
        if kind in ('env','hash'): env = plan['env']
        if kind=='hash': kw['interp'] = 1+env['world']%1000
        if kind in ('fault','quota'):
            env = dict(CANON,leftover=plan['leftover'])
            if kind=='fault': kw['place'] = faults.place(ref['events'],plan['faults'],skip=probe)
            else:             kw['quota'] = int(plan['quota']*ref['written'])
        r = self.one(plan,env,**kw)
        core._merge(stats,faults.stats(r['fired']))
        if r['st']=='ok': stats['probe:succeeded' if r['v'][0]==0 else 'probe:failed'] = 1
        log = (r['st'],r['v'],sorted((n,core.digest(self.data(b) if n.endswith('model') else b)) for n,b in r['after'].items()),r['events'])
        sig = (plan['scene'],kind,{k:v for k,v in plan.items() if k!='faults'},kw.get('place'))
        return core.result(self.judge(plan,s,ref,r,old,env,V),stats,log,nontrivial=True,sig=repr(sig))

    def judge(self,plan,s,ref,r,old,env,V_):
        kind = plan['kind']
        V    = lambda cls,msg: V_(r,cls,f'{msg}; {kind}, status {r["v"][0] if r["st"]=="ok" else (r["st"],r["v"])}; stderr: {r["stderr"][-500:]}')
        if kind=='rng':
            bad = self.judge_ref(plan,r)
            if bad: return V(bad[0],'with other random numbers: '+bad[1])
            return None
        fired = bool(r['fired'])
        if r['st'] not in ('ok','crash'): return V('died',f'{r["st"]} {r["v"]}')
        st = r['v'][0] if r['st']=='ok' else None
        if st=='deadlock': return V('deadlock','the detector and the tool wait for each other')
        outs = self.outputs(s,plan)
        for n,b in r['before'].items():
            if n in outs: continue
            if r['after'].get(n)!=b: return V('input-modified',f'{n} was modified or deleted')
        for n in r['after']:
            if n in r['before'] or n in outs or n=='corners.vnl': continue
            if r['st']=='crash' and n.endswith('.vnl'): continue
            # an interrupt may come right as mkstemp() made the file, before anybody can know about it
            if r['fired'].get('sigint') and n.endswith('.vnl'): continue
            # unlink() may have failed
            if fired and n.endswith('.vnl') and any(e[0]=='unlink' and e[2] for e in r['events']): continue
            return V('extra-file',f'{n} was made')
        if plan['mode']=='detect+cache' and 'corners.vnl' in r['after']:
            if r['after']['corners.vnl'].decode()!=self.corners(s,plan,env['rows']): return V('wrong-cache','the corners file is not what the detector made')
        for o in outs:
            x = r['after'].get(o)
            same = x is not None and self.data(x)==self.data(ref['after'][o])
            if st==0 and not same: return V('different-model' if x is not None else 'missing-model',f'{o} {"differs from the one made in the canonical environment" if x is not None else "is missing"}')
            if same or x is None or x==old: continue
            m = self.read(x)
            if m is not None:
                return V('wrong-model',f'{o} can be read, but has other contents')
        if st==0:
            if plan['mode']=='detect+cache' and 'corners.vnl' not in r['after']: return V('missing-cache','the corners file is missing')
            if kind=='detector': return V('failure-ignored','the detector failed')
            for o in outs:
                note = [l for l in r['after'][o].decode().split('\n') if l.startswith('#')]
                if 'generated on' not in ''.join(note) or 'RMS reprojection error' not in ''.join(note): return V('wrong-note',f'{o}: the note is incomplete: {note}')
        elif kind in ('env','hash'): return V('environment-dependence','it fails in this environment')
        return None

    def shrink(self,plan):
        if plan['kind']=='fault':
            for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
            if plan['leftover']: yield dict(plan,leftover=False)
        if plan['kind'] in ('env','hash'):
            for k in CANON:
                if plan['env'][k]!=CANON[k]: yield dict(plan,env=dict(plan['env'],**{k:CANON[k]}))
        for x in plan['skip']: yield dict(plan,skip=[y for y in plan['skip'] if y!=x])
        for k,v in (('pairs',False),('weights',False),('focals',False)):
            if plan[k]!=v: yield dict(plan,**{k:v})
        for sc in range(8):
            if plan['scene']>8:
                s = self.make_scene(sc)
                if (plan['pairs'] and s['N']!=2) or (plan['mode']!='cache' and s['W']!=s['H']): continue
                yield dict(plan,scene=sc)

_old = []
def mrcal_old(mrcal,np):
    '''A model that was there before'''
    if not _old:
        with io.StringIO() as b:
            mrcal.cameramodel(intrinsics=('LENSMODEL_PINHOLE',np.array((500.,500.,99.,99.))),imagersize=(200,200)).write(b)
            _old.append(b.getvalue())
    return _old[0]

PROPERTY = C13()
