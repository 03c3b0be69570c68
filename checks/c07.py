'''C07: a camera model object stays consistent over any history'''
import io
import os
import warnings
import numpy as np
from dst import core, faults, models

VIEWS = ('rt_cam_ref','rt_ref_cam','Rt_cam_ref','Rt_ref_cam',
         'extrinsics_rt_fromref','extrinsics_rt_toref','extrinsics_Rt_fromref','extrinsics_Rt_toref')
CANON = dict(extrinsics_rt_fromref='rt_cam_ref',extrinsics_rt_toref='rt_ref_cam',
             extrinsics_Rt_fromref='Rt_cam_ref',extrinsics_Rt_toref='Rt_ref_cam')

# an independent implementation of the pose representations
def R_from_r(r):
    th = np.linalg.norm(r)
    if th<1e-12:
        K = np.array(((0,-r[2],r[1]),(r[2],0,-r[0]),(-r[1],r[0],0)))
        return np.eye(3)+K
    k = r/th
    K = np.array(((0,-k[2],k[1]),(k[2],0,-k[0]),(-k[1],k[0],0)))
    return np.eye(3)+np.sin(th)*K+(1-np.cos(th))*K.dot(K)
def Rt_from_rt(rt): return np.concatenate((R_from_r(rt[:3]),rt[3:].reshape(1,3)))
def inv_Rt(Rt):     return np.concatenate((Rt[:3].T,-Rt[:3].T.dot(Rt[3]).reshape(1,3)))
def as_Rt(view,x):
    '''Rt_cam_ref for this argument'''
    x  = np.asarray(x,dtype=float)
    v  = CANON.get(view,view)
    Rt = Rt_from_rt(x) if v.startswith('rt') else x
    return Rt if v.endswith('cam_ref') else inv_Rt(Rt)

class Ref:
    '''The documented semantics, in its simplest form'''
    def __init__(self): pass
    def copy(self):
        r = Ref(); r.__dict__.update(self.__dict__); return r
    def observe(self):
        return dict(lensmodel=self.lensmodel,intrinsics=self.intrinsics,imagersize=self.imagersize,
                    rt_cam_ref=self.rt,region=self.region,icam=self.icam,opt=self.opt)
    def set_intrinsics(self,lm,i,imagersize,opt,icam):
        self.lensmodel,self.intrinsics = lm,np.array(i,dtype=float)
        if imagersize is not None: self.imagersize = np.array([int(x) for x in imagersize])
        self.region = None
        self.opt,self.icam = opt,icam

def rand_pose(rng,view):
    r = np.array([rng.uniform(-1.5,1.5) for i in range(3)])
    if rng.random()<.1: r *= 0
    t = np.array([rng.uniform(-20,20) for i in range(3)])
    rt= np.concatenate((r,t))
    return rt if CANON.get(view,view).startswith('rt') else Rt_from_rt(rt)

class C07(core.Property):
    id    = 'C07'
    level = 'exploration'
    rule  = ('One case: a history of 4..25 operations over up to 4 camera models: construction (discrete, from a solve, from '
             'files, open files, other models), getters, setters with valid and invalid arguments, resets, string conversion, '
             'writes and reads, with system-call faults; arrays passed in or handed out earlier are overwritten at seeded points. '
             'After every operation every model is compared to a reference model. Non-trivial: at least 3 operations succeeded.')
    runs  = dict(quick=6000,thorough=300000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['mrcal.cameramodel','libmrcal pose functions','kernel file system (tmpfs)']
    stub  = ['results of faulted system calls']
    assumptions = ['finite numbers']

    def prepare(self,tier):
        import mrcal
        self.problems = [p for p in models.default_problems()]
        self.canon    = []
        for p,icam in self.problems:
            m = mrcal.cameramodel(optimization_inputs=models.copy_kw(p),icam_intrinsics=icam)
            self.canon.append(m.optimization_inputs())

    def generate(self,rng,k,tier):
        ops = []
        def spec():
            s = models.random_model_spec(rng)
            s['rt'] = [0.]*6
            return s
        def region(W=1000,H=800):
            r = rng.random()
            if r<.15: return []
            n = rng.randrange(3,9)
            x = [[round(rng.uniform(0,W),2),round(rng.uniform(0,H),2)] for i in range(n)]
            if rng.random()<.3: x.append(x[0])
            return x
        names = ('new',)*3+('newopt',)*2+('copy','copy','setint','setint','setint','setintopt','pose','pose','pose','pose',
                 'region','region','region_reset','opt_reset','opt_reset','write','write','read','read','badfile','scribble','scribble','str',
                 'bad','bad','bad','bad','get')
        for i in range(rng.choice((4,8,12,25))):
            op = rng.choice(names) if i else rng.choice(('new','newopt'))
            o  = dict(op=op,m=rng.randrange(4),n=rng.randrange(4),r=rng.randrange(1<<20))
            if op in ('new','setint'):
                o['spec'] = spec(); o['view'] = rng.choice(VIEWS+(None,))
                o['noimager'] = op=='setint' and rng.random()<.4
                o['aslist']   = rng.random()<.3
                if op=='new' and rng.random()<.3: o['region'] = region()
            if op in ('newopt','setintopt'):
                o['p'] = rng.randrange(4); o['explicit'] = rng.random()<.4
            if op=='pose':   o['view'] = rng.choice(VIEWS)
            if op=='region': o['region'] = region()
            if op in ('write','read'): o['f'] = rng.randrange(3); o['via'] = rng.choice(('path','file','stringio'))
            if op=='bad': o['bad'] = rng.randrange(26)
            ops.append(o)
        f = faults.gen(rng,kinds=('err','short','do_then_err'),nmax=4) if rng.random()<.4 else []
        return dict(ops=ops,faults=f)

    def _history(self,S,plan):
        import mrcal
        warnings.simplefilter('ignore')
        M = []      # [model, Ref]
        held = []   # (array handed out or passed in, its contents, what) : not to change by itself
        files = {}
        log  = []
        okn  = 0
        def fail(cls,msg): return dict(v=(cls,msg),log=log,okn=okn)
        def keep(x,what):
            if isinstance(x,np.ndarray): held.append([x,x.copy(),what])
            elif isinstance(x,dict):
                for k,v in x.items(): keep(v,f'{what}[{k}]')
            elif isinstance(x,(tuple,list)):
                for v in x: keep(v,what)
            return x
        for io_,o in enumerate(plan['ops']):
            op  = o['op']
            rng = core.rng_for('op',o['r'])
            i   = o['m']%len(M) if M else None
            j   = o['n']%len(M) if M else None
            if i is None and op not in ('new','newopt'): continue
            m,ref = M[i] if i is not None else (None,None)
            new   = None            # model made by this op
            nref  = ref.copy() if ref else None     # expected state afterwards if it succeeds
            must  = True            # must succeed
            posearg = None
            fd0 = S.live_fds
            fired0 = sum(S.fired)
            # references: what the call is
            try:
                exc = None
                if op=='new':
                    s = o['spec']; nref = Ref(); nref.region=None
                    i_ = keep(np.array(s['intrinsics'],dtype=float),'intrinsics argument')
                    nref.set_intrinsics(s['lensmodel'],i_,s['imagersize'],None,(None,None))
                    kw = dict(intrinsics=(s['lensmodel'],list(i_) if o['aslist'] else i_),
                              imagersize=keep(np.array(s['imagersize']),'imagersize argument') if not o['aslist'] else tuple(s['imagersize']))
                    nref.rt = np.zeros(6)
                    if o['view']:
                        x = keep(rand_pose(rng,o['view']),'pose argument')
                        kw[o['view']] = x
                        posearg = (o['view'],x.copy())
                    if 'region' in o:
                        rg = np.array(o['region'],dtype=float).reshape(-1,2)
                        kw['valid_intrinsics_region'] = keep(rg,'region argument')
                        nref.region = self._closed(rg)
                    new = mrcal.cameramodel(**kw)
                elif op in ('newopt','setintopt'):
                    ip = o['p']%len(self.problems)
                    p,icam = self.problems[ip]
                    p = keep(models.copy_kw(p),'optimization_inputs argument')
                    ex = icam-1
                    kw = dict(optimization_inputs=p,icam_intrinsics=icam)
                    if o['explicit']: kw['icam_extrinsics'] = ex
                    if op=='newopt':
                        nref = Ref(); nref.rt = np.array(p['rt_cam_ref'][ex]) if ex>=0 else np.zeros(6)
                        nref.set_intrinsics(p['lensmodel'],p['intrinsics'][icam],p['imagersizes'][icam],self.canon[ip],(icam,ex))
                        new = mrcal.cameramodel(**kw)
                    else:
                        nref.set_intrinsics(p['lensmodel'],p['intrinsics'][icam],p['imagersizes'][icam],self.canon[ip],(icam,ex))
                        m.intrinsics((p['lensmodel'],p['intrinsics'][icam]),imagersize=p['imagersizes'][icam],**kw)
                elif op=='copy':
                    new = mrcal.cameramodel(m)
                elif op=='setint':
                    s = o['spec']
                    i_ = keep(np.array(s['intrinsics'],dtype=float),'intrinsics argument')
                    sz = None if o['noimager'] else s['imagersize']
                    nref.set_intrinsics(s['lensmodel'],i_,sz,None,(None,None))
                    kw = {} if sz is None else dict(imagersize=sz)
                    m.intrinsics((s['lensmodel'],i_),**kw)
                elif op=='pose':
                    x = keep(rand_pose(rng,o['view']),'pose argument')
                    posearg = (o['view'],x.copy())
                    getattr(m,o['view'])(x)
                elif op=='region':
                    rg = keep(np.array(o['region'],dtype=float).reshape(-1,2),'region argument')
                    nref.region = self._closed(rg)
                    m.valid_intrinsics_region(rg)
                elif op=='region_reset':
                    nref.region = None; m.valid_intrinsics_region_reset()
                elif op=='opt_reset':
                    nref.opt = None; nref.icam = (None,None); m.optimization_inputs_reset()
                elif op=='str':
                    str(m); repr(m)
                elif op=='get':
                    for v in VIEWS: keep(getattr(m,v)(),v+'() result')
                    keep(m.intrinsics(),'intrinsics() result'); keep(m.imagersize(),'imagersize() result')
                    keep(m.valid_intrinsics_region(),'valid_intrinsics_region() result')
                    keep(m.optimization_inputs(),'optimization_inputs() result')
                elif op=='scribble':
                    # the caller overwrites arrays it owns
                    rng.shuffle(held)
                    n = rng.randrange(len(held)+1)
                    for h in held[:n]:
                        if h[0].flags.writeable and h[0].size: h[0][...] = h[0].dtype.type(77)
                    del held[:n]
                elif op=='write':
                    name = f"f{o['f']}.cameramodel"
                    must = False
                    files[name] = None
                    if o['via']=='path': m.write(name)
                    elif o['via']=='file':
                        with open(name,'w') as f: m.write(f)
                    else:
                        b = io.StringIO(); m.write(b)
                        with open(name,'w') as f: f.write(b.getvalue())
                    files[name] = models.rounded(ref.observe())
                elif op=='read':
                    name = f"f{o['f']}.cameramodel"
                    must = False
                    if files.get(name) is None:
                        continue
                    nref = Ref(); x = files[name]
                    nref.lensmodel,nref.intrinsics,nref.imagersize,nref.rt,nref.region,nref.icam,nref.opt = \
                        (x[k] for k in ('lensmodel','intrinsics','imagersize','rt_cam_ref','region','icam','opt'))
                    if o['via']=='path': new = mrcal.cameramodel(name)
                    elif o['via']=='file':
                        with open(name) as f: new = mrcal.cameramodel(f)
                    else:
                        with open(name) as f: new = mrcal.cameramodel(io.StringIO(f.read()))
                elif op=='badfile':
                    must = None
                    t = str(m)
                    r = rng.randrange(4)
                    t = (t[:len(t)*2//3], 'garbage', t.replace("'intrinsics'","'intrinsicz'"), t.replace("'imagersize'","'imagersizz'"))[r]
                    new = mrcal.cameramodel(io.StringIO(t))
                elif op=='bad':
                    must = None
                    self._bad(m,o['bad'],rng)
            except Exception as e:
                exc = e
            fired = sum(S.fired)-fired0
            name = f"op {io_} ({op}{'' if op!='bad' else ' '+str(o['bad'])}{'' if op!='pose' else ' '+o['view']})"
            log.append((op,type(exc).__name__ if exc else 'ok',fired))
            if exc is not None:
                if must and not fired: return fail('raised',f'{name}: {type(exc).__name__}: {str(exc)[:300]}')
                if must is False and not fired: return fail('raised',f'{name}: {type(exc).__name__}: {str(exc)[:300]}')
                exc = None   # drop the references
            else:
                okn += 1
                if new is not None:
                    if op=='badfile':
                        return fail('accepted',f'{name}: made a model from a broken file')
                    if len(M)<4: M.append([new,nref]); i = len(M)-1
                    else:        M[o['n']%4] = [new,nref]; i = o['n']%4
                    ref = nref; m = new
                elif op=='bad':
                    # it was accepted. Whatever it is, it must be consistent
                    try: x = models.observe(m)
                    except Exception as e: return fail('broken',f'{name}: was accepted, and then: {type(e).__name__}: {str(e)[:200]}')
                    ref.__dict__.update(lensmodel=x['lensmodel'],intrinsics=x['intrinsics'],imagersize=x['imagersize'],
                                        rt=x['rt_cam_ref'],region=x['region'],icam=x['icam'],opt=x['opt'])
                else:
                    ref.__dict__.update(nref.__dict__)
                if posearg is not None:
                    got = np.array(m.rt_cam_ref(),dtype=float)
                    if got.shape!=(6,) or not np.allclose(Rt_from_rt(got),as_Rt(*posearg),rtol=0,atol=1e-8):
                        return fail('pose',f'{name}: set {posearg[1].tolist()}; got rt_cam_ref={got.tolist()}')
                    if CANON.get(posearg[0],posearg[0])=='rt_cam_ref' and not np.array_equal(got,posearg[1]):
                        return fail('pose',f'{name}: rt_cam_ref() does not return what was set')
                    ref.rt = got
            # all the models, all the views
            for k,(mm,rr) in enumerate(M):
                try:
                    # the optimization inputs take a while to decode
                    full = k==i or io_==len(plan['ops'])-1
                    ob = models.observe(mm,opt=full)
                    ro = rr.observe()
                    if not full: ro['opt'] = None
                    d = models.diff(ro,ob)
                    if d: return fail('state',f'after {name} model {k}: {d}')
                    A = rr.rt
                    for v in VIEWS[1:]:
                        x = getattr(mm,v)()
                        if not np.allclose(as_Rt(v,x),Rt_from_rt(A),rtol=0,atol=1e-7):
                            return fail('views',f'after {name} model {k}: {v}() disagrees with rt_cam_ref()')
                except Exception as e:
                    return fail('broken',f'after {name} model {k}: {type(e).__name__}: {str(e)[:300]}')
            for h in held:
                if not np.array_equal(h[0],h[1]): return fail('alias',f'after {name}: an earlier {h[2]} has changed')
            # the touched model can be written and read
            if M and i is not None and op not in ('str','get','scribble') and (op not in('pose','region') or io_%3==0):
                mm,rr = M[i]
                try:
                    t = str(mm)
                    back = mrcal.cameramodel(io.StringIO(t))
                    d = models.diff(models.rounded(rr.observe()),models.observe(back))
                    if d: return fail('roundtrip',f'after {name}: written and read: {d}')
                except Exception as e:
                    return fail('roundtrip',f'after {name}: cannot be written and read back: {type(e).__name__}: {str(e)[:300]}')
        return dict(v=None,log=log,okn=okn)

    def _closed(self,rg):
        if rg.size==0: return rg
        if np.linalg.norm(rg[0]-rg[-1])<1e-6: return rg.copy()
        return np.concatenate((rg,rg[:1]))

    def _bad(self,m,what,rng):
        '''A call with a bad argument'''
        import mrcal
        lm,i = m.intrinsics()
        p,icam = self.problems[rng.randrange(4)]
        I = (p['lensmodel'],p['intrinsics'][icam])
        sz= p['imagersizes'][icam]
        if   what==0:  m.intrinsics((lm,i[:-1]),imagersize=(10,20))
        elif what==1:  m.intrinsics(('LENSMODEL_NOPE',i),imagersize=(10,20))
        elif what==2:  m.intrinsics((lm,i+1),imagersize=(0,20))
        elif what==3:  m.intrinsics((lm,i+1),imagersize=(10.5,20))
        elif what==4:  m.intrinsics((lm,i+1),imagersize=(10,1<<40))
        elif what==5:  m.intrinsics((lm,['a']*len(i)),imagersize=(10,20))
        elif what==6:  m.intrinsics((lm,i+1),imagersize=(10,20),icam_intrinsics=0)
        elif what==7:  m.intrinsics(I,imagersize=sz,optimization_inputs=p)
        elif what==8:  m.intrinsics(I,imagersize=sz,optimization_inputs=p,icam_intrinsics=-1)
        elif what==9:  m.intrinsics(I,imagersize=sz,optimization_inputs=dict(p,x=lambda:0),icam_intrinsics=icam)
        elif what==10: m.intrinsics(I,imagersize=sz,optimization_inputs=p,icam_intrinsics=icam,icam_extrinsics=rng.choice((1.0,1.5,'x')))
        elif what==11: m.rt_cam_ref(np.arange(rng.choice((5,7)),dtype=float))
        elif what==12: m.rt_ref_cam(np.arange(rng.choice((5,7)),dtype=float))
        elif what==13: m.Rt_cam_ref(np.arange(rng.choice((9,16)),dtype=float).reshape(-1,3) if rng.random()<.5 else np.eye(3))
        elif what==14: m.Rt_ref_cam(np.eye(4))
        elif what==15: m.rt_cam_ref(np.zeros((2,6)))
        elif what==16: m.valid_intrinsics_region(np.array(((1.,2.),(3.,4.))))
        elif what==17: m.valid_intrinsics_region(np.ones((5,3)))
        elif what==18: m.imagersize((5,6))
        elif what==19: m.Rt_cam_ref(np.concatenate((np.eye(3),np.ones((1,3))))*np.ones((2,1,1)))
        elif what==20: m.Rt_ref_cam(np.concatenate((np.eye(3),np.ones((1,3))))*np.ones((2,1,1)))
        elif what==21: m.rt_ref_cam(np.ones((3,6)))
        elif what==22: rng.choice((m.rt_cam_ref,m.rt_ref_cam,m.Rt_cam_ref,m.Rt_ref_cam))('abcdef')
        elif what==23: m.intrinsics(I,imagersize=sz,optimization_inputs=dict(p,intrinsics=None,frames_rt_toref=np.ones((1,6))),icam_intrinsics=icam,icam_extrinsics=0)
        elif what==24: m.valid_intrinsics_region(rng.choice(('abc',np.ones((2,5,2)),[[1,2],[3,4,5]],np.array((('a','b'),)*5),3)))
        elif what==25: m.intrinsics(None,imagersize=(33,44))

    def execute(self,plan):
        stats = {}
        root = core.scratch()
        try:
            ff = []
            if plan['faults']:
                r2 = core.scratch()
                s = core.Sim(r2); st,v = s.run(self._history,plan)
                core.scratch_remove(r2)
                ff = faults.place(s.events(),plan['faults'])
            sim = core.Sim(root,faults=ff)
            st,v = sim.run(self._history,plan)
            core._merge(stats,faults.stats(sim.fired()))
            if st!='ok':
                return core.result(core.violation('died',f'{st} {v}'),stats,(st,v))
            for l in v['log']:
                key = f"probe:{l[0]} {'ok' if l[1]=='ok' else 'raised'}"
                stats[key] = stats.get(key,0)+1
            viol = core.violation(*v['v']) if v['v'] else None
            return core.result(viol,stats,(v['log'],sim.events()),nontrivial=v['okn']>=3,simtime=len(v['log']),
                               sig=(plan['ops'],v['log']))
        finally:
            core.scratch_remove(root)

    def shrink(self,plan):
        ops = plan['ops']
        n = len(ops)
        step = n//2
        while step>=1:
            for i in range(0,n,step):
                if n-step>=1: yield dict(plan,ops=ops[:i]+ops[i+step:])
            step //= 2
        for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
        for i,o in enumerate(ops):
            if 'spec' in o and o['spec']['lensmodel']!='LENSMODEL_PINHOLE':
                s = dict(o['spec'],lensmodel='LENSMODEL_PINHOLE',intrinsics=o['spec']['intrinsics'][:4])
                yield dict(plan,ops=ops[:i]+[dict(o,spec=s)]+ops[i+1:])

PROPERTY = C07()
