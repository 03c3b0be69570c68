'''C08: Ctrl-C works during a solve, and is as it was afterwards'''
import ctypes
import os
import signal
import numpy as np
from dst import core, models, pysched

LIBS = ('libmrcal.so','libdogleg.so')
MLIBS= ('libmrcal.so','_mrcal','libdogleg','libcholmod','libsuitesparse')
FUNCS= ('optimize','optimizer_callback','optimizer_callback_nojac','drt','pack_state','num_states')

_libc = ctypes.CDLL(None,use_errno=True)
class _Sigaction(ctypes.Structure):
    _fields_ = [('handler',ctypes.c_void_p),('mask',ctypes.c_uint64*16),('flags',ctypes.c_int),('restorer',ctypes.c_void_p)]
def disposition():
    s = _Sigaction()
    if _libc.sigaction(int(signal.SIGINT),None,ctypes.byref(s)): raise core.HarnessError('sigaction')
    m = (ctypes.c_uint64*16)()
    _libc.pthread_sigmask(0,None,m)
    # glibc reports garbage in the part of the mask the kernel doesn't have
    return (s.handler or 0, s.flags, s.mask[0], m[0]&(1<<(int(signal.SIGINT)-1)))

class Hits:
    def __init__(self): self.n=0
    def __call__(self,sig,frame): self.n += 1

class Arr:
    '''An array, given by python code: the interpreter runs in the middle of the argument parsing'''
    def __init__(self,a): self.a = a
    def __array__(self,dtype=None,copy=None):
        a = self.a
        for i in range(3):
            a = a
        return a if dtype is None else a.astype(dtype)

MUTATIONS = ('','','','pyarray','bothnames','unknown','badtype','badshape','noncontig','badlensmodel','index','missing','bool_raises',
             'array_raises','nolensmodel','nokw','positional','wrongimagers','nan','icam','spacing','negweight','malloc','key_not_str')

def mutate(kw,what,rng):
    kw = models.copy_kw(kw)
    args = ()
    if   what=='pyarray':
        for k in rng.sample([k for k,v in kw.items() if isinstance(v,np.ndarray)],2): kw[k] = Arr(kw[k])
    elif what=='bothnames':
        if len(kw['rt_cam_ref']) and rng.random()<.5: kw['extrinsics_rt_fromref'] = np.array(kw['rt_cam_ref'])
        else: kw['frames_rt_toref'] = np.array(kw['rt_ref_frame'])
    elif what=='unknown':    kw['mystery'] = rng.choice((1,'x',np.ones(3)))
    elif what=='badtype':    kw[rng.choice(('intrinsics','observations_board'))] = rng.choice((kw['intrinsics'].astype(np.float32),'hello',5))
    elif what=='badshape':   kw['observations_board'] = kw['observations_board'][...,:2]
    elif what=='noncontig':  kw['observations_board'] = kw['observations_board'][:,::-1]
    elif what=='badlensmodel':kw['lensmodel'] = rng.choice(('LENSMODEL_XXX','LENSMODEL_PINHOLE','LENSMODEL_CAHVORE','LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5'))
    elif what=='index':      a = kw['indices_frame_camintrinsics_camextrinsics']; a[rng.randrange(len(a)),rng.randrange(3)] = rng.choice((-7,99))
    elif what=='missing':    del kw[rng.choice(('intrinsics','lensmodel','imagersizes','indices_frame_camintrinsics_camextrinsics'))]
    elif what=='bool_raises':
        class B:
            def __bool__(self): raise ValueError('no truth')
        kw['mystery'] = B()
    elif what=='array_raises':
        class A:
            def __array__(self,*a,**k): raise ValueError('no array')
        kw['observations_board'] = A()
    elif what=='nolensmodel':kw['lensmodel'] = rng.choice((None,5))
    elif what=='nokw':       kw = {}
    elif what=='positional': args = (1,2)
    elif what=='wrongimagers':kw['imagersizes'] = kw['imagersizes'][:0]
    elif what=='nan':        kw['intrinsics'][0,0] = np.nan
    elif what=='icam':       kw['icam_intrinsics'] = rng.choice((-1,99,'x'))
    elif what=='spacing':    kw['calibration_object_spacing'] = rng.choice((0.,'x'))
    elif what=='negweight':  kw['observations_board'][...,2] = -1
    elif what=='key_not_str':kw = {**kw}; args = ()
    return args,kw

def call(fn,kw,args=()):
    import mrcal
    from mrcal import _mrcal
    # f(**{}) passes an empty dict. This passes no dict at all
    if not kw and not args and fn in ('optimize','optimizer_callback','drt','num_states'):
        return dict(optimize=mrcal.optimize,optimizer_callback=mrcal.optimizer_callback,drt=_mrcal.drt_cross_reprojection__dbpacked,num_states=mrcal.num_states)[fn]()
    if   fn=='optimize': return mrcal.optimize(*args,**kw)
    elif fn=='optimizer_callback': return mrcal.optimizer_callback(*args,**kw)
    elif fn=='optimizer_callback_nojac': return mrcal.optimizer_callback(*args,no_jacobian=True,no_factorization=True,**kw)
    elif fn=='drt':
        f = _mrcal.drt_cross_reprojection__dbpacked
        kw = dict(kw); kw.setdefault('icam_intrinsics',0)
        return f(*args,**kw)
    elif fn=='pack_state':
        b = np.zeros(mrcal.num_states(**kw)); mrcal.pack_state(b,*args,**kw); return b
    elif fn=='num_states': return mrcal.num_states(*args,**kw)
    raise core.HarnessError(fn)

class C08(core.Property):
    id    = 'C08'
    level = 'exploration'
    rule  = ('Four kinds of cases. (a) SIGINT raised at a seeded instant (the n-th call into libc/libm by libmrcal or libdogleg) during a '
             'solve or a callback, from the main or another thread. (b) A history of solver calls, with valid and invalid arguments, '
             'exceptions from python code called back during the argument parsing, and failing allocations, under a seeded initial '
             'SIGINT disposition: the raw sigaction and the signal mask are compared after each, and SIGINT is raised. (c) 2..4 python threads making such '
             'calls, switched by a seeded scheduler at python bytecodes; compared when all are done. (d) SIGINT at a seeded instant as in (a), during such overlapping calls. Non-trivial: the signal hit '
             'a running solve, or some call failed, or there were at least 2 thread switches.')
    runs  = dict(quick=8000,thorough=300000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['mrcal.optimize(), optimizer_callback() and their argument parsing','libmrcal, libdogleg, cholmod','kernel signals','CPython signal handling']
    stub  = ['the choice of the instant of the signal','the choice of the running python thread','failing malloc() in libmrcal']
    assumptions = ['(a) the disposition is python\'s default handler or SIG_DFL when the call is made']

    def prepare(self,tier):
        import mrcal, scipy.sparse
        self.problems = [models.copy_kw(p) for p,_ in models.default_problems()]
        self.problems.append(models.problem(5,'LENSMODEL_PINHOLE',Ncameras=1,Nframes=2,N=3,solve=False))
        self.problems.append(models.problem(6,'LENSMODEL_OPENCV4',Ncameras=2,Nframes=2,N=3,solve=False))
        for p in self.problems:
            for f in FUNCS: core.isolated(lambda: None)
            try: call('optimizer_callback',models.copy_kw(p))   # imports
            except Exception: pass

    def generate(self,rng,k,tier):
        kind = rng.choice(('instant','after','after','threads','threads','overlap'))
        def c(mut=None):
            m = rng.choice(MUTATIONS) if mut is None else mut
            return dict(fn=rng.choice(FUNCS[:4]*3+FUNCS[4:]),p=rng.randrange(6),mut=m,seed=rng.randrange(1<<30))
        if kind=='instant':
            x = c(rng.choice(('','pyarray')))
            x['fn'] = rng.choice(FUNCS[:4])
            return dict(kind=kind,calls=[x],u=round(rng.random(),5),disp=rng.choice(('python','python','dfl')),thread=rng.random()<.3)
        if kind=='after':
            return dict(kind=kind,calls=[c() for i in range(rng.randrange(1,7))],
                        disp=rng.choice(('python','python','ign','dfl','custom','blocked')),
                        malloc=sorted(rng.sample(range(40),rng.choice((0,0,1,2)))))
        n = rng.choice((2,2,3,4))
        if kind=='overlap':
            # SIGINT during a call, while others are in progress or have ended in other threads
            def o():
                x = c(rng.choice(('','pyarray','pyarray','array_raises')))
                x['fn'] = rng.choice(FUNCS[:4])
                return x
            return dict(kind=kind,threads=[[o() for j in range(rng.choice((1,1,2)))] for i in range(n)],u=round(rng.random(),5),
                        disp='python',seed=rng.randrange(1<<30),mean=rng.choice((1,3,10,40)))
        return dict(kind=kind,threads=[[c(rng.choice(MUTATIONS+('pyarray',)*12)) for j in range(rng.choice((1,1,2,3)))] for i in range(n)],
                    disp=rng.choice(('python','custom','ign')),seed=rng.randrange(1<<30),mean=rng.choice((1,3,10,40,150)))

    def _set(self,disp):
        h = None
        if   disp=='python': signal.signal(signal.SIGINT,signal.default_int_handler)
        elif disp=='ign':    signal.signal(signal.SIGINT,signal.SIG_IGN)
        elif disp=='dfl':    signal.signal(signal.SIGINT,signal.SIG_DFL)
        elif disp=='custom': h = Hits(); signal.signal(signal.SIGINT,h)
        elif disp=='blocked':
            signal.signal(signal.SIGINT,signal.default_int_handler)
            signal.pthread_sigmask(signal.SIG_BLOCK,[signal.SIGINT])
        return h

    def _instant(self,S,plan,dry):
        import threading, time
        self._set(plan['disp'])
        c = plan['calls'][0]
        args,kw = mutate(self.problems[c['p']],c['mut'],core.rng_for('mut',c['seed']))
        out = []
        def go():
            S.tick_armed = 1
            try: call(c['fn'],kw,args); out.append('ok')
            except Exception as e: out.append(type(e).__name__)
            finally: S.tick_armed = 0
        if plan['thread']:
            t = threading.Thread(target=go); t.start(); t.join()
        else: go()
        return S.ticks,out

    def _works(self,plan,h,disp):
        '''Raise SIGINT: does it do what the application asked for?'''
        if disp=='python':
            try:
                os.kill(os.getpid(),signal.SIGINT)
                for i in range(100): pass
                return False
            except KeyboardInterrupt: return True
        if disp=='custom':
            n = h.n; os.kill(os.getpid(),signal.SIGINT)
            for i in range(100): pass
            return h.n==n+1
        if disp=='ign': os.kill(os.getpid(),signal.SIGINT)
        return True

    def _after(self,S,plan):
        h  = self._set(plan['disp'])
        d0 = disposition()
        log = []
        for i,c in enumerate(plan['calls']):
            args,kw = mutate(self.problems[c['p']],c['mut'],core.rng_for('mut',c['seed']))
            if plan['malloc']: S.malloc_count = 0; S.malloc_armed = 1
            try:
                call(c['fn'],kw,args); r = 'ok'
            except Exception as e: r = type(e).__name__
            S.malloc_armed = 0
            d = disposition()
            log.append((c['fn'],c['mut'],r))
            if d!=d0: return dict(log=log,v=('disposition',f"after {c['fn']}() with {c['mut'] or 'good arguments'} ({r}): SIGINT disposition was {d0}, now {d}"))
            if not self._works(plan,h,plan['disp']):
                return dict(log=log,v=('behaviour',f"after {c['fn']}() with {c['mut'] or 'good arguments'} ({r}): SIGINT does not do what the application set up"))
        return dict(log=log,v=None)

    def _threads(self,S,plan):
        h  = self._set(plan['disp'])
        d0 = disposition()
        sch = pysched.Scheduler(core.rng_for('sched',plan['seed']),mean=plan['mean'])
        log = []
        S.tick_armed = int(plan['kind']=='overlap')
        def body(i,calls):
            for c in calls:
                args,kw = mutate(self.problems[c['p']],c['mut'],core.rng_for('mut',c['seed']))
                try: call(c['fn'],kw,args); r='ok'
                except Exception as e: r = type(e).__name__
                log.append((i,c['fn'],c['mut'],r))
        out = sch.run([lambda i=i,t=t: body(i,t) for i,t in enumerate(plan['threads'])])
        S.tick_armed = 0
        if plan['kind']=='overlap': return S.ticks,sch.switches,log
        if sch.stuck: return dict(log=log,v=('stuck','the threads wait for each other'),sw=sch.switches)
        for o in out:
            if o[0]!='ok': raise core.HarnessError(repr(o))
        d = disposition()
        v = None
        if d!=d0: v = ('disposition',f"after concurrent calls {log}: SIGINT disposition was {d0}, now {d}")
        elif not self._works(plan,h,plan['disp']): v = ('behaviour',f"after concurrent calls {log}: SIGINT does not do what the application set up")
        return dict(log=log,v=v,sw=sch.switches,tr=sch.trace_log,ev=sch.events)

    def execute(self,plan):
        stats = {}
        root = core.scratch()
        try:
            if plan['kind']=='instant':
                kw = dict(arm=False,tick_libs=LIBS)
                st,v = core.Sim(root,**kw).run(self._instant,plan,True)
                if st=='signal': return core.result(core.violation('died',f'{plan["calls"]}: {st} {v}'),stats)
                if st!='ok': raise core.HarnessError(f'{plan}: {st} {v}')
                T,out = v
                if T==0: return core.result(None,stats,(st,out),nontrivial=False)
                k = min(int(plan['u']*T),T-1)
                sim = core.Sim(root,tick_sigint=k,**kw)
                st,v = sim.run(self._instant,plan,False)
                after = sim.S.ticks-1-k
                stats['fault:sigint'] = 1
                stats['probe:instant in '+plan['calls'][0]['fn']] = 1
                log = (k,T,st,after)
                if st=='exc' and v[0]=='KeyboardInterrupt' and after < max(2000,T//50): viol=None
                elif st=='signal' and v==2: viol=None
                else: viol = core.violation('ignored',f"SIGINT at tick {k}/{T} of {plan['calls'][0]['fn']}(): the process did not terminate promptly: {st} {v if st!='exc' else v[0]}; {after} more ticks")
                return core.result(viol,stats,log,nontrivial=True,simtime=T,sig=(plan['calls'],k))
            if plan['kind']=='overlap':
                kw = dict(arm=False,tick_libs=LIBS)
                st,v = core.Sim(root,**kw).run(self._threads,plan)
                if st!='ok': return core.result(core.violation('died',f'{plan["threads"]}: {st} {v}'),stats)
                T,sw,log = v
                if T==0: return core.result(None,stats,(st,log),nontrivial=False)
                k = min(int(plan['u']*T),T-1)
                sim = core.Sim(root,tick_sigint=k,**kw)
                st,v = sim.run(self._threads,plan)
                stats['fault:sigint'] = 1
                stats['probe:instant in overlapping calls'] = int(sw>=2)
                viol = None
                if not (st=='signal' and v==2):
                    viol = core.violation('ignored',f'SIGINT at tick {k}/{T} of overlapping calls {plan["threads"]}: the process did not terminate promptly')
                return core.result(viol,stats,(k,T,sw,log,st=='signal'),nontrivial=True,simtime=T,sig=(plan['threads'],k))
            sim = core.Sim(root,arm=False,malloc_fail=plan.get('malloc',()),malloc_libs=MLIBS)
            st,v = sim.run(self._after if plan['kind']=='after' else self._threads,plan)
            core._merge(stats,{'fault:'+k:n for k,n in sim.fired().items()})
            if st!='ok':
                if plan['kind']=='after' and plan.get('malloc') and (st=='exit' or (st=='signal' and v!=2)):
                    # killed by a failing allocation. Not this property
                    stats['probe:died without memory'] = 1
                    return core.result(None,stats,(st,v),nontrivial=False)
                if st=='signal' and v==2: return core.result(core.violation('disposition',f'the process was killed by SIGINT after a solver call: {plan}'),stats,(st,v))
                return core.result(core.violation('died',f'{st} {v}'),stats,(st,v))
            for l in v['log']:
                key = f"probe:{l[-3]} {'ok' if l[-1]=='ok' else 'raised'}"
                stats[key] = stats.get(key,0)+1
            nt = any(l[-1]!='ok' for l in v['log']) or v.get('sw',0)>=2
            if 'sw' in v: stats['counter:thread switches'] = v['sw']
            return core.result(core.violation(*v['v']) if v['v'] else None,stats,v,nontrivial=nt,simtime=v.get('ev',len(v['log'])))
        finally:
            core.scratch_remove(root)

    def shrink(self,plan):
        if 'threads' in plan:
            T = plan['threads']
            for i in range(len(T)):
                if len(T)>2: yield dict(plan,threads=T[:i]+T[i+1:])
                for j in range(len(T[i])):
                    if len(T[i])>1: yield dict(plan,threads=T[:i]+[T[i][:j]+T[i][j+1:]]+T[i+1:])
        elif plan['kind']=='after':
            C = plan['calls']
            for i in range(len(C)):
                if len(C)>1: yield dict(plan,calls=C[:i]+C[i+1:])
            if plan['malloc']: yield dict(plan,malloc=[])
            if plan['disp']!='python': yield dict(plan,disp='python')
        elif plan['thread']: yield dict(plan,thread=False)

PROPERTY = C08()
