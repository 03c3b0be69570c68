'''C10: the results of the Python API depend only on the arguments'''
import contextlib
import io
import os
import pickle
import random
import re
import signal
import warnings
import numpy as np
from dst import core, models, pysched

MLIBS = ('libmrcal.so','_mrcal','_poseutils','_triangulation','_multiarray_umath')
SLOW  = dict(optimize=.5,propagate=.6,implied_missing=.6,tracks=.5,uncertainty=.4,show_projection_uncertainty=.3,triangulate_uncertainty=.3,projection_diff=.4,implied=.5,
             show_projection_diff=.3,show_geometry=.5,show_projection_uncertainty_vs_distance=.3,private_calibration=.3)
NOTHREADS = ()
NOSALT    = ('optimize','optimizer_callback','callback_models','callback_triangulated','traverse','synthesize','procrustes','tracks')
# these find what is wrong by themselves: the more variants the better
SELF      = ('outs','outs','outs','pose_inplace')
SALTTIME  = 8.
NOMALLOC  = ('optimize',)
LAYOUT_ERROR = re.compile('contiguous|stride|OpenCV|Layout of the output array')

def parts(x,out=None,depth=0):
    '''The arrays in a result'''
    if out is None: out=[]
    if isinstance(x,np.ndarray): out.append(x)
    elif isinstance(x,(list,tuple)) and depth<4:
        for v in x: parts(v,out,depth+1)
    elif isinstance(x,dict) and depth<4:
        for v in x.values(): parts(v,out,depth+1)
    return out

class C10(core.Property):
    id    = 'C10'
    level = 'exploration'
    rule  = ('A catalogue of calls covering the Python API (projections, poses, triangulation, stereo, images, layout, solver, factorizations, '
             'uncertainty, residuals, seeds, plots, models), with a few variants of each that differ slightly. (a) histories of these calls, '
             'some of them failing, some with failing allocations, sharing models and optimization inputs; the results may be overwritten by '
             'the caller, and objects come and go. Some of the calls are made twice: with strided, transposed, overlapping arrays and with contiguous copies of those, or with and without output arrays full of garbage. Some get a few strange values (nan, inf, ...). Uninitialized memory has other contents in each call. (b) 2..4 python threads making such calls, switched by a seeded scheduler at python bytecodes. '
             'Every result is compared with that of the same call in a fresh process, bit by bit; arguments and earlier '
             'results must be untouched. Non-trivial: at least 3 calls in the history, or at least 2 thread switches.')
    runs  = dict(quick=5000,thorough=300000)
    wall  = dict(quick=75.,thorough=1800.)
    real  = ['the mrcal python package and its C extensions','libmrcal','numpy, scipy, cv2, cholmod']
    stub  = ['the choice of the running python thread','the global numpy random generator: seeded for each call','failing malloc() in libmrcal and the extension modules','the contents of uninitialized memory','plotting (only the plot data is made)']
    assumptions = ['the plotting functions skip optional parts of a plot that fail: no allocations fail in those',
                   'the last few bits of a result may depend on memory alignment, in the vectorized loops of the libraries: differences of <1e-9 are rounding',
                   'python threads are switched at bytecodes of python code; a C call is atomic, as the GIL makes it',
                   'a function that does not support a memory layout may say so with an error',
                   'a result that is allowed to be a view of an argument is only overwritten together with it']

    def prepare(self,tier):
        from dst import api
        import cv2, scipy.optimize, scipy.sparse, gnuplotlib, shapely.geometry
        import mrcal.calibration, mrcal.cahvor
        cv2.setNumThreads(0)
        # python's base64 sets up its tables when first used, and that isn't
        # thread-safe. It isn't mrcal's
        import base64; base64.b85decode(base64.b85encode(b'abc'))
        self.api = api
        def mk():
            p = [models.copy_kw(p) for p,_ in models.default_problems()]
            p.append(models.problem(5,'LENSMODEL_PINHOLE',Ncameras=1,Nframes=2,N=3,solve=False))
            p.append(models.problem(6,'LENSMODEL_OPENCV4',Ncameras=2,Nframes=2,N=3,solve=False))
            return p
        self.problems = core.isolated(mk)
        self.nvar     = api.NVARIANTS*(1 if tier=='quick' else 4)
        self.refs     = {}
        self.dir      = core.scratch()
        self.names    = sorted(api.OPS)
        self.all_refs()

    def all_refs(self):
        '''All the references, made in parallel. Those that fail are left for ref()'''
        keys = [(n,v) for v in range(min(self.nvar,12)) for n in self.names]
        pids = []
        N    = 8
        for i in range(N):
            pid = os.fork()
            if pid==0:
                try:
                    for k in keys[i::N]: self.ref(*k)
                    with open(f'{self.dir}/refs{i}','wb') as f: pickle.dump(self.refs,f)
                finally: os._exit(0)
            pids.append(pid)
        for p in pids: os.waitpid(p,0)
        for i in range(N):
            try:
                with open(f'{self.dir}/refs{i}','rb') as f: self.refs.update(pickle.load(f))
            except OSError: pass

    def ref(self,name,variant):
        '''What a fresh process makes of it'''
        k = (name,variant)
        if k not in self.refs:
            d = core.scratch()
            try:
                sim = core.Sim(d,arm=False,timeout=100.)
                st,v = sim.run(self._ref,name,variant,d)
            finally: core.scratch_remove(d)
            if st!='ok': raise core.HarnessError(f'reference {k}: {st} {v}')
            self.refs[k] = v
        return self.refs[k]

    def _ref(self,S,name,variant,d,full=False):
        A = self.api
        A.randomness()
        W = A.World(self.problems,d)
        c = A.build(name,variant,W)
        s = A.snapshot(c)
        models.FULL.on = full
        v,o = A.call(c,W)
        if full: return o
        return core.digest(repr(o)),o[0],repr(o)[:600],s==A.snapshot(c)

    def close(self,*v):
        models.FULL.on = True
        try:     return models.close(*[self.api.canon(x) for x in v])
        finally: models.FULL.on = False

    def rounding(self,n,var,plan,where):
        '''A result isn't quite what a fresh process makes. Is this just rounding? The libraries' vectorized loops depend on alignments'''
        def again(f,*a):
            d = core.scratch()
            try:
                sim = core.Sim(d,arm=False,timeout=120.,**({} if f!=self._history else dict(malloc_fail=(0,),malloc_libs=MLIBS)))
                return sim.run(f,*a[:-1],d,a[-1])
            finally: core.scratch_remove(d)
        a = again(self._ref,n,var,True)
        b = again(self._history if plan['kind']=='history' else self._threads,plan,where)
        return a[0]=='ok' and b[0]=='ok' and models.close(a[1],b[1])

    def generate(self,rng,k,tier):
        nvar = self.nvar
        def name(threads=False):
            while True:
                n = rng.choice(SELF if rng.random()<.06 else self.names)
                if threads and n in NOTHREADS: continue
                if rng.random() < SLOW.get(n,1.): return n
        if rng.random() < .3:
            n    = rng.choice((2,2,3,4))
            pool = [name(True) for i in range(rng.choice((1,1,2,4)))]
            return dict(kind='threads',threads=[[[rng.choice(pool),rng.randrange(nvar)] for j in range(rng.randrange(1,5))] for i in range(n)],
                        seed=rng.getrandbits(40),mean=rng.choice((1,3,10,40,150)))
        r    = rng.random()
        pool = None if r<.3 else [name() for i in range(rng.choice((1,2,3,5)))]
        steps = []
        for i in range(rng.randrange(3,25)):
            n = rng.choice(pool) if pool and rng.random()<.9 else name()
            s = dict(op=n,var=rng.randrange(nvar if rng.random()<.5 else 3))
            if n in SELF or rng.random()<.25:
                # one of many variants that have no reference: called twice
                s.update(var=nvar+rng.randrange(100000),twice=True)
            if rng.random()<.12 and n not in NOMALLOC and not n.startswith('show_'): s['malloc'] = int(2**rng.uniform(0,9))-1
            if rng.random()<.15: s['drop']     = rng.getrandbits(16)
            if rng.random()<.25: s['scribble'] = True
            if rng.random()<.1:  s['twice']    = True
            if rng.random()<.25: s = dict(op=n,var=rng.randrange(100000),lay=rng.getrandbits(32))
            elif rng.random()<.15 and n not in NOSALT: s = dict(op=n,var=rng.randrange(100000),salt=rng.getrandbits(32))
            steps.append(s)
        return dict(kind='history',steps=steps)

    def _layouts(self,c,s,W):
        '''The same call with strided and overlapping arrays, and with contiguous copies of those'''
        A = self.api
        a,b,kinds = A.relayout(c,random.Random(s['lay']))
        if not kinds: return None,None
        if s['op']=='match_feature' and 'slide' in kinds: return None,None   # overlapping rows: cv2 can't
        sa,sb = A.snapshot(a),A.snapshot(b)
        va,oa = A.call(a,W)
        vb,ob = A.call(b,W)
        o     = (oa[0],core.digest(repr(ob)))
        what  = f'with {kinds} arrays'
        if sa!=A.snapshot(a) or sb!=A.snapshot(b): return o,f'{what}: arguments were modified'
        if oa[0]=='exc':
            if oa==ob or LAYOUT_ERROR.search(oa[2]): return o,None
            if ob[0]=='exc' and oa[1]==ob[1]: return o,None
            return o,f'{what}: {oa}; with contiguous copies: {repr(ob)[:300]}'
        if ob[0]=='exc':
            # mixed types are found only if some arrays are contiguous
            return o,None if 'set of input and output types' in ob[2] else f'{what}: {repr(oa)[:300]}; with contiguous copies: {ob}'
        m = lambda c: [x for k,x in [*enumerate(c.args),*c.kw.items()] if k in c.modified]
        if oa==ob: return o,None
        models.FULL.on = True
        try: same = models.close(A.canon([va,m(a)]),A.canon([vb,m(b)]),1e-6)
        finally: models.FULL.on = False
        return o,None if same else f'{what}: {repr(oa)[:400]}; with contiguous copies: {repr(ob)[:400]}'

    def _salted(self,c,s,W):
        '''A call with non-finite and extreme values here and there'''
        A = self.api
        c,n = A.salt(c,random.Random(s['salt']))
        if not n: return None,None
        snap = A.snapshot(c)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            # libdogleg and others may never end with these. That isn't looked at
            signal.signal(signal.SIGVTALRM,signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL,SALTTIME)
            v,o = A.call(c,W)
            signal.setitimer(signal.ITIMER_VIRTUAL,0)
            if A.snapshot(c)!=snap:
                return o,('argument-modified',f'modified its arguments {[str(k) for k,x in A.snapshot(c).items() if x!=snap[k]]}')
            if c.modified: return (o[0],core.digest(repr(o))),None
            v2,o2 = A.call(c,W)
        if o2!=o and not (o[0]=='ok' and o2[0]=='ok' and self.close(v,v2)):
            return o,('history-dependence',f'a second call with the same arguments produced {repr(o2)[:500]} instead of {repr(o)[:500]}')
        return (o[0],core.digest(repr(o))),None

    def _history(self,S,plan,d,full=None):
        A = self.api
        A.randomness()
        W = A.World(self.problems,d)
        kept = []
        out  = []
        def arm(x): S.malloc_armed = x
        def check_kept(after):
            for j,name,v,o in kept:
                if A.canon(v) != o: return ('result-changed',name,f'the result of call {j}, {name}, changed later: found after call {after}')
        for i,s in enumerate(plan['steps']):
            name = s['op']
            c    = A.build(name,s['var'],W)
            if 'lay' in s:
                o,bad = self._layouts(c,s,W)
                out.append((o,'none' if o is None else 'layout '+o[0],'',False,False))
                if bad: return out,('layout',name,f'call {i}, {name} variant {s["var"]} {bad}')
                continue
            if 'salt' in s:
                o,bad = self._salted(c,s,W)
                out.append((o,'none' if o is None else 'salted '+o[0],'',False,False))
                if bad: return out,(bad[0],name,f'call {i}, {name} variant {s["var"]} with strange values: {bad[1]}')
                continue
            snap = A.snapshot(c)
            starved = False
            if 'malloc' in s:
                S.malloc_fail[0] = s['malloc']; S.malloc_nfail = 1; S.malloc_count = 0
                n0 = sum(S.fired)
                S.tag = i
            models.FULL.on = i==full
            warned = False
            if 'malloc' in s:
                with warnings.catch_warnings(record=True) as ww, contextlib.redirect_stderr(io.StringIO()) as err:
                    warnings.simplefilter('always')
                    v,o = A.call(c,W,arm)
                # a warning reports a failure too: some optional things are then skipped
                warned = any(not issubclass(w.category,(DeprecationWarning,FutureWarning,RuntimeWarning)) for w in ww) or 'WARNING' in err.getvalue()
            else: v,o = A.call(c,W)
            if o[0]=='exc' and o[1]=='WrongResult': return out,('wrong-result',name,f'call {i}, {name} variant {s["var"]}: {o[2]}')
            if i==full: return o
            if 'malloc' in s: starved = sum(S.fired)>n0
            out.append((core.digest(repr(o)),o[0],repr(o)[:600],starved,starved and warned))
            if A.snapshot(c) != snap:
                w = [str(k) for k,x in A.snapshot(c).items() if x!=snap[k]]
                if not (starved and o[0]=='exc' and c.modified):
                    return out,('argument-modified',name,f'call {i}, {name} variant {s["var"]}: modified its arguments {w}')
            if s.get('twice') and not starved and not c.modified:
                v2,o2 = A.call(c,W)
                if o2!=o and not (o[0]=='ok' and o2[0]=='ok' and self.close(v,v2)): return out,('history-dependence',name,f'call {i}, {name} variant {s["var"]}: a second call with the same arguments produced {repr(o2)[:500]} instead of {repr(o)[:500]}')
            if o[0]=='ok':
                if s.get('scribble'):
                    # the caller does something else with what it got
                    aa = parts([a for a in c.args])+parts(list(c.kw.values()))
                    for x in parts(v):
                        if x.dtype.kind in 'fiu' and x.flags.writeable and x.size and not any(np.may_share_memory(x,y) for y in aa):
                            b = x.base
                            if isinstance(b,np.ndarray) and not b.flags.writeable: continue
                            x[...] = 77
                else:
                    kept.append((i,name,v,A.canon(v)))
                    kept[:] = kept[-6:]
            if i%4==3:
                r = check_kept(i)
                if r: return out,r
            if 'drop' in s:
                rr = random.Random(s['drop'])
                for k in list(W.cache):
                    if rr.random()<.5: del W.cache[k]
                if rr.random()<.5: kept.clear()
            del c,v
        return out,check_kept('the last')

    def _threads(self,S,plan,d,full=None):
        A = self.api
        A.randomness()
        W = A.World(self.problems,d)
        for t in plan['threads']:
            for n,v in t:
                if random.Random(f'{n}{v}').random()<.5: A.build(n,v,W)     # shared objects; others are made in the threads
        sch = pysched.Scheduler(core.rng_for('sched',plan['seed']),mean=plan['mean'])
        wanted = []
        def body(i,t):
            out = []
            Wi  = W
            for j,(n,v) in enumerate(t):
                # files are not to be shared
                os.makedirs(f'{d}/t{i}',exist_ok=True)
                Wi = A.World(self.problems,f'{d}/t{i}'); Wi.cache = W.cache
                c = A.build(n,v,Wi)
                s = A.snapshot(c)
                models.FULL.on = (i,j)==full
                x,o = A.call(c,Wi)
                models.FULL.on = False
                if (i,j)==full: wanted.append(o)
                out.append((core.digest(repr(o)),o[0],repr(o)[:600],A.snapshot(c)==s))
            return out
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = sch.run([lambda i=i,t=t: body(i,t) for i,t in enumerate(plan['threads'])])
        if sch.stuck: return 'stuck',sch.switches,None
        for o in out:
            if o[0]!='ok': raise o[1]
        if full is not None: return wanted[0]
        return [o[1] for o in out],sch.switches,(sch.trace_log,sch.events)

    def execute(self,plan):
        stats = {}
        d = core.scratch()
        try:
            if plan['kind']=='history':
                sim = core.Sim(d,arm=False,malloc_fail=(0,),malloc_libs=MLIBS,timeout=120.)
                st,v = sim.run(self._history,plan,d)
                core._merge(stats,{'fault:'+k:n for k,n in sim.fired().items()})
                if st=='signal' and v==signal.SIGVTALRM:
                    stats['probe:strange values: no answer'] = 1
                    return core.result(None,stats,(st,v),nontrivial=False)
                if st!='ok':
                    if any('malloc' in s for s in plan['steps']) and st in ('signal','exit') and sim.S.malloc_armed:
                        stats['probe:died without memory'] = 1
                        return core.result(None,stats,(st,v),nontrivial=False)
                    return core.result(core.violation('died',f'{st} {v}; in {[s["op"] for s in plan["steps"]]}',key=str(st)),stats,(st,v))
                out,viol = v
                if viol is not None: viol = core.violation(viol[0],viol[2],key=viol[1])
                for i,(s,o) in enumerate(zip(plan['steps'],out)):
                    stats['probe:'+s['op']] = stats.get('probe:'+s['op'],0)+1
                    stats['calls'] = stats.get('calls',0)+1
                    if 'lay' in s:
                        if o[0]: stats['calls with strided arrays that '+('worked' if o[1].endswith('ok') else 'raised')] = stats.get('calls with strided arrays that '+('worked' if o[1].endswith('ok') else 'raised'),0)+1
                        continue
                    if 'salt' in s:
                        if o[0]: stats['calls with strange values'] = stats.get('calls with strange values',0)+1
                        continue
                    if o[1]=='exc': stats['calls that raised'] = stats.get('calls that raised',0)+1
                    if viol is not None: continue
                    if s['var']>=self.nvar: continue
                    ref = self.ref(s['op'],s['var'])
                    if o[3] and (o[1]=='exc' or o[4]): continue
                    if o[0]!=ref[0]:
                        if self.rounding(s['op'],s['var'],plan,i):
                            stats['probe:different by rounding only'] = 1
                            out[i] = ref[:3]+o[3:]
                            continue
                        viol = core.violation('history-dependence' if not o[3] else 'wrong-when-starved',
                                              f'call {i}, {s["op"]} variant {s["var"]}: {o[2]}; in a fresh process: {ref[2]}',key=s['op'])
                return core.result(viol,stats,log=core.digest(repr(out)),nontrivial=len(out)>=3,sig=repr([(s['op'],s['var']) for s in plan['steps']]))
            sim = core.Sim(d,arm=False,timeout=120.)
            st,v = sim.run(self._threads,plan,d)
        finally:
            core.scratch_remove(d)
        if st!='ok': return core.result(core.violation('died',f'{st} {v}; in threads {plan["threads"]}',key='threads'),stats,(st,str(v)[:300]))
        out,sw,tr = v
        stats['thread switches'] = sw
        if out=='stuck': return core.result(core.violation('stuck',f'the threads wait for each other: {plan["threads"]}',key='threads'),stats,'stuck')
        viol = None
        for i,(t,oo) in enumerate(zip(plan['threads'],out)):
            for j,((n,var),o) in enumerate(zip(t,oo)):
                stats['probe:'+n] = stats.get('probe:'+n,0)+1
                stats['calls in threads'] = stats.get('calls in threads',0)+1
                ref = self.ref(n,var)
                if viol is None and not o[3]:
                    viol = core.violation('argument-modified',f'{n} variant {var}, with other threads: its arguments were modified',key=n)
                if viol is None and o[0]!=ref[0]:
                    if self.rounding(n,var,plan,(i,j)):
                        stats['probe:different by rounding only'] = 1
                        oo[j] = ref[:3]+o[3:]
                        continue
                    viol = core.violation('thread-interference',f'thread {i}: {n} variant {var}: {o[2]}; in a fresh process: {ref[2]}',key=n)
        return core.result(viol,stats,log=core.digest(repr((out,tr))),nontrivial=sw>=2,sig=repr((plan['threads'],tr)))

    def shrink(self,plan):
        if plan['kind']=='history':
            S = plan['steps']
            if len(S)>4:
                yield dict(plan,steps=S[len(S)//2:]); yield dict(plan,steps=S[:len(S)//2])
            for i in range(len(S)): yield dict(plan,steps=S[:i]+S[i+1:])
            for i,s in enumerate(S):
                for k in ('malloc','drop','scribble','twice'):
                    if k in s: yield dict(plan,steps=S[:i]+[{a:b for a,b in s.items() if a!=k}]+S[i+1:])
        else:
            T = plan['threads']
            for i in range(len(T)):
                if len(T)>2: yield dict(plan,threads=T[:i]+T[i+1:])
            for i in range(len(T)):
                for j in range(len(T[i])):
                    if len(T[i])>1: yield dict(plan,threads=T[:i]+[T[i][:j]+T[i][j+1:]]+T[i+1:])
            for s in range(6): yield dict(plan,seed=s)

PROPERTY = C10()
