'''C09: the C library can be called from several threads at once'''
import ctypes
import json
import os
import shutil
from dst import core, build

class Op(ctypes.Structure):
    _fields_ = [('type',ctypes.c_int32),('ishared',ctypes.c_int32),('seed',ctypes.c_uint64),('path',ctypes.c_char*160)]
class Res(ctypes.Structure):
    _fields_ = [('hash',ctypes.c_uint64),('rc',ctypes.c_int64),('n',ctypes.c_int64),('v',ctypes.c_double*5)]

SLOW = dict(optimize=1.,rectification_maps=.1,color_map=.1,drt=.05,optimizer_callback=.05,project_behind=.1)

def load(path):
    lib = ctypes.CDLL(path)
    lib.ts_shared.restype       = ctypes.c_void_p
    lib.ts_shared.argtypes      = [ctypes.c_uint64,ctypes.c_char_p]
    lib.ts_shared_hash.restype  = ctypes.c_uint64
    lib.ts_shared_hash.argtypes = [ctypes.c_void_p]
    lib.ts_opname.restype       = ctypes.c_char_p
    lib.ts_serial.argtypes      = [ctypes.c_int,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_void_p]
    lib.ts_run.argtypes         = [ctypes.c_int,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_void_p,ctypes.c_void_p,
                                   ctypes.c_uint64,ctypes.c_double,ctypes.c_double,ctypes.c_void_p]
    return lib

class C09(core.Property):
    id    = 'C09'
    level = 'exploration'
    rule  = ('2..4 simulated threads each make a few calls into libmrcal, with their own outputs and shared read-only inputs; most cases have the '
             'same function running in several threads. The library is compiled with its memory accesses instrumented, and a seeded scheduler '
             'passes the processor from one thread to another at those accesses: at random, and with a higher probability at any access to '
             'the library\'s static data or call to another library. Each result is compared, bit by bit, with that of the same call made with nothing '
             'else running. Non-trivial: there were at least 2 switches while calls were in progress.')
    runs  = dict(quick=8000,thorough=400000)
    wall  = dict(quick=70.,thorough=1500.)
    real  = ['all of libmrcal\'s C and C++ sources, instrumented (gcc -fsanitize=thread)','libdogleg, cholmod, libpng, stb, libc (atomic with respect to the scheduler)']
    stub  = ['the choice of the running thread','the thread sanitizer run-time library']
    assumptions = ['switches happen only in libmrcal\'s code, at accesses outside the running thread\'s stack and at function entry and exit, and before the calls it makes to other libraries (other than libm and malloc); sequential consistency']

    def prepare(self,tier):
        # The shared inputs are made by another copy of the library, so that
        # everything the library does the first time it's called is seen by the threads
        path       = build.threads_lib(build.tree()[1])
        self.dir   = core.scratch()
        shutil.copy(path,f'{self.dir}/setup.so')
        self.lib   = load(path)
        setup      = load(f'{self.dir}/setup.so')
        self.shared= []
        for i in range(4):
            os.makedirs(f'{self.dir}/s{i}')
            self.shared.append(setup.ts_shared(1000+i,f'{self.dir}/s{i}'.encode()))
            if not self.shared[-1]: raise core.HarnessError('ts_shared')
        self.hash  = setup.ts_shared_hash
        self.names = [self.lib.ts_opname(i).decode() for i in range(self.lib.ts_nops())]

    def generate(self,rng,k,tier):
        n    = rng.choice((2,2,2,3,3,4))
        common = rng.choice((None,None,rng.randrange(1000)))   # the same shared inputs for all?
        def op(name):
            i = rng.randrange(1000) if common is None else common
            if name=='optimize' and common is None: i = rng.choice((0,1,1,1,4,4,4)+((2,3) if rng.random()<.2 else ()))
            return [name,i,rng.getrandbits(48)]
        def name():
            while True:
                x = rng.choice(self.names)
                if rng.random() < SLOW.get(x,1.) + .15: return x
        kind = rng.random()
        if   kind < .35: pool = [name()]
        elif kind < .75: pool = [name() for i in range(rng.choice((2,3)))]
        else:            pool = [name() for i in range(12)]
        threads = [[op(rng.choice(pool)) for j in range(rng.randrange(1,7))] for i in range(n)]
        if rng.random() < .25:
            # the very same calls
            threads = [list(threads[0]) for i in range(n)]
        # few solves: they are long
        for t in threads:
            ss = [j for j,o in enumerate(t) if o[0]=='optimize']
            for j in ss[1:]: t[j] = op('optimizer_callback')
        return dict(threads=threads,seed=rng.getrandbits(48),mean=rng.choice((2.,10.,40.,200.,2000.)),
                    pstatic=rng.choice((0.,.05,.3,1.)),shared=rng.randrange(4))

    def _ops(self,threads,d):
        flat = [o for t in threads for o in t]
        a = (Op*max(1,len(flat)))()
        i = 0
        for it,t in enumerate(threads):
            for j,o in enumerate(t):
                a[i] = Op(self.names.index(o[0]),o[1],o[2],f'{d}/t{it}_{j}'.encode())
                i += 1
        return a,len(flat)

    def _go(self,S,plan,d,threaded):
        fd = os.open('/dev/null',os.O_WRONLY); os.dup2(fd,2); os.dup2(fd,1); os.close(fd)
        L  = self.lib
        # only one thread ever runs: handing over is much cheaper on one cpu
        c = sorted(os.sched_getaffinity(0)); os.sched_setaffinity(0,{c[os.getpid()%len(c)]})
        sh = self.shared[plan['shared']]
        h0 = self.hash(sh)
        a,n = self._ops(plan['threads'],d)
        res = (Res*max(1,n))()
        stats = (ctypes.c_int64*6)()
        if threaded:
            nops = (ctypes.c_int*8)(*[len(t) for t in plan['threads']])
            r = L.ts_run(len(plan['threads']),nops,a,res,sh,plan['seed'],plan['mean'],plan['pstatic'],stats)
            if r: raise core.HarnessError(f'ts_run: {r}')
        else:
            L.ts_serial(n,a,res,sh)
        return [[f'{x.hash:x}',x.rc,x.n,[v.hex() for v in x.v]] for x in res[:n]], list(stats), self.hash(sh)==h0

    def execute(self,plan):
        d = core.scratch()
        try:
            out = []
            for threaded in (False,True):
                sim = core.Sim(d,arm=False,timeout=90.)
                out.append(sim.run(lambda S: self._go(S,plan,d,threaded)))
        finally:
            core.scratch_remove(d)
        (o0,e0),(o1,e1) = out
        stats = {f'op {o[0]}':0 for t in plan['threads'] for o in t}
        for t in plan['threads']:
            for o in t: stats[f'op {o[0]}'] += 1
        if o0 != 'ok': raise core.HarnessError(f'reference: {o0} {e0}')
        ref,_,ok0 = e0
        flat = [(i,j,o) for i,t in enumerate(plan['threads']) for j,o in enumerate(t)]
        v = None
        if not ok0:
            v = core.violation('shared-input-written','a shared, read-only input was modified by a call',key='serial')
        if o1 != 'ok':
            v = core.violation('thread-crash',f'with {len(plan["threads"])} threads: {o1} {e1}; each of these calls works on its own: {plan["threads"]}',
                               key='+'.join(sorted({o[0] for _,_,o in flat})))
            return core.result(v,stats,log=core.digest(f'{o1} {e1}'),nontrivial=True,sig=f'{o1} {e1}')
        res,st,ok1 = e1
        stats['memory accesses seen'] = st[0]
        stats['thread switches']      = st[1]
        stats['accesses to static data'] = st[2]
        stats['calls to other libraries'] = st[5]
        if v is None and not ok1:
            v = core.violation('shared-input-written','a shared, read-only input was modified',key='threaded')
        if v is None and st[4]:
            v = core.violation('deadlock','the threads wait for each other forever',key='+'.join(sorted({o[0] for _,_,o in flat})))
        if v is None:
            for (i,j,o),a,b in zip(flat,ref,res):
                if a != b:
                    v = core.violation('thread-interference',f'thread {i}, call {j}: {o[0]}({o[1:]}) produced {b}; by itself it produces {a}',key=o[0])
                    break
        return core.result(v,stats,log=core.digest(json.dumps([res,st])),nontrivial=st[1]>=2,sig=f'{st[3]&0xffffffffffffffff:x}')

    def shrink(self,plan):
        T = plan['threads']
        for i in range(len(T)):
            if len(T) > 2: yield dict(plan,threads=T[:i]+T[i+1:])
        for i in range(len(T)):
            for j in range(len(T[i])):
                if len(T[i]) > 1: yield dict(plan,threads=T[:i]+[T[i][:j]+T[i][j+1:]]+T[i+1:])
        if plan['pstatic'] and plan['mean']<1e9: yield dict(plan,mean=1e12)
        for s in range(8): yield dict(plan,seed=s)

PROPERTY = C09()
