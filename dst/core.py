'''The simulation driver: seeds -> plans -> runs -> violations -> replay files'''

import ctypes
import hashlib
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class HarnessError(Exception):
    pass

def rng_for(*what):
    '''The one PRNG everything in a run is drawn from'''
    return random.Random(int.from_bytes(hashlib.sha256(repr(what).encode()).digest()[:8],'little'))

def digest(x):
    if not isinstance(x,(bytes,bytearray)):
        x = repr(x).encode()
    return hashlib.sha256(x).hexdigest()[:16]

_scratch_base = None
_scratch_n    = 0
def scratch_base():
    global _scratch_base
    if _scratch_base is None:
        for d in ('/dev/shm','/tmp'):
            if os.path.isdir(d) and os.access(d,os.W_OK):
                _scratch_base = tempfile.mkdtemp(prefix='dst.',dir=d)
                break
    return _scratch_base
def scratch():
    '''A fresh, empty directory'''
    global _scratch_n
    _scratch_n += 1
    d = f'{scratch_base()}/{os.getpid()}.{_scratch_n}'
    os.mkdir(d)
    return d
def scratch_remove(d):
    if _scratch_base is not None and d.startswith(_scratch_base+'/'):
        shutil.rmtree(d,ignore_errors=True)
def scratch_cleanup():
    global _scratch_base
    if _scratch_base is not None and re.match(r'^/(dev/shm|tmp)/dst\.[^/]+$',_scratch_base):
        shutil.rmtree(_scratch_base,ignore_errors=True)
    _scratch_base = None

################ The system-call/allocator seam
KINDS = dict(err=1,short=2,crash_before=3,crash_after=4,torn_crash=5,do_then_err=6,sigint=7,quota=8,malloc=9)
KINDNAMES = {v:k for k,v in KINDS.items()}
MAXEV,MAXFAULTS,PATHLEN,MAXPATHS = 16384,64,192,512
class _Fault(ctypes.Structure):
    _fields_ = [('ev',ctypes.c_int32),('kind',ctypes.c_int32),('arg',ctypes.c_int64)]
class _Ev(ctypes.Structure):
    _fields_ = [('nr',ctypes.c_int16),('path',ctypes.c_int16),('kind',ctypes.c_int16),('pad',ctypes.c_int16),
                ('arg',ctypes.c_int64),('res',ctypes.c_int64)]
class Shared(ctypes.Structure):
    _fields_ = [('armed',ctypes.c_int32),('nfaults',ctypes.c_int32),('quota',ctypes.c_int64),
                ('root',ctypes.c_char*PATHLEN),('faults',_Fault*MAXFAULTS),
                ('nev',ctypes.c_int32),('npaths',ctypes.c_int32),('fired',ctypes.c_int32*16),
                ('live_fds',ctypes.c_int32),('live_maps',ctypes.c_int32),('bytes_written',ctypes.c_int64),
                ('ev',_Ev*MAXEV),('paths',(ctypes.c_char*PATHLEN)*MAXPATHS),
                ('malloc_armed',ctypes.c_int32),('malloc_count',ctypes.c_int32),('malloc_nfail',ctypes.c_int32),
                ('malloc_fail',ctypes.c_int32*16),('malloc_live',ctypes.c_int32),('malloc_bytes',ctypes.c_int64),
                ('cwd_in_root',ctypes.c_int32),('live_pages',ctypes.c_int32),
                ('tick_armed',ctypes.c_int32),('nofault_probes',ctypes.c_int32),('ticks',ctypes.c_int64),('tick_sigint',ctypes.c_int64)]
_L = None
def shimlib():
    global _L
    if _L is None:
        L = ctypes.CDLL(None)
        L.dst_shared.restype  = ctypes.c_void_p
        L.dst_sizeof.restype  = ctypes.c_size_t
        L.dst_track_fd.argtypes = [ctypes.c_int,ctypes.c_char_p]
        L.dst_malloc_watch.argtypes = [ctypes.c_char_p]
        L.dst_tick_watch.argtypes = [ctypes.c_char_p]
        L.dst_yield_fds.argtypes = [ctypes.c_int,ctypes.c_int]
        if L.dst_sizeof() != ctypes.sizeof(Shared):
            raise HarnessError("shim ABI mismatch")
        _L = L
    return _L

NR = {0:'read',1:'write',2:'open',3:'close',4:'stat',5:'fstat',6:'lstat',9:'mmap',11:'munmap',17:'pread',18:'pwrite',
      19:'readv',20:'writev',21:'access',32:'dup',33:'dup2',40:'sendfile',72:'fcntl',74:'fsync',75:'fdatasync',
      76:'truncate',77:'ftruncate',82:'rename',83:'mkdir',84:'rmdir',86:'link',87:'unlink',88:'symlink',90:'chmod',
      91:'fchmod',257:'open',258:'mkdir',262:'stat',263:'unlink',264:'rename',265:'link',268:'chmod',269:'access',
      275:'splice',285:'fallocate',292:'dup3',316:'rename',326:'copy_file_range',332:'statx',439:'access',85:'creat'}

OUTSIDE = 1001
def _recv(fd):
    b = b''
    n = 8
    while len(b)<n:
        try: x = os.read(fd,n-len(b))
        except OSError: return None
        if not x: return None
        b += x
        if len(b)==8: n += struct.unpack('<q',b)[0]
    return pickle.loads(b[8:])
def _send(fd,x):
    b = pickle.dumps(x)
    b = struct.pack('<q',len(b))+b
    try:
        while b: b = b[os.write(fd,b):]
    except OSError: pass
def ask_outside(req):
    '''From inside the simulation: have this done by the driver'''
    _send(OUTSIDE,req)
    x = _recv(OUTSIDE)
    if x is None: raise HarnessError('the driver is gone')
    return x

NSIM = 0
def execute(prop,plan):
    global NSIM
    NSIM = 0
    return prop.execute(plan)

class Sim:
    '''One simulated process: forked, with its system calls under the plan'''

    def __init__(self, root, faults=(), quota=-1, malloc_fail=(), malloc_libs=('libmrcal.so',), timeout=120., arm=True, tick_libs=(), tick_sigint=None, nofault_probes=False):
        self.nofault_probes = nofault_probes
        self.root        = root
        self.faults      = list(faults)   # (event index, kind, arg)
        self.quota       = -1 if quota is None else quota
        self.malloc_fail = list(malloc_fail)
        self.malloc_libs = malloc_libs
        self.timeout     = timeout
        self.arm         = arm
        self.tick_libs   = tick_libs
        self.tick_sigint = tick_sigint

    def run(self, fn, *args):
        '''Fork; run fn(S,*args) in the child

        Returns (status,value): ("ok",value), ("exc",(type,msg,traceback)),
        ("exit",code), ("signal",n), ("crash",None), ("timeout",None)

        '''
        L = shimlib()
        S = Shared.from_address(L.dst_shared())
        L.dst_reset()
        S.root  = self.root.encode()
        for i,(ev,kind,arg) in enumerate(self.faults[:MAXFAULTS]):
            S.faults[i].ev   = ev
            S.faults[i].kind = KINDS[kind]
            S.faults[i].arg  = arg
        S.nfaults = min(len(self.faults),MAXFAULTS)
        S.quota   = self.quota
        S.nofault_probes = int(self.nofault_probes)
        S.tick_sigint = -1 if self.tick_sigint is None else self.tick_sigint
        for i,m in enumerate(self.malloc_fail[:16]):
            S.malloc_fail[i] = m
        S.malloc_nfail = min(len(self.malloc_fail),16)
        self.S = S

        # what the uninitialized memory contains is different in each simulation
        global NSIM
        NSIM += 1
        sys.stdout.flush(); sys.stderr.flush()
        r,w = os.pipe()
        s0,s1 = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(r)
                w2 = 1000
                os.dup2(w,w2)
                os.close(w)
                os.dup2(s1.fileno(),OUTSIDE)
                s0.close(); s1.close()
                null = os.open('/dev/null',os.O_RDWR)
                os.dup2(null,0); os.dup2(null,1); os.dup2(null,2)
                os.close(null)
                os.chdir(self.root)
                tempfile.tempdir = self.root
                os.environ['TMPDIR'] = self.root
                tempfile._name_sequence = _DetNames()
                signal.signal(signal.SIGINT,signal.default_int_handler)
                signal.signal(signal.SIGPIPE,signal.SIG_IGN)
                L.dst_poison((NSIM*0x47+0x2b)&0xff)
                random.seed(12345)
                import numpy
                numpy.random.seed(12345)
                for lib in self.malloc_libs:
                    L.dst_malloc_watch(lib.encode())
                for lib in self.tick_libs:
                    L.dst_tick_watch(lib.encode())
                if self.arm:
                    rc = L.dst_install()
                    if rc != 0: raise HarnessError(f"dst_install() failed: {rc}")
                S.armed = 1 if self.arm else 0
                try:
                    # A SIGINT may have been raised by the last system call
                    # made: python delivers it a bit later, possibly while we
                    # are handling another exception
                    try:
                        try:
                            out = ('ok',fn(S,*args))
                            S.armed = 0
                        except BaseException as e:
                            S.armed = 0
                            out = outcome(e)
                        signal.signal(signal.SIGINT,signal.SIG_IGN)
                    except KeyboardInterrupt as e:
                        signal.signal(signal.SIGINT,signal.SIG_IGN)
                        out = outcome(e)
                finally:
                    S.armed = 0
                    S.malloc_armed = 0
                    S.tick_armed = 0
                b = pickle.dumps(out)
                b = struct.pack('<q',len(b)) + b
                while b:
                    n = os.write(w2,b)
                    b = b[n:]
                code = 0
            except BaseException:
                try:
                    b = pickle.dumps(('harness',traceback.format_exc()))
                    os.write(w2,struct.pack('<q',len(b))+b)
                except BaseException:
                    pass
            finally:
                L_exit(code)
        os.close(w); s1.close()
        buf = b''
        t1  = time.monotonic() + self.timeout
        timedout = False
        while True:
            dt = t1 - time.monotonic()
            if dt <= 0: timedout = True; break
            rr,_,_ = select.select([r,s0] if s0 is not None else [r],[],[],min(dt,5.))
            if s0 in rr:
                req = _recv(s0.fileno())
                if req is None: s0.close(); s0 = None
                else:
                    from . import simproc
                    _send(s0.fileno(),simproc.real_shell(req))
                continue
            if not rr: continue
            b = os.read(r,1<<20)
            if not b: break
            buf += b
        os.close(r)
        if s0 is not None: s0.close()
        if timedout:
            os.kill(pid,signal.SIGKILL)
        _,st = os.waitpid(pid,0)
        if timedout:
            return 'timeout',None
        if os.WIFSIGNALED(st):
            return 'signal',os.WTERMSIG(st)
        if os.WEXITSTATUS(st) == 137:
            return 'crash',None
        if len(buf) >= 8 and len(buf) == 8 + struct.unpack('<q',buf[:8])[0]:
            out = pickle.loads(buf[8:])
            if out[0] == 'harness':
                raise HarnessError(out[1])
            return out
        # the code under test called _exit() or such
        return 'exit',os.WEXITSTATUS(st)

    def events(self):
        S = self.S
        return [ (NR.get(S.ev[i].nr,str(S.ev[i].nr)),
                  S.paths[S.ev[i].path].value.decode(errors='replace'),
                  KINDNAMES.get(S.ev[i].kind,''), S.ev[i].arg, S.ev[i].res)
                 for i in range(min(S.nev,MAXEV)) ]
    def fired(self):
        return { KINDNAMES[i]: self.S.fired[i] for i in range(1,10) if self.S.fired[i] }

def L_exit(code):
    os._exit(code)

def outcome(e):
    if isinstance(e,HarnessError): raise e
    if isinstance(e,SystemExit):   return ('exit',exitcode(e))
    return ('exc',(type(e).__name__, str(e)[:2000], traceback.format_exc()[-3000:]))

def exitcode(e):
    if e.code is None: return 0
    if isinstance(e.code,int): return e.code & 255
    return 1

class _DetNames:
    '''A replacement for tempfile's random names: reproducible'''
    def __init__(self): self.i = 0
    def __iter__(self): return self
    def __next__(self):
        self.i += 1
        return f'dsttmp{self.i:04d}'

################ The driver
class Property:
    id       = None
    level    = 'exploration'
    technique= ''
    rule     = ''
    runs     = dict(quick=1000,thorough=20000)
    wall     = dict(quick=60.,thorough=1500.)
    workers  = None
    real     = []      # components that run for real
    stub     = []
    assumptions = []

    def prepare(self,tier):          pass
    def generate(self,rng,k,tier):   raise NotImplementedError
    def execute(self,plan):          raise NotImplementedError
    def shrink(self,plan):           return ()
    def coverage(self,agg):          return {}

def result(violation=None, stats=None, log=None, nontrivial=True, simtime=0, sig=None):
    '''violation: None or dict(cls=...,msg=...,key=...)

    log: the event log of the run: anything with a stable repr(). sig: what to
    use to measure distinctness; the log by default'''
    d = digest(log)
    return dict(violation=violation, stats=stats or {}, digest=d, nontrivial=bool(nontrivial),
                simtime=simtime, sig=d if sig is None else digest(sig))

def violation(cls,msg,key=None):
    return dict(cls=cls,msg=msg,key=key if key is not None else cls)

def _merge(a,b):
    for k,v in b.items():
        a[k] = a.get(k,0) + v

def known_findings(pid):
    out = {}
    p = f'{VERIF}/known_findings.txt'
    if not os.path.exists(p): return out
    for l in open(p):
        m = re.match(r'^open: property=(\S+) key=(\S+) (.*)$',l.strip())
        if m and m.group(1)==pid:
            out[m.group(2)] = m.group(3)
    return out

def _worker(prop,seed,tier,ks,wfd,tend,known):
    f = os.fdopen(wfd,'wb')
    try:
        for k in ks:
            if time.monotonic() > tend: break
            plan = prop.generate(rng_for(seed,prop.id,k),k,tier)
            t0   = time.monotonic()
            res  = execute(prop,plan)
            if k % 25 == 0:
                res2 = execute(prop,plan)
                res['repeat'] = (res2['digest'] == res['digest'] and
                                 (res2['violation'] is None) == (res['violation'] is None))
                res['digest2'] = res2['digest']
            res['k'] = k
            res['t'] = time.monotonic()-t0
            v = res['violation']
            if v or k < 4: res['plan'] = plan
            pickle.dump(res,f); f.flush()
            if v and v['key'] not in known: break
        pickle.dump(None,f)
    except BaseException:
        pickle.dump(('error',traceback.format_exc()),f)
    f.close()

def run_batch(prop,seed,tier,nruns,wall,nworkers,known):
    '''Returns list of results, complete'''
    sys.stdout.flush(); sys.stderr.flush()
    tend = time.monotonic()+wall
    procs = []
    for w in range(nworkers):
        r,wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGINT,signal.SIG_DFL)
            os.close(r)
            for _,fr in procs: fr.close()
            try:
                _worker(prop,seed,tier,range(w,nruns,nworkers),wr,tend,known)
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid,os.fdopen(r,'rb')))
    results = []
    errors  = []
    # The pipes hold little: read them all as they come
    import threading
    def reader(pid,f):
        try:
            while True:
                x = pickle.load(f)
                if x is None: break
                if isinstance(x,tuple): errors.append(x[1]); break
                results.append(x)
        except EOFError:
            errors.append(f"worker {pid} died")
    tt = [threading.Thread(target=reader,args=p) for p in procs]
    for t in tt: t.start()
    for t in tt: t.join()
    for pid,f in procs:
        f.close()
        os.waitpid(pid,0)
    if errors:
        raise HarnessError(errors[0])
    results.sort(key=lambda r:r['k'])
    return results

def isolated(fn,*args):
    '''Run in a forked process, so that this one stays as it was'''
    r,w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w,'wb') as f:
                try:
                    pickle.dump(('ok',fn(*args)),f)
                except BaseException:
                    pickle.dump(('error',traceback.format_exc()),f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r,'rb') as f:
        x = f.read()
    os.waitpid(pid,0)
    if not x: raise HarnessError("isolated process died")
    st,v = pickle.loads(x)
    if st == 'error': raise HarnessError(v)
    return v

def minimise(prop,plan,cls,key,budget=60.):
    t1 = time.monotonic()+budget
    n  = 0
    improved = True
    while improved and time.monotonic()<t1:
        improved = False
        for cand in prop.shrink(plan):
            if time.monotonic() > t1: break
            n += 1
            try:
                res = isolated(execute,prop,cand)
            except HarnessError:
                continue
            v = res['violation']
            if v and v['cls']==cls and v['key']==key:
                plan = cand
                improved = True
                break
    return plan,n

def jdump(x):
    return json.dumps(x,indent=1,sort_keys=True)

def preload():
    '''Imports that would otherwise be made in each simulation'''
    import numpy, numpysane, mrcal, ast, io, base64, zipfile, numpy.lib.format
    try: import yaml
    except ImportError: pass

def prepare(prop,tier):
    '''What all the runs share. It makes valid calls only, so if mrcal raises, that's a violation: -> None or text'''
    import mrcal, traceback
    tree = os.path.dirname(os.path.dirname(os.path.realpath(mrcal.__file__)))
    try: prop.prepare(tier)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e,(OSError,MemoryError,ImportError,AssertionError)): raise
        if not any(os.path.realpath(f.filename).startswith(tree+'/') for f in tb) and \
           os.path.basename(tb[-1].filename) not in ('models.py',f'{prop.id.lower()}.py'): raise
        return 'A valid call raised before any fault: ' + ''.join(traceback.format_exception(e))[-2500:]
    return None

def main(prop,args):
    t0   = time.monotonic()
    tier = args.tier
    seed = args.seed
    if args.replay:
        d = json.load(open(args.replay))
        preload()
        bad = prepare(prop,tier)
        if bad or d['plan'].get('prepare'):
            print(bad or 'replay: no violation')
            if bad: print(f"VIOLATION property={prop.id} replay={args.replay}")
            return 1 if bad else 0
        res = isolated(execute,prop,d["plan"])
        v = res['violation']
        print(f"replay: digest={res['digest']} expected={d.get('digest')}")
        if v:
            print(f"{v['cls']}: {v['msg']}")
            print(f"VIOLATION property={prop.id} replay={args.replay}")
            return 1
        print("replay: no violation")
        return 0

    print(f"{prop.id}: VERIF_SEED={seed} tier={tier}",flush=True)
    preload()
    known = known_findings(prop.id)
    bad = prepare(prop,tier)
    if bad:
        os.makedirs(f'{VERIF}/replays',exist_ok=True)
        rp = f'{VERIF}/replays/{prop.id}-prepare.json'
        with open(rp,'w') as f: f.write(jdump(dict(property=prop.id,seed=seed,tier=tier,plan=dict(prepare=True),violation=dict(cls='prepare',msg=bad))))
        print(bad)
        print(f"VIOLATION property={prop.id} replay={rp}")
        return 1
    nruns = args.runs or prop.runs[tier]
    wall  = args.wall or prop.wall[tier]
    nw    = args.workers or prop.workers or os.cpu_count() or 4
    tprep = time.monotonic()-t0
    results = run_batch(prop,seed,tier,nruns,wall,nw,known)
    tsim  = time.monotonic()-t0-tprep

    agg = {}
    for r in results: _merge(agg,r['stats'])
    bad   = [r for r in results if r['violation'] and r['violation']['key'] not in known]
    kn    = {}
    for r in results:
        if r['violation'] and r['violation']['key'] in known: kn.setdefault(r['violation']['key'],r)
    for key,what in known.items():
        if key in kn: print(f"KNOWN-FINDING: property={prop.id} {what}")
    rep   = [r for r in results if 'repeat' in r]
    nondet= [r['k'] for r in rep if not r['repeat']]
    nt    = {r['sig'] for r in results if r['nontrivial']}
    samples = [dict(run=r['k'],plan=r['plan']) for r in results if r['k']<4 and 'plan' in r][:3]
    cov = dict(evaluations         = len(results),
               distinct_nontrivial = len(nt),
               rule                = prop.rule,
               samples             = samples,
               planned_runs        = nruns,
               simulated_runs_per_hour = int(len(results)/max(tsim,1e-3)*3600),
               seeds_per_hour      = int(len(results)/max(tsim,1e-3)*3600),
               workers             = nw,
               wall_simulating_s   = round(tsim,2),
               wall_preparing_s    = round(tprep,2),
               simulated_steps     = int(sum(r['simtime'] for r in results)),
               faults_injected     = {k[6:]:v for k,v in sorted(agg.items()) if k.startswith('fault:')},
               probes              = {k[6:]:v for k,v in sorted(agg.items()) if k.startswith('probe:')},
               counters            = {k:v for k,v in sorted(agg.items()) if not k.startswith(('fault:','probe:'))},
               runs_repeated_for_determinism = len(rep),
               nondeterministic_runs = len(nondet),
               ran_real            = prop.real,
               ran_stub            = prop.stub)
    cov.update(prop.coverage(agg))
    def evidence(nviol):
        ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov,
                  assumptions=prop.assumptions, wall_s=round(time.monotonic()-t0,2), violations=nviol)
        os.makedirs(f'{VERIF}/evidence',exist_ok=True)
        with open(f'{VERIF}/evidence/{prop.id}.json','w') as f:
            json.dump(ev,f,indent=1,default=str)
    print(f"{prop.id}: {len(results)}/{nruns} runs, {len(nt)} distinct, {tsim:.1f}s, "
          f"faults={sum(cov['faults_injected'].values())}, nondeterministic={len(nondet)}/{len(rep)}"
          + (f" {nondet[:8]}" if nondet else ""))
    if args.verbose:
        print(jdump({k:v for k,v in cov.items() if k not in('samples',)}))
    if not results:
        raise HarnessError("no runs completed")
    if not bad:
        evidence(0)
        return 0

    r = bad[0]
    v = r['violation']
    print(f"{prop.id}: violation in run {r['k']}: {v['cls']}: {v['msg']}",flush=True)
    plan,ntry = minimise(prop,r['plan'],v['cls'],v['key'],budget=args.minimise)
    res = isolated(execute,prop,plan)
    v2  = res['violation']
    if not v2:
        plan = r['plan']
        res  = isolated(execute,prop,plan)
        v2   = res['violation'] or v
    os.makedirs(f'{VERIF}/replays',exist_ok=True)
    path = f"{VERIF}/replays/{prop.id}-{digest(jdump(plan))}.json"
    with open(path,'w') as f:
        f.write(jdump(dict(property=prop.id,seed=seed,run=r['k'],tier=tier,plan=plan,digest=res['digest'],
                           violation=v2,minimisation_attempts=ntry)))
    print(f"{prop.id}: minimised ({ntry} attempts): {v2['cls']}: {v2['msg']}")
    print("plan: " + json.dumps(plan)[:1500])
    evidence(len(bad))
    print(f"VIOLATION property={prop.id} replay={path}")
    return 1
