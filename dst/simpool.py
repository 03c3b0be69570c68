'''A simulated multiprocessing.Pool (and ProcessPoolExecutor)

The workers are real forked processes, made where the real pool makes them: they
see the world as of that point. Only one of them runs at a time. A worker stops
before each of its file operations (see dst_yield_fds() in the shim), and the
seeded scheduler in the parent decides what happens next: an idle worker takes
the next piece of work, or some busy worker does its next operation. So the
assignment of work to workers, the completion order, and the order of all the
file operations come from the seed.

The semantics are those of CPython: map() makes chunks; an exception ends its
chunk; the result is ready once all the chunks are done; the first exception is
the one reported; a worker that dies takes its piece of work with it, and the
result is never ready.

'''
import os
import pickle
import signal
import struct
import sys

class Stuck(BaseException): pass

class Scheduler:
    '''Shared by all the pools in a simulation'''
    def __init__(self,rng,burst=1,interrupt=None):
        self.rng       = rng
        self.burst     = burst        # mean number of operations a worker makes before a switch
        self.interrupt = interrupt    # the user hits C-c at this step
        self.steps     = 0
        self.switches  = 0
        self.trace     = []
        self.last      = None
        self.interrupted = False
        self.pools     = 0
        self.died      = 0

    def install(self,L):
        import multiprocessing, multiprocessing.pool, multiprocessing.context, concurrent.futures, concurrent.futures.process
        S = self
        self.L = L
        class Pool(SimPool):
            def __init__(self,*a,**kw): SimPool.__init__(self,S,*a,**kw)
        class Executor(SimExecutor):
            def __init__(self,*a,**kw): SimExecutor.__init__(self,S,*a,**kw)
        multiprocessing.Pool = multiprocessing.pool.Pool = Pool
        multiprocessing.context.BaseContext.Pool = lambda self,*a,**kw: Pool(*a,**kw)
        concurrent.futures.ProcessPoolExecutor = concurrent.futures.process.ProcessPoolExecutor = Executor

def _readn(fd,n):
    b = b''
    while len(b)<n:
        x = os.read(fd,n-len(b))
        if not x: raise EOFError
        b += x
    return b

class _Worker:
    def __init__(self,pool,i):
        self.i    = i
        self.job  = None        # (result,index) being worked on
        self.seen = 0
        r0,self.w = os.pipe()
        self.r,w0 = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        self.pid  = os.fork()
        if self.pid == 0:
            st = 1
            try:
                os.close(self.w); os.close(self.r)
                for o in pool.workers: os.close(o.w); os.close(o.r)
                pool.S.L.dst_yield_fds(w0,r0)
                if pool.initializer: pool.initializer(*pool.initargs)
                while True:
                    try: n = struct.unpack('<q',_readn(r0,8))[0]
                    except EOFError: break
                    fn,args,kw,many = pickle.loads(_readn(r0,n))
                    try:
                        if many: out = (True,[fn(*a,**kw) for a in args])
                        else:    out = (True,fn(*args,**kw))
                    except Exception as e:
                        import traceback
                        out = (False,e,traceback.format_exc()[-1500:])
                    try:
                        b = pickle.dumps(out)
                        pickle.loads(b)
                    except Exception as e: b = pickle.dumps((False,RuntimeError('Error sending result: '+repr(out[1])[:300]),''))
                    try: sys.stdout.flush(); sys.stderr.flush()
                    except OSError: pass
                    b = b'd'+struct.pack('<q',len(b))+b
                    while b: b = b[os.write(w0,b):]
                st = 0
            except BaseException: pass
            finally: os._exit(st)
        os.close(r0); os.close(w0)
    def start(self,job,payload):
        self.job = job
        b = struct.pack('<q',len(payload))+payload
        while b: b = b[os.write(self.w,b):]
    def go(self):
        '''To the next stop: 'y', or ('d',result), or None: it's dead'''
        if self.seen: os.write(self.w,b'g')
        self.seen = 1
        try:
            c = _readn(self.r,1)
            if c == b'y': return 'y'
            n = struct.unpack('<q',_readn(self.r,8))[0]
            return 'd',pickle.loads(_readn(self.r,n))
        except EOFError: return None
    def end(self):
        for f in (self.w,self.r):
            try: os.close(f)
            except OSError: pass
        try: os.kill(self.pid,signal.SIGKILL)
        except OSError: pass
        os.waitpid(self.pid,0)

class RemoteTraceback(Exception): pass

class _Result:
    def __init__(self,pool,n,single=False,callback=None,error_callback=None):
        self.pool,self.n,self.left,self.single = pool,n,n,single
        self.values = [None]*n
        self.exc    = None
        self.callback,self.error_callback = callback,error_callback
        self.order  = []
    def _set(self,i,out):
        self.left -= 1
        self.order.append(i)
        if out[0]: self.values[i] = out[1]
        else:
            self.values[i] = out[1]
            if self.exc is None:
                out[1].__cause__ = RemoteTraceback(out[2])
                self.exc = out[1]
        if not self.left:
            if self.exc is None and self.callback: self.callback(self._value())
            if self.exc is not None and self.error_callback: self.error_callback(self.exc)
    def _value(self):
        if self.single: return self.values[0]
        return [x for c in self.values for x in c]
    def ready(self):
        self.pool._some()
        return not self.left
    def successful(self):
        if self.left: raise ValueError(f'{self!r} not ready')
        return self.exc is None
    def wait(self,timeout=None): self.pool._until(lambda: not self.left)
    def get(self,timeout=None):
        self.wait(timeout)
        if self.exc is not None: raise self.exc
        return self._value()

class SimPool:
    def __init__(self,S,processes=None,initializer=None,initargs=(),maxtasksperchild=None,context=None):
        self.S = S
        S.pools += 1
        n = processes or 4
        if n<1: raise ValueError('Number of processes must be at least 1')
        self.initializer,self.initargs = initializer,initargs
        self.queue   = []
        self.state   = 'run'
        self.workers = []
        for i in range(n): self.workers.append(_Worker(self,i))
    ################ the scheduler
    def _step(self):
        '''One step of the simulation. False if there's nothing to do'''
        S    = self.S
        busy = [w for w in self.workers if w.job]
        idle = [w for w in self.workers if not w.job]
        if S.interrupt is not None and S.steps >= S.interrupt and not S.interrupted and (busy or self.queue):
            S.interrupted = True
            # all the processes in the group get it
            for w in self.workers: os.kill(w.pid,signal.SIGINT)
            raise KeyboardInterrupt
        if not busy and not (self.queue and idle): return False
        S.steps += 1
        w = None
        if S.last in busy and S.rng.random() < 1.-1./S.burst: w = S.last
        else:
            choices = busy + (['start'] if self.queue and idle else [])
            c = S.rng.choice(choices)
            if c=='start':
                w = S.rng.choice(idle)
                job,payload = self.queue.pop(0)
                w.start(job,payload)
                w.seen = 0
                S.trace.append(('start',w.i,job[1]))
            else: w = c
        if w is not S.last: S.switches += 1
        S.last = w
        x = w.go()
        if x is None:
            # the real pool replaces the worker. What it was doing is lost
            S.died += 1
            S.trace.append(('died',w.i))
            os.waitpid(w.pid,os.WNOHANG)
            for f in (w.w,w.r): os.close(f)
            try: os.kill(w.pid,signal.SIGKILL)
            except OSError: pass
            try: os.waitpid(w.pid,0)
            except ChildProcessError: pass
            k = self.workers.index(w)
            del self.workers[k]
            self.workers.insert(k,_Worker(self,w.i))
        elif x != 'y':
            job = w.job
            w.job = None
            S.trace.append(('done',w.i,job[1]))
            job[0]._set(job[1],x[1])
        elif len(S.trace)<3000: S.trace.append(w.i)
        return True
    def _some(self):
        for i in range(self.S.rng.choice((0,0,1,5,50))):
            if not self._step(): break
    def _until(self,f):
        while not f():
            if not self._step(): raise Stuck()
    ################ the API
    def _check(self):
        if self.state != 'run': raise ValueError('Pool not running')
    def _submit(self,result,i,fn,args,kw,many):
        self.queue.append(((result,i),pickle.dumps((fn,args,kw,many))))
    def _map(self,fn,it,chunksize,star,**kw):
        self._check()
        it = list(it)
        if chunksize is None:
            chunksize,extra = divmod(len(it),len(self.workers)*4)
            if extra: chunksize += 1
        chunks = [it[i:i+chunksize] for i in range(0,len(it),chunksize)] if it else []
        r = _Result(self,len(chunks),**kw)
        for i,c in enumerate(chunks): self._submit(r,i,fn,[tuple(x) if star else (x,) for x in c],{},True)
        self._some()
        return r
    def map_async(self,fn,it,chunksize=None,callback=None,error_callback=None): return self._map(fn,it,chunksize,False,callback=callback,error_callback=error_callback)
    def starmap_async(self,fn,it,chunksize=None,callback=None,error_callback=None): return self._map(fn,it,chunksize,True,callback=callback,error_callback=error_callback)
    def map(self,fn,it,chunksize=None): return self.map_async(fn,it,chunksize).get()
    def starmap(self,fn,it,chunksize=None): return self.starmap_async(fn,it,chunksize).get()
    def apply_async(self,fn,args=(),kwds={},callback=None,error_callback=None):
        self._check()
        r = _Result(self,1,single=True,callback=callback,error_callback=error_callback)
        self._submit(r,0,fn,tuple(args),dict(kwds),False)
        self._some()
        return r
    def apply(self,fn,args=(),kwds={}): return self.apply_async(fn,args,kwds).get()
    def imap(self,fn,it,chunksize=1):
        rr = [self.apply_async(fn,(x,)) for x in it]
        return (r.get() for r in rr)
    def imap_unordered(self,fn,it,chunksize=1):
        rr = [self.apply_async(fn,(x,)) for x in it]
        def g():
            left = list(rr)
            while left:
                self._until(lambda: any(not r.left for r in left))
                r = next(r for r in left if not r.left)
                left.remove(r)
                yield r.get()
        return g()
    def close(self):
        if self.state=='run': self.state='close'
    def terminate(self):
        if self.state=='terminate': return
        self.state = 'terminate'
        self.queue.clear()
        for w in self.workers: w.end()
        self.workers = []
    def join(self):
        if self.state=='run': raise ValueError('Pool is still running')
        if self.state=='terminate': return
        self._until(lambda: not self.queue and not any(w.job for w in self.workers))
        for w in self.workers: w.end()
        self.workers = []
        self.state = 'terminate'
    def __enter__(self): self._check(); return self
    def __exit__(self,*a): self.terminate()
    def __del__(self):
        try: self.terminate()
        except BaseException: pass

class _Future:
    def __init__(self,r): self.r = r
    def result(self,timeout=None): return self.r.get(timeout)
    def exception(self,timeout=None): self.r.wait(timeout); return self.r.exc
    def done(self): return self.r.ready()
    def cancel(self): return False
    def cancelled(self): return False
    def running(self): return bool(self.r.left)
    def add_done_callback(self,f): self.r.wait(); f(self)

class SimExecutor:
    def __init__(self,S,max_workers=None,mp_context=None,initializer=None,initargs=(),**kw):
        self.pool = SimPool(S,max_workers,initializer,initargs)
    def submit(self,fn,*a,**kw): return _Future(self.pool.apply_async(fn,a,kw))
    def map(self,fn,*its,timeout=None,chunksize=1):
        ff = [self.submit(fn,*a) for a in zip(*its)]
        return (f.result() for f in ff)
    def shutdown(self,wait=True,cancel_futures=False):
        if cancel_futures: self.pool.queue.clear()
        self.pool.close(); self.pool.join()
    def __enter__(self): return self
    def __exit__(self,*a): self.shutdown()
