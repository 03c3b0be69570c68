'''A deterministic scheduler for Python threads

Only the thread that holds the baton runs. A thread may lose the baton at any
Python line it executes, and in the code of mrcal itself at any bytecode. The
PRNG decides when, and who is next. So one seed is one interleaving.

'''
import sys
import threading

MAXSWITCHES = 20000
# Other people's code that holds a lock while it runs. A thread that loses the
# baton in it would block the others, who have the baton: no switches in there
LOCKED = ('/threading.py','/arpack/arpack.py','/_lib/_threadsafety.py','/tempfile.py','/logging/__init__.py','/subprocess.py')

class Scheduler:
    def __init__(self,rng,mean=50,opcodes=True):
        self.rng      = rng
        self.mean     = mean
        self.opcodes  = opcodes
        self.sems     = []
        self.alive    = []
        self.cur      = None
        self.count    = 0
        self.switches = 0
        self.events   = 0
        self.trace_log= []
        self.stuck    = False

    def _next_in(self):
        m = self.mean if self.rng.random()<.8 else 1
        return 1+int(self.rng.expovariate(1./m)) if m>1 else 1

    def _in_import(self,frame):
        f = frame
        while f is not None:
            fn = f.f_code.co_filename
            if fn.endswith('/pysched.py'): return False
            if fn.startswith('<frozen importlib') or fn.endswith(LOCKED): return True
            f = f.f_back
        return False

    def _tick(self,frame):
        self.events += 1
        self.count  -= 1
        if self.count > 0: return
        self.count = self._next_in()
        # long runs: switching is slow, and enough has been seen
        if self.switches > MAXSWITCHES: self.count += 1000*(self.switches-MAXSWITCHES)
        others = [i for i in range(len(self.alive)) if self.alive[i] and i!=self.cur]
        if not others or self._in_import(frame): return
        self.switch(self.rng.choice(others))

    def switch(self,to):
        me = self.cur
        self.switches += 1
        if len(self.trace_log)<400: self.trace_log.append((me,to,self.events))
        self.cur = to
        self.sems[to].release()
        self.sems[me].acquire()

    def _global(self,frame,event,arg):
        fn = frame.f_code.co_filename
        if fn.endswith('/pysched.py'): return None
        if self.opcodes and '/mrcal/' in fn: frame.f_trace_opcodes = True
        self._tick(frame)
        return self._local
    def _local(self,frame,event,arg):
        if event in ('line','opcode'): self._tick(frame)
        return self._local

    def run(self,fns,timeout=60.):
        '''Run all of these, in their own threads. Returns [('ok',value) | ('exc',exception)]'''
        n = len(fns)
        self.sems  = [threading.Semaphore(0) for i in range(n)]
        self.alive = [True]*n
        out        = [None]*n
        done       = threading.Semaphore(0)
        def body(i):
            self.sems[i].acquire()
            sys.settrace(self._global)
            try:
                try:
                    out[i] = ('ok',fns[i]())
                finally:
                    sys.settrace(None)
            except BaseException as e:
                out[i] = ('exc',e)
            self.alive[i] = False
            others = [k for k in range(n) if self.alive[k]]
            if others:
                self.cur = self.rng.choice(others)
                self.trace_log.append((i,self.cur,-self.events))
                self.sems[self.cur].release()
            else:
                done.release()
        tt = [threading.Thread(target=body,args=(i,),daemon=True) for i in range(n)]
        for t in tt: t.start()
        self.count = self._next_in()
        self.cur   = self.rng.randrange(n)
        self.sems[self.cur].release()
        # Stuck if nobody does anything for that long. Being slow is fine
        before = -1
        while not done.acquire(timeout=timeout):
            if self.events==before:
                self.stuck = True
                return out
            before = self.events
        for t in tt: t.join()
        return out
