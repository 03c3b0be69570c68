'''A simulated subprocess: a child process, its pipes, and the scheduling between
the child and the parent, all inside the parent process, driven by one PRNG

A child is a program: a list of
  ['out',text]  ['err',text]  ['sleep',seconds]  ['exit',status]  ['kill',signal]
Its pipes have a finite capacity, like the real ones do. Each time the parent
reads, polls or waits, the PRNG decides how far the child runs, and how much the
parent gets. If the parent and the child wait for each other, that's a deadlock.

If the parent asks for a real file descriptor (to select() on, for instance), the
child becomes a real forked process instead, running the same program: then the
order of things is decided by the kernel, and a deadlock is found by the timeout

If the child is a shell command, a real shell runs it outside of the simulation,
with the program as one of its commands. The output and the status of the shell
are then the simulated child's

'''
import io
import json
import os
import shutil
import subprocess
import threading

class Deadlock(BaseException): pass

class _Pipe:
    def __init__(self,cap):
        self.cap = cap
        self.buf = bytearray()
        self.eof = False          # writer closed
        self.reader_closed = False
        self.fds = None           # real mode

class _Raw(io.RawIOBase):
    def __init__(self,proc,pipe):
        super().__init__()
        self.proc,self.pipe = proc,pipe
    def readable(self): return True
    def fileno(self):
        self.proc._go_real()
        return self.pipe.fds[0]
    def readinto(self,b):
        if self.closed: raise ValueError("I/O operation on closed file.")
        if self.pipe.fds is not None:
            x = os.read(self.pipe.fds[0],len(b))
            b[:len(x)] = x
            return len(x)
        x = self.proc._read(self.pipe,len(b))
        b[:len(x)] = x
        return len(x)
    def close(self):
        if not self.closed:
            if self.pipe.fds is not None:
                try: os.close(self.pipe.fds[0])
                except OSError: pass
            self.pipe.reader_closed = True
            self.proc.W.open_pipes -= 1
        super().close()

class World:
    '''All the subprocesses in this simulation

    programs: each is dict(match=str or None, ops=[...], spawn=None or errno) ;
    consumed in order by the launches that match

    '''
    def __init__(self,rng,programs,cap=65536,hook=None,real=None):
        self.rng      = rng
        self.programs = list(programs)
        self.cap      = cap
        self.hook     = hook or (lambda what: None)
        self.launched = []
        self.open_pipes = 0
        self.log      = []
        self.time     = 0.
        self.lock     = threading.RLock()
        self.cond     = threading.Condition(self.lock)
        self.real_popen = subprocess.Popen

    def install(self):
        W = self
        import sys
        class Popen(SimPopen):
            def __init__(self,*a,**kw): SimPopen.__init__(self,W,*a,**kw)
            def __class_getitem__(cls,x): return cls
        for n,m in list(sys.modules.items()):
            if m is not None and n.split('.')[0]=='mrcal' and getattr(m,'Popen',None) is self.real_popen: m.Popen = Popen
        subprocess.Popen = Popen

    def unreaped(self):
        return [p for p in self.launched if p.returncode is None]

SHELLS = ('sh','bash','dash','env','nice','timeout','stdbuf','nohup')
SCRIPT = '''#!/usr/bin/python3 -ES
import json,os,signal,sys
with open(%r) as f: ops = json.load(f)
signal.signal(signal.SIGPIPE,signal.SIG_DFL)
def w(fd,b):
    while b: b = b[os.write(fd,b):]
for o in ops:
    if   o[0]=='out': w(1,o[1].encode('latin1'))
    elif o[0]=='err': w(2,o[1].encode('latin1'))
    elif o[0]=='exit': os._exit(o[1]&255)
    elif o[0]=='kill': os.kill(os.getpid(),o[1])
'''
def real_shell(req):
    '''A real shell runs this, to completion. The command called "name" in it is our program

    This runs outside of the simulation. Returns (status,stdout,stderr)

    '''
    from dst import core
    d = core.scratch()
    try:
        with open(d+'/ops','w') as f: json.dump([o for o in req['ops'] if o[0]!='sleep'],f)
        exe = f'{d}/{req["name"]}'
        with open(exe,'w') as f: f.write(SCRIPT % (d+'/ops'))
        os.chmod(exe,0o755)
        env = dict(req['env'])
        env['PATH'] = d+':'+env.get('PATH','/usr/bin:/bin')
        for k in ('LD_PRELOAD','PYTHONPATH'): env.pop(k,None)
        try: r = subprocess.run(req['args'],shell=req['shell'],cwd=req['cwd'],env=env,executable=req['executable'],timeout=60,
                                stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.PIPE,start_new_session=True)
        except OSError as e: return 'oserror',e.errno,''
        except subprocess.TimeoutExpired: return -9,b'',b'timed out'
        return r.returncode,r.stdout,r.stderr
    finally: shutil.rmtree(d,ignore_errors=True)

class SimPopen:
    def __init__(self, W, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                 creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *,
                 user=None, group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                 process_group=None):
        self.W    = W
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        W.hook('spawn')
        if not W.programs: raise FileNotFoundError(2,'No such file or directory',str(args))
        prog = W.programs.pop(0)
        if prog.get('spawn'):
            W.log.append(('spawn failed',prog['spawn']))
            raise OSError(prog['spawn'],os.strerror(prog['spawn']),args[0] if not isinstance(args,str) else args)
        if shell or isinstance(args,str) or os.path.basename(os.fspath(args[0])) in SHELLS:
            from dst import core
            st,out,err = core.ask_outside(dict(ops=prog['ops'],name=prog.get('name','mrgingham'),args=args,shell=shell,
                                               cwd=os.fspath(cwd or os.getcwd()),env=dict(env or os.environ),executable=executable))
            if st=='oserror': raise OSError(out,os.strerror(out),str(args))
            prog = dict(ops=[o for o in prog['ops'] if o[0]=='sleep'] +
                            [[k,x.decode('latin1')] for k,x in (('err',err),('out',out)) if x] + [['exit',st] if st>=0 else ['kill',-st]])
        self.pid   = 100000 + len(W.launched)
        self.ops   = [list(o) for o in prog['ops']]
        self.status= None       # set when the child has ended
        self.pipes = []
        self.exit_reaped = False
        self.real  = None
        textmode = text or universal_newlines or encoding or errors
        def mk(spec,which):
            if spec == subprocess.PIPE:
                p = _Pipe(W.cap)
                W.open_pipes += 1
                raw = _Raw(self,p)
                f = raw if bufsize==0 else io.BufferedReader(raw, 8192 if bufsize in (-1,1) else bufsize)
                if textmode: f = io.TextIOWrapper(f,encoding=encoding,errors=errors)
                self.pipes.append(p)
                return p,f
            if spec is None or spec == subprocess.DEVNULL: return None,None
            if isinstance(spec,int): return spec,None
            return spec.fileno(),None
        self.dst = {}
        self.dst['out'],self.stdout = mk(stdout,'out')
        if stderr == subprocess.STDOUT: self.dst['err'] = self.dst['out']
        else: self.dst['err'],self.stderr = mk(stderr,'err')
        # the child holds its own copies of the descriptors
        for k,d in list(self.dst.items()):
            if isinstance(d,int): self.dst[k] = os.dup(d)
        if stdin == subprocess.PIPE: self.stdin = io.BytesIO() if not textmode else io.StringIO()
        W.launched.append(self)
        W.log.append(('spawn',list(args) if not isinstance(args,str) else args))

    ################ the child
    def _end(self,status):
        self.status = status
        for p in self.pipes: p.eof = True
        for d in set(x for x in self.dst.values() if isinstance(x,int)):
            try: os.close(d)
            except OSError: pass
        self.dst = {k:(None if isinstance(d,int) else d) for k,d in self.dst.items()}
        self.W.log.append(('end',status))

    def _step(self):
        '''Run the child a bit. False if it's blocked or done'''
        if self.status is not None: return False
        if not self.ops: self._end(0); return True
        op = self.ops[0]
        if op[0] == 'sleep':
            self.W.time += op[1]; self.ops.pop(0); return True
        if op[0] == 'exit': self._end(op[1]); return True
        if op[0] == 'kill': self._end(-op[1]); return True
        b = op[1].encode('latin1') if isinstance(op[1],str) else op[1]
        d = self.dst[op[0]]
        if not b: self.ops.pop(0); return True
        n = self.W.rng.choice((1,7,100,len(b),len(b),len(b)))
        if isinstance(d,_Pipe):
            if d.reader_closed: self._end(-13); return True
            n = min(n,d.cap-len(d.buf),len(b))
            if n <= 0: return False
            d.buf += b[:n]
        elif isinstance(d,int):
            n = min(n,len(b))
            try: n = os.write(d,b[:n])
            except OSError: pass
        else: n = len(b)
        op[1] = b[n:]
        if not op[1]: self.ops.pop(0)
        return True

    def _run_some(self):
        for i in range(self.W.rng.choice((0,0,1,2,5,1000000))):
            if not self._step(): break

    ################ the parent
    def _others(self):
        me = threading.current_thread()
        return [t for t in threading.enumerate() if t is not me and t.is_alive()]

    def _block(self,ready):
        '''Run the child until ready()'''
        W = self.W
        while not ready():
            if self._step():
                W.cond.notify_all()
                continue
            if ready(): break
            # child blocked
            if self._others():
                W.cond.wait(.05)
                continue
            W.log.append(('deadlock',))
            raise Deadlock()

    def _read(self,pipe,n):
        W = self.W
        W.hook('read')
        with W.lock:
            self._run_some()
            self._block(lambda: pipe.buf or pipe.eof)
            m = min(n,len(pipe.buf))
            if m > 1: m = W.rng.choice((1,2,m//2,m,m,m)) or 1
            x = bytes(pipe.buf[:m])
            del pipe.buf[:m]
            W.cond.notify_all()
            return x

    def _go_real(self):
        if self.real is not None: return
        with self.W.lock:
            if self.W.hook: self.W.hook('real')
            for p in self.pipes: p.fds = os.pipe()
            pid = os.fork()
            if pid == 0:
                import signal
                signal.signal(signal.SIGPIPE,signal.SIG_DFL)
                st = 0
                try:
                    def wr(d,b):
                        fd = d.fds[1] if isinstance(d,_Pipe) else d if isinstance(d,int) else None
                        while fd is not None and b: b = b[os.write(fd,b):]
                    for p in self.pipes: os.close(p.fds[0])
                    for p in self.pipes: wr(p,bytes(p.buf))
                    for op in self.ops:
                        if op[0] in ('out','err'): wr(self.dst[op[0]], op[1].encode('latin1') if isinstance(op[1],str) else op[1])
                        elif op[0]=='exit': st=op[1]; break
                        elif op[0]=='kill':
                            signal.signal(op[1],signal.SIG_DFL) if op[1] not in (9,19) else None
                            os.kill(os.getpid(),op[1])
                    if self.status is not None: st = self.status
                finally:
                    os._exit(st & 255)
            for p in self.pipes: os.close(p.fds[1])
            self.real = pid

    def poll(self):
        if self.returncode is not None: return self.returncode
        self.W.hook('poll')
        with self.W.lock:
            if self.real is not None:
                pid,st = os.waitpid(self.real,os.WNOHANG)
                if pid: self.returncode = os.waitstatus_to_exitcode(st)
                return self.returncode
            self._run_some()
            if self.status is not None: self.returncode = self.status
        return self.returncode

    def wait(self,timeout=None):
        if self.returncode is not None: return self.returncode
        self.W.hook('wait')
        with self.W.lock:
            if self.real is not None:
                _,st = os.waitpid(self.real,0)
                self.returncode = os.waitstatus_to_exitcode(st)
                return self.returncode
            t0 = self.W.time
            if timeout is None:
                self._block(lambda: self.status is not None)
            else:
                while self.status is None and self.W.time-t0 <= timeout and self._step(): pass
                if self.status is None:
                    self.W.time = max(self.W.time,t0+timeout)
                    raise subprocess.TimeoutExpired(self.args,timeout)
            self.returncode = self.status
        return self.returncode

    def send_signal(self,sig):
        if self.returncode is not None: return
        if self.real is not None: os.kill(self.real,sig); return
        if self.status is None: self._end(-int(sig))
    def terminate(self): self.send_signal(15)
    def kill(self):      self.send_signal(9)

    def communicate(self,input=None,timeout=None):
        out = {}
        files = [f for f in (self.stdout,self.stderr) if f is not None]
        if self.real is not None:
            tt = [threading.Thread(target=lambda f=f: out.__setitem__(f,f.read())) for f in files]
            for t in tt: t.start()
            for t in tt: t.join()
        elif files:
            acc = {'out':b'','err':b''}
            W = self.W
            W.hook('communicate')
            t0 = W.time
            dd = [(k,d,f) for k,d,f in (('out',self.dst.get('out'),self.stdout),('err',self.dst.get('err'),self.stderr)) if f is not None]
            raws = []
            for k,d,f in dd:
                p = d if isinstance(d,_Pipe) else None
                raws.append((k,p,f))
            while self.status is None:
                self._step()
                for k,p,f in raws:
                    acc[k] += bytes(p.buf); p.buf.clear()
                if timeout is not None and W.time-t0 > timeout: raise subprocess.TimeoutExpired(self.args,timeout)
            for k,p,f in raws:
                acc[k] += bytes(p.buf); p.buf.clear()
                x = acc[k]
                if isinstance(f,io.TextIOWrapper):
                    x = x.decode(f.encoding,f.errors or 'strict').replace('\r\n','\n').replace('\r','\n')
                out[f] = x
        self.wait()
        for f in files: f.close()
        return out.get(self.stdout),out.get(self.stderr)

    def __enter__(self): return self
    def __exit__(self,*a):
        for f in (self.stdout,self.stderr,self.stdin):
            if f: f.close()
        self.wait()
