'''Several simulated processes that run at the same time, on the same files

Each is forked from the simulation process. One runs at a time: it stops before
each of its file operations, and the seeded scheduler says who goes on. A crash
takes one of them, and the others go on.

'''
import os
import pickle
import signal
import struct
import sys
from dst import core, simpool

def overlap(S,rng,fns,burst=2.):
    '''Run each of the functions in a process. Returns [(status,value)], the number of switches, the order'''
    L = core.shimlib()
    P = []
    for i,fn in enumerate(fns):
        r0,w = os.pipe(); r,w0 = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid==0:
            try:
                os.close(w); os.close(r)
                for p in P: os.close(p['w']); os.close(p['r'])
                L.dst_yield_fds(w0,r0)
                simpool._readn(r0,1)
                try:     out = 'ok',fn()
                except BaseException as e: out = core.outcome(e)
                signal.signal(signal.SIGINT,signal.SIG_IGN)
                b = pickle.dumps(out)
                b = b'd'+struct.pack('<q',len(b))+b
                while b: b = b[os.write(w0,b):]
            except BaseException: pass
            finally: os._exit(0)
        os.close(r0); os.close(w0)
        P.append(dict(i=i,pid=pid,r=r,w=w,out=None))
    left = list(P)
    last = None; switches = 0; order = []
    while left:
        p = last if last in left and rng.random() < 1.-1./burst else rng.choice(left)
        if p is not last and last is not None: switches += 1
        last = p
        order.append(p['i'])
        x = None
        try:
            os.write(p['w'],b'g')
            c = simpool._readn(p['r'],1)
            if c==b'y': continue
            n = struct.unpack('<q',simpool._readn(p['r'],8))[0]
            x = pickle.loads(simpool._readn(p['r'],n))
        except (EOFError,OSError): x = None
        left.remove(p)
        for f in (p['r'],p['w']): os.close(f)
        _,st = os.waitpid(p['pid'],0)
        if x is None:
            if os.WIFSIGNALED(st):           x = 'signal',os.WTERMSIG(st)
            elif os.WEXITSTATUS(st)==137:    x = 'crash',None
            else:                            x = 'exit',os.WEXITSTATUS(st)
        p['out'] = x
    return [p['out'] for p in P],switches,order
