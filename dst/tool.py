'''Runs the command-line tools inside a simulation

The tool's own code runs in the simulated process as __main__, with its standard
streams being files in the scratch root: those are simulated as well. The clock,
the host and user names, and the random generators are the simulation's.

'''
import io
import os
import sys
import types
import traceback
from . import build, core

_code = {}
def compiled(name):
    '''Compiled once, in the parent'''
    if name not in _code:
        p = f'{os.environ["DST_TREE"]}/{name}'
        with open(p) as f: _code[name] = (compile(f.read(),p,'exec'),p)
    return _code[name]

def clock(t):
    '''The wall clock reads t, and advances with each reading'''
    import time
    state = [float(t)]
    def now():
        state[0] += .01
        return state[0]
    g,l,sf,ct,at = time.gmtime,time.localtime,time.strftime,time.ctime,time.asctime
    time.time      = now
    time.time_ns   = lambda: int(now()*1e9)
    time.gmtime    = lambda s=None: g(now() if s is None else s)
    time.localtime = lambda s=None: l(now() if s is None else s)
    time.strftime  = lambda fmt,t=None: sf(fmt,l(now()) if t is None else t)
    time.ctime     = lambda s=None: ct(now() if s is None else s)
    time.asctime   = lambda t=None: at(l(now()) if t is None else t)
    time.sleep     = lambda s: state.__setitem__(0,state[0]+s)

def run(S,name,argv,d,t=1.7e9,stdin=None,stdout=True,host='simhost',user='simuser'):
    '''-> exit status. The standard streams are d/STDIN, STDOUT, STDERR'''
    L = core.shimlib()
    import time, socket, getpass, platform
    clock(t)
    socket.gethostname = lambda: host
    platform.node      = lambda: host
    os.environ['HOSTNAME'] = host
    os.environ['USER'] = os.environ['LOGNAME'] = user
    armed = S.armed
    S.armed = 0
    def stream(n,fn,mode,tracked):
        fd = os.open(f'{d}/{fn}',mode,0o644)
        os.dup2(fd,n); os.close(fd)
        if tracked: L.dst_track_fd(n,f'{d}/{fn}'.encode())
    if stdin is not None: stream(0,stdin,os.O_RDONLY,True)
    if stdout: stream(1,'STDOUT',os.O_WRONLY|os.O_CREAT|os.O_APPEND,True)
    stream(2,'STDERR',os.O_WRONLY|os.O_CREAT|os.O_APPEND,False)
    sys.stdin  = open(0,'r',closefd=False)
    sys.stdout = open(1,'w',closefd=False)
    sys.stderr = open(2,'w',closefd=False,buffering=1)
    code,path = compiled(name)
    m = types.ModuleType('__main__')
    m.__file__ = path
    m.__builtins__ = __builtins__
    sys.modules['__main__'] = m
    sys.argv = [path]+list(argv)
    st = 0
    pid = os.getpid()
    S.armed = armed
    try:
        try: exec(code,m.__dict__)
        except SystemExit as e:
            if e.code is not None and not isinstance(e.code,int): print(e.code,file=sys.stderr)
            st = core.exitcode(e)
        except KeyboardInterrupt: st = 130
        except Exception:
            traceback.print_exc()
            st = 1
        # what the interpreter does when it exits
        try: sys.stdout.flush()
        except (OSError,KeyboardInterrupt): st = 120
    except KeyboardInterrupt: st = 130    # while reporting the error
    if os.getpid()!=pid: os._exit(st & 255)     # the tool forked, and this is the child
    S.armed = 0
    return st
