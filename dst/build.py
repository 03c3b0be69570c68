'''Builds the code under test, from /repo's current working tree, out of tree

The sources are mirrored into VERIF/build/tree (only files whose contents changed
are touched, so this is incremental), and built there with the repository's own
Makefile. /repo itself is only ever read. Instrumented variants of the C library
are compiled from the same mirrored tree.

'''

import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO  = os.environ.get('DST_REPO', '/repo')
BUILD = os.environ.get('DST_BUILD', f'{VERIF}/build')
TREE  = f'{BUILD}/tree'

CPATH = '/usr/include/suitesparse'

class BuildError(Exception):
    pass

def _env():
    return dict(HOME = os.environ.get('HOME','/root'),
                PATH = '/usr/bin:/bin:/usr/sbin:/sbin:/usr/local/bin',
                LC_ALL = 'C.UTF-8',
                PYTHONDONTWRITEBYTECODE = '1',
                CPATH = CPATH)

def _sha(b): return hashlib.sha256(b).hexdigest()

def _sources():
    try:
        names = subprocess.check_output(
            ['git','-c','safe.directory=*','-C',REPO,'ls-files','-coz','--exclude-standard']).decode().split('\0')
    except (subprocess.CalledProcessError,OSError):
        names = []
        for d,dd,ff in os.walk(REPO):
            dd[:] = [x for x in dd if x != '.git']
            for f in ff:
                if re.search(r'\.(o|d|so(\.[\d.]+)?|pyc)$|docstring\.h$|generated|GENERATED',f): continue
                names.append(os.path.relpath(f'{d}/{f}',REPO))
    return sorted(n for n in names
                  if n and os.path.isfile(f'{REPO}/{n}') and not n.startswith(('doc/','analyses/')))

def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env(), **kw)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(cmd[:6])} failed:\n" + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout

class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(f'{BUILD}/.lock','w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self,*a):
        self.f.close()

def tree():
    '''Mirror and build; return (directory, hash of the sources)'''
    with lock():
        names = _sources()
        now   = {}
        data  = {}
        for n in names:
            with open(f'{REPO}/{n}','rb') as f: b = f.read()
            data[n] = b
            now[n]  = _sha(b)
        total = _sha(json.dumps(now,sort_keys=True).encode())

        statefile = f'{BUILD}/tree.json'
        try:
            with open(statefile) as f: old = json.load(f)
        except (OSError,ValueError):
            old = None
        if old is not None and old.get('total') == total and old.get('done'):
            return TREE,total

        oldfiles = (old or {}).get('files',{})
        changed  = [n for n in now if oldfiles.get(n) != now[n]]
        wipe = (set(oldfiles) != set(now) or not os.path.isdir(TREE) or
                any('Makefile' in n or n.endswith(('.mk','.pl')) for n in changed))
        if wipe:
            shutil.rmtree(TREE, ignore_errors=True)
            changed = list(now)
        if os.path.exists(statefile): os.unlink(statefile)
        for n in changed:
            p = f'{TREE}/{n}'
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p,'wb') as f: f.write(data[n])
            os.chmod(p, os.stat(f'{REPO}/{n}').st_mode & 0o777 | 0o200)
        _run(['make','-C',TREE,f'-j{os.cpu_count()}','NM=nm'])
        with open(statefile+'.tmp','w') as f:
            json.dump(dict(total=total,files=now,done=True),f)
        os.replace(statefile+'.tmp',statefile)
        return TREE,total

def compile_cached(out, sources, cmd, extra='', nolock=False):
    '''Run cmd, which makes `out` (in BUILD), unless it exists for these inputs

    sources: paths whose contents matter. cmd: a list; '@OUT@' is substituted'''
    import contextlib
    with (contextlib.nullcontext() if nolock else lock()):
        h = hashlib.sha256((json.dumps(cmd)+extra).encode())
        for s in sources:
            with open(s,'rb') as f: h.update(f.read())
        h = h.hexdigest()
        path  = f'{BUILD}/{out}'
        stamp = f'{path}.stamp'
        os.makedirs(os.path.dirname(path),exist_ok=True)
        if os.path.exists(path) and os.path.exists(stamp) and open(stamp).read()==h:
            return path
        if os.path.exists(stamp): os.unlink(stamp)
        _run([path if c=='@OUT@' else c for c in cmd])
        with open(stamp,'w') as f: f.write(h)
        return path

def shim():
    src = f'{VERIF}/dst/shim.c'
    return compile_cached('shim.so',[src],
                          ['gcc','-O2','-Wall','-fno-builtin','-shared','-fPIC','-o','@OUT@',src])

LIBSRC = ('mrcal.c','opencv.c','uncertainty.c','image.c','stereo.c','poseutils.c','poseutils-opencv.c',
          'poseutils-uses-autodiff.cc','triangulation.cc','cahvore.cc','traverse-sensor-links.c','heap.cc',
          'cameramodel-parser_GENERATED.c')
def _headers():
    import glob
    return sorted(glob.glob(f'{TREE}/*.h') + glob.glob(f'{TREE}/*.hh') + glob.glob(f'{TREE}/minimath/*.h'))

NOTRAMP = re.compile(r'^(__tsan|_Unwind|__cxa|_Zn|_Zd|__tls|__stack_chk|__errno|sem_|pthread_|malloc$|free$|calloc$|realloc$|'
                     r'a?(sin|cos|tan)[hf]?$|sincosf?$|atan2f?$|sqrtf?$|roundf?$|log|exp|pow|fabs|floor|ceil|hypot|fmod)|setjmp|longjmp')
def _externals(objs):
    '''Functions called by these objects, that none of them defines'''
    called,defined = set(),set()
    for o in objs:
        for l in _run(['readelf','-rW',o]).decode().splitlines():
            f = l.split()
            if len(f)>=5 and f[2] in ('R_X86_64_PLT32','R_X86_64_GOTPCRELX'): called.add(f[4])
        for l in _run(['readelf','-sW',o]).decode().splitlines():
            f = l.split()
            if len(f)>=8 and f[6]!='UND': defined.add(f[7])
    return sorted(c for c in called-defined if re.match(r'\w+$',c) and not NOTRAMP.search(c))
# Code outside the library is not instrumented. So there can be a switch right before each call to it
TRAMP = '''
.globl __wrap_%(f)s
.hidden __wrap_%(f)s
.type __wrap_%(f)s,@function
__wrap_%(f)s:
 push %%rbp
 mov %%rsp,%%rbp
 push %%rdi
 push %%rsi
 push %%rdx
 push %%rcx
 push %%r8
 push %%r9
 push %%rax
 push %%r10
 sub $128,%%rsp
 movdqu %%xmm0,(%%rsp)
 movdqu %%xmm1,16(%%rsp)
 movdqu %%xmm2,32(%%rsp)
 movdqu %%xmm3,48(%%rsp)
 movdqu %%xmm4,64(%%rsp)
 movdqu %%xmm5,80(%%rsp)
 movdqu %%xmm6,96(%%rsp)
 movdqu %%xmm7,112(%%rsp)
 call ts_external
 movdqu (%%rsp),%%xmm0
 movdqu 16(%%rsp),%%xmm1
 movdqu 32(%%rsp),%%xmm2
 movdqu 48(%%rsp),%%xmm3
 movdqu 64(%%rsp),%%xmm4
 movdqu 80(%%rsp),%%xmm5
 movdqu 96(%%rsp),%%xmm6
 movdqu 112(%%rsp),%%xmm7
 add $128,%%rsp
 pop %%r10
 pop %%rax
 pop %%r9
 pop %%r8
 pop %%rcx
 pop %%rdx
 pop %%rsi
 pop %%rdi
 pop %%rbp
 jmp __real_%(f)s@PLT
.size __wrap_%(f)s,.-__wrap_%(f)s
'''

def threads_lib(total):
    '''The C library, instrumented, with the deterministic thread scheduler'''
    from concurrent.futures import ThreadPoolExecutor
    inc  = ['-I',TREE,'-I',f'{VERIF}/dst','-I',CPATH,'-I','/usr/include/suitesparse']
    hdr  = _headers()
    objs = []
    def one(job):
        src,instr = job
        o    = 'threads/'+os.path.basename(src).replace('.','_')+'.o'
        cxx  = src.endswith('.cc')
        cmd  = (['g++','-std=c++11'] if cxx else ['gcc','--std=gnu11'])
        cmd += ['-w','-g','-O1','-fPIC','-fno-omit-frame-pointer'] + (['-fsanitize=thread'] if instr else [])
        cmd += inc + ['-c','-o','@OUT@',src]
        return compile_cached(o,[src]+hdr+[f'{VERIF}/dst/tsched.h'],cmd,nolock=True)
    with lock():
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            objs = list(ex.map(one,[(f'{TREE}/{s}',True) for s in LIBSRC] +
                                   [(f'{VERIF}/dst/{s}',False) for s in ('tsched.c','tops.c')]))
        ext  = _externals([o for o in objs if not o.endswith(('tsched_c.o','tops_c.o'))])
        asm  = f'{BUILD}/threads/tramp.s'
        text = '.text\n' + ''.join(TRAMP % dict(f=f) for f in ext) + '.section .note.GNU-stack,"",@progbits\n'
        with open(asm,'w') as f: f.write(text)
        objs = objs + [compile_cached('threads/tramp.o',[asm],['gcc','-c','-o','@OUT@',asm],nolock=True)]
        wraps = ','.join('--wrap='+w for w in ext) + ',' + ','.join('--wrap='+w for w in ('pthread_mutex_lock','pthread_rwlock_rdlock','pthread_rwlock_wrlock',
                                               'pthread_once','__cxa_guard_acquire','__cxa_guard_release'))
        return compile_cached('threads/libthreads.so',objs,
                              ['g++','-shared','-o','@OUT@']+objs+[f'-Wl,{wraps}','-Wl,-z,defs','-Wl,-Bsymbolic','-ldogleg','-lstb','-lpng','-ljpeg',
                               '-llapack','-lcholmod','-lpthread','-lm'],nolock=True)
