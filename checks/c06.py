'''C06: saved images survive, and failed image I/O is reported'''
import os
import numpy as np
from dst import core, faults

FMT   = ('png','pgm','ppm','jpg')
MLIBS = ('libmrcal.so','_mrcal','libstb','libpng','libjpeg')

def make(spec):
    '''An array, possibly not stored densely, from a JSON-able description'''
    r  = np.random.RandomState(spec['seed'])
    H,W= spec['shape']
    dt = np.dtype('u2') if spec['depth']==16 else np.dtype('u1')
    sh = (H,W,3) if spec['depth']==24 else (H,W)
    hi = 65536 if spec['depth']==16 else 256
    c  = spec['content']
    if   c=='noise': a = r.randint(0,hi,sh)
    elif c=='space': a = r.choice(np.array((9,10,13,32,35,48,57)),sh)   # whitespace, digits, '#'
    elif c=='zero':  a = np.zeros(sh)
    elif c=='max':   a = np.full(sh,hi-1)
    else:            a = np.add.outer(np.arange(H)*7,np.arange(W)*3) % hi; a = np.repeat(a[...,None],3,-1) if depth3(spec) else a
    a = np.ascontiguousarray(a.astype(dt))
    l = spec['layout']
    if   l=='padded':
        b = np.zeros((H,W+spec['pad'])+sh[2:],dtype=dt); b[:,:W] = a; a = b[:,:W]
    elif l=='crop':
        b = r.randint(0,hi,(H+3,W+spec['pad'])+sh[2:]).astype(dt); b[2:2+H,spec['pad']//2:spec['pad']//2+W] = a
        a = b[2:2+H,spec['pad']//2:spec['pad']//2+W]
    elif l=='flip': a = np.ascontiguousarray(a[::-1])[::-1]
    elif l=='every2':
        b = np.zeros((2*H,W)+sh[2:],dtype=dt); b[::2] = a; a = b[::2]
    elif l=='same': a = np.broadcast_to(a[:1],sh)
    elif l=='overlap':
        if W>1 and len(sh)==2:
            b = r.randint(0,hi,H+W).astype(dt)
            a = np.lib.stride_tricks.as_strided(b,(H,W),(dt.itemsize,dt.itemsize))
    elif l=='odd':
        n = W*dt.itemsize*(3 if depth3(spec) else 1)+spec['pad']
        buf = np.zeros(n*H+8,dtype='u1')
        b = np.ndarray(sh,dtype=dt,buffer=buf,offset=spec['pad']%8,strides=(n,)+a.strides[1:]); b[...] = a; a = b
    elif l=='swapped': a = a.astype(dt.newbyteorder('>'))
    elif l=='F':       a = np.asfortranarray(a)
    elif l=='colrev':  a = a[:,::-1]
    elif l=='colrev1': a = a[:,:1][:,::-1]
    elif l=='readonly': a.flags.writeable = False
    return a
def depth3(spec): return spec['depth']==24

def rows_dense(a):
    if a.ndim==2: return a.strides[1]==a.itemsize
    return a.strides[2]==1 and a.strides[1]==3

def stretch(a):
    lo,hi = int(a.min()),int(a.max())
    if hi==lo: return None
    return ((a.astype(np.float32)-np.float32(lo))*np.float32(255)/np.float32(hi-lo)+np.float32(.5)).astype(np.uint8)

PLYT = dict(float='<f4',uchar='u1')
def read_ply(b):
    '''An independent reader of .ply files: {property: values}'''
    i = b.index(b'end_header\n')+len(b'end_header\n')
    props,n,fmt = [],None,None
    for l in b[:i].decode().split('\n')[1:]:
        f = l.split()
        if   not f: pass
        elif f[0]=='format': fmt = f[1]
        elif f[0]=='element': n = int(f[2])
        elif f[0]=='property': props.append((f[2],f[1]))
    if not b.startswith(b'ply\n'): raise ValueError('magic')
    if fmt=='ascii':
        tok = b[i:].split()
        if len(tok)!=n*len(props): raise ValueError(f'{len(tok)} values; the header says {n}*{len(props)}')
        v = np.array([float(t) for t in tok]).reshape(n,len(props))
        return {p[0]:v[:,k] for k,p in enumerate(props)},fmt
    dt = np.dtype([(p,PLYT[t]) for p,t in props])
    if len(b)-i != n*dt.itemsize: raise ValueError(f'{len(b)-i} bytes of data; the header says {n}*{dt.itemsize}')
    d = np.frombuffer(b[i:],dtype=dt)
    return {p:d[p] for p,t in props},fmt

def gen_image(rng):
    depth = rng.choice((8,8,16,16,24,24))
    big   = rng.random()<.15
    shape = [rng.choice((1,2,3,rng.randrange(1,40),rng.randrange(1,40))) for i in (0,1)] if not big else [rng.randrange(50,300),rng.randrange(50,300)]
    if rng.random()<.05: shape = [rng.randrange(2,20),rng.randrange(2000,9000)]   # rows don't fit into a stdio buffer
    if rng.random()<.02: shape[rng.randrange(2)] = 0
    fmt = rng.choice(dict([(8,('png','pgm','jpg','pgm')),(16,('png','pgm')),(24,('png','ppm','jpg','ppm'))])[depth])
    if rng.random()<.04: fmt = rng.choice(FMT+('bmp','PNG','Pgm','x'))
    return dict(kind='image',depth=depth,shape=shape,fmt=fmt,seed=rng.randrange(1<<30),content=rng.choice(('noise','noise','space','zero','max','ramp')),
                layout=rng.choice(('dense','dense','dense','padded','crop','flip','every2','same','overlap','odd','swapped','F','colrev','colrev1','readonly')),
                pad=rng.randrange(1,12))
def gen_ply(rng):
    return dict(kind='ply',N=rng.choice((0,1,2,rng.randrange(1,60),rng.randrange(300,3000))),color=rng.choice((None,'gray','bgr','gray4','bgr6')),
                binary=rng.random()<.75,seed=rng.randrange(1<<30),wild=rng.random()<.3,
                dtype=rng.choice(('f8','f8','f4')),noncontig=rng.random()<.3)
def make_ply(spec):
    r = np.random.RandomState(spec['seed']); N = spec['N']
    p = r.randn(N,3)*(10.**r.randint(-3,5,(N,3)) if spec['wild'] else 10.)
    p = p.astype(spec['dtype'])
    c = None
    if   spec['color']=='gray': c = r.randint(0,256,N).astype(np.uint8)
    elif spec['color']=='bgr':  c = r.randint(0,256,(N,3)).astype(np.uint8)
    elif spec['color']=='gray4':p = np.concatenate((p,r.randint(0,256,(N,1))),axis=1)
    elif spec['color']=='bgr6': p = np.concatenate((p,r.randint(0,256,(N,3))),axis=1)
    if spec['noncontig']: p = np.repeat(p,2,axis=0)[::2]
    return p,c

def decode(b,fmt):
    '''An independent reader of the lossless formats'''
    if fmt=='png':
        import cv2
        a = cv2.imdecode(np.frombuffer(b,np.uint8),cv2.IMREAD_UNCHANGED)
        if a is None or b[-12:] != b'\0\0\0\0IEND\xaeB`\x82': raise ValueError('broken png')
        return a
    f = b.split(maxsplit=4)[:4]
    w,h,m = (int(x) for x in f[1:])
    i = b.index(f[3],b.index(f[2],b.index(f[1],2)+len(f[1]))+len(f[2]))+len(f[3])+1
    dt = np.dtype('u1') if m<256 else np.dtype('=u2')     # native byte order: see DESIGN.md
    d  = np.frombuffer(b[i:],dtype=dt)
    n  = w*h*(3 if f[0]==b'P6' else 1)
    if len(b)-i != n*dt.itemsize: raise ValueError(f'{len(b)-i} bytes; the header says {n*dt.itemsize}')
    return d.reshape(h,w) if f[0]==b'P5' else d.reshape(h,w,3)[...,::-1]

class C06(core.Property):
    id    = 'C06'
    level = 'exploration'
    rule  = ('A history of image and point-cloud saves, and of loads of what was saved, of files cut short, and of conversions, with a '
             'seeded fault plan (error, short transfer, full disk, interrupted call, failing allocation) on one of the operations, '
             'then everything again without faults in the same process. Compared with the pixels saved, the bytes of a fault-free save, '
             'an independent .ply reader. Non-trivial: a fault fired, or a file was cut, or the layout is not dense, or the input is '
             'not acceptable.')
    runs  = dict(quick=12000,thorough=400000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['mrcal.save_image(), load_image(), write_point_cloud_as_ply()','mrcal_image_..._save() and _load()','libpng, libjpeg, stb_image, numpy, glibc stdio','the file system, below the system-call seam']
    stub  = ['the outcome of chosen system calls','failing malloc() in libmrcal, libpng, libjpeg, stb']
    assumptions = ['ascii .ply files are compared at their precision: 1 decimal','a cut jpg may decode to different pixels, but not to a different size or type']

    def prepare(self,tier):
        import mrcal, cv2
        cv2.setNumThreads(0)
    def generate(self,rng,k,tier):
        n = rng.choice((1,1,2,3))
        items = [gen_ply(rng) if rng.random()<.2 else gen_image(rng) for i in range(n)]
        ops = []
        for i,it in enumerate(items):
            ops.append(['save',i])
            if it['kind']=='image':
                for j in range(rng.choice((1,1,2))):
                    ops.append([rng.choice(('load','load','load8','load16','load24','cut','cut','cut')),i,round(rng.random(),4)])
        target = rng.randrange(len(ops)) if rng.random()<.8 else None
        f = faults.gen(rng,kinds=('err','err','short','do_then_err','do_then_err'),classes=('write','write','open','close','close','read',None)) if target is not None else []
        malloc = []; quota = None
        r = rng.random()
        if target is not None and r<.2: f=[]; malloc = [round(rng.random(),4)]
        elif target is not None and r<.35: f=[]; quota = round(rng.random(),4)
        return dict(items=items,ops=ops,target=target,faults=f,malloc=malloc,quota=quota,existing=rng.random()<.3)

    def _op(self,root,plan,op):
        import mrcal
        it = plan['items'][op[1]]
        f  = f"{root}/{op[1]}.{it.get('fmt','ply')}"
        if op[0]=='save':
            if it['kind']=='ply':
                p,c = make_ply(it)
                mrcal.write_point_cloud_as_ply(f,p,color=c,binary=it['binary'])
            else:
                mrcal.save_image(f,make(it))
            return f,None
        g = f
        if op[0]=='cut': g = f"{root}/cut{op[1]}.{it['fmt']}"
        kw = {'load8':dict(bits_per_pixel=8,channels=1),'load16':dict(bits_per_pixel=16,channels=1),'load24':dict(bits_per_pixel=24,channels=3)}.get(op[0],{})
        return f,mrcal.load_image(g,**kw)

    def _judge(self,plan,op,clean,out,saved):
        '''A result was returned. Is it right?'''
        it = plan['items'][op[1]]
        f,val = out
        if op[0]=='save':
            b = open(f,'rb').read()
            if it['kind']=='ply': return self._judge_ply(it,b)
            if clean is not None and it['fmt'].lower()=='jpg' and b!=clean:
                return 'file',f'{it}: reported success, but the file differs from that made without faults ({len(b)} bytes vs {len(clean)})'
            if it['fmt'].lower() in ('png','pgm','ppm') and b!=clean:
                try: x = decode(b,it['fmt'].lower())
                except Exception as e: return 'file',f'{it}: reported success, but the file is broken: {e!r}'
                a = make(it)
                if not np.array_equal(x,a.astype(a.dtype.newbyteorder('='))): return 'file',f'{it}: reported success, but the pixels in the file are wrong'
            return None
        a = np.array(saved[op[1]])
        a = a.astype(a.dtype.newbyteorder('='))
        jpg = it['fmt'].lower()=='jpg'
        if op[0] in ('load','cut'):
            if val.shape!=a.shape or val.dtype!=a.dtype: return 'type',f'{op} {it}: loaded {val.shape} {val.dtype}; saved {a.shape} {a.dtype}'
            if not jpg and not np.array_equal(val,a): return 'pixels',f'{op} {it}: loaded pixels differ from the saved pixels'
            if jpg and op[0]=='load' and clean is not None and not np.array_equal(val,clean): return 'pixels',f'{op} {it}: loaded pixels differ from a fault-free load'
            if jpg and op[0]=='load' and it['content'] in ('zero','max') and np.abs(val.astype(int)-a).max()>8: return 'pixels',f'{op} {it}: far from what was saved'
        elif op[0]=='load8':
            if val.shape!=a.shape[:2] or val.dtype!=np.uint8: return 'type',f'{op} {it}: loaded {val.shape} {val.dtype}'
            if it['depth']==8 and not jpg and not np.array_equal(val,a): return 'pixels',f'{op} {it}: differ'
            if it['depth']==16:
                s = stretch(a)
                if s is not None and np.abs(s.astype(int)-val.astype(int)).max()>1: return 'stretch',f'{op} {it}: not the stretch-equalized image'
        elif op[0]=='load16':
            if it['depth']!=16: return 'type',f'{op} {it}: should have been rejected'
            if val.shape!=a.shape or val.dtype!=np.uint16 or not np.array_equal(val,a): return 'pixels',f'{op} {it}: differ'
        elif op[0]=='load24':
            if it['depth']==16: return 'type',f'{op} {it}: should have been rejected'
            if val.shape!=a.shape[:2]+(3,) or val.dtype!=np.uint8: return 'type',f'{op} {it}: loaded {val.shape} {val.dtype}'
            if not jpg and not np.array_equal(val, a if it['depth']==24 else np.repeat(a[...,None],3,-1)): return 'pixels',f'{op} {it}: differ'
        return None

    def _judge_ply(self,it,b):
        p,c = make_ply(it)
        try: d,fmt = read_ply(b)
        except Exception as e: return 'ply',f'{it}: success reported, but the file is broken: {e!r}'
        if (fmt!='ascii') != it['binary']: return 'ply',f'{it}: format {fmt}'
        if p.shape[1]==4: p,c = p[:,:3],p[:,3]
        elif p.shape[1]==6: p,c = p[:,:3],p[:,3:]
        xyz = np.array([d[k] for k in 'xyz']).T
        ok = np.array_equal(xyz,p.astype(np.float32)) if it['binary'] else np.all(np.abs(xyz-p)<=.0501+1e-9*np.abs(p))
        if not ok: return 'ply',f'{it}: points differ'
        got = None if c is None else (np.array([d['blue'],d['green'],d['red']]).T if c.ndim==2 else d['intensity']) if ('red' in d or 'intensity' in d) else 'none'
        if c is not None and (isinstance(got,str) or not np.array_equal(np.array(got,dtype=float),c.astype(float))): return 'ply',f'{it}: colors differ'
        return None

    def _must_work(self,plan,op,saved):
        '''Fault-free: does this have to work?'''
        it = plan['items'][op[1]]
        if it['kind']=='ply': return True
        if op[0]=='cut': return False
        if op[0]=='save':
            a = make(it)
            fmt = it['fmt'].lower()
            return a.size>0 and rows_dense(a) and a.dtype.isnative and fmt in dict([(8,('png','pgm','jpg')),(16,('png','pgm')),(24,('png','ppm','jpg'))])[it['depth']]
        if op[1] not in saved: return False
        return op[0]=='load' or (op[0]=='load8') or (op[0]=='load16' and it['depth']==16) or (op[0]=='load24' and it['depth']!=16)

    def _body(self,S,plan,root,clean,dry):
        saved = {}
        log   = []
        outc  = []
        fds0  = S.live_fds
        def one(i,op,faulty):
            it = plan['items'][op[1]]
            f  = f"{root}/{op[1]}.{it.get('fmt','ply')}"
            S.armed = 0
            if op[0]=='cut':
                if not os.path.exists(f): return None
                b = open(f,'rb').read()
                g = f"{root}/cut{op[1]}.{it['fmt']}"
                with open(g,'wb') as ff: ff.write(b[:int(op[2]*len(b))])
            elif op[0]!='save' and op[1] not in saved: return None
            core.shimlib().dst_malloc_forget(); S.malloc_count = 0
            if faulty: S.nev = 0; S.armed = 1
            S.malloc_armed = 1
            err = None; out = None
            try: out = self._op(root,plan,op)
            except Exception as e: err = f'{type(e).__name__}: {e}'[:200]
            S.malloc_armed = 0
            nmalloc = S.malloc_count
            armed,S.armed = S.armed,0
            live = S.malloc_live
            log.append((i,op[0],faulty,None if err is None else err.split(':')[0],S.nev if faulty else 0))
            desc = f'{op} {it}'
            fired = faulty and any(S.fired[k] for k in range(1,10))
            if err is None:
                if op[0]=='save': saved[op[1]] = make(it) if it['kind']=='image' else True
                v = self._judge(plan,op,(clean or {}).get(str(i)) if fired or not dry else None,out,saved)
                if v: return v[0],v[1]+(' (with faults)' if fired else ''),nmalloc,out
            elif not fired and self._must_work(plan,op,saved):
                return 'refused',f'{desc}: fails without a fault: {err}',nmalloc,out
            if S.live_fds != fds0: return 'fdleak',f'{desc}: {S.live_fds-fds0} descriptors leaked ({err})',nmalloc,out
            if live: return 'memleak',f'{desc}: {live} blocks leaked ({err})',nmalloc,out
            return None,None,nmalloc,out
        for i,op in enumerate(plan['ops']):
            faulty = i==plan['target']
            if faulty and plan['existing'] and op[0]=='save':
                S.armed = 0
                it = plan['items'][op[1]]
                with open(f"{root}/{op[1]}.{it.get('fmt','ply')}",'wb') as ff: ff.write(b'previous'*100)
            if faulty and not dry and plan['malloc']: S.malloc_nfail = 1; S.malloc_fail[0] = plan['_malloc']
            r = one(i,op,faulty)
            S.malloc_nfail = 0
            if r is None: outc.append(None); continue
            if dry:
                f = r[3][0] if r[3] else None
                x = None
                if f is not None: x = open(f,'rb').read() if op[0]=='save' else r[3][1]
                outc.append((x,r[2],S.bytes_written))
            if r[0]: return dict(v=r[:2],log=log,outc=outc)
            if faulty and not dry:
                r = one(i,op,False)
                if r and r[0]: return dict(v=('after '+r[0],'after a fault: '+r[1]),log=log,outc=outc)
        return dict(v=None,log=log,outc=outc)

    def execute(self,plan):
        plan  = dict(plan)
        stats = {}
        r0 = core.scratch(); r1 = core.scratch()
        try:
            sim = core.Sim(r0,malloc_libs=MLIBS)
            st,v = sim.run(self._body,plan,r0,None,True)
            if st!='ok': return core.result(core.violation('died',f'without faults: {plan}: {st} {v}'),stats,(st,))
            nt = any(i.get('layout','dense')!='dense' or 0 in i.get('shape',(1,)) for i in plan['items']) or any(o[0]!='save' and o[0]!='load' for o in plan['ops'])
            for o in plan['ops']: stats['probe:'+o[0]] = stats.get('probe:'+o[0],0)+1
            if v['v']: return core.result(core.violation(*v['v']),stats,v['log'],nontrivial=True)
            t = plan['target']
            if t is None or t>=len(v['outc']) or v['outc'][t] is None:
                return core.result(None,stats,v['log'],nontrivial=nt,simtime=len(v['log']))
            ev    = sim.events()
            kw    = dict(faults=faults.place(ev,plan['faults']))
            if plan['malloc']: plan['_malloc'] = int(plan['malloc'][0]*max(v['outc'][t][1],1))
            if plan['quota'] is not None: kw['quota'] = int(plan['quota']*max(v['outc'][t][2],1))
            clean = {str(i):o[0] for i,o in enumerate(v['outc']) if o is not None}
            sim = core.Sim(r1,malloc_libs=MLIBS,**kw)
            st,w = sim.run(self._body2,plan,r1,clean)
            core._merge(stats,faults.stats(sim.fired()))
            if st!='ok': return core.result(core.violation('died',f'{plan}: {st} {w}'),stats,(st,))
            return core.result(core.violation(*w['v']) if w['v'] else None,stats,(w['log'],sim.events()),nontrivial=nt or bool(sim.fired()),simtime=len(ev)+len(w['log']))
        finally:
            core.scratch_remove(r0); core.scratch_remove(r1)
    def _body2(self,S,plan,root,clean):
        S.armed = 0
        return self._body(S,plan,root,clean,False)

    def shrink(self,plan):
        ops = plan['ops']
        for i in range(len(ops)):
            if len(ops)>1:
                t = plan['target']
                if t==i: continue
                yield dict(plan,ops=ops[:i]+ops[i+1:],target=t if t is None or t<i else t-1)
        if plan['target'] is not None: yield dict(plan,target=None,faults=[],malloc=[],quota=None)
        for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
        if plan['existing']: yield dict(plan,existing=False)
        for i,it in enumerate(plan['items']):
            def alt(**k): return dict(plan,items=plan['items'][:i]+[dict(it,**k)]+plan['items'][i+1:])
            if it['kind']=='image':
                if it['layout']!='dense': yield alt(layout='dense')
                if it['content']!='noise': yield alt(content='noise')
                H,W = it['shape']
                if H>1: yield alt(shape=[H//2,W])
                if W>1: yield alt(shape=[H,W//2])
            elif it['N']>0: yield alt(N=it['N']//2)

PROPERTY = C06()
