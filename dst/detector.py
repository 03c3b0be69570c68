'''A simulated chessboard detector: scenes, programs, and an independent model of
what compute_chessboard_corners() should return'''
import copy
import os
import sys
import numpy as np
from . import core, simproc

def random_scene(rng):
    '''The images a detector would see, and what it would say about them'''
    W     = rng.choice((3,3,3,3,4,4,5,10))
    Ncam  = rng.choice((1,1,2,3))
    d     = rng.choice(('','','img/'))
    Nf    = rng.randrange(2,9)
    frames= sorted(rng.sample(range(200),Nf)) if rng.random()<.5 else list(range(Nf))
    if len(frames)<3: frames = [1,9]+[150]
    images = []
    for c in range(Ncam):
        for f in frames:
            what = rng.choice(('full','full','full','full','none','holes','few'))
            if f in (frames[0],frames[-1]): what = rng.choice(('full','full','holes'))
            images.append([c,f,what,rng.randrange(1<<30)])
    if rng.random()<.3: rng.shuffle(images)
    return dict(W=W,Ncam=Ncam,dir=d,images=images,
                cols=rng.choice((2,3,3,3)), style=rng.choice((0,0,1,2,3)), stray=rng.random()<.2)

def filename(scene,c,f): return f"{scene['dir']}frame{f:03d}-cam{c}.jpg"
def globs(scene): return tuple(f"{scene['dir']}frame*-cam{c}.jpg" for c in range(scene['Ncam']))

def points(scene,image):
    '''[(x,y,level)] ; None for an undetected point'''
    c,f,what,s = image
    W = scene['W']
    r = core.rng_for('points',s)
    if what=='none': return None
    out = []
    nhole = 0
    for i in range(W*W):
        hole = (what=='holes' and r.random()<.15 and nhole<W*W-2*W-1) or (what=='few' and i>=2*W)
        if hole: out.append(None); nhole += 1
        else:    out.append((round(r.uniform(0,3000),r.choice((0,3,6))),round(r.uniform(0,3000),3),r.choice((0,0,0,1,2))))
    return out

def output(scene):
    '''What the detector prints'''
    st  = scene['style']
    sep = '   ' if st==2 else ' '
    o   = ''
    if st!=1: o += '## generated with\n# filename x y' + (' level' if scene['cols']==3 else '') + '\n'
    for im in scene['images']:
        fn = filename(scene,im[0],im[1])
        pp = points(scene,im)
        if pp is None:
            o += sep.join((fn,'-','-') + (('-',) if scene['cols']==3 else ())) + '\n'
            continue
        for p in pp:
            if p is None: ff = ('-','-','-')
            else:         ff = (repr(p[0]),repr(p[1]),str(p[2]))
            o += sep.join((fn,)+ff[:scene['cols']]) + '\n'
    if scene['stray']: o += sep.join(('unrelated.png','-','-') + (('-',) if scene['cols']==3 else ())) + '\n'
    if st==3: o = o[:-1]      # no trailing newline
    return o

def expected(scene, minpts=None):
    '''(observations, indices_frame_camera, filenames)'''
    W = scene['W']
    if minpts is None: minpts = 2*W
    got = []
    for im in scene['images']:
        pp = points(scene,im)
        if pp is None: continue
        g = -np.ones((W*W,3))
        n = 0
        for i,p in enumerate(pp):
            if p is None: continue
            g[i] = (p[0],p[1],1. if scene['cols']==2 else 2.**-p[2])
            n += 1
        if n > minpts: got.append((im[1],im[0],filename(scene,im[0],im[1]),g.reshape(W,W,3)))
    got.sort(key=lambda x:x[:2])
    ff  = sorted(set(x[0] for x in got))
    idx = [(ff.index(x[0]),x[1]) for x in got]
    return (np.array([x[3] for x in got]), np.array(idx,dtype=np.int32).reshape(-1,2), [x[2] for x in got])

def sane(scene):
    '''Will a complete detection be accepted?'''
    o,idx,f = expected(scene)
    n = 2 if scene['Ncam']>1 else 1
    return all(np.sum(idx[:,1]==c)>=n for c in range(scene['Ncam'])) if len(f) else False

def same(a,b,strip=None):
    '''Compare two results of the detection'''
    if np.asarray(a[0]).shape!=np.asarray(b[0]).shape or not np.array_equal(a[0],b[0]): return 'observations differ'
    if not np.array_equal(a[1],b[1]): return 'indices_frame_camera differ'
    if len(a[2])!=len(b[2]): return 'different file lists'
    return None

def random_program(rng, scene, how=None):
    '''A detector run as [ops...]. Returns dict(ops, kind)

    kind: ok, fail, malformed, spawn
    '''
    text = output(scene)
    kind = how or rng.choice(('ok',)*4+('fail',)*4+('malformed','spawn'))
    if kind=='spawn':
        return dict(kind=kind,spawn=rng.choice((2,13,12,11,24)),ops=[])
    nerr = rng.choice((0,0,1,40,70000,70000,200000))
    err  = ''.join(rng.choice('abc xyz\n') for i in range(min(nerr,64)))
    err  = (err*(nerr//64+1))[:nerr] if nerr else ''
    if nerr and rng.random()<.2: err = err[:-1]+'\xff'
    if kind=='fail':
        text = text[:rng.choice((0,len(text),rng.randrange(len(text)+1),text.rfind('\n',0,rng.randrange(1,len(text)))+1))]
        end  = rng.choice((['exit',1],['exit',255],['exit',2],['kill',9],['kill',11],['kill',6],['exit',127]))
    else:
        end = ['exit',0]
    if kind=='malformed':
        r = rng.randrange(6)
        if text[-1:]!='\n': text += '\n'
        if   r==0: text = text+'garbage\n'
        elif r==1: text = '   \n'+text if rng.random()<.5 else text.replace(' ','\n',3)
        elif r==2: text = text.rstrip('\n').rsplit('\n',1)[0].replace('- -','1 2') + '\nxxx.png 1 2 3 4\n'
        elif r==3: text = text+'frame000-cam0.jpg abc 2 0\n'
        elif r==4: text = text+'\xe9.jpg 1 2 0\n'
        else:
            im = next(i for i in scene['images'] if i[2] in('full','holes'))
            text = text+'\n'.join(f"{filename(scene,im[0],198)} 1 2" for i in range(2))+'\n'
    # interleave
    ops = []
    a,b = text,err
    while a or b:
        if a and (not b or rng.random()<.5):
            n = rng.choice((1,80,4096,len(a),len(a))); ops.append(['out',a[:n]]); a = a[n:]
        else:
            n = rng.choice((1,80,65536,65537,len(b),len(b))); ops.append(['err',b[:n]]); b = b[n:]
        if rng.random()<.1: ops.append(['sleep',rng.choice((.01,1.,3600.))])
        if len(ops)>40:
            ops += [['out',a],['err',b]]; break
    ops.append(end)
    return dict(kind=kind,ops=ops,spawn=None)

def normalise(text):
    '''The data in a corners file'''
    return [l.split() for l in text.split('\n') if l.strip() and not l.lstrip().startswith('#')]

def detect(S, plan, attempt, world_out=None, jobs=1):
    '''Runs in the simulated process'''
    import gc, tempfile, mrcal
    seed = attempt['seed']
    W = None
    count = [0]
    def hook(what):
        count[0] += 1
        if attempt.get('sigint_at')==count[0]:
            raise KeyboardInterrupt()
    W = simproc.World(core.rng_for('world',seed),
                      [copy.deepcopy(attempt['program'])] if attempt.get('program') else [],
                      cap=attempt.get('cap',65536),hook=hook)
    W.install()
    if attempt.get('tmp'):
        os.environ['TMPDIR'] = os.path.join(os.getcwd(),attempt['tmp'])
        tempfile.tempdir = os.environ['TMPDIR']
    kw = {}
    scene = plan['scene']
    exc = res = None
    fds0 = S.live_fds
    try:
        res = mrcal.compute_chessboard_corners(scene['W'],scene['W'],globs_per_camera=globs(scene),
                                               corners_cache_vnl=plan['cache'],jobs=jobs)
    except simproc.Deadlock:
        exc = ('Deadlock','','')
    except Exception as e:
        exc = (type(e).__name__,str(e).replace(os.getcwd(),'ROOT')[:300],'')
    W.hook = lambda what: None
    gc.collect()
    return dict(res=res,exc=exc,launched=len(W.launched),left=len(W.programs),unreaped=len(W.unreaped()),
                open_pipes=W.open_pipes,fds=S.live_fds-fds0,steps=count[0],time=W.time,hooks=count[0],
                wlog=W.log,argv=[p.args for p in W.launched])
