'''C11: the parallel tools produce what the serial ones do, or fail'''
import json
import os
import numpy as np
from dst import core, faults, simpool, tool

W,H = 56,42
BAD = ('garbage','size','empty','dir')

# (options, needs the TO model). Suffix of the outputs
REPROJECT = [ ([],                                           True ),
              (['--intrinsics-only'],                        True ),
              (['--distance','5'],                           True ),
              (['--plane-n','0.1','0','1','--plane-d','4'],  True ),
              (['--valid-intrinsics-region'],                True ),
              (['--to-pinhole'],                             False),
              (['--to-pinhole','--scale-focal','0.8','--scale-image','0.7'],   False),
              (['--to-pinhole','--fit','centers-horizontal','--valid-intrinsics-region'], False) ]
STEREO    = [ ['--az-fov-deg','60','--el-fov-deg','50'],
              ['--az-fov-deg','60','--el-fov-deg','50','--rectification','LENSMODEL_PINHOLE','--pixels-per-deg','-0.8'],
              ['--az-fov-deg','60','--el-fov-deg','50','--clahe','--write-point-cloud'],
              ['--az-fov-deg','60','--el-fov-deg','50','--force-grayscale','--valid-intrinsics-region','--sgbm-p1','100','--sgbm-p2','400'],
              ['--already-rectified'] ]
MODES = ('gray','color')

# python's os.path.exists() and glob.glob() report 'no such file' if these fail
def probe(e): return e[0] in ('stat','lstat','newfstatat','statx','access','faccessat','faccessat2') or '.' not in os.path.basename(e[1])

class C11(core.Property):
    id    = 'C11'
    level = 'exploration'
    rule  = ('One case: mrcal-reproject-image or mrcal-stereo, with a seeded set of options, 1..7 images (or pairs) in 1..3 globs, some of them '
             'unusable, 1..5 jobs, some of the outputs existing already, with or without --force; then a seeded schedule of the workers, '
             'system-call faults in any of the processes, and C-c. The output directory and the exit status are compared with a reference: '
             'the serial tool, on a healthy disk. Non-trivial: at least 2 switches between workers, or a fault that took effect.')
    runs  = dict(quick=4000,thorough=200000)
    wall  = dict(quick=75.,thorough=1500.)
    real  = ['mrcal-reproject-image','mrcal-stereo','the mrcal library','cv2','libpng, libjpeg','worker processes: forked','kernel file system (tmpfs)']
    stub  = ['multiprocessing.Pool: the assignment of work and the schedule of the workers (CPython\'s semantics)','results of faulted system calls','the clock']
    assumptions = ['worker processes are not killed by others: multiprocessing.Pool never returns if one is',
                   'the processes interact through files only, so switching at file operations is enough']

    def prepare(self,tier):
        import mrcal, cv2, warnings
        warnings.simplefilter('ignore')
        cv2.setNumThreads(0)
        for t in ('mrcal-reproject-image','mrcal-stereo'): tool.compiled(t)
        self.files = core.isolated(self._make_files)
        self.refs  = {}

    def _make_files(self):
        import mrcal, tempfile
        out = {}
        d = core.scratch()
        def save(n,f):
            f(f'{d}/{n}')
            with open(f'{d}/{n}','rb') as x: out[n] = x.read()
        rs = np.random.RandomState(0)
        def model(i,lm,intr,rt):
            m = mrcal.cameramodel(intrinsics=(lm,np.array(intr)),imagersize=(W,H),rt_cam_ref=np.array(rt))
            m.valid_intrinsics_region(np.array(((5,5),(W-7,6),(W-9,H-5),(20,H-3),(6,H-8.))))
            save(i,m.write)
            return m
        m0 = model('m0.cameramodel','LENSMODEL_OPENCV4',(50,51,27,20,.01,-.02,1e-3,2e-3),(0,0,0,0,0,0.))
        m1 = model('m1.cameramodel','LENSMODEL_PINHOLE',(52,50,28,21.),(.01,.02,-.01,.5,.01,0.))
        mr = mrcal.rectified_system((m0,m1),az_fov_deg=60,el_fov_deg=50,rectification_model='LENSMODEL_LATLON')
        for i in range(2): save(f'r{i}.cameramodel',mr[i].write)
        rw,rh = mr[0].imagersize()
        base = np.clip(np.add.outer(np.arange(120)*1.3,np.arange(160)*.8)+rs.rand(120,160)*90,0,255)
        for t in range(5):
            for icam in range(2):
                for mode in MODES:
                    for (w,h,tag) in ((W,H,''),(int(rw),int(rh),'r')):
                        im = base[t*3:t*3+h,20+t*5+icam*4:20+t*5+icam*4+w]
                        if mode=='color': im = np.stack((im,im*.7,255-im),axis=-1)
                        for e in ('png','jpg'): save(f'{tag}{t}-{icam}-{mode}.{e}',lambda f: mrcal.save_image(f,im.astype(np.uint8)))
        save('small.png',lambda f: mrcal.save_image(f,base[:10,:11].astype(np.uint8)))
        save('small.jpg',lambda f: mrcal.save_image(f,base[:10,:11].astype(np.uint8)))
        core.scratch_remove(d)
        return out

    def generate(self,rng,k,tier):
        stereo = rng.random()<.4
        n      = rng.choice((1,2,2,3,3,4,5,7))
        ndirs  = rng.choice((1,1,1,2,3)) if not stereo else 1
        pieces = []
        for i in range(n):
            p = dict(name='%c%d'%(97+i,rng.randrange(100)),t=rng.randrange(5),dir=rng.randrange(ndirs))
            if rng.random()<.08: p['bad'] = rng.choice(BAD); p['badcam'] = rng.randrange(2)
            if rng.random()<.06: p['exists'] = True
            pieces.append(p)
        plan = dict(tool='mrcal-stereo' if stereo else 'mrcal-reproject-image',
                    opt=rng.randrange(len(STEREO if stereo else REPROJECT)),
                    mode=rng.choice(MODES),ext=rng.choice(('png','png','jpg')),
                    pieces=pieces,jobs=rng.choice((1,2,2,3,3,4,5)),force=rng.random()<.3,outdir=rng.random()<.5,
                    tag=stereo and rng.random()<.2,
                    seed=rng.getrandbits(40),burst=rng.choice((1,1,3,10,40)),faults=[],interrupt=None)
        if rng.random()<.06 and n>1: plan['pieces'][1]['clash'] = True     # same file name as [0]
        if rng.random()<.05 and not stereo: plan['twice'] = True
        r = rng.random()
        if r<.35: plan['faults'] = faults.gen(rng,kinds=('err','err','short','do_then_err'),nmax=3,classes=('write','open','read','close',None,None))
        elif r<.42: plan['interrupt'] = int(2**rng.uniform(0,7))-1
        return plan

    ################ the files
    def lay_out(self,d,plan):
        '''-> argv, {output: template or None}, the existing files'''
        stereo = plan['tool']=='mrcal-stereo'
        e      = plan['ext']
        F      = self.files
        def put(n,b):
            os.makedirs(os.path.dirname(f'{d}/{n}'),exist_ok=True)
            with open(f'{d}/{n}','wb') as f: f.write(b)
        names = ('m0.cameramodel','m1.cameramodel','r0.cameramodel','r1.cameramodel')
        for m in names: put(m,F[m])
        os.makedirs(f'{d}/out')
        argv = list(STEREO[plan['opt']] if stereo else REPROJECT[plan['opt']][0])
        if plan['jobs']>1: argv += ['-j',str(plan['jobs'])]
        if plan['force']:  argv += ['--force']
        outs = {}
        olds = []
        pieces = plan['pieces']
        rect   = 'r' if stereo and '--already-rectified' in argv else ''
        def put_image(n,p,icam):
            b = p.get('bad') if not stereo or p.get('badcam')==icam else None
            if   b=='garbage': put(n,b'this is not an image'*20)
            elif b=='size':    put(n,F['small.'+e])
            elif b=='empty':   put(n,b'')
            elif b=='dir':     os.makedirs(f'{d}/{n}')
            else:              put(n,F[f'{rect}{p["t"]}-{icam}-{plan["mode"]}.{e}'])
        od = 'out' if plan['outdir'] else None
        if stereo:
            tag = '-T' if plan['tag'] else ''
            if plan['tag']:  argv += ['--tag','T']
            argv += ['--outdir','out'] if od else []
            for i,p in enumerate(pieces):
                nm = pieces[0]['name'] if p.get('clash') else p['name']
                x  = f'z{i}/' if any(q.get('clash') for q in pieces) else ''
                put_image(f'in/{x}L{nm}.{e}',p,0)
                put_image(f'in/{x}R{nm}.{e}',p,1)
                for s in self.suffixes(plan):
                    o = f'{od or "."}/{s.replace("@",nm)}'
                    f,ee = os.path.splitext(o)
                    outs.setdefault(os.path.normpath(f'{f}{tag}{ee}'),[]).append((i,p['t'],s))
            if not rect:
                for i in range(2): outs[os.path.normpath(f'{od or "."}/rectified{i}{tag}.cameramodel')] = [(-1,-1,f'rectified{i}.cameramodel')]
            x = '*/' if any(q.get('clash') for q in pieces) else ''
            argv += ['r0.cameramodel','r1.cameramodel'] if rect else ['m0.cameramodel','m1.cameramodel']
            argv += [f'in/{x}L*.{e}',f'in/{x}R*.{e}']
        else:
            argv += ['--outdir','out'] if od else []
            dirs  = sorted(set(p['dir'] for p in pieces)|({9} if any(p.get('clash') for p in pieces) else set()))
            for i,p in enumerate(pieces):
                nm = pieces[0]['name'] if p.get('clash') else p['name']
                dd = f'in{9 if p.get("clash") else p["dir"]}'
                put_image(f'{dd}/{nm}.{e}',p,0)
                outs.setdefault(os.path.normpath(f'{od or dd}/{nm}-reprojected.{e}'),[]).append((i,p['t'],f'@-reprojected.{e}'))
            argv += ['m0.cameramodel']+(['m1.cameramodel'] if REPROJECT[plan['opt']][1] else [])
            argv += [f'in{x}/*.{e}' for x in dirs]*(2 if plan.get('twice') else 1)
        for o,l in outs.items():
            if any(i>=0 and pieces[i].get('exists') and o not in olds for i,t,s in l):
                if stereo and core.digest(o)[0]>'7': continue     # some of the outputs of this piece
                # an output that looks like an input to the reprojection would be picked up by its glob
                if not stereo and not od: continue
                olds.append(o); put(o,b'OLD'*50)
        return argv,outs,olds

    def suffixes(self,plan):
        o = STEREO[plan['opt']]
        s = ['L@-disparity.png','L@-disparity-uint16-scale16.png','L@-range.png']
        if '--already-rectified' not in o: s += ['L@-rectified.png','R@-rectified.png']
        if '--write-point-cloud' in o:     s += ['L@-points.ply']
        return s

    def ref(self,plan):
        '''The serial tool on a healthy disk: {(t,suffix): contents}, stdout'''
        k = (plan['tool'],plan['opt'],plan['mode'],plan['ext'])
        if k not in self.refs:
            p = dict(plan,pieces=[dict(name='%c0'%(97+t),t=t,dir=0) for t in range(5)],jobs=1,force=False,outdir=True,tag=False,faults=[],interrupt=None,twice=False)
            d = core.scratch()
            try:
                argv,outs,_ = self.lay_out(d,p)
                sim = core.Sim(d,arm=False,timeout=100.)
                st,v = sim.run(self._run,p,argv,d)
                if st!='ok' or v[0]!=0:
                    raise core.HarnessError(f'the serial tool failed: {k} {argv} {st} {v} {open(d+"/STDERR").read()[-2000:]}')
                r = {}
                for o,l in outs.items():
                    with open(f'{d}/{o}','rb') as f: r[l[0][1:]] = f.read()
                with open(f'{d}/STDOUT') as f: so = f.read()
                self.refs[k] = r,so
            finally: core.scratch_remove(d)
        return self.refs[k]

    def _run(self,S,plan,argv,d):
        sch = simpool.Scheduler(core.rng_for('pool',plan['seed']),burst=plan['burst'],interrupt=plan['interrupt'])
        sch.install(core.shimlib())
        try: st = tool.run(S,plan['tool'],argv,d)
        except simpool.Stuck: st = 'stuck'
        return st,sch.switches,sch.trace,sch.interrupted,sch.died

    def snapshot(self,d,skip=()):
        out = {}
        for p,dd,ff in os.walk(d):
            for f in ff:
                n = os.path.relpath(f'{p}/{f}',d)
                if n in ('STDOUT','STDERR') or n in skip: continue
                with open(f'{p}/{f}','rb') as x: out[n] = x.read()
        return out

    def one(self,plan,place):
        d = core.scratch()
        try:
            argv,outs,olds = self.lay_out(d,plan)
            before = self.snapshot(d)
            sim    = core.Sim(d,faults=place,timeout=100.,nofault_probes=True)
            st,v   = sim.run(self._run,plan,argv,d)
            after  = self.snapshot(d)
            def text(n):
                try:
                    with open(f'{d}/{n}',errors='replace') as f: return f.read()
                except OSError: return ''
            return dict(argv=argv,outs=outs,olds=olds,before=before,after=after,st=st,v=v,events=sim.events(),fired=sim.fired(),
                        stdout=text('STDOUT'),stderr=text('STDERR').replace(d,'ROOT'))
        finally: core.scratch_remove(d)

    def execute(self,plan):
        place = []
        if plan['faults']:
            r0 = self.one(dict(plan,faults=[],interrupt=None),[])
            if r0['st']=='ok': place = faults.place(r0['events'],plan['faults'],skip=probe)
        r     = self.one(plan,place)
        stats = faults.stats(r['fired'])
        stats['probe:'+plan['tool']] = 1
        ref,refout = self.ref(plan)
        viol  = self.judge(plan,r,ref,refout)
        sw    = r['v'][1] if r['st']=='ok' else 0
        if r['st']=='ok':
            stats['switches between workers'] = sw
            if r['v'][3]: stats['fault:sigint'] = stats.get('fault:sigint',0)+1
            if r['v'][0]==0: stats['probe:succeeded'] = 1
            else:            stats['probe:failed'] = 1
        log = (r['st'],r['v'],sorted((n,core.digest(b)) for n,b in r['after'].items()),r['events'],r['stdout'])
        return core.result(viol,stats,log,nontrivial=sw>=2 or bool(r['fired']),
                           sig=(plan['tool'],plan['opt'],plan['mode'],plan['ext'],[(p['t'],p.get('bad')) for p in plan['pieces']],place,r['v'][2] if r['st']=='ok' else r['st']))

    def judge(self,plan,r,ref,refout):
        tool_ = plan['tool']
        V = lambda cls,msg: core.violation(cls,f'{tool_} {" ".join(r["argv"])}: {msg}; status {r["v"][0] if r["st"]=="ok" else (r["st"],r["v"])}; stderr: {r["stderr"][-700:]}',key=f'{tool_}/{cls}')
        if r['st']!='ok': return V('died',f'{r["st"]} {r["v"]}')
        status,sw,trace,interrupted,died = r['v']
        outs,olds,before,after = r['outs'],r['olds'],r['before'],r['after']
        if status=='stuck': return V('stuck','the tool waits forever')
        # inputs
        for n,b in before.items():
            if n in olds: continue
            if after.get(n) != b: return V('input-modified',f'{n} was {"modified" if n in after else "deleted"}')
        for n in after:
            if n not in before and n not in outs: return V('extra-file',f'{n} was made')
        pieces = plan['pieces']
        bad    = {i for i,p in enumerate(pieces) if p.get('bad')}
        clash  = any(p.get('clash') for p in pieces) and (tool_=='mrcal-stereo' or plan['outdir'])
        want   = {o:{ref[(t,s)] for i,t,s in l if i not in bad} for o,l in outs.items()}
        old    = b'OLD'*50
        disturbed = interrupted or any(k for k in r['fired'])
        for o,w in want.items():
            x = after.get(o)
            if o in olds and not plan['force']:
                if x != old: return V('overwritten',f'{o} existed, and was {"overwritten" if x is not None else "deleted"} without --force')
                continue
            if x is None or x in w or (o in olds and x==old): continue
            # an interrupted write
            if (disturbed or status!=0) and any(y.startswith(x) for y in w): continue
            # a wrong thing
            return V('wrong-output',f'{o} has {len(x)} bytes: not what the serial tool makes ({[len(y) for y in w]} bytes)')
        if status==0:
            if interrupted:    return V('interrupted-success','success was reported, after C-c')
            if bad:            return V('failed-piece-success',f'success was reported, although {sorted((p["name"],p["bad"]) for p in pieces if p.get("bad"))} are unusable')
            if clash:          return V('clash-success','success was reported, although two inputs have one output')
            for o,w in want.items():
                if o in olds and not plan['force']:
                    if tool_=='mrcal-reproject-image': return V('exists-success',f'success was reported, although {o} existed')
                    if o not in r['stdout'] and os.path.basename(o) not in r['stdout']: return V('exists-silent',f'{o} existed and was not written; nothing was said')
                    continue
                if after.get(o) not in w: return V('missing-output',f'success was reported, but {o} is {"missing" if o not in after else "incomplete or wrong"}')
            a = [l for l in r['stdout'].splitlines() if not l.startswith('##')]
            b = [l for l in refout.splitlines() if not l.startswith('##')]
            if tool_=='mrcal-reproject-image' and a!=b: return V('wrong-stdout',f'the standard output is not that of the serial tool')
        elif not disturbed and not bad and not clash and not (olds and not plan['force'] and tool_=='mrcal-reproject-image'):
            return V('spurious-failure','it failed, with nothing being wrong')
        return None

    def shrink(self,plan):
        P = plan['pieces']
        for i in range(len(P)):
            if len(P)>1: yield dict(plan,pieces=P[:i]+P[i+1:])
        for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
        if plan['interrupt'] is not None: yield dict(plan,interrupt=None)
        if plan['jobs']>2: yield dict(plan,jobs=2)
        for i,p in enumerate(P):
            for k in ('bad','exists','clash'):
                if p.get(k): yield dict(plan,pieces=P[:i]+[{a:b for a,b in p.items() if a!=k}]+P[i+1:])
        for k,v in (('opt',0),('mode','gray'),('ext','png'),('burst',40),('tag',False),('outdir',True),('force',False)):
            if plan[k]!=v: yield dict(plan,**{k:v})
        for s in range(4):
            if plan['seed']!=s: yield dict(plan,seed=s)

PROPERTY = C11()
