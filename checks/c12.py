'''C12: the batch converters are complete or fail, and never clobber'''
import io
import json
import os
import signal
import numpy as np
from dst import core, faults, models, pipes, tool

W,H = 640,480
RT  = (.01,-.02,.03,.5,-.1,.2)
# kind: (lensmodel, intrinsics, rt_cam_ref)
KINDS = dict(
    pinhole = ('LENSMODEL_PINHOLE',  (500,510,321,243.5),                                  RT),
    pinhole0= ('LENSMODEL_PINHOLE',  (501.5,510.25,320,243.5),                             (0,0,0,0,0,0)),
    opencv4 = ('LENSMODEL_OPENCV4',  (500.123456,510.5,321,243.5,.01,-.02,1e-3,2e-3),      (.2,.1,-.3,1,2,-3)),
    opencv5 = ('LENSMODEL_OPENCV5',  (600.5,610.5,300,250.5,-.1,.05,1e-3,2e-3,1e-2),       RT),
    opencv8 = ('LENSMODEL_OPENCV8',  (500,510.5,321,243.5,.01,-.02,1e-3,2e-3,1e-3,2e-3,1e-3,-2e-3), (-.02,0,.03,1.5,1e-3,7)),
    cahvor  = ('LENSMODEL_CAHVOR',   (500,510.5,321,243.5,.01,-.02,1e-3,2e-3,1e-3),        RT),
    cahvor0 = ('LENSMODEL_CAHVOR',   (520,530.5,311,233.5,.02,-.01,-1e-3,1e-3,2e-3),       (0,0,0,0,0,0)),
    cahvore = ('LENSMODEL_CAHVORE_linearity=0.40',(500,510.5,321,243.5,.01,-.02,1e-3,2e-3,1e-3,1e-3,2e-3,1e-3), RT),
    stereographic = ('LENSMODEL_STEREOGRAPHIC', (300,310,321,243.5),                       RT))
YAML   = ('ros0','ros1','ros2','ros3','ros4','pinhole','pinhole0','opencv4','opencv5','opencv8')
CAHVOR = ('pinhole','pinhole0','opencv4','opencv5','opencv8','cahvor','cahvor0','cahvore')
KALIBR = ('pinhole','pinhole0','opencv4','cahvor','cahvor0','cahvore')
BAD    = ('garbage','empty','missing','dir','cut')
BATCH  = {'mrcal-to-cahvor':  ('.cameramodel','.cahvor',     CAHVOR),
          'mrcal-from-cahvor':('.cahvor',     '.cameramodel',CAHVOR),
          'mrcal-from-ros':   ('.yaml',       '.cameramodel',YAML) }
# input, options, lensmodel
CONVERT = [ ('pinhole',['--sampled','--intrinsics-only','--gridn','8','7'],          'LENSMODEL_OPENCV4'),
            ('opencv4',['--sampled','--gridn','8','7','--distance','3,100'],         'LENSMODEL_OPENCV5'),
            ('opencv8',['--sampled','--gridn','9','7','--distance','3,100','--num-trials','2','--radius','0'],'LENSMODEL_CAHVOR'),
            ('opencv4',['--sampled','--intrinsics-only'],                            'LENSMODEL_OPENCV4'),
            ('opt0',   [],                                                           'LENSMODEL_OPENCV5'),
            ('opt0',   ['--all'],                                                    'LENSMODEL_OPENCV8'),
            ('opt1',   ['--monocular'],                                              'LENSMODEL_OPENCV4_'),     # invalid
            ('opt1',   ['--monocular','--radius','-100'],                            'LENSMODEL_PINHOLE'),
            ('opt3',   ['--all'],                                                    'LENSMODEL_OPENCV4') ]
PIPES = ('mrcal-rotate-corners','mrcal-is-within-valid-intrinsics-region')

def rot(*r):
    '''A rotation matrix from a Rodrigues vector'''
    r  = np.array(r,dtype=float)
    th = np.sqrt(r@r)
    if th==0: return np.eye(3)
    x,y,z = r/th
    K = np.array(((0,-z,y),(z,0,-x),(-y,x,0)))
    return np.eye(3) + np.sin(th)*K + (1-np.cos(th))*(K@K)

def ros(key,style):
    '''Calibrations of the rectified stereo pairs that ROS makes: (text, (lensmodel, intrinsics, rt_cam_ref)).

    rt_cam_ref is in the rectified coordinates: x_rect = R x_cam ; P = K_rect [I | t], so the camera sits at -t

    '''
    r = core.rng_for('ros',key)
    u = lambda a,b: round(r.uniform(a,b),4)
    fx,fy,cx,cy = u(300,700),u(300,700),u(200,400),u(150,300)
    n  = 8 if r.random()<.4 else 5
    D  = [u(-.05,.05) for i in range(n)]
    R  = rot(u(-.2,.2),u(-.2,.2),u(-.2,.2)) if key!=1 else np.eye(3)
    f  = fx+u(20,90)
    b  = u(-3,3)
    P  = np.array(((f,0,cx+3,-f*b),(0,f,cy-2,0),(0,0,1,0.)))
    t  = np.array((b,0,0))
    if key==2:      # this means "nothing known"
        P[:] = 0; t[:] = 0
    rt = (rot_to_r(R.T),-R.T@t)
    M  = dict(width=W,height=H,distortion_model='plumb_bob' if n==5 else 'rational_polynomial')
    K  = [fx,0,cx,0,fy,cy,0,0,1]
    def a(x,shape):
        x = [float(y) for y in np.ravel(x)]
        if style==0: return dict(rows=shape[0],cols=shape[1],data=x)
        if style==1: return x
        return [x[i*shape[1]:(i+1)*shape[1]] for i in range(shape[0])]
    if style==0:
        M = dict(image_width=W,image_height=H,camera_name='x',camera_matrix=a(K,(3,3)),distortion_model=M['distortion_model'],
                 distortion_coefficients=a(D,(1,n)),rectification_matrix=a(R,(3,3)),rotation=a(R,(3,3)),projection_matrix=a(P,(3,4)))
    else: M.update(K=a(K,(3,3)),D=[float(x) for x in D],R=a(R,(3,3)),P=a(P,(3,4)))
    if key==3: M = {k:v for k,v in M.items() if k not in ('R','rotation','rectification_matrix')}; rt = (np.zeros(3),-t)
    import yaml
    text = json.dumps(M) if key==4 else yaml.safe_dump(M,default_flow_style=None if style else False)
    return text.encode(),('LENSMODEL_OPENCV%d'%n,(fx,fy,cx,cy,*D),(*rt[0],*rt[1]))

def rot_to_r(R):
    th = np.arccos(np.clip((np.trace(R)-1)/2,-1,1))
    if th<1e-12: return np.zeros(3)
    return th/(2*np.sin(th))*np.array((R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1]))

ROS = {f'ros{i}':ros(i,i%3) for i in range(5)}

def probe(e): return e[0] in ('stat','lstat','newfstatat','statx','access','faccessat','faccessat2')

class C12(core.Property):
    id    = 'C12'
    level = 'exploration'
    rule  = ('One case: a converter, a seeded batch of its inputs (in several directories, files and standard input; some are unusable, some are in the target '
             'format already, some of the outputs exist), seeded options, then a seeded list of system-call faults, a full disk, or a crash at any '
             'system call. For the tools that are shell pipelines: one of the stages dies, or its output is lost. The files and the standard output are '
             'compared to the fault-free run, and that to a model of what the conversion should do. Non-trivial: a fault took effect, or the batch '
             'had an obstacle.')
    runs  = dict(quick=4000,thorough=200000)
    wall  = dict(quick=75.,thorough=1500.)
    real  = ['mrcal-to-cahvor','mrcal-from-cahvor','mrcal-from-ros','mrcal-to-kalibr','mrcal-from-kalibr','mrcal-graft-models','mrcal-convert-lensmodel',
             'mrcal-reproject-points','mrcal-cull-corners','mrcal-rotate-corners','mrcal-is-within-valid-intrinsics-region','the mrcal library','vnlog tools','kernel file system (tmpfs)']
    stub  = ['results of faulted system calls','the stage of a shell pipeline that is made to fail: the real tool with its output cut','the clock, numpy\'s random seed']
    assumptions = ['stat-like calls don\'t fail: os.path.exists() reports "no" if they do','a crash is that of the process: what was written is kept']

    ################ the inputs
    def prepare(self,tier):
        import mrcal, warnings, yaml, mrcal.cahvor
        warnings.simplefilter('ignore')
        self.problems = models.default_problems()
        for t in (*BATCH,'mrcal-to-kalibr','mrcal-from-kalibr','mrcal-graft-models','mrcal-convert-lensmodel','mrcal-reproject-points',
                  'mrcal-cull-corners','mrcal-is-within-valid-intrinsics-region'): tool.compiled(t)
        self.files = core.isolated(self._make_files)
        self.refs  = {}

    def _make_files(self):
        import mrcal
        out = {}
        d = core.scratch()
        for k,(lm,intr,rt) in KINDS.items():
            m = mrcal.cameramodel(intrinsics=(lm,np.array(intr,dtype=float)),imagersize=(W,H),rt_cam_ref=np.array(rt,dtype=float))
            if k in ('opencv4','cahvor'): m.valid_intrinsics_region(np.array(((50,50),(W-70,60),(W-90,H-50),(200,H-30),(60,H-80.))))
            for e in ('.cameramodel','.cahvor','.yaml'):
                if e=='.cahvor' and k not in CAHVOR or e=='.yaml' and k not in YAML: continue
                m.write(f'{d}/{k}{e}')
                with open(f'{d}/{k}{e}','rb') as f: out[k+e] = f.read()
        for i in (0,1,3):
            p,icam = self.problems[i]
            m = mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=icam)
            m.write(f'{d}/opt.cameramodel')
            with open(f'{d}/opt.cameramodel','rb') as f: out[f'opt{i}.cameramodel'] = f.read()
        core.scratch_remove(d)
        for k in ROS: out[k+'.yaml'] = ROS[k][0]
        return out

    def generate(self,rng,k,tier):
        r = rng.random()
        t = ('mrcal-to-cahvor' if r<.15 else 'mrcal-from-cahvor' if r<.30 else 'mrcal-from-ros' if r<.42 else 'mrcal-to-kalibr' if r<.52 else
             'mrcal-from-kalibr' if r<.66 else 'mrcal-graft-models' if r<.74 else 'mrcal-convert-lensmodel' if r<.84 else
             'mrcal-reproject-points' if r<.89 else 'mrcal-cull-corners' if r<.94 else PIPES[0] if r<.97 else PIPES[1])
        plan = dict(tool=t,force=rng.random()<.3,outdir=rng.choice((None,None,None,'out','in0')),faults=[],quota=None,empty=rng.random()<.25)
        bad  = lambda p: rng.choice(BAD) if rng.random()<p else None
        if t in BATCH:
            kinds = BATCH[t][2]
            plan['inputs'] = []
            for i in range(rng.choice((1,1,2,2,3,4,6))):
                x = dict(kind=rng.choice(kinds),name='%c%d'%(97+i,rng.randrange(30)),dir=rng.randrange(2),bad=bad(.07),
                         exists=rng.random()<.12,target=rng.random()<.1)
                if rng.random()<.05: x['stdin'] = True
                if rng.random()<.06 and i: x['clash'] = True    # the name of input 0
                if rng.random()<.04: x['dot'] = True
                if x['bad']=='cut' and t!='mrcal-to-cahvor': x['bad'] = 'garbage'     # those formats have no end marker
                plan['inputs'].append(x)
            for i,x in enumerate(plan['inputs']):
                if any(y.get('stdin') for y in plan['inputs'][:i]) and rng.random()<.9: x.pop('stdin',None)
        elif t=='mrcal-to-kalibr':
            plan['inputs'] = [dict(kind=rng.choice(KALIBR if rng.random()<.95 else ('opencv8','stereographic')),bad=bad(.04)) for i in range(rng.choice((1,2,2,3,5)))]
            if rng.random()<.3: plan['inputs'][rng.randrange(len(plan['inputs']))]['stdin'] = True
            plan['cam0'] = rng.random()<.3
        elif t=='mrcal-from-kalibr':
            plan['cams'] = [dict(kind=rng.choice(KALIBR),T=rng.random()<.8,seed=rng.randrange(5),exists=rng.random()<.12,
                                 bad=rng.choice(('Tshape','Trow','Trot','model','missing','dist')) if rng.random()<.05 else None) for i in range(rng.choice((1,2,2,3,4)))]
            plan.update(inline=rng.random()<.15,cam0=rng.random()<.3,camera=rng.choice((None,None,None,0,1,9)),stdin=rng.random()<.2,bad=bad(.05),
                        ext=rng.choice(('.yaml','.yaml','.yaml','','.CAMERAMODEL')))
        elif t=='mrcal-graft-models':
            plan['inputs'] = [dict(kind=rng.choice([*KINDS,'opt0','opt3']),bad=bad(.06)) for i in range(2)]
            if rng.random()<.4: plan['inputs'][rng.randrange(2)]['stdin'] = True
            plan['implied'] = rng.random()<.15
        elif t=='mrcal-convert-lensmodel':
            plan.update(opt=rng.randrange(len(CONVERT)),stdin=rng.random()<.2,bad=bad(.05),exists=rng.random()<.3,which=rng.randrange(3))
        elif t=='mrcal-reproject-points':
            plan.update(inputs=[dict(kind=rng.choice(list(KINDS)),bad=bad(.05)) for i in range(2)],n=rng.choice((1,2,5,2000)),only=rng.random()<.4,seed=rng.randrange(1000))
        else:
            plan.update(opt=rng.randrange(6),n=rng.choice((1,2,3,5,9)),seed=rng.randrange(1000),gridn=rng.choice((2,3,4)),bad=bad(.1))
            plan['kind'] = rng.choice(('opencv4','cahvor','cahvor','pinhole'))
        r = rng.random()
        if t in PIPES:
            if r<.7: plan['stage'] = pipes.gen(rng,4 if t==PIPES[1] else 3)
            if t==PIPES[1] and r>.85: plan['child'] = rng.choice((0,0,1,2))
            return plan
        if r<.45:   plan['faults'] = faults.gen(rng,kinds=('err','err','short','do_then_err'),nmax=3,classes=('write','open','read','close',None,None))
        elif r<.70: plan['faults'] = faults.gen(rng,kinds=('crash_before','crash_after','torn_crash'),nmax=1,classes=('write','open','close',None,None))
        elif r<.78: plan['quota']  = round(rng.random(),3)
        return plan

    ################ laying out
    def content(self,kind,ext,bad=None,cut=.6):
        b = self.files[kind+ext]
        if   bad=='garbage': return b'this is not a model\n'*20
        elif bad=='empty':   return b''
        elif bad=='cut':     return b[:int(len(b)*cut)//2] # half of it, at most
        return b

    def lay_out(self,d,plan):
        '''-> argv, dict(outs={path: key of the content or None}, olds, fail=must it fail?, stdin=file)'''
        def put(n,b):
            os.makedirs(os.path.dirname(f'{d}/{n}'),exist_ok=True)
            with open(f'{d}/{n}','wb') as f: f.write(b)
        def put_model(n,kind,ext,bad):
            if bad=='missing': return
            if bad=='dir': os.makedirs(f'{d}/{n}'); return
            put(n,self.content(kind,ext,bad))
        for x in ('in0','in1','out'): os.makedirs(f'{d}/{x}')
        t    = plan['tool']
        argv = ['--force'] if plan['force'] and t in (*BATCH,'mrcal-from-kalibr','mrcal-convert-lensmodel') else []
        od   = plan['outdir'] if t in (*BATCH,'mrcal-from-kalibr','mrcal-convert-lensmodel') else None
        if od: argv += ['--outdir',od]
        outs,olds,fail,stdin,maybe = {},[],False,None,False
        def feed(b):
            nonlocal stdin
            put('STDIN',b); stdin = 'STDIN'
        if t in BATCH:
            ext,ext_out,_ = BATCH[t]
            I = plan['inputs']
            nstdin = 0
            skipped = []
            seen = {}
            for x in I:
                if x.get('stdin'):
                    nstdin += 1
                    argv.append('-')
                    b = x['bad'] if x['bad'] not in ('missing','dir') else 'garbage'
                    if nstdin==1: feed(self.content(x['kind'],ext,b))
                    if b: fail = True
                    continue
                nm = I[0]['name'] if x.get('clash') else x['name']
                if x.get('dot'): nm += '.v1'
                dd = 'in%d'%x['dir']
                if x['target']:
                    n = f'{dd}/{nm}T{ext_out}'
                    if n not in argv: put(n,self.content('pinhole','.cameramodel' if ext_out=='.cameramodel' else '.cahvor'))
                    argv.append(n); skipped.append(n)
                    continue
                n = f'{dd}/{nm}{ext}'
                o = f'{od or dd}/{nm}{ext_out}'
                if n in seen: argv.append(n); continue       # given twice: that's one output
                seen[n] = x
                put_model(n,x['kind'],ext,x['bad'])
                argv.append(n)
                if o in outs: fail = True; outs[o].append(None if x['bad'] else x['kind'])
                else:         outs[o] = [None if x['bad'] else x['kind']]
                if x['exists'] and not od==dd and o not in olds: put(o,b'' if plan.get('empty') else b'OLD'*50); olds.append(o)
                elif x['exists'] and o not in olds and not os.path.exists(f'{d}/{o}'): put(o,b'' if plan.get('empty') else b'OLD'*50); olds.append(o)
                if x['bad'] and not (o in olds and not plan['force']): fail = True
            if nstdin>1: fail = True
        elif t=='mrcal-to-kalibr':
            if plan['cam0']: argv.append('--cam0-at-reference')
            for i,x in enumerate(plan['inputs']):
                if x.get('stdin'):
                    b = x['bad'] if x['bad'] not in ('missing','dir') else 'garbage'
                    feed(self.content(x['kind'],'.cameramodel',b)); argv.append('-')
                else:
                    put_model(f'in0/m{i}.cameramodel',x['kind'],'.cameramodel',x['bad']); argv.append(f'in0/m{i}.cameramodel')
                if x['bad'] or x['kind'] not in KALIBR: fail = True
        elif t=='mrcal-from-kalibr':
            if plan['cam0']: argv.append('--cam0-at-reference')
            C = plan['cams'][:1] if plan['inline'] else plan['cams']
            text,fail = kalibr(C,plan['inline'])
            if plan['camera'] is not None:
                argv += ['--camera',f'cam{plan["camera"]}']
                if plan['inline'] or plan['camera']>=len(C): fail = True
            b = text.encode()
            if   plan['bad']=='garbage': b = b'this: [is not: a model\n'*20
            elif plan['bad']=='empty':   b = b''
            if plan['bad']=='cut': plan = dict(plan,bad=None)    # there's nothing to find that with
            if plan['bad']: fail = True
            n = f'in1/k{plan["ext"]}'
            if plan['stdin']:
                if plan['bad'] in ('missing','dir'): b = b''
                feed(b); argv.append('-')
                if len(C)>1 and plan['camera'] is None: fail = True
            elif plan['ext'].lower()=='.cameramodel': put(n,b); argv.append(n); fail = False
            else:
                if   plan['bad']=='missing': pass
                elif plan['bad']=='dir': os.makedirs(f'{d}/{n}')
                else: put(n,b)
                argv.append(n)
                for i,c in enumerate(C):
                    if plan['camera'] not in (None,i): continue
                    o = f'{od or "in1"}/k{"" if plan["inline"] else "-cam%d"%i}.cameramodel'
                    outs[o] = [i if not fail else None]
                    if c['exists']: put(o,b'' if plan.get('empty') else b'OLD'*50); olds.append(o)
        elif t=='mrcal-graft-models':
            if plan['implied']: argv += ['--radius','100','--no-uncertainties','--gridn','8','7']
            for i,x in enumerate(plan['inputs']):
                if x.get('stdin'):
                    b = x['bad'] if x['bad'] not in ('missing','dir') else 'garbage'
                    feed(self.content(x['kind'],'.cameramodel',b)); argv.append('-')
                else:
                    put_model(f'in0/m{i}.cameramodel',x['kind'],'.cameramodel',x['bad']); argv.append(f'in0/m{i}.cameramodel')
                if x['bad']: fail = True
            maybe = plan['implied']
        elif t=='mrcal-convert-lensmodel':
            kind,opt,lm = CONVERT[plan['opt']]
            argv += [*opt,lm]
            if plan['stdin']:
                feed(self.content(kind,'.cameramodel',plan['bad'] if plan['bad'] not in ('missing','dir') else 'garbage'))
                argv.append('-')
            else:
                put_model('in1/m.cameramodel',kind,'.cameramodel',plan['bad']); argv.append('in1/m.cameramodel')
                if not (kind=='opencv4' and lm=='LENSMODEL_OPENCV4'):
                    n = {'opt0':2}.get(kind,1) if '--all' in opt else 1
                    for i in range(n):
                        o = f'{od or "in1"}/m-{lm}{"-%02d"%i if n>1 else ""}.cameramodel'
                        outs[o] = [i if not plan['bad'] and lm[-1]!='_' else None]
                        if plan['exists'] and (n==1 or plan['which'] in (i,2)):
                            put(o,b'' if plan.get('empty') else b'OLD'*50); olds.append(o)
                            if not plan['force']: fail = True
            if plan['bad'] or lm[-1]=='_': fail = True
        elif t=='mrcal-reproject-points':
            if plan['only']: argv.append('--intrinsics-only')
            for i,x in enumerate(plan['inputs']):
                put_model(f'in0/m{i}.cameramodel',x['kind'],'.cameramodel',x['bad']); argv.append(f'in0/m{i}.cameramodel')
                if x['bad']: fail = True
            maybe = plan['inputs'][0]['kind']=='cahvore'         # can't be unprojected: noncentral
            q = np.random.RandomState(plan['seed']).rand(plan['n'],2)*np.array((W,H))
            feed(''.join('%.3f %.3f\n'%tuple(x) for x in q).encode())
        else:
            text,rows = corners(plan)
            feed(text.encode())
            if t=='mrcal-cull-corners':
                g = plan['gridn']
                argv += [['--cull-left-of','300'],['--cull-rad-off-center','150','--imagersize',str(W),str(H)],['--cull-rad-off-center','-200','--imagersize',str(W),str(H)],
                         ['--cull-rad-off-center-board','1.3','--object-width-n',str(g)],['--cull-left-of','400','--filename','/a','--filename','b[12]'],
                         ['--cull-random-observations-ratio','0.4','--object-width-n',str(g)]][plan['opt']]
                fail  = plan['bad'] is not None
                # it wants at least one board with more corners than that
                if plan['opt']==5 and not boards(plan,rows): fail = True
            elif t==PIPES[0]:
                argv += ['--gridn',str(plan['gridn']),*[[],['--90','/a'],['--180','/b'],['--270','/a','--90','/b'],['--90','xx','--90','/b1'],['--180','/a','--270','/b']][plan['opt']]]
                fail = plan['bad'] in ('short','long')
            else:
                put_model('in0/m.cameramodel',plan['kind'],'.cameramodel','garbage' if plan['bad']=='dir' else None)
                argv += ['--cols-xy',*(('x','y') if plan['opt'] else ('x','yy')),*(['--col-output','within'] if plan['opt']%2 else []),'in0/m.cameramodel']
                fail = plan['bad'] is not None or plan['opt']==0 or plan['kind']=='pinhole'
        return argv,dict(outs=outs,olds=olds,fail=fail,stdin=stdin,maybe=maybe)

    ################ running
    def snapshot(self,d):
        out = {}
        for p,dd,ff in os.walk(d):
            for f in ff:
                n = os.path.relpath(f'{p}/{f}',d)
                if n in ('STDOUT','STDERR'): continue
                with open(f'{p}/{f}','rb') as x: out[n] = x.read()
        return out

    def _run(self,S,plan,argv,stdin,d):
        if plan['tool'] in PIPES:
            return pipes.run(S,plan['tool'],argv,d,stdin,plan.get('stage'),plan.get('child'))
        return tool.run(S,plan['tool'],argv,d,stdin=stdin)

    def one(self,plan,place,quota=None):
        d = core.scratch()
        try:
            argv,X = self.lay_out(d,plan)
            before = self.snapshot(d)
            sim    = core.Sim(d,faults=place,timeout=100.,nofault_probes=True,quota=quota,arm=plan['tool'] not in PIPES)
            st,v   = sim.run(self._run,plan,argv,X['stdin'],d)
            after  = self.snapshot(d)
            def data(n):
                try:
                    with open(f'{d}/{n}','rb') as f: return f.read()
                except OSError: return b''
            return dict(argv=argv,X=X,before=before,after=after,st=st,v=v,events=sim.events(),fired=sim.fired(),
                        stdout=data('STDOUT').replace(d.encode(),b'ROOT'),stderr=data('STDERR').decode(errors='replace').replace(d,'ROOT'))
        finally: core.scratch_remove(d)

    def ref(self,t,kind):
        '''What the batch tools make of this input, by itself'''
        if (t,kind) not in self.refs:
            ext,ext_out,_ = BATCH[t]
            p = dict(tool=t,force=False,outdir=None,inputs=[dict(kind=kind,name='x',dir=0,bad=None,exists=False,target=False)])
            r = self.one(p,[])
            x = r['after'].get(f'in0/x{ext_out}')
            if r['st']!='ok' or r['v']!=0 or x is None: raise core.HarnessError(f'{t} failed with {kind}: {r["st"]} {r["v"]} {r["stderr"]}')
            self.refs[(t,kind)] = x
        return self.refs[(t,kind)]

    def execute(self,plan):
        r0   = self.one(dict(plan,stage=None,child=None),[])
        viol = self.judge0(plan,r0)
        stats= {'probe:'+plan['tool']:1}
        place,quota = [],None
        r = r0
        if viol is None:
            if plan['faults'] and r0['st']=='ok': place = faults.place(r0['events'],plan['faults'],skip=probe)
            if plan['quota'] is not None:
                quota = int(plan['quota']*sum(e[4] for e in r0['events'] if e[0] in ('write','pwrite','writev') and e[4]>0))
            if place or quota is not None or plan.get('stage') or plan.get('child') is not None:
                r = self.one(plan,place,quota)
                core._merge(stats,faults.stats(r['fired']))
                if plan.get('stage'):             stats['fault:pipeline stage: '+plan['stage']['how']] = 1
                if plan.get('child') is not None: stats['fault:child process'] = 1
                viol = self.judge(plan,r0,r)
        if r['st']=='ok': stats['probe:succeeded' if r['v']==0 else 'probe:failed'] = 1
        log = (r['st'],r['v'],sorted((n,core.digest(b)) for n,b in r['after'].items()),r['events'],core.digest(r['stdout']))
        return core.result(viol,stats,log,nontrivial=bool(r['fired']) or r0['X']['fail'] or bool(r0['X']['olds']) or plan['tool'] in PIPES,
                           sig=({k:v for k,v in plan.items() if k not in('faults','quota')},place,quota))

    def V(self,plan,r,cls,msg):
        return core.violation(cls,f'{plan["tool"]} {" ".join(r["argv"])}: {msg}; status {r["v"] if r["st"]=="ok" else (r["st"],r["v"])}; stderr: {r["stderr"][-600:]}',key=f'{plan["tool"]}/{cls}')

    def contents(self,plan,r0,o,key):
        '''What belongs into this output'''
        if plan['tool'] in BATCH: return self.ref(plan['tool'],key)
        return r0['after'].get(o)

    def common(self,plan,r0,r):
        X,before,after = r['X'],r['before'],r['after']
        for n,b in before.items():
            if n in X['olds']: continue
            if after.get(n)!=b and not (n in X['outs'] and plan['force']):
                return self.V(plan,r,'input-modified',f'{n} was {"modified" if n in after else "deleted"}')
        for n in after:
            if n not in before and n not in X['outs']: return self.V(plan,r,'extra-file',f'{n} was made')
        for o,keys in X['outs'].items():
            x = after.get(o)
            if o in X['olds']:
                if not plan['force']:
                    if x!=before[o]: return self.V(plan,r,'overwritten',f'{o} existed, and was {"overwritten" if x is not None else "deleted"} without --force')
                    continue
                if x is None: return self.V(plan,r,'deleted',f'{o} existed, and was deleted')
                if x==before[o]: continue
            if x is None: continue
            if r is r0 and plan['tool'] not in BATCH: continue       # that is looked at in judge0()
            want = [w for w in (self.contents(plan,r0,o,k) for k in keys if k is not None) if w is not None]
            if x in want: continue
            if (r['st']!='ok' or r['v']!=0) and (x==b'' or any(w.startswith(x) for w in want)): continue
            return self.V(plan,r,'wrong-output',f'{o} has {len(x)} bytes: not what should be there: {[len(w) for w in want]} bytes')

    def judge0(self,plan,r):
        '''The fault-free run'''
        V = lambda cls,msg: self.V(plan,r,cls,msg)
        if r['st']!='ok': return V('died',f'{r["st"]} {r["v"]}')
        X = r['X']
        x = self.common(plan,r,r)
        if x: return x
        if X['maybe'] and r['v']!=0: return None
        if X['fail']:
            if r['v']==0: return V('false-success','success was reported, although not all of this can be done')
            return None
        if r['v']!=0: return V('spurious-failure','it failed, with nothing being wrong')
        for o,keys in X['outs'].items():
            if o in X['olds'] and not plan['force']:
                if o not in r['stderr']: return V('exists-silent',f'{o} existed and was not written; nothing was said')
                continue
            if o not in r['after']: return V('missing-output',f'success was reported, but {o} is missing')
            if o in X['olds'] and r['after'][o]==r['before'][o]: return V('missing-output',f'success was reported, but {o} is the old one')
        try: msg = self.semantics(plan,r)
        except Exception as e: msg = f'the output is not usable: {type(e).__name__} {str(e)[:300]}'
        if msg: return V('wrong-conversion',msg)

    def judge(self,plan,r0,r):
        '''With faults'''
        V = lambda cls,msg: self.V(plan,r,cls,msg)
        if r['st'] not in ('ok','crash'): return V('died',f'{r["st"]} {r["v"]}')
        x = self.common(plan,r0,r)
        if x: return x
        # the failing run might have said something else on stdout, but not something wrong instead of the output
        if r['st']=='ok' and r['v']==0:
            if r0['v']!=0: return V('false-success','success was reported with faults, but not without')
            for o in X_outs(r):
                if r['after'].get(o)!=r0['after'].get(o): return V('incomplete-success',f'success was reported, but {o} is {"missing" if o not in r["after"] else "incomplete or wrong"}')
            if r['stdout']!=r0['stdout']: return V('incomplete-success',f'success was reported, but the standard output is incomplete or wrong: {len(r["stdout"])} bytes instead of {len(r0["stdout"])}')
        elif r0['v']==0 and not r0['stdout'].startswith(r['stdout']) and plan['tool'] not in PIPES:
            return V('wrong-stdout','what was written to the standard output is not a part of the right output')

    ################ what the conversions should do
    def semantics(self,plan,r):
        import mrcal, yaml
        t = plan['tool']
        X = r['X']
        so = r['stdout'].decode()
        def expect(m,kind,what,rt=True,tol=1e-6):
            lm,intr,rt_ = (KINDS[kind] if kind in KINDS else ROS[kind][1]) if isinstance(kind,str) else kind
            if m.intrinsics()[0].replace('0.40','0.4')!=lm.replace('0.40','0.4'): return f'{what}: the lens model is {m.intrinsics()[0]} instead of {lm}'
            if not close(m.intrinsics()[1],intr,tol): return f'{what}: the intrinsics are {m.intrinsics()[1]} instead of {intr}'
            if tuple(m.imagersize())!=(W,H): return f'{what}: the imager size is {m.imagersize()}'
            if rt and not close(mrcal.Rt_from_rt(m.rt_cam_ref()),mrcal.Rt_from_rt(np.array(rt_,dtype=float)),tol): return f'{what}: rt_cam_ref is {m.rt_cam_ref()} instead of {rt_}'
        def read(b,ext='.cameramodel'):
            d = core.scratch()
            try:
                with open(f'{d}/x{ext}','wb') as f: f.write(b)
                return mrcal.cameramodel(f'{d}/x{ext}')
            finally: core.scratch_remove(d)
        if t in BATCH:
            ext_out = BATCH[t][1]
            for o,keys in X['outs'].items():
                if o in X['olds'] and not plan['force']: continue
                k = KINDS[keys[0]] if keys[0] in KINDS else ROS[keys[0]][1]
                # that format has no models with fewer distortions
                if t=='mrcal-from-ros' and len(k[1])<9: k = ('LENSMODEL_OPENCV5',(*k[1],*[0]*(9-len(k[1]))),k[2])
                if t=='mrcal-from-ros' and keys[0] in KINDS: k = (*k[:2],(0,0,0,0,0,0))
                m = expect(read(r['after'][o],ext_out),k,o)
                if m: return m
            for x in plan['inputs']:
                if x.get('stdin'):
                    w = self.ref(t,x['kind'])
                    if w not in r['stdout']: return 'the standard output doesn\'t contain the converted model'
            return
        if t=='mrcal-to-kalibr':
            D = yaml.safe_load(so)
            if list(D)!=[f'cam{i}' for i in range(len(plan['inputs']))]: return f'the cameras are {list(D)}'
            prev = None
            for i,x in enumerate(plan['inputs']):
                k  = KINDS[x['kind']]
                dd = D[f'cam{i}']
                T  = np.array(dd['T_cn_cnm1']) if 'T_cn_cnm1' in dd else np.eye(4)
                R  = T4(mrcal.Rt_from_rt(np.array(k[2],dtype=float)))
                want = R @ np.linalg.inv(prev) if prev is not None else np.eye(4) if plan['cam0'] else R
                prev = R
                if not close(T,want,1e-8): return f'T_cn_cnm1 of camera {i} is {T} instead of {want}'
                if dd['resolution']!=[W,H]: return f'the resolution of camera {i} is {dd["resolution"]}'
                if k[0] in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4'):
                    if not close(dd['intrinsics']+dd['distortion_coeffs'],k[1],1e-9) or dd['camera_model']!='pinhole': return f'camera {i} is {dd}'
                else:
                    m,f = kalibr_model(dd)
                    e = expect(m,(k[0],k[1],(0,0,0,0,0,0)),f'camera {i}')
                    if e: return e
        elif t=='mrcal-from-kalibr':
            C = plan['cams'][:1] if plan['inline'] else plan['cams']
            prev = np.eye(4)
            for i,c in enumerate(C):
                T = kalibr_T(c) if c['T'] else np.eye(4)
                if i==0 and plan['cam0']: T = np.eye(4)
                prev = T @ prev
                k  = KINDS[c['kind']]
                o  = [o for o,kk in X['outs'].items() if kk[0]==i]
                if plan['stdin'] and plan['camera'] in (None,i): m = read(r['stdout'])
                elif o and not (o[0] in X['olds'] and not plan['force']): m = read(r['after'][o[0]])
                else: continue
                e = expect(m,k,f'camera {i}',rt=False)
                if e: return e
                if not close(T4(m.Rt_cam_ref()),prev,1e-6): return f'camera {i} is at {m.Rt_cam_ref()} instead of {prev}'
        elif t=='mrcal-graft-models':
            m = read(r['stdout'])
            a,b = (self.files[x['kind']+'.cameramodel'] for x in plan['inputs'])
            a,b = read(a),read(b)
            if m.intrinsics()[0]!=a.intrinsics()[0] or not close(m.intrinsics()[1],a.intrinsics()[1],1e-8): return 'the intrinsics are not those of the first model'
            if not plan['implied'] and not close(m.rt_cam_ref(),b.rt_cam_ref(),1e-8): return 'the extrinsics are not those of the second model'
            x,y = m.valid_intrinsics_region(),a.valid_intrinsics_region()
            if not models.same_num(x,y): return 'the valid-intrinsics region is not that of the first model'
        elif t=='mrcal-convert-lensmodel':
            kind,opt,lm = CONVERT[plan['opt']]
            a = read(self.files[kind+'.cameramodel'])
            if a.intrinsics()[0]==lm: return None if so=='' else 'nothing to do, but there is output'
            if plan['stdin'] and '--all' in opt and kind=='opt0': return     # several models, one after the other
            for o,k in ([('stdout',0)] if plan['stdin'] else [(o,k[0]) for o,k in X['outs'].items()]):
                m = read(r['stdout'] if plan['stdin'] else r['after'][o])
                if m.intrinsics()[0]!=lm: return f'the lens model is {m.intrinsics()[0]}'
                if tuple(m.imagersize())!=tuple(a.imagersize()): return f'the imager size is {m.imagersize()}'
                if '--all' in opt and len(X['outs'])>1 and m.icam_intrinsics()!=k: return f'{o} has camera {m.icam_intrinsics()}'
                # these can represent the original exactly
                if kind in ('pinhole','opencv4'):
                    q = np.array(((W/2,H/2),(W/2+60,H/2-40.)))
                    p = mrcal.unproject(q,*a.intrinsics())*20
                    if not '--intrinsics-only' in opt: p = mrcal.transform_point_Rt(mrcal.compose_Rt(m.Rt_cam_ref(),a.Rt_ref_cam()),p)
                    if np.max(np.abs(mrcal.project(p,*m.intrinsics())-q))>.2: return f'{o}: the new model doesn\'t match the old one'
        elif t=='mrcal-reproject-points':
            a,b = (read(self.files[x['kind']+'.cameramodel']) for x in plan['inputs'])
            q = np.array([[float('%.3f'%x) for x in y] for y in np.random.RandomState(plan['seed']).rand(plan['n'],2)*np.array((W,H))])
            v = mrcal.unproject(q,*a.intrinsics())
            if not plan['only']: v = mrcal.rotate_point_R(mrcal.compose_Rt(b.Rt_cam_ref(),a.Rt_ref_cam())[:3],v)
            w = mrcal.project(v,*b.intrinsics())
            g = np.array([[float(x) for x in l.split()] for l in so.splitlines() if l and l[0]!='#'])
            if g.shape!=w.shape: return f'{len(g)} points instead of {len(w)}'
            f = np.isfinite(w).all(axis=-1)
            if not np.array_equal(f,np.isfinite(g).all(axis=-1)) or not np.all(np.abs(g[f]-w[f])<1e-4*(1+np.abs(w[f]))): return 'the points are wrong'
        else:
            text,rows = corners(plan)
            got = [l.split() for l in so.splitlines() if l and l[0]!='#']
            if t=='mrcal-cull-corners':   return cull(plan,rows,got)
            if t==PIPES[0]:               return rotate(plan,rows,got)
            from shapely.geometry import Polygon, Point
            a = read(self.files[plan['kind']+'.cameramodel'])
            P = Polygon(a.valid_intrinsics_region())
            if len(got)!=len(rows): return f'{len(got)} rows instead of {len(rows)}'
            leg = [l for l in so.splitlines() if l.startswith('# ')][0].split()[1:]
            if leg!=['filename','x','y','level',('within' if plan['opt']%2 else 'is-within-valid-intrinsics-region')]: return f'the legend is {leg}'
            for g,w in zip(got,rows):
                if [*g[:3]]!=[*w[:3]] : return f'a row is {g} instead of {w}'
                if w[1]!='-' and P.boundary.distance(Point(float(w[1]),float(w[2])))>.01 and (g[4]=='1') != P.contains(Point(float(w[1]),float(w[2]))): return f'{g}: that is wrong'

    def shrink(self,plan):
        for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
        for k in ('inputs','cams'):
            L = plan.get(k)
            if not L or plan['tool'] in ('mrcal-graft-models','mrcal-reproject-points'): continue
            for i in range(len(L)):
                if len(L)>1: yield dict(plan,**{k:L[:i]+L[i+1:]})
        for k in ('inputs','cams'):
            for i,x in enumerate(plan.get(k) or []):
                for a in ('bad','exists','target','clash','dot','stdin','T'):
                    if x.get(a): yield dict(plan,**{k:plan[k][:i]+[dict(x,**{a:None if a=='bad' else False})]+plan[k][i+1:]})
        for k,v in (('quota',None),('outdir',None),('force',False),('stage',None),('child',None),('exists',False),('empty',False),('stdin',False),('cam0',False),('camera',None),('inline',False),('implied',False),('n',1),('seed',0)):
            if k in plan and plan[k]!=v: yield dict(plan,**{k:v})

def X_outs(r): return [*r['X']['outs']]

def close(a,b,tol):
    a,b = np.array(a,dtype=float),np.array(b,dtype=float)
    return a.shape==b.shape and bool(np.all(np.abs(a-b)<=tol*(1+np.abs(b))))

def T4(Rt):
    T = np.eye(4); T[:3,:3] = Rt[:3]; T[:3,3] = Rt[3]
    return T

def kalibr_T(c):
    import mrcal
    rs = np.random.RandomState(c['seed'])
    return T4(mrcal.Rt_from_rt(np.concatenate((rs.randn(3)*.2,rs.randn(3)))))

def kalibr_model(dd):
    '''A cahvor(e) camera in a kalibr file'''
    import mrcal, mrcal.cahvor
    v = np.array(dd['intrinsics']).reshape(-1,3)
    return mrcal.cahvor._construct_model(*v[:6],v[6] if len(v)>6 else None,is_cahvor_or_cahvore=True,is_cahvore=len(v)>6,
                                         cahvore_linearity=dd.get('cahvore_linearity',.37),Dimensions=np.array(dd['resolution'],dtype=np.int32),name='x'),None

def kalibr(C,inline):
    '''-> the yaml text, should this fail?'''
    import mrcal, mrcal.cahvor
    out,fail = '',False
    for i,c in enumerate(C):
        lm,intr,rt = KINDS[c['kind']]
        l = []
        if lm in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4'):
            l += ['camera_model: pinhole',f'intrinsics: {[float(x) for x in intr[:4]]}']
            l += ['distortion_model: radtan',f'distortion_coeffs: {[float(x) for x in intr[4:]]}'] if len(intr)>4 else ['distortion_model: none','distortion_coeffs: []']
        else:
            m = mrcal.cameramodel(intrinsics=(lm,np.array(intr,dtype=float)),imagersize=(W,H))
            x = mrcal.cahvor._deconstruct_model(m)
            v = [float(z) for k in 'CAHVOR' for z in x[k]]
            if 'CAHVORE' in lm: v += [float(z) for z in x['E']]
            l += [f'camera_model: {"cahvore" if "CAHVORE" in lm else "cahvor"}',f'intrinsics: {v}']
            if 'CAHVORE' in lm: l += ['cahvore_linearity: 0.40']
        l += [f'resolution: [{W}, {H}]']
        b = c['bad']
        if c['T'] or b in ('Tshape','Trow','Trot'):
            T = kalibr_T(c)
            if b=='Tshape': T = T[:3]
            if b=='Trow':   T[3,0] = .1
            if b=='Trot':   T[:3,:3] *= 1.1
            l += ['T_cn_cnm1:']+[f'- {[float(x) for x in y]}' for y in T]
        if b=='model':   l[0] = 'camera_model: omni'
        if b=='missing': l = [x for x in l if not x.startswith('intrinsics')]
        if b=='dist':    l = [x for x in l if not x.startswith('distortion_model')]+['distortion_model: equidistant']
        if b: fail = True
        out += (f'cam{i}:\n' if not inline else '')+''.join(('  ' if not inline else '')+x+'\n' for x in l)
    return out,fail

def corners(plan):
    '''-> vnl text, rows: corner detections'''
    import random
    rng = random.Random(plan['seed'])
    g   = plan['gridn']
    rows = []
    names = sorted({f'{"img" if rng.random()<.3 else "x"}/{rng.choice("ab")}{rng.randrange(3)}-{i:02d}.jpg' for i in range(plan['n'])})
    for n in names:
        if rng.random()<.15: rows.append([n,'-','-','-']); continue
        for j in range(g*g): rows.append([n,'%.3f'%rng.uniform(0,W),'%.3f'%rng.uniform(0,H),'-' if rng.random()<.1 else str(rng.randrange(3))])
    t = '## generated\n# filename x y level\n'
    body = rows
    if plan['tool']=='mrcal-cull-corners':
        if plan['opt']==5 and plan['bad'] in ('garbage','dir'): plan['bad'] = None       # the legend isn't looked at
        if plan['bad'] in ('garbage','dir'): t = '# filename x y\n'
        if plan['bad'] in ('empty','missing'): return '',rows
        if plan['bad']=='cut': body = rows[:-1]+[rows[-1][:1]]
    if plan['tool']==PIPES[0]:
        if plan['bad'] not in (None,'cut'): plan['bad'] = None
        if plan['bad']=='cut':
            if rows[-1][1]=='-' : plan['bad'] = None
            else: body = rows[:-1]; plan['bad'] = 'short'
            if g*g==1 or (g*g-1)==1: plan['bad'] = None; body = rows
    if plan['tool']==PIPES[1]:
        if plan['bad'] not in (None,'dir'): plan['bad'] = None
        body = rows = [r for r in rows if r[1]!='-'] or [['/a','10.000','20.000','0']]
    t += ''.join(' '.join(r)+'\n' for r in body)
    return t,rows

def boards(plan,rows):
    return sorted({r[0] for r in rows if sum(x[0]==r[0] and x[3]!='-' for x in rows)>2*plan['gridn']})

def cull(plan,rows,got):
    if plan['opt']==5:
        files = boards(plan,rows)
        have  = [r for r in rows if r[0] in files]
        if any(g[0] not in files for g in got): return 'unknown file'
        nf = len({r[0] for r in have}); ng = len({g[0] for g in got})
        if ng!=int(round(.6*nf)): return f'{ng} observations remain, out of {nf}'
        for f in {g[0] for g in got}:
            a = [[float(x) for x in r[1:3]]+[r[3]] for r in have if r[0]==f]
            b = [[float(x) for x in r[1:3]]+[r[3]] for r in got  if r[0]==f]
            if [x[:2] for x in a]!=[x[:2] for x in b]: return f'{f}: the corners are not the same'
            if [x[2] for x in a]!=[x[2] for x in b]: return f'{f}: the levels are not the same: {[x[2] for x in b]} instead of {[x[2] for x in a]}'
        return
    if len(got)!=len(rows): return f'{len(got)} rows instead of {len(rows)}'
    g = plan['gridn']
    import re
    n = {}
    for a,b in zip(rows,got):
        if a[1]=='-':
            if a!=b: return f'a row is {b} instead of {a}'
            continue
        k = n.get(a[0],0); n[a[0]] = k+1
        x,y = float(a[1]),float(a[2])
        rr = (x-(W-1)/2)**2+(y-(H-1)/2)**2
        keep = [x>300, rr<150**2, rr<(np.hypot(W,H)/2-200)**2, (k%g-(g-1)/2)**2+(k//g-(g-1)/2)**2<1.3**2, x>400 or not re.search('/a|b[12]',a[0])][plan['opt']]
        if b!=(a if keep else a[:3]+['-']): return f'a row is {b} instead of {a}; keep={keep}'

def rotate(plan,rows,got):
    g = plan['gridn']
    def angle(f):
        return {0:0,1:90*('/a' in f),2:180*('/b' in f),3:90*('/b' in f) or 270*('/a' in f),4:90*('/b1' in f or 'xx' in f),5:180*('/a' in f) or 270*('/b' in f)}[plan['opt']]
    n = {}; want = []
    if len(got)!=len(rows): return f'{len(got)} rows instead of {len(rows)}'
    for r in rows: n.setdefault(r[0],[]).append(r)
    for f in sorted(n):
        L = n[f]
        if len(L)>1:
            o = [None]*(g*g)
            for i,r in enumerate(L):
                ix,iy = i%g,i//g
                a = angle(f)
                o[{0:i,90:(g-1-ix)*g+iy,270:ix*g+(g-1-iy),180:g*g-1-i}[a]] = r
            L = o
        want += L
    for a,b in zip(want,got):
        if a!=b: return f'a row is {b} instead of {a}'

PROPERTY = C12()
