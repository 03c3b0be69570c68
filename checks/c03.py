'''C03: a camera model written without an error reads back the same'''
import io
import os
import numpy as np
from dst import core, faults, models

def cahvor_ok(spec):
    lm = spec['lensmodel']
    return lm.startswith(('LENSMODEL_PINHOLE','LENSMODEL_OPENCV','LENSMODEL_CAHVOR'))
def yaml_ok(spec):
    return spec['lensmodel'] in ('LENSMODEL_PINHOLE','LENSMODEL_OPENCV4','LENSMODEL_OPENCV5','LENSMODEL_OPENCV8')

EXT = dict(native='.cameramodel',native2='',cahvor='.cahvor',cahv='.cahv',cahvore='.cahvore',yaml='.yaml',c='.cameramodel')

class C03(core.Property):
    id    = 'C03'
    level = 'exploration'
    rule  = ('One case: a random model (lens model, parameters, pose, imager, region, optimization inputs), a writer '
             '(Python native/.cahvor/.yaml to a path, an open file or a StringIO; C writer), an optional chain of '
             'write/read generations, and a seeded list of system-call faults during the write and the read-back. '
             'Non-trivial: a fault fired, or the model carries a region or optimization inputs, or >1 generation.')
    runs  = dict(quick=2600,thorough=120000)
    wall  = dict(quick=75.,thorough=1500.)
    real  = ['mrcal.cameramodel writer and readers','libmrcal C reader and writer','CPython file I/O','glibc stdio','kernel file system (tmpfs)']
    stub  = ['results of faulted system calls']
    assumptions = ['finite model parameters','one writer per file']

    def prepare(self,tier):
        models.clib()
        import mrcal
        self.problems = models.default_problems()
        return self

    def generate(self,rng,k,tier):
        spec = models.random_model_spec(rng)
        fmt  = rng.choice(('native',)*6+('native2','c','c','cahvor','cahv','cahvore','yaml'))
        if fmt in ('cahvor','cahv','cahvore') or fmt=='yaml':
            spec['opt'] = None
            if spec['lensmodel'].startswith('LENSMODEL_SPLINED') and rng.random()<.6:
                spec['lensmodel'] = rng.choice(models.STATIC[4:])
                spec['intrinsics'] = [0]*models.num_params(spec['lensmodel'])
            # the legacy formats store a fixed number of decimals
            W,H = spec['imagersize']
            core4 = [rng.uniform(300,3000),rng.uniform(300,3000),W*.5+rng.uniform(-5,5),H*.5+rng.uniform(-5,5)]
            n = len(spec['intrinsics'])-4
            spec['intrinsics'] = core4 + [round(rng.uniform(-.4,.4),9) or .1 for i in range(n)]
            spec['rt'] = [round(rng.uniform(-1.5,1.5),9) for i in range(3)] + [round(rng.uniform(-20,20),8) for i in range(3)]
        if fmt=='c':
            spec['opt'] = None; spec['region'] = None
            if rng.random()<.4:
                # larger than a stdio buffer
                nx,ny = rng.randrange(10,26),rng.randrange(10,26)
                spec['lensmodel'] = f'LENSMODEL_SPLINED_STEREOGRAPHIC_order={rng.choice((2,3))}_Nx={nx}_Ny={ny}_fov_x_deg={rng.randrange(30,200)}'
                spec['intrinsics'] = spec['intrinsics'][:4] + [models.rand_float(rng) for i in range(2*nx*ny)]
        if spec['opt'] is not None:
            spec['movecam'] = rng.random()<.4
            spec['optmut']  = rng.choice((0,0,1,2,3,4,5))
        plan = dict(spec=spec, fmt=fmt,
                    via = 'path' if fmt in ('c','yaml','cahv','cahvore') else rng.choice(('path','path','file','stringio')),
                    reader = rng.choice(('path','file','copy','stringio')),
                    pre = rng.random()<.4,
                    note= rng.choice((None,None,'one line','two\nlines','quotes \' " { } [ \\ # :\n\n  x = {','unicode \u00e9\u4e2d')),
                    gens= rng.choice((1,1,2,3)), faults=[], rfaults=[], quota=None)
        if fmt in ('cahvor','cahv','cahvore') and rng.random()<.4: plan['via'] = 'module'
        r = rng.random()
        if   r < .20: pass
        elif r < .62: plan['faults']  = faults.gen(rng,kinds=('err','err','short','short','do_then_err','sigint'))
        elif r < .78: plan['quota']   = round(rng.random(),4)
        else:         plan['rfaults'] = faults.gen(rng,kinds=('err','short','sigint'),classes=('read','read','open',None))
        return plan

    def _opt(self,spec):
        '''(optimization_inputs, icam) for this spec'''
        p,icam = self.problems[spec['opt'] % len(self.problems)]
        p = models.copy_kw(p)
        mut = spec.get('optmut',0)
        if mut==1:
            p['observations_board'] = p['observations_board'].astype('>f8')
            p['intrinsics'] = p['intrinsics'].astype('>f8')
        elif mut==2:
            p['imagepaths'] = np.array(['a/b %d.jpg' % i for i in range(len(p['observations_board']))])
            p['calobject_warp'] = np.array((1e-3,-2e-17))
        elif mut==3:
            p['do_apply_regularization_unity_cam01'] = True
            p['indices_point_triangulated_camintrinsics_camextrinsics'] = np.zeros((0,3),dtype=np.int32)
            p['observations_point_triangulated'] = None
        elif mut==4:
            p['observations_point_triangulated'] = np.array(((1.,2.,1.),(3.,4.,-1.)))
            p['indices_point_triangulated_camintrinsics_camextrinsics'] = np.array(((0,0,-1),(0,1,0)),dtype=np.int32)
        elif mut==5:
            p['verbose'] = True
        return p,icam

    def _make(self,spec):
        import mrcal
        if spec['opt'] is None: return models.make_model(spec)
        p,icam = self._opt(spec)
        m = mrcal.cameramodel(optimization_inputs=p,icam_intrinsics=icam)
        if spec.get('movecam'): m.rt_cam_ref(np.array(spec['rt'],dtype=float))
        if spec['region'] is not None: m.valid_intrinsics_region(np.array(spec['region'],dtype=float).reshape(-1,2))
        return m

    def _opt_stored(self,spec,got):
        '''What the caller gave vs. what the getter returns'''
        if spec['opt'] is None:
            return None if got is None else 'optimization_inputs appeared'
        p,_ = self._opt(spec)
        if got is None: return 'optimization_inputs lost'
        for k,v in p.items():
            if k=='verbose': continue
            g = got.get(k)
            if isinstance(v,np.ndarray):
                if v.size==0 and (g is None or np.size(g)==0): continue
                if not isinstance(g,np.ndarray) or g.shape!=v.shape or not np.array_equal(g,v): return f'key {k} differs'
                if not g.dtype.isnative: return f'key {k} not in native byte order'
            elif v is None or v is False:
                if g: return f'key {k}: {v} became {g}'
            elif g != v: return f'key {k}: {v} became {g}'
        return None

    def _write(self,S,plan,path):
        m = self._make(plan['spec'])
        if plan['fmt']=='c':
            s = plan['spec']
            rc = models.c_write(path,s['lensmodel'],s['imagersize'],s['rt'],s['intrinsics'])
            if rc: raise RuntimeError(f"mrcal_write_cameramodel_file() failed: {rc}")
            return
        if plan['via']=='path':
            m.write(path,note=plan['note'])
        elif plan['via']=='module':
            import mrcal.cahvor
            mrcal.cahvor.write(path,m,plan['note'])
        elif plan['via']=='file':
            with open(path,'w') as f: m.write(f,note=plan['note'],cahvor=plan['fmt'].startswith('cahv'))
        else:
            b = io.StringIO()
            m.write(b,note=plan['note'],cahvor=plan['fmt'].startswith('cahv'))
            with open(path,'w') as f: f.write(b.getvalue())

    def _read(self,S,plan,path,reader):
        import mrcal
        if reader=='path': m = mrcal.cameramodel(path)
        elif reader=='file':
            with open(path) as f: m = mrcal.cameramodel(f)
        elif reader=='stringio':
            with open(path) as f: m = mrcal.cameramodel(io.StringIO(f.read()))
        else: m = mrcal.cameramodel(mrcal.cameramodel(path))
        return models.observe(m), str(m)

    def _cread(self,S,path): return models.c_read(path)

    def _reference(self,S,plan):
        return models.observe(self._make(plan['spec']))

    def _verify(self,root,plan,path,ref):
        '''The write claimed success: is it so?'''
        fmt = plan['fmt']
        for reader in ('path',plan['reader']):
            st,v = core.Sim(root,arm=False).run(self._read,plan,path,reader)
            if st!='ok': return f'reading back ({reader}) failed: {st} {v if st!="exc" else v[:2]}'
            o,text = v
            if fmt in ('native','native2','c'):
                d = models.diff(models.rounded(ref),o)
                if d: return f'read back ({reader}) differs: {d}'
            elif fmt in ('cahvor','cahv','cahvore'):
                d = self._cahvor_diff(ref,o)
                if d: return f'cahvor read back ({reader}) differs: {d}'
            elif fmt=='yaml':
                d = None
                if not np.allclose(o['intrinsics'][:8],np.concatenate((ref['intrinsics'],np.zeros(8)))[:8],rtol=1e-9,atol=1e-9) or \
                   list(o['imagersize'])!=list(ref['imagersize']):
                    return 'yaml read back differs'
            if fmt not in ('native','native2','c'): break
        if fmt in ('native','native2','c'):
            st,c = core.Sim(root,arm=False).run(self._cread,path)
            if st!='ok' or c is None: return f'C reader failed: {st}'
            d = models.cdiff(c,models.rounded(ref))
            if d: return f'C reader differs: {d}'
        if fmt in ('native','native2'):
            # generations
            text1 = text
            for g in range(plan['gens']):
                p2 = f'{root}/gen{g}.cameramodel'
                def w(S):
                    import mrcal
                    mrcal.cameramodel(path if g==0 else f'{root}/gen{g-1}.cameramodel').write(p2)
                    return open(p2).read()
                st,t = core.Sim(root,arm=False).run(w)
                if st!='ok': return f'generation {g}: {st} {t if st!="exc" else t[:2]}'
                if t!=text1: return f'generation {g} is not a fixed point of write/read'
        return None

    def _cahvor_diff(self,ref,o):
        lm = ref['lensmodel']
        if lm.startswith('LENSMODEL_CAHVORE_'):
            if float(lm.split('=')[1]) != float(o['lensmodel'].split('=')[-1] if '=' in o['lensmodel'] else 'nan'):
                return f"{lm} {o['lensmodel']}"
        elif lm != o['lensmodel']: return f"{lm} {o['lensmodel']}"
        if list(ref['imagersize'])!=list(o['imagersize']): return 'imagersize'
        if not np.allclose(ref['intrinsics'],o['intrinsics'],rtol=1e-6,atol=1e-6): return f"intrinsics {ref['intrinsics']} {o['intrinsics']}"
        if not np.allclose(ref['rt_cam_ref'],o['rt_cam_ref'],rtol=1e-6,atol=1e-6): return f"rt {ref['rt_cam_ref']} {o['rt_cam_ref']}"
        a,b = ref['region'],o['region']
        if (a is None) != (b is None): return f'region {a} {b}'
        if a is not None and (a.shape!=b.shape or np.max(np.abs(a-b),initial=0)>.0051): return f'region {a} {b}'
        return None

    def execute(self,plan):
        stats = {}
        log   = []
        fmt   = plan['fmt']
        spec  = plan['spec']
        supported = fmt in ('native','native2','c') or (fmt=='yaml' and yaml_ok(spec)) or (fmt.startswith('cahv') and cahvor_ok(spec))
        name  = 'm'+EXT[fmt]
        V = lambda cls,msg: core.result(core.violation(cls,msg),stats,log)
        root = core.scratch(); root2 = None
        try:
            path = f'{root}/{name}'
            OLD = "{ 'lensmodel': 'LENSMODEL_PINHOLE', 'intrinsics': [1,2,3,4], 'imagersize':[5,6], 'extrinsics':[0,0,0,0,0,0] }\n"
            if plan['pre']:
                with open(path,'w') as f: f.write(OLD)
            st,ref = core.Sim(root,arm=False).run(self._reference,plan)
            if st!='ok': return V('construct',f'constructing the model: {st} {ref[:2] if st=="exc" else ref}')
            if spec['opt'] is not None:
                d = self._opt_stored(spec,ref['opt'])
                if d: return V('opt_stored',d)
            sim = core.Sim(root)
            st,v = sim.run(self._write,plan,path)
            ev = sim.events()
            log.append((st,ev))
            if not supported:
                if st!='exc': return V('unsupported',f'{fmt} cannot store {spec["lensmodel"]} but the write gave {st}')
                if plan['via'] in ('path','module') and plan['pre'] and open(path).read()!=OLD:
                    return V('clobber',f'rejecting a {spec["lensmodel"]} for {name} damaged the existing file')
                stats['probe:unsupported format rejected']=1
                return core.result(None,stats,log,nontrivial=plan['pre'],simtime=len(ev))
            if st!='ok': return V('write_failed',f'fault-free write: {st} {v[:2] if st=="exc" else v}')
            if fmt.startswith('cahv') and not self._cahvor_roundtrips(ref): 
                return core.result(None,stats,log,nontrivial=False)
            d = self._verify(root,plan,path,ref)
            if d: return V('roundtrip',d)
            nt = spec['opt'] is not None or spec['region'] is not None or plan['gens']>1

            if plan['faults'] or plan['quota'] is not None:
                root2 = core.scratch()
                path2 = f'{root2}/{name}'
                if plan['pre']:
                    with open(path2,'w') as f: f.write(OLD)
                total = os.path.getsize(path)
                sim = core.Sim(root2,faults=faults.place(ev,plan['faults']),
                               quota=None if plan['quota'] is None else int(plan['quota']*total))
                st,v = sim.run(self._write,plan,path2)
                fired = sim.fired()
                core._merge(stats,faults.stats(fired))
                log.append((st,sim.events()))
                if st=='signal':  return V('died',f'write killed by signal {v} under {fired}')
                if st=='timeout': return V('hang',f'write never finished under {fired}')
                if st=='exc' and not fired: return V('write_failed',f'write failed without a fault: {v[:2]}')
                if st=='ok':
                    d = self._verify(root2,plan,path2,ref)
                    if d: return V('lost',f'write reported success under {fired} but: {d}')
                    stats['probe:fault absorbed'] = 1 if fired else 0
                elif st=='exc': stats['probe:fault reported'] = 1
                nt = nt or bool(fired)
            if plan['rfaults']:
                for reader,fn,args in (('python',self._read,(plan,path,plan['reader'])),('c',self._cread,(path,))):
                    if reader=='c' and fmt not in ('native','native2','c'): continue
                    s0 = core.Sim(root)
                    s0.run(fn,*args)
                    sim = core.Sim(root,faults=faults.place(s0.events(),plan['rfaults']))
                    st,v = sim.run(fn,*args)
                    fired = sim.fired()
                    core._merge(stats,faults.stats(fired))
                    log.append((reader,st,sim.events()))
                    if st=='signal' and v==2 and fired.get('sigint'): continue
                    if st in ('signal','timeout'): return V('died',f'{reader} read: {st} {v} under {fired}')
                    if st=='exc' and not fired: return V('read_failed',f'{reader} read failed without a fault: {v[:2]}')
                    if st=='ok' and reader=='python' and not fmt.startswith('cahv') and fmt!='yaml':
                        d = models.diff(models.rounded(ref),v[0])
                        if d: return V('misread',f'python read under {fired} silently gave a different model: {d}')
                    if st=='ok' and reader=='c' and v is not None:
                        d = models.cdiff(v,models.rounded(ref))
                        if d: return V('misread',f'C read under {fired} silently gave a different model: {d}')
                    if st=='ok' and reader=='c' and v is None and not fired:
                        return V('read_failed','C read failed without a fault')
                    nt = nt or bool(fired)
            return core.result(None,stats,log,nontrivial=nt,simtime=sum(len(l[-1]) for l in log))
        finally:
            core.scratch_remove(root)
            if root2: core.scratch_remove(root2)

    def _cahvor_roundtrips(self,ref):
        '''The legacy format cannot tell a CAHVOR with R~0 from a pinhole'''
        if ref['lensmodel']=='LENSMODEL_CAHVOR': return np.linalg.norm(ref['intrinsics'][6:9])>1e-6
        return True

    def shrink(self,plan):
        for k in ('faults','rfaults'):
            for f in faults.shrink(plan[k]): yield dict(plan,**{k:f})
        if plan['note'] is not None: yield dict(plan,note=None)
        if plan['pre']:              yield dict(plan,pre=False)
        if plan['gens']>1:           yield dict(plan,gens=1)
        if plan['reader']!='path':   yield dict(plan,reader='path')
        s = plan['spec']
        if s['region'] is not None:  yield dict(plan,spec=dict(s,region=None))
        if s['opt'] is not None:     yield dict(plan,spec=dict(s,opt=None))
        if s.get('optmut'):          yield dict(plan,spec=dict(s,optmut=0))
        if s['lensmodel']!='LENSMODEL_PINHOLE':
            yield dict(plan,spec=dict(s,lensmodel='LENSMODEL_PINHOLE',intrinsics=s['intrinsics'][:4]))
        for i,x in enumerate(s['intrinsics'][:12]):
            if x not in (0,1): yield dict(plan,spec=dict(s,intrinsics=s['intrinsics'][:i]+[1.0]+s['intrinsics'][i+1:]))
        for i,x in enumerate(s['rt']):
            if x!=0: yield dict(plan,spec=dict(s,rt=s['rt'][:i]+[0.]+s['rt'][i+1:]))

PROPERTY = C03()
