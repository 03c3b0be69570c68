'''C04: a torn .cameramodel file is never read as a different model'''
import io
import os
import numpy as np
from dst import core, faults, models

READERS = ('python','python_str','c','c_string','c_string0','c_into','c_sinto')

class C04(core.Property):
    id    = 'C04'
    level = 'exploration'
    technique = 'deterministic simulation: seeded crash points and lost blocks in the write of a model, then every reader'
    rule  = ('One case: a random model, a writer (Python, C), seeded crashes at system calls of the write (before, after, '
             'torn), and a seeded list of damage to the full file (cut at a byte, zeroed tail, zeroed range, lost block); '
             'each resulting file goes through each of 7 readers. Non-trivial: a damaged file differs from the full file.')
    runs  = dict(quick=4000,thorough=100000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['mrcal.cameramodel reader and writer','libmrcal C readers and writer (file, string, preallocated buffer)','yaml, ast','kernel file system (tmpfs)']
    stub  = ['the crash: the process ends inside the trapped system call; lost blocks are simulated on the file image']
    assumptions = ['a lost range reads back as zeros', '.cahvor and .yaml are excluded: those formats have no end marker']

    def prepare(self,tier):
        models.clib()
        self.problems = models.default_problems()

    def generate(self,rng,k,tier):
        spec = models.random_model_spec(rng,wild=rng.random()<.5)
        writer = rng.choice(('py','py','py','c'))
        if writer=='c': spec['opt']=None; spec['region']=None
        elif spec['opt'] is not None and rng.random()<.7: spec['opt']=None
        heavy = spec['opt'] is not None
        crash = [faults.gen(rng,kinds=('torn_crash','torn_crash','crash_before','crash_after'),nmax=1) for i in range(rng.randrange(0,3))]
        dmg = []
        for i in range(rng.randrange(2,5) if heavy else rng.randrange(5,16)):
            r = rng.random()
            # relative to the end, to structural characters, or anywhere
            where = rng.choice(('u','u','end','struct','struct'))
            dmg.append(dict(kind='cut' if r<.5 else 'zerotail' if r<.7 else 'zero' if r<.9 else 'block',
                            where=where,u=round(rng.random(),5),d=rng.randrange(0,12),n=rng.choice((1,1,2,7,40,512,4096))))
        return dict(spec=spec,writer=writer,crash=crash,dmg=dmg,
                    note=rng.choice((None,None,'x','a\nb',"tricky } \n } \n{ 'lensmodel': 'LENSMODEL_PINHOLE', 'intrinsics': [1,2,3,4], 'imagersize': [5,6], 'rt_cam_ref': [0,0,0,0,0,0] }",
                                     '/'*2000+'\n'+'}'*1800)),
                    pre=rng.random()<.3, page=rng.random()<.15)

    def _write(self,S,plan,path):
        s = plan['spec']
        if plan['writer']=='c':
            if models.c_write(path,s['lensmodel'],s['imagersize'],s['rt'],s['intrinsics']): raise RuntimeError("C write failed")
            return None
        m = models.make_model(s,self.problems)
        note = plan['note']
        if plan.get('pad'): note = (note or '') + '\n' + '-'*plan['pad']
        m.write(path,note=note)

    def _ref(self,S,plan):
        return models.rounded(models.observe(models.make_model(plan['spec'],self.problems)))

    def _readers(self,S,files,ref,root):
        import mrcal
        def cmp(c):
            return None if c is None else (models.cdiff(c,ref) or True)
        N = len(ref['intrinsics'])
        out = []
        for i,b in enumerate(files):
            p = f'{root}/torn.cameramodel'
            with open(p,'wb') as f: f.write(b)
            o = []
            for j,r in enumerate(READERS):
                S.malloc_bytes = i*100+j+1
                if r in ('python','python_str'):
                    try:
                        m = mrcal.cameramodel(p) if r=='python' else mrcal.cameramodel(io.StringIO(b.decode()))
                    except Exception: o.append(None); continue
                    try:
                        o.append(models.diff(ref,models.observe(m)) or True)
                    except Exception as e:
                        o.append(f'accepted, but unusable: {type(e).__name__} {e}')
                elif r=='c':        o.append(cmp(models.c_read(p)))
                elif r=='c_string': o.append(cmp(models.c_read_guarded(b,False)) if b else None)
                elif r=='c_string0':o.append(cmp(models.c_read_guarded(b,True)))
                elif r=='c_into':   o.append(cmp(models.c_read_into(p,None,0,N)[0]))
                elif r=='c_sinto':  o.append(cmp(models.c_read_guarded(b,False,N)) if b else None)
            out.append(o)
        return out

    def _damage(self,full,d):
        n = len(full)
        if   d['where']=='u':   a = int(d['u']*n)
        elif d['where']=='end': a = max(n-d['d'],0)
        else:
            idx = [i for i,c in enumerate(full) if c in b"[]{},:'\"#\n"]
            a = idx[int(d['u']*len(idx))] + (d['d']%3) - 1 if idx else 0
        a = min(max(a,0),n)
        if d['kind']=='cut':      return full[:a]
        if d['kind']=='zerotail': return full[:a] + bytes(n-a)
        if d['kind']=='zero':     return (full[:a] + bytes(min(d['n'],n-a)) + full[a+d['n']:])[:n]
        b = a//512*512
        return (full[:b] + bytes(min(512,n-b)) + full[b+512:])[:n]

    def execute(self,plan):
        stats={}; log=[]
        V = lambda cls,msg: core.result(core.violation(cls,msg),stats,log)
        root = core.scratch()
        try:
            path = f'{root}/m.cameramodel'
            OLD = b"{ 'lensmodel': 'LENSMODEL_PINHOLE', 'intrinsics': [1,2,3,4], 'imagersize':[5,6], 'extrinsics':[0,0,0,0,0,0] }\n" + b'#'*6000
            def pre():
                if plan['pre']:
                    with open(path,'wb') as f: f.write(OLD)
                elif os.path.exists(path): os.unlink(path)
            st,ref = core.Sim(root,arm=False).run(self._ref,plan)
            if st!='ok': return V('construct',f'{st} {ref[:2] if st=="exc" else ref}')
            if plan['page'] and plan['writer']=='py':
                # the full file is a whole number of pages
                pre(); core.Sim(root,arm=False).run(self._write,plan,path)
                plan = dict(plan,pad=1)
                pre(); core.Sim(root,arm=False).run(self._write,plan,path)
                plan = dict(plan,pad=1+(-os.path.getsize(path))%4096)
            pre()
            sim = core.Sim(root)
            st,v = sim.run(self._write,plan,path)
            if st!='ok': return V('write_failed',f'{st} {v[:2] if st=="exc" else v}')
            ev = sim.events()
            log.append(ev)
            full = open(path,'rb').read()
            files = [('complete',full)]
            for c in plan['crash']:
                for f in os.listdir(root): os.unlink(f'{root}/{f}')
                pre()
                sim = core.Sim(root,faults=faults.place(ev,c))
                st,v = sim.run(self._write,plan,path)
                core._merge(stats,faults.stats(sim.fired()))
                log.append((st,sim.events()))
                if st not in ('crash','ok'): return V('crash_sim',f'{st} {v}')
                if os.path.exists(path):
                    b = open(path,'rb').read()
                    if plan['pre'] and b==OLD: continue
                    files.append((f'crash {c}',b))
            for d in plan['dmg']:
                b = self._damage(full,d)
                core._merge(stats,{'fault:lost_'+d['kind']:1})
                files.append((f'damage {d}',b))
            sim = core.Sim(root,arm=False,timeout=200.)
            st,out = sim.run(self._readers,[b for _,b in files],ref,root)
            at = sim.S.malloc_bytes
            if st!='ok':
                i,j = divmod(max(at-1,0),100)
                return V('reader_died',f'{READERS[j]} reader: {st} {out[:2] if st=="exc" else out} on a file with {files[i][0]}')
            nt = False
            for (what,b),o in zip(files,out):
                log.append((what,o))
                for r,x in zip(READERS,o):
                    if x is None:
                        if b==full: return V('complete',f'{r} reader rejects the complete file')
                        core._merge(stats,{'probe:torn file rejected':1})
                    elif x is not True:
                        return V('misread',f'{r} reader accepted a file with {what}, as a different model: {x}'[:800])
                    elif b!=full: core._merge(stats,{'probe:torn file read correctly':1})
                nt = nt or b!=full
            return core.result(None,stats,log,nontrivial=nt,simtime=len(files)*len(READERS))
        finally:
            core.scratch_remove(root)

    def shrink(self,plan):
        for k in ('crash','dmg'):
            n = len(plan[k])
            if n>2:
                yield dict(plan,**{k:plan[k][:n//2]}); yield dict(plan,**{k:plan[k][n//2:]})
            for i in range(n): yield dict(plan,**{k:plan[k][:i]+plan[k][i+1:]})
        for k,v in (('note',None),('pre',False),('page',False)):
            if plan[k]!=v: yield dict(plan,**{k:v})
        s = plan['spec']
        if s['region'] is not None:  yield dict(plan,spec=dict(s,region=None))
        if s['opt'] is not None:     yield dict(plan,spec=dict(s,opt=None))
        if s['lensmodel']!='LENSMODEL_PINHOLE':
            yield dict(plan,spec=dict(s,lensmodel='LENSMODEL_PINHOLE',intrinsics=s['intrinsics'][:4]))

PROPERTY = C04()
