'''C05: the C model readers fail cleanly under resource faults'''
import sys
import os
import numpy as np
from dst import core, faults, models

OPS = ('file','file','string','string0','into','into','sinto','conv_path','conv_obj','conv_none')
BAD = ('empty','missing','dir','truncated','garbage','nolens','nointr','noext','noimg','manyintr','fewintr','badmodel',
       'dupintr','notnumber','trailing','page','unknownkey','extrinsics_differ')

class Evil:
    '''Looks like a cameramodel, but fails at some point'''
    def __init__(self,m,point=None,how=None): self.m,self.point,self.how,self.out = m,point,how,[]
    def _f(self,name):
        x = self._g(name)
        self.out.append(x)
        return x
    def leaked(self):
        '''Does anybody still hold what we returned?'''
        for x in self.out:
            if isinstance(x,(tuple,np.ndarray)) and sys.getrefcount(x)!=3: return True
            if isinstance(x,tuple):
                for y in x:
                    if isinstance(y,np.ndarray) and sys.getrefcount(y)!=3: return True
        return False
    def _g(self,name):
        x = getattr(self.m,name)()
        if self.point==name:
            if self.how=='raise': raise ValueError('evil '+name)
            if self.how=='type':  return 5
            if self.how=='dtype': return (x[0],x[1].astype(np.float32)) if name=='intrinsics' else x.astype(np.int16)
            if self.how=='shape': return (x[0],x[1].reshape(1,-1)) if name=='intrinsics' else np.zeros((7,),dtype=x.dtype)
            if self.how=='name':  return ('LENSMODEL_NOPE',x[1]) if name=='intrinsics' else x[:1]
            if self.how=='arity': return x+(3,) if name=='intrinsics' else None
        return x
    def intrinsics(self): return self._f('intrinsics')
    def imagersize(self): return self._f('imagersize')
    def rt_cam_ref(self): return self._f('rt_cam_ref')

class C05(core.Property):
    id    = 'C05'
    level = 'exploration'
    technique = 'deterministic simulation: seeded histories of reads with failing open/stat/mmap/read/malloc'
    rule  = ('One case: a history of 1-12 reads (C file, string, preallocated-buffer readers, Python converter given a path, '
             'an object or None) of valid, invalid, empty, missing files, each with its own seeded resource faults. '
             'Non-trivial: a fault fired, or a read of an invalid file is followed by a read of a valid one.')
    runs  = dict(quick=25000,thorough=600000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['libmrcal C model readers','python-cameramodel-converter','kernel file system (tmpfs)']
    stub  = ['results of faulted system calls and allocations']
    assumptions = ['the caller initializes the converter output to NULL']

    def prepare(self,tier):
        models.clib()

    def generate(self,rng,k,tier):
        specs = []
        for i in range(rng.randrange(1,4)):
            s = models.random_model_spec(rng,wild=rng.random()<.5)
            s['opt'] = None
            if rng.random()<.4:
                s['lensmodel']='LENSMODEL_PINHOLE'; s['intrinsics']=s['intrinsics'][:4]
            specs.append(s)
        steps = []
        for i in range(rng.randrange(1,13)):
            st = dict(op=rng.choice(OPS), m=rng.randrange(len(specs)), bad=rng.choice(BAD) if rng.random()<.35 else None,
                      nmax=rng.choice((0,0,-1,-3,5,1000)), sys=[], mem=[], evil=None)
            if st['op']=='conv_obj' and rng.random()<.6:
                st['evil'] = [rng.choice(('intrinsics','imagersize','rt_cam_ref')),rng.choice(('raise','type','dtype','shape','name','arity'))]
            if rng.random()<.5:
                for j in range(rng.choice((1,1,1,2))):
                    st['sys'].append([rng.randrange(0,7),rng.choice(('err','err','err','do_then_err','short')),rng.randrange(1<<16)])
            if rng.random()<.4:
                for j in range(rng.choice((1,1,1,2))): st['mem'].append(rng.randrange(0,4))
            steps.append(st)
        return dict(specs=specs,steps=steps)

    def _text(self,spec,bad):
        '''What the file contains'''
        o = models.rounded(models.observe(models.make_model(spec)))
        lm = o['lensmodel']
        nums = lambda v: '[ ' + ', '.join('%.10g' % x for x in v) + ' ]'
        intr = o['intrinsics']
        if bad=='manyintr': intr = list(intr)+[1.]
        if bad=='fewintr':  intr = intr[:-1]
        kv = [('lensmodel',"'%s'" % ('LENSMODEL_BOGUS' if bad=='badmodel' else lm)),
              ('intrinsics',nums(intr)),
              ('rt_cam_ref',nums(o['rt_cam_ref'])),
              ('extrinsics',nums(o['rt_cam_ref']+(1 if bad=='extrinsics_differ' else 0))),
              ('imagersize','[ %d, %d ]' % tuple(o['imagersize']))]
        drop = dict(nolens='lensmodel',nointr='intrinsics',noimg='imagersize').get(bad)
        kv = [x for x in kv if x[0]!=drop]
        if bad=='noext':     kv = [x for x in kv if x[0] not in ('rt_cam_ref','extrinsics')]
        if bad=='dupintr':   kv.append(('intrinsics',nums(intr)))
        if bad=='notnumber': kv.append(('weird','[ a b ]'))
        if bad=='unknownkey':kv[1:1] = [('weird',"b'xyz'"),('w2','[ [1,2],[3,4], ]'),('w3','5.5e3')]
        s = '# comment\n{\n' + ',\n'.join("  '%s': %s" % x for x in kv) + '\n}\n'
        if bad=='truncated': s = s[:-3]
        if bad=='garbage':   s = '@#$%' + s
        if bad=='trailing':  s = s + ' x'
        if bad=='empty':     s = ''
        b = s.encode()
        if bad=='page':      b = b'#'*(4095-len(b)%4096) + b'\n' + b if len(b)%4096 else b
        valid = bad in (None,'page','unknownkey')
        return b,(o if valid else None)

    def _run(self,S,plan,root):
        import mrcal
        L = models.clib()
        mods = [models.make_model(s) for s in plan['specs']]
        texts = {}
        S.armed = 0
        for i,st in enumerate(plan['steps']):
            b,o = self._text(plan['specs'][st['m']],st['bad'])
            texts[i] = (b,o)
            p = f'{root}/s{i}'
            if st['bad']=='dir': os.mkdir(p)
            elif st['bad']!='missing':
                with open(p,'wb') as f: f.write(b)
            if st['bad'] in ('dir','missing') and not st['op'].startswith(('string','sinto')): texts[i] = (b,None)
            if st['bad'] in ('dir','missing') and st['op'].startswith(('string','sinto')): texts[i] = (b,self._text(plan['specs'][st['m']],None)[1])
        base = None
        out = []
        S.malloc_armed = 1
        for i,st in enumerate(plan['steps']):
            b,o = texts[i]
            p = f'{root}/s{i}'
            op = st['op']
            N  = len(plan['specs'][st['m']]['intrinsics'])
            S.nfaults = 0
            for ev,kind,r in st['sys']:
                f = S.faults[S.nfaults]; S.nfaults += 1
                f.ev = S.nev+ev; f.kind = core.KINDS[kind]
                f.arg = (5,12,24,4,13)[r%5] if kind!='short' else 1+r%50
            S.malloc_nfail = len(st['mem'])
            for j,x in enumerate(st['mem']): S.malloc_fail[j] = S.malloc_count+x
            fired0 = sum(S.fired)
            before = (S.live_fds,S.live_maps,S.live_pages,S.malloc_live)
            S.armed = 1
            nmax = None; err = None; got = None
            try:
                if   op=='file':     got = models.c_read(p)
                elif op=='string':   got = models.c_read_guarded(b,False) if b else None
                elif op=='string0':  got = models.c_read_guarded(b,True)
                elif op=='into':
                    nmax0 = max(N+st['nmax'],0)
                    got,nmax = models.c_read_into(p,None,0,nmax0)
                elif op=='sinto':
                    nmax0 = max(N+st['nmax'],0)
                    import ctypes
                    got,nmax = models.c_read_into(None,b if b else b'\0',len(b),nmax0)
                elif op=='conv_path':got = models.c_converter(p)
                elif op=='conv_obj':
                    ev = Evil(mods[st['m']],*(st['evil'] or ()))
                    got = models.c_converter(ev)
                elif op=='conv_none':got = models.c_converter_rc(None)
            except Exception as e:
                err = (type(e).__name__,str(e)[:200].replace(root,''))
            S.armed = 0
            after = (S.live_fds,S.live_maps,S.live_pages,S.malloc_live)
            fired = sum(S.fired)-fired0
            log = (i,op,st['bad'],fired,got is not None,nmax,err)
            bad = None
            if op=='conv_obj' and ev.leaked(): bad = ('leak','the converter still holds on to the data of the model')
            elif after!=before:
                bad = ('leak',f'(descriptors,file mappings,pages,heap blocks) {before} -> {after}')
            elif op=='conv_none':
                if got!=-4 or err: bad = ('converter',f'None: {got} {err}')
            else:
                want = o
                if op=='conv_obj': want = None if st['evil'] and self._evil_bad(st['evil']) else models.observe(mods[st['m']])
                small = op in ('into','sinto') and nmax0 < N
                if got is not None:
                    if want is None:     bad = ('accepted',f'invalid input ({st["bad"] or st["evil"]}) accepted')
                    elif small:          bad = ('overflow','a model was read into a buffer that is too small')
                    else:
                        d = models.cdiff(got,want)
                        if d: bad = ('misread',d)
                elif want is not None and not small and not fired:
                    bad = ('rejected',f'valid model rejected without a fault {err}')
                if not bad and op.startswith('conv') and got is None and err is None: bad = ('noexc','the converter failed without setting an exception')
                if not bad and op.startswith('conv') and got is not None and err: bad = ('exc','the converter succeeded with an exception set')
                if not bad and nmax is not None and got is None:
                    if small and nmax not in (0,N): bad = ('nmax',f'buffer for {nmax0} is too small for {N}: reported {nmax}')
                    if small and nmax==0 and not fired and want is not None: bad = ('nmax',f'buffer for {nmax0} is too small for {N}: reported {nmax}')
                    if not small and nmax!=0: bad = ('nmax',f'the buffer is large enough ({nmax0} for {N}), but it reported {nmax}')
            out.append((log,bad))
            if bad: break
        S.malloc_armed = 0
        return out

    def _evil_bad(self,e):
        name,how = e
        if name=='rt_cam_ref' and how=='name': return True
        return True

    def execute(self,plan):
        stats={}; log=[]
        root = core.scratch()
        try:
            sim = core.Sim(root)
            st,out = sim.run(self._run,plan,root)
            fired = sim.fired()
            core._merge(stats,faults.stats(fired))
            log.append((st,out if st=='ok' else None,sim.events()))
            viol = None
            if st!='ok': viol = core.violation('died',f'reader: {st} {out if st!="exc" else out[:2]} under {fired}')
            else:
                for l,b in out:
                    if b:
                        viol = core.violation(b[0],f'step {l[0]}: {l[1]} of {l[2] or "a valid model"}: {b[1]}'[:700])
                        break
                stats['probe:failed reads'] = sum(1 for l,b in out if not l[4])
                stats['probe:good reads'] = sum(1 for l,b in out if l[4])
            nt = bool(fired) or any(a['bad'] for a in plan['steps'])
            return core.result(viol,stats,log,nontrivial=nt,simtime=len(plan['steps']))
        finally:
            core.scratch_remove(root)

    def shrink(self,plan):
        n = len(plan['steps'])
        if n>2:
            yield dict(plan,steps=plan['steps'][:n//2]); yield dict(plan,steps=plan['steps'][n//2:])
        for i in range(n):
            if n>1: yield dict(plan,steps=plan['steps'][:i]+plan['steps'][i+1:])
        for i,s in enumerate(plan['steps']):
            for k in ('sys','mem'):
                for j in range(len(s[k])):
                    yield dict(plan,steps=plan['steps'][:i]+[dict(s,**{k:s[k][:j]+s[k][j+1:]})]+plan['steps'][i+1:])
            if s['bad']: yield dict(plan,steps=plan['steps'][:i]+[dict(s,bad=None)]+plan['steps'][i+1:])
        for i,s in enumerate(plan['specs']):
            if s['lensmodel']!='LENSMODEL_PINHOLE':
                yield dict(plan,specs=plan['specs'][:i]+[dict(s,lensmodel='LENSMODEL_PINHOLE',intrinsics=s['intrinsics'][:4])]+plan['specs'][i+1:])

PROPERTY = C05()
