'''C01: the corner cache is all-or-nothing'''
import os
import shutil
from dst import core, faults, detector, procs

def attempt(S,plan,a):
    '''Runs in the simulated process'''
    b = a.get('peer')
    if not b: return detector.detect(S,plan,a)
    return procs.overlap(S,core.rng_for('overlap',a['seed']),
                         [lambda: detector.detect(S,plan,a), lambda: detector.detect(S,plan,b)],b['burst'])

class C01(core.Property):
    id    = 'C01'
    level = 'exploration'
    rule  = ('One case: a random set of images and detections, and a history of 1..5 detection attempts in one directory. '
             'An attempt may overlap with a second one: two processes, switched by the scheduler at each file operation. '
             'Each attempt has its own detector program (complete, partial, malformed; exit status, signal, spawn failure), '
             'system-call faults, quota, crash point or interrupt during the detection and the caching. '
             'Non-trivial: a fault fired or a detector failed, a later attempt read the cache of an earlier one, or two attempts overlapped.')
    runs  = dict(quick=3000,thorough=150000)
    wall  = dict(quick=90.,thorough=1500.)
    real  = ['mrcal.compute_chessboard_corners()','tempfile, shutil, CPython file I/O','kernel file system (tmpfs)']
    stub  = ['the detector process and its pipes (subprocess.Popen)','results of faulted system calls']
    assumptions = ['a detector that exits with status 0 has printed everything']

    def generate(self,rng,k,tier):
        for i in range(50):
            scene = detector.random_scene(rng)
            if scene['W']<10 or rng.random()<.2:
                if detector.sane(scene): break
        cache = rng.choice(('corners.vnl','corners.vnl','out/c.vnl','./corners.vnl','out/noext'))
        pre   = None
        r = rng.random()
        if   r<.1:  pre = detector.output(scene)
        elif r<.15: pre = ''
        elif r<.2:  pre = 'garbage in\nthe cache\n'
        att = []
        for i in range(rng.choice((1,2,2,3,5))):
            a = dict(program=detector.random_program(rng,scene), seed=rng.randrange(1<<30),
                     cap=rng.choice((65536,65536,4096,16)), tmp=rng.choice((None,'tmp')),
                     xdev=rng.random()<.4, faults=[], quota=None)
            if rng.random()<.3:
                a['peer'] = dict(program=detector.random_program(rng,scene,rng.choice((None,'ok','ok'))), seed=rng.randrange(1<<30),
                                 cap=rng.choice((65536,16)), tmp=rng.choice((None,'tmp')), burst=rng.choice((1.,2.,5.,20.)))
            r = rng.random()
            if   r<.30: pass
            elif r<.80: a['faults'] = faults.gen(rng,kinds=('err','err','short','crash_before','crash_after','torn_crash','do_then_err','sigint'),
                                                 classes=('write','write','open','close','rename',None,None))
            elif r<.90: a['quota'] = round(rng.random(),3)
            else:       a['sigint_at'] = rng.randrange(1,12)
            att.append(a)
        return dict(scene=scene,cache=cache,pre=pre,attempts=att)

    def execute(self,plan):
        stats = {}
        log   = []
        simt  = 0
        nt    = False
        V = lambda cls,msg: core.result(core.violation(cls,msg),stats,log,simtime=simt)
        scene = plan['scene']
        full  = detector.output(scene)
        want  = detector.expected(scene)
        fulln = detector.normalise(full)
        root  = core.scratch()
        tmps  = []
        def read(path):
            try:
                with open(path,'rb') as f: return f.read()
            except FileNotFoundError: return None
        try:
            path = f'{root}/{plan["cache"]}'
            for d in ('out','tmp'): os.mkdir(f'{root}/{d}')
            if plan['pre'] is not None:
                with open(path,'w') as f: f.write(plan['pre'])
            for ia,a in enumerate(plan['attempts']):
                before = read(path)
                prog   = a['program']
                if before is not None: good = plan['pre'] is None or plan['pre']==full
                else:                  good = prog['kind']=='ok'
                # fault-free run in a copy of the directory, to learn which system calls are made
                ff = []
                if a['faults'] or a['quota'] is not None or a['xdev']:
                    def dry(ff):
                        t = core.scratch(); tmps.append(t)
                        t2 = t+'/r'
                        shutil.copytree(root,t2)
                        s = core.Sim(t2,faults=ff)
                        s.run(attempt,plan,a)
                        return s.events()
                    ev = dry([])
                    if a['xdev']:
                        ff = [(i,'err',18) for i,e in enumerate(ev) if e[0]=='rename' and '/tmp/' in e[1]]
                        if ff: ev = dry(ff)
                    pl = faults.place(ev,a['faults'])
                    ff = ff + [x for x in pl if x[0] not in [y[0] for y in ff]]
                xdev_only = bool(ff) and all(x[1]=='err' and x[2]==18 for x in ff)
                sim = core.Sim(root,faults=ff,quota=None if a['quota'] is None else int(a['quota']*len(full)))
                st,v = sim.run(attempt,plan,a)
                fired = sim.fired()
                after = read(path)
                core._merge(stats,faults.stats(fired))
                simt += len(sim.events())
                if a.get('peer'):
                    if st!='ok': return V('died',f'attempt {ia}: {st} {v}')
                    v,switches,order = v
                    log.append((sim.events(),order,[(s,None if s!='ok' else (x['exc'],x['wlog'])) for s,x in v]))
                    stats['probe:overlapping attempts'] = stats.get('probe:overlapping attempts',0)+1
                    nt = nt or switches>2
                    bad = self.overlapped(ia,a,scene,before,after,good,fired,v,want,stats,None if plan['pre'] is None or plan['pre']==full else plan['pre'])
                    if bad: return V(*bad)
                    continue
                log.append((st,sim.events(),None if st!='ok' else (v['exc'],v['wlog'])))
                what = f"attempt {ia}: detector {prog['kind']}, faults {fired or 'none'}"
                if st in ('timeout',) or (st=='signal' and not fired.get('sigint')): return V('died',f'{what}: {st} {v}')
                if st=='exc' and v[0]!='KeyboardInterrupt': return V('died',f'{what}: {v[:2]}')
                interrupted = st!='ok'
                # 1. what is in the cache?
                if before is not None:
                    nt = nt or ia>0
                    # a failing stat() may make the cache look missing
                    if after!=before and not (fired and after is not None and prog['kind']=='ok' and
                                              detector.normalise(after.decode('latin1'))==fulln):
                        return V('clobber',f'{what}: an existing cache was modified')
                elif after is not None:
                    if prog['kind'] not in ('ok','malformed'):
                        return V('cached_failure',f'{what}: the cache now holds the output of a failed detection')
                    ptext = ''.join(o[1] for o in prog['ops'] if o[0]=='out')
                    try: t = after.decode('latin1')
                    except Exception: t = ''
                    if detector.normalise(t)!=detector.normalise(ptext):
                        return V('partial',f'{what}: the cache holds {len(after)} bytes: not the complete output of the detector ({len(ptext)} bytes)')
                    stats['probe:cache committed'] = stats.get('probe:cache committed',0)+1
                if interrupted:
                    stats['probe:interrupted or crashed'] = stats.get('probe:interrupted or crashed',0)+1
                    nt = True
                    continue
                nt = nt or bool(fired) or prog['kind']!='ok'
                # 2. what did the call say?
                if v['exc'] and v['exc'][0]=='Deadlock': continue    # C02's business
                if before is not None and not fired and v['launched']+(0 if prog['spawn'] else 1-v['left']-v['launched'])>0:
                    return V('relaunch',f'{what}: the detector was run even though the cache exists')
                if v['exc'] is None:
                    if not good and before is None:
                        return V('success',f"{what}: the detection failed but the call succeeded")
                    if after is None: return V('nocache',f'{what}: the call succeeded without a cache')
                    if good:
                        d = detector.same(v['res'],want)
                        if d: return V('result',f'{what}: {d}')
                        # 3. a later call
                        s2 = core.Sim(root,arm=False)
                        st2,v2 = s2.run(detector.detect,plan,dict(seed=1),None,-1)
                        if st2!='ok' or v2['exc']: return V('reread',f'{what}: re-reading the cache: {st2} {v2["exc"] if st2=="ok" else v2}')
                        d = detector.same(v2['res'],v['res'])
                        if d or v2['res'][2]!=v['res'][2]: return V('reread',f'{what}: re-reading the cache: {d or "paths differ"}')
                        stats['probe:reread'] = stats.get('probe:reread',0)+1
                else:
                    if good and not fired and not a.get('sigint_at'):
                        return V('failed',f"{what}: {v['exc']}")
                    stats['probe:failure reported'] = stats.get('probe:failure reported',0)+1
            return core.result(None,stats,log,nontrivial=nt,simtime=simt)
        finally:
            core.scratch_remove(root)
            for t in tmps: core.scratch_remove(t)

    def overlapped(self,ia,a,scene,before,after,good,fired,outs,want,stats,badcache):
        '''Two attempts ran at the same time'''
        pp    = a['program'],a['peer']['program']
        what  = f"attempt {ia}: overlapping detectors {pp[0]['kind']},{pp[1]['kind']}, faults {fired or 'none'}"
        texts = [detector.normalise(''.join(o[1] for o in p['ops'] if o[0]=='out')) for p in pp if p['kind'] in ('ok','malformed')]
        if before is not None and after!=before and not (fired and after is not None):
            return 'clobber',f'{what}: an existing cache was modified'
        if after is not None and after!=before and detector.normalise(after.decode('latin1')) not in texts:
            return 'partial',f'{what}: the cache holds {len(after)} bytes: not the complete output of either detector'
        if before is None and after is not None:
            stats['probe:cache committed'] = stats.get('probe:cache committed',0)+1
        for i,(st,v) in enumerate(outs):
            w = f'{what}: process {i}'
            if st=='crash' or (st=='signal' and fired.get('sigint')): continue
            if st=='exc' and v[0]=='KeyboardInterrupt': continue
            if st!='ok': return 'died',f'{w}: {st} {v}'
            if v['exc'] and v['exc'][0]=='Deadlock': continue
            if v['exc'] is None:
                if after is None: return 'nocache',f'{w}: the call succeeded without a cache'
                if badcache is not None and before is not None: continue
                d = detector.same(v['res'],want)
                if d: return 'result',f'{w}: {d}'
            else:
                mine = good if before is not None else pp[i]['kind']=='ok'
                if mine and not fired and not (i==0 and a.get('sigint_at')) and (before is not None or pp[1-i]['kind']!='malformed'):
                    return 'failed',f"{w}: {v['exc']}"
        return None

    def shrink(self,plan):
        A = plan['attempts']
        for i in range(len(A)):
            if len(A)>1: yield dict(plan,attempts=A[:i]+A[i+1:])
        for i,a in enumerate(A):
            def w(**kw): return dict(plan,attempts=A[:i]+[dict(a,**kw)]+A[i+1:])
            for f in faults.shrink(a['faults']): yield w(faults=f)
            if a['xdev']: yield w(xdev=False)
            if a.get('peer'):
                b = a['peer']
                yield w(peer=None)
                yield w(peer=None,**{k:b[k] for k in ('program','seed','cap','tmp')})
                if b['burst']!=20.: yield w(peer=dict(b,burst=20.))
                if b['tmp']: yield w(peer=dict(b,tmp=None))
                t = ''.join(o[1] for o in b['program']['ops'] if o[0]=='out')
                y = dict(b['program'],ops=[['out',t]]+[o for o in b['program']['ops'] if o[0] not in ('out','err','sleep')])
                if y!=b['program']: yield w(peer=dict(b,program=y))
            if a['tmp']:  yield w(tmp=None)
            if a['quota'] is not None: yield w(quota=None)
            if a.get('sigint_at'): yield w(sigint_at=None)
            p = a['program']
            if any(o[0] in('sleep','err') for o in p['ops']):
                yield w(program=dict(p,ops=[o for o in p['ops'] if o[0] not in('sleep','err')]))
            if sum(o[0]=='out' for o in p['ops'])>1:
                t = ''.join(o[1] for o in p['ops'] if o[0]=='out')
                yield w(program=dict(p,ops=[['out',t]]+[o for o in p['ops'] if o[0]!='out']))

PROPERTY = C01()
