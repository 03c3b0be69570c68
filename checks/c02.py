'''C02: corner detection terminates and does not depend on child timing'''
import os
from dst import core, faults, detector

class C02(core.Property):
    id    = 'C02'
    level = 'exploration'
    rule  = ('One case: a random set of images and detections, one detector program (what it writes to which pipe, in what chunks, '
             'with what delays; how it ends), pipe capacities, and several seeded schedules of the child against the parent. '
             'Non-trivial: the detector fails, or writes more than a pipe holds, or a fault fired.')
    runs  = dict(quick=4000,thorough=200000)
    wall  = dict(quick=60.,thorough=1500.)
    real  = ['mrcal.compute_chessboard_corners()','CPython io stack above the pipes']
    stub  = ['the detector process, its pipes and its scheduling (subprocess.Popen)']
    assumptions = ['the detector does not itself wait for its caller']

    def generate(self,rng,k,tier):
        for i in range(50):
            scene = detector.random_scene(rng)
            if detector.sane(scene): break
        prog = detector.random_program(rng,scene,how=rng.choice(('ok','ok','ok','fail','fail','malformed','spawn')))
        total = sum(len(o[1]) for o in prog['ops'] if o[0] in('out','err'))
        return dict(scene=scene,cache=rng.choice((None,'corners.vnl','out/c.vnl')),program=prog,
                    schedules=[dict(seed=rng.randrange(1<<30),cap=max(total//2000,rng.choice((65536,65536,4096,64,1))))
                               for i in range(rng.choice((2,3,4)))],
                    faults=faults.gen(rng,kinds=('err','short','do_then_err')) if rng.random()<.25 else [])

    def execute(self,plan):
        stats = {}
        log   = []
        simt  = 0
        V = lambda cls,msg: core.result(core.violation(cls,msg),stats,log,simtime=simt)
        scene = plan['scene']
        want  = detector.expected(scene)
        prog  = plan['program']
        text  = ''.join(o[1] for o in prog['ops'] if o[0]=='out')
        nerr  = sum(len(o[1]) for o in prog['ops'] if o[0]=='err')
        nt    = prog['kind']!='ok' or nerr>65536 or len(text)>65536
        for i,s in enumerate(plan['schedules']):
            root = core.scratch()
            try:
                os.mkdir(f'{root}/out')
                ff = []
                if plan['faults'] and i==len(plan['schedules'])-1:
                    r2 = core.scratch(); os.mkdir(f'{r2}/out')
                    s0 = core.Sim(r2); s0.run(detector.detect,plan,dict(s,program=prog))
                    core.scratch_remove(r2)
                    ff = faults.place(s0.events(),plan['faults'])
                sim = core.Sim(root,faults=ff)
                st,v = sim.run(detector.detect,plan,dict(s,program=prog))
                fired = sim.fired()
                core._merge(stats,faults.stats(fired))
                log.append((st,v if st!='ok' else (v['exc'],v['wlog'],v['steps'])))
                nt = nt or bool(fired)
                what = f"schedule {i}, detector {prog['kind']} ({len(text)} bytes out, {nerr} bytes err, pipes of {s['cap']}), faults {fired or 'none'}"
                if st=='timeout': return V('hang',f'{what}: no end')
                if st!='ok':      return V('died',f'{what}: {st} {v}')
                simt += v['steps']
                if v['exc'] and v['exc'][0]=='Deadlock': return V('deadlock',f'{what}: the detector and its caller wait for each other')
                if v['unreaped']:   return V('zombie',f'{what}: the detector was not reaped')
                if v['open_pipes']: return V('fdleak',f"{what}: {v['open_pipes']} pipes left open")
                if v['fds']:        return V('fdleak',f"{what}: {v['fds']} descriptors left open")
                if prog['kind']=='ok' and v['argv'] and (scene['Ncam']!=len([x for x in v['argv'][0] if x.startswith(scene['dir']+'frame')])):
                    return V('argv',f"{what}: globs not given to the detector: {v['argv']}")
                files = [f for d,_,ff2 in os.walk(root) for f in ff2 if f'{d}/{f}'!=os.path.normpath(f'{root}/{plan["cache"]}')]
                if files and not (fired and any(e[0]=='unlink' and e[2] for e in sim.events())):
                    return V('tmpleak',f'{what}: temporary files left: {files}')
                if prog['kind']=='ok':
                    if v['exc']:
                        if not fired: return V('failed',f"{what}: {v['exc']}")
                    else:
                        d = detector.same(v['res'],want)
                        if d: return V('result',f'{what}: {d}')
                elif v['exc'] is None:
                    return V('swallowed',f'{what}: the failure was not reported')
                stats[f"probe:{prog['kind']}"] = stats.get(f"probe:{prog['kind']}",0)+1
                if nerr>s['cap']: stats['probe:stderr more than a pipe'] = stats.get('probe:stderr more than a pipe',0)+1
            finally:
                core.scratch_remove(root)
        return core.result(None,stats,log,nontrivial=nt,simtime=simt,sig=log)

    def shrink(self,plan):
        S = plan['schedules']
        for i in range(len(S)):
            if len(S)>1: yield dict(plan,schedules=S[:i]+S[i+1:])
        for f in faults.shrink(plan['faults']): yield dict(plan,faults=f)
        if plan['cache']: yield dict(plan,cache=None)
        p = plan['program']
        if any(o[0]=='sleep' for o in p['ops']): yield dict(plan,program=dict(p,ops=[o for o in p['ops'] if o[0]!='sleep']))
        if any(o[0]=='err' for o in p['ops']):   yield dict(plan,program=dict(p,ops=[o for o in p['ops'] if o[0]!='err']))
        for w in ('out','err'):
            t = ''.join(o[1] for o in p['ops'] if o[0]==w)
            if sum(o[0]==w for o in p['ops'])>1:
                yield dict(plan,program=dict(p,ops=[[w,t]]+[o for o in p['ops'] if o[0]!=w]))

PROPERTY = C02()
