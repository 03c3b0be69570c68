'''C14: traversing sensor links, with callbacks that fail'''
import ctypes
import gc
import heapq
import random
import sys
import threading
import weakref
from dst import core, build, pysched

MLIBS = ('libmrcal.so','_mrcal.cpython')

class Boom(Exception): pass
class BaseBoom(BaseException): pass
class R: pass

RAISE  = ('Boom','BaseBoom','KeyboardInterrupt','SystemExit','StopIteration','MemoryError','GeneratorExit','RecursionError','KeyError')
RETURN = ('None','True','R','1')
STOP   = ('False','np.False_')

def graph(g):
    '''(N, dict of edges (i,j): weight with i<j)'''
    r = random.Random(g['seed'])
    N = g['N']
    E = {}
    def w():
        k = g['w']
        if k=='same':  return 7
        if k=='small': return r.randrange(1,4)
        if k=='huge':  return r.randrange(65000,65536)
        if k=='ends':  return r.choice((1,2,65534,65535))
        return r.randrange(1,65536)
    def add(i,j):
        if i!=j: E[min(i,j),max(i,j)] = w()
    s = g['shape']
    if N>=2:
        if   s=='full':
            for i in range(N):
                for j in range(i): add(i,j)
        elif s=='random':
            for k in range(int(N*r.uniform(.3,4))): add(r.randrange(N),r.randrange(N))
        elif s=='chain':
            p = list(range(N)); r.shuffle(p)
            if r.random()<.8: i=p.index(0); p[0],p[i]=p[i],p[0]
            for a,b in zip(p,p[1:]): add(a,b)
            for k in range(r.choice((0,0,2,N))): add(r.randrange(N),r.randrange(N))
        elif s=='star':
            c = r.choice((0,N-1,r.randrange(N)))
            for i in range(N): add(c,i)
        elif s=='parts':
            m = r.randrange(1,N)
            for k in range(3*N):
                i,j = r.randrange(N),r.randrange(N)
                if (i<m)==(j<m): add(i,j)
        elif s=='layers':
            # many equivalent, and many nearly-equivalent paths; the costs of queued nodes keep going down
            L = max(2,int(N**.5))
            for i in range(N):
                for j in range(i+1,min(N,i+L+1)): add(i,j)
        elif s=='last':
            for i in range(1,N): add(i-1,i)
            add(0,N-1)
    return N,E

def solve(N,E):
    '''The reference: cost of the best path to each sensor that can be reached'''
    adj = [[] for i in range(N)]
    for (i,j),w in E.items():
        adj[i].append((j,w)); adj[j].append((i,w))
    dist = {}
    q = [(0,0)] if N else []
    while q:
        d,i = heapq.heappop(q)
        if i in dist: continue
        dist[i] = d
        for j,w in adj[i]:
            if j not in dist: heapq.heappush(q,(d+65536-w,j))
    return dist

def judge(N,E,dist,links,ncomplete):
    '''What's wrong with this sequence of links, or None'''
    seen = {0}
    last = 0
    for to,fr in links:
        if type(to) is not int or type(fr) is not int: return f'{fr!r}-{to!r}: not integers'
        if to==0:              return f'link {fr}-{to} leads to the root'
        if to in seen:         return f'sensor {to} is visited twice'
        if fr not in seen:     return f'link {fr}-{to} comes before its parent {fr} is visited'
        w = E.get((min(to,fr),max(to,fr)))
        if w is None:          return f'link {fr}-{to} is not in the connectivity matrix'
        if dist[fr]+65536-w != dist[to]: return f'link {fr}-{to}: the path has cost {dist[fr]+65536-w}; the best one: {dist[to]}'
        if dist[to]<last:      return f'sensor {to} with cost {dist[to]} is visited after one with cost {last}'
        last = dist[to]
        seen.add(to)
    if ncomplete and seen|{0} != set(dist)|{0}: return f'sensors {sorted(set(dist)-seen)[:8]} are not visited'
    return None

class C14(core.Property):
    id    = 'C14'
    level = 'exploration'
    technique = 'deterministic simulation: seeded histories of traversals with callbacks that fail, re-enter, or lose the processor; failing malloc()'
    rule  = ('histories of 1..8 traversals (python: mrcal.traverse_sensor_links(), C: mrcal_traverse_sensor_links()) of generated graphs (0..400 sensors, seldom '
             '~3000), in 1..3 simulated threads. The callback, at a chosen link, raises an exception of a chosen kind, returns something (False in particular), '
             'starts another traversal, or loses the processor to another thread; malloc() fails. The links are compared with an independent '
             'Dijkstra, the exception must be the very same object, no call may follow it, and nothing may stay referenced or allocated.')
    runs  = dict(quick=10000,thorough=400000)
    wall  = dict(quick=75.,thorough=1500.)
    real  = ['mrcal.traverse_sensor_links() and its C wrapper','traverse-sensor-links.c, heap.cc']
    stub  = ['the choice of the running python thread','failing malloc() in libmrcal and the extension module','the callbacks']
    assumptions = ['which of several best paths is taken isn\'t specified','callbacks return None, something true, or False']

    def prepare(self,tier):
        import numpy, mrcal
        self.np,self.mrcal = numpy,mrcal
        for b in open('/proc/self/maps'):
            if 'libmrcal.so' in b: self.clibpath = b.split()[-1]; break

    def generate(self,rng,k,tier):
        def g(depth):
            r = rng.random()
            if   r<.03:              N = rng.choice((0,1,2))
            elif r<.70 or depth:     N = rng.randrange(2,14)
            elif r<.97:              N = rng.randrange(14,60)
            else:                    N = rng.randrange(258,400)
            return dict(N=N,seed=rng.getrandbits(40),w=rng.choice(('any','same','small','huge','ends')),
                        shape=rng.choice(('full','random','random','chain','star','parts','layers','last')) if N<60 else rng.choice(('random','chain','star','layers')))
        def trav(depth,big=False):
            t = dict(g=g(depth),api=rng.choice(('py',)*7+('c',)),layout=rng.choice(('C','C','F','strided','reversed','readonly','offset','wide')),
                     how=rng.choice(('def','def','lambda','method','partial','setitem')),at={})
            if t['g']['N']>1 and rng.random()<.65:
                n = rng.choice((1,1,1,2,3))
                for i in range(n):
                    j = rng.choice((0,0,1,2,rng.randrange(t['g']['N']),t['g']['N']-2))
                    q = rng.random()
                    if   q<.40: a = ['raise',rng.choice(RAISE)]
                    elif q<.55: a = ['return',rng.choice(STOP)]
                    elif q<.70: a = ['return',rng.choice(RETURN)]
                    elif q<.90 and depth<3: a = ['enter',trav(depth+1)]
                    elif q<.95: a = ['drop']
                    else:       a = ['gc']
                    t['at'][str(max(j,0))] = a
            if rng.random()<.06: t['malloc'] = rng.choice((0,0,1,2))
            if rng.random()<.05: t['bad'] = rng.choice(('dtype','rect','1d','3d','callback','missing','nomatrix','extra'))
            if depth==0 and rng.random()<.003:
                t['g'].update(N=rng.choice((2200,3000)),shape=rng.choice(('chain','layers','star'))); t['layout']='C'
            return t
        n = rng.choice((1,1,1,1,2,3))
        return dict(threads=[[trav(0) for i in range(rng.randrange(1,9) if n==1 else rng.randrange(1,4))] for j in range(n)],
                    seed=rng.getrandbits(40),mean=rng.choice((3,10,40)),repeat=rng.random()<.1)

    def matrix(self,N,E,layout):
        np = self.np
        M = np.zeros((N,N),dtype=np.uint16)
        if E:
            ij = np.array(list(E)); w = np.array(list(E.values()),dtype=np.uint16)
            M[ij[:,0],ij[:,1]] = w; M[ij[:,1],ij[:,0]] = w
        if layout=='F':         M = np.asfortranarray(M)
        elif layout=='strided': B = np.full((2*N,3*N),77,dtype=np.uint16); B[::2,::3][:N,:N] = M; M = B[::2,::3][:N,:N]
        elif layout=='reversed':M = np.ascontiguousarray(M[::-1,::-1])[::-1,::-1]
        elif layout=='readonly':M.flags.writeable = False
        elif layout=='offset':  B = np.zeros((N*N+3,),dtype=np.uint16); B[3:] = M.ravel(); M = B[3:].reshape(N,N)
        elif layout=='wide':    B = np.full((N,N+5),99,dtype=np.uint16); B[:,2:N+2] = M; M = B[:,2:N+2]
        return M

    def value(self,k,refs):
        np = self.np
        if k=='R': x = R(); refs.append(weakref.ref(x)); return x
        return {'None':None,'True':True,'False':False,'np.False_':np.False_,'1':1}[k]

    def exception(self,k):
        return {'Boom':Boom,'BaseBoom':BaseBoom,'KeyboardInterrupt':KeyboardInterrupt,'SystemExit':SystemExit,'StopIteration':StopIteration,
                'MemoryError':MemoryError,'GeneratorExit':GeneratorExit,'RecursionError':RecursionError,'KeyError':KeyError}[k](f'sent {k}')

    def traverse(self,t,S,log,depth=0):
        '''Do one traversal. Returns None or (class,message)'''
        np,mrcal = self.np,self.mrcal
        N,E  = self.graphs[t['g']['seed'],t['g']['N'],t['g']['shape'],t['g']['w']]
        dist = self.dists [t['g']['seed'],t['g']['N'],t['g']['shape'],t['g']['w']]
        M    = self.matrix(N,E,t['layout'])
        M0   = M.copy()
        desc = f'{t["api"]}, {N} sensors ({t["g"]["shape"]}, {t["g"]["w"]} weights), {t["layout"]} matrix, callbacks {t["at"] or "fine"}'
        links= []
        refs = []
        sent = []
        inner= []
        final= []        # 'raise' or 'stop': then no call may follow
        holder = [M]
        def body(to,fr):
            k = len(links)
            links.append((to,fr))
            a = t['at'].get(str(k))
            if final: final.append('called again')
            if a is None: return None
            if a[0]=='raise':
                e = self.exception(a[1]); sent.append(e); final.append('raise')
                raise e
            if a[0]=='return':
                if a[1] in STOP: final.append('stop')
                return self.value(a[1],refs)
            if a[0]=='enter':
                v = self.traverse(a[1],S,log,depth+1)
                if v is not None: inner.append(v)
            if a[0]=='drop': holder.clear()
            if a[0]=='gc':   gc.collect()
        D = {}
        how = t['how']
        if   how=='lambda':  cb = lambda a,b: body(a,b)
        elif how=='method':
            class K:
                def __call__(self,a,b): return body(a,b)
                def m(self,a,b): return body(a,b)
            cb = K().m
        elif how=='partial':
            import functools
            cb = functools.partial(lambda x,a,b: body(a,b),3)
        elif how=='setitem' and not t['at']: cb = D.__setitem__
        else:                cb = body
        if t['api']=='c': return self.traverse_c(t,N,E,dist,body,links,final,sent,inner,desc,log)
        kw = dict(connectivity_matrix=holder[0],callback_sensor_link=cb)
        bad = t.get('bad')
        if   bad=='dtype':    kw['connectivity_matrix'] = M.astype(np.int64)
        elif bad=='rect':     kw['connectivity_matrix'] = np.zeros((N+1,N),dtype=np.uint16)
        elif bad=='1d':       kw['connectivity_matrix'] = np.zeros((4,),dtype=np.uint16)
        elif bad=='3d':       kw['connectivity_matrix'] = np.zeros((3,3,3),dtype=np.uint16)
        elif bad=='callback': kw['callback_sensor_link'] = 'not callable'
        elif bad=='missing':  del kw['callback_sensor_link']
        elif bad=='nomatrix': del kw['connectivity_matrix']
        elif bad=='extra':    kw['x'] = 5
        A    = kw.get('connectivity_matrix',M)
        rA0  = sys.getrefcount(A); rc0 = sys.getrefcount(cb)
        rF0  = sys.getrefcount(np.False_)
        fail = t.get('malloc')
        mine = fail is not None and depth==0 and self.armed and not any(a[0]=='enter' for a in t['at'].values())
        if mine:
            n0 = S.malloc_count
            S.malloc_fail[0] = n0+fail; S.malloc_nfail = 1
        live0 = S.malloc_live
        e = None; out = None
        try:
            out = mrcal.traverse_sensor_links(**kw)
        except BaseException as ex:
            e = ex
        starved = False
        if mine:
            S.malloc_nfail = 0
            starved = S.malloc_count > n0+fail
            self.nstarved += starved
        if self.armed and S.malloc_live!=live0: return 'leak',f'{desc}: {S.malloc_live-live0} blocks of memory leaked ({e!r})'
        if inner: return inner[0]
        if how=='setitem' and not t['at']: links = list(D.items()); D.clear()
        log.append((depth,len(links),core.digest(repr(links)),type(e).__name__,str(e)[:80]))
        if final and final[-1]=='called again': return 'called-after-failure',f'{desc}: the callback is called again after it {final[0]}'
        if bad:
            if e is None: return 'bad-arguments-accepted',f'{desc}: bad arguments ({bad}) are accepted'
            if links:     return 'bad-arguments-accepted',f'{desc}: bad arguments ({bad}): there were callbacks'
        elif sent:
            if e is not sent[0]: return 'exception-changed',f'{desc}: the callback raised {sent[0]!r}; the caller got {e!r} (returned {out!r})'
            tb = e.__traceback__; names = []
            while tb is not None: names.append(tb.tb_frame.f_code.co_name); tb = tb.tb_next
            if 'body' not in names: return 'exception-changed',f'{desc}: the exception lost its traceback: {names}'
            if e.__cause__ is not None or e.__context__ is not None: return 'exception-changed',f'{desc}: {e!r} got a context {e.__context__!r}'
            del tb
        elif final:
            if e is None: return 'stop-ignored',f'{desc}: the callback returned False; the traversal returned {out!r}'
        elif e is not None:
            if not (starved and isinstance(e,(MemoryError,Exception)) and not links):
                return 'unexpected-error',f'{desc}: {type(e).__name__}: {e}'
            final.append('starved')
        elif not out:
            return 'no-true-value',f'{desc}: returned {out!r} on success'
        if not bad:
            w = judge(N,E,dist,links,not final)
            if w: return 'wrong-links',f'{desc}: {w}; links (from,to): {[(f,t_) for t_,f in links][:20]}'
            if M.dtype!=M0.dtype or not (M==M0).all(): return 'argument-modified',f'{desc}: the matrix was modified'
        # the exception's traceback holds the frames, which hold everything
        if e is not None: e.__traceback__ = None
        we = None
        if sent and isinstance(e,(Boom,BaseBoom)): we = weakref.ref(e)
        e = None; sent.clear()
        for l in links:
            # small integers are shared
            for x in l:
                if x > 256:
                    c = sys.getrefcount(x)
                    # this tuple, x, getrefcount(); the same sensor may have had other objects made for it
                    if c!=3: return 'leak',f'{desc}: the sensor index {x} given to the callback has {c-3} extra references'
        if we is not None and we() is not None: return 'leak',f'{desc}: the exception stays referenced'
        for r in refs:
            if r() is not None: return 'leak',f'{desc}: what the callback returned stays referenced'
        if self.armed and depth==0 and sys.getrefcount(np.False_)!=rF0: return 'leak',f'{desc}: np.False_ has {sys.getrefcount(np.False_)-rF0} extra references'
        rA1 = sys.getrefcount(A); rc1 = sys.getrefcount(cb)
        if 'drop' in [a[0] for a in t['at'].values()] and not holder and not bad: rA1 += 1
        if rA1!=rA0: return 'leak',f'{desc}: the matrix has {rA1-rA0} extra references'
        if rc1!=rc0: return 'leak',f'{desc}: the callback has {rc1-rc0} extra references'
        return None

    def traverse_c(self,t,N,E,dist,body,links,final,sent,inner,desc,log):
        np = self.np
        def cb(to,fr,cookie):
            if cookie != 0x1234: final.append('bad cookie')
            try:
                r = body(to,fr)
            except BaseException as e:
                e.__traceback__ = None
                return False
            return not (r is False or r is np.False_)
        CB,f = self.CB,self.cfn
        M = self.matrix(N,E,'C')
        U = np.ascontiguousarray(M[np.triu_indices(N,1)]) if N else np.zeros((1,),dtype=np.uint16)
        U0= U.copy()
        out = f(N,U.ctypes.data,CB(cb),0x1234)
        if inner: return inner[0]
        log.append((-1,len(links),core.digest(repr(links)),bool(out)))
        if 'bad cookie' in final: return 'wrong-cookie',f'{desc}: wrong cookie'
        if final and final[-1]=='called again': return 'called-after-failure',f'{desc}: the callback is called again after it failed'
        if bool(final)==bool(out): return 'wrong-status',f'{desc}: returned {out!r}; the callback failed: {bool(final)}'
        w = judge(N,E,dist,links,not final)
        if w: return 'wrong-links',f'{desc}: {w}; links (from,to): {[(f_,t_) for t_,f_ in links][:20]}'
        if not (U==U0).all(): return 'argument-modified',f'{desc}: the matrix was modified'
        return None

    def _graphs(self,plan):
        self.graphs = {}; self.dists = {}
        def walk(t):
            g = t['g']; k = g['seed'],g['N'],g['shape'],g['w']
            if k not in self.graphs:
                self.graphs[k] = graph(g); self.dists[k] = solve(*self.graphs[k])
            for a in t['at'].values():
                if a[0]=='enter': walk(a[1])
        for t in plan['threads']:
            for x in t: walk(x)

    def _go(self,S,plan):
        self.plan     = plan
        self.nstarved = 0
        self.CB       = ctypes.CFUNCTYPE(ctypes.c_bool,ctypes.c_uint16,ctypes.c_uint16,ctypes.c_void_p)
        self.cfn      = ctypes.CDLL(self.clibpath).mrcal_traverse_sensor_links
        self.cfn.restype  = ctypes.c_bool
        self.cfn.argtypes = [ctypes.c_uint16,ctypes.c_void_p,self.CB,ctypes.c_void_p]
        self._graphs(plan)
        gc.disable()
        self.armed    = len(plan['threads'])==1
        if self.armed: S.malloc_armed = 1
        T   = plan['threads']
        log = []
        if len(T)==1:
            for i,t in enumerate(T[0]):
                v = self.traverse(t,S,log)
                if v is not None: return log,(v[0],f'traversal {i}: {v[1]}'),0,self.nstarved,0
            if plan['repeat']:
                # The same ones again, many times: memory use may not grow
                mi = self.mallinfo()
                for k in range(6):
                    for t in T[0]: self.traverse(dict(t,malloc=None),S,[])
                    gc.collect()
                    if k==1: m0 = mi()
                n = max(x['g']['N'] for x in T[0])
                d = mi()-m0
                if n>=40 and d > 4*n*(n-1)//2*2*.9: return log,('leak',f'{d} bytes of memory leaked by 4 repeats of {len(T[0])} traversals of {n} sensors'),0,self.nstarved,1
            return log,None,0,self.nstarved,int(plan['repeat'])
        threading.stack_size(1<<20)
        sch  = pysched.Scheduler(core.rng_for('sched',plan['seed']),mean=plan['mean'])
        logs = [[] for t in T]
        def body(i):
            for j,t in enumerate(T[i]):
                v = self.traverse(dict(t,malloc=None),S,logs[i])
                if v is not None: return v[0],f'thread {i}, traversal {j}: {v[1]}'
        out = sch.run([lambda i=i: body(i) for i in range(len(T))])
        if sch.stuck: return log,('stuck','the threads wait for each other'),sch.switches,0,0
        v = None
        for o in out:
            if o[0]!='ok': raise o[1]
            v = v or o[1]
        return logs+[sch.trace_log[:50]],v,sch.switches,0,0

    def mallinfo(self):
        class MI(ctypes.Structure):
            _fields_ = [(n,ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]
        f = ctypes.CDLL(None).mallinfo2
        f.restype = MI
        def used():
            x = f()
            return x.uordblks + x.hblkhd
        return used

    def execute(self,plan):
        d = core.scratch()
        try:
            sim = core.Sim(d,arm=False,malloc_libs=MLIBS,timeout=120.)
            st,v = sim.run(self._go,plan)
        finally:
            core.scratch_remove(d)
        stats = {}
        def count(t,depth):
            def inc(k): stats[k] = stats.get(k,0)+1
            inc('traversals'); inc('traversals:'+t['api'])
            if depth: inc('traversals:nested')
            for a in t['at'].values():
                if a[0]=='enter': count(a[1],depth+1)
                else: inc('planned:'+(a[0] if len(a)==1 else f'{a[0]} {a[1]}'))
        for t in plan['threads']:
            for x in t: count(x,0)
        if st!='ok':
            return core.result(core.violation('died',f'{st} {v}',key=str(st)),stats,(st,str(v)[:200]))
        log,viol,sw,starved,rep = v
        if starved: stats['fault:malloc'] = starved
        if sw: stats['thread switches'] = sw
        if rep: stats['probe:memory use over repeats'] = rep
        if viol is not None: viol = core.violation(viol[0],viol[1])
        return core.result(viol,stats,log=core.digest(repr(log)),nontrivial=any(x['g']['N']>2 for t in plan['threads'] for x in t),sig=repr(log))

    def shrink(self,plan):
        T = plan['threads']
        if len(T)>1:
            for i in range(len(T)): yield dict(plan,threads=T[:i]+T[i+1:])
        for i in range(len(T)):
            if len(T[i])>3:
                h = len(T[i])//2
                yield dict(plan,threads=T[:i]+[T[i][h:]]+T[i+1:]); yield dict(plan,threads=T[:i]+[T[i][:h]]+T[i+1:])
            for j in range(len(T[i])):
                if len(T[i])>1: yield dict(plan,threads=T[:i]+[T[i][:j]+T[i][j+1:]]+T[i+1:])
                for t in self.smaller(T[i][j]):
                    yield dict(plan,threads=T[:i]+[T[i][:j]+[t]+T[i][j+1:]]+T[i+1:])
        if plan['repeat']: yield dict(plan,repeat=False)

    def smaller(self,t):
        for k in t['at']:
            yield dict(t,at={a:b for a,b in t['at'].items() if a!=k})
            if t['at'][k][0]=='enter':
                yield t['at'][k][1]
                for u in self.smaller(t['at'][k][1]): yield dict(t,at={**t['at'],k:['enter',u]})
        for k in ('malloc','bad'):
            if k in t: yield {a:b for a,b in t.items() if a!=k}
        if t['layout']!='C': yield dict(t,layout='C')
        if t['how']!='def':  yield dict(t,how='def')
        N = t['g']['N']
        for n in (3,5,N//2,N-1):
            if 2<=n<N: yield dict(t,g=dict(t['g'],N=n))
        if t['g']['w']!='small': yield dict(t,g=dict(t['g'],w='small'))

PROPERTY = C14()
