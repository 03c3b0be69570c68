'''Fault plans for the system-call seam

A plan lists faults as dict(u=[0,1), kind, arg, on=class). u selects one of the
events of the fault-free run (of the given class of calls, if any), so that
every fault lands somewhere that matters. A fault dict(after=n, kind, r) instead
hits the n-th call after the previous fault: the code that handles that one.

'''
import errno

ERRS = {'write': (errno.ENOSPC,errno.EIO,errno.EINTR,errno.EDQUOT),
        'open':  (errno.EMFILE,errno.EACCES,errno.ENOSPC,errno.EIO,errno.EINTR),
        'close': (errno.EIO,errno.ENOSPC),
        'read':  (errno.EIO,errno.EINTR),
        'mmap':  (errno.ENOMEM,errno.ENODEV),
        'rename':(errno.EXDEV,errno.EIO,errno.ENOSPC,errno.EACCES)}
OTHER = (errno.EIO,errno.ENOMEM,errno.EACCES)
CLS = {'write':('write','pwrite','writev'),'open':('open','creat'),'read':('read','pread','readv')}

def gen(rng, kinds=('err','short','crash_before','crash_after','torn_crash','do_then_err'), nmax=3,
        classes=('write','write','open','close',None,None)):
    n = 1 if rng.random()<.6 else rng.randrange(1,nmax+1)
    out = []
    for i in range(n):
        kind = rng.choice(kinds)
        on   = rng.choice(classes)
        if kind in ('short','torn_crash'): on = rng.choice(('write',on if on in('read','write') else 'write'))
        if kind == 'do_then_err':          on = 'close'
        out.append(dict(u=round(rng.random(),4), kind=kind, on=on, r=rng.randrange(1<<16)))
    # a second fault in whatever is done about the first one
    if out[-1]['kind'] in ('err','short','do_then_err') and rng.random()<.3:
        out.append(dict(after=rng.choice((1,1,1,2,2,3,4,6)), kind=rng.choice(kinds), r=rng.randrange(1<<16)))
    return out

def place(events, plan, skip=None):
    '''-> [(event index, kind, arg)] for Sim. Events where skip(event) are not considered'''
    out = []
    used = set()
    last = None
    for f in plan:
        if 'after' in f:
            # not an event of the fault-free run: it may be any call
            if last is None or last+f['after'] in used: continue
            last += f['after']
            used.add(last)
            arg = {'err':(errno.EIO,errno.ENOSPC)[f['r']%2],'do_then_err':errno.EIO,
                   'short':1+f['r']%50,'torn_crash':f['r']%200}.get(f['kind'],0)
            out.append((last,f['kind'],arg))
            continue
        on  = f.get('on')
        idx = [i for i,e in enumerate(events)
               if (on is None or e[0]==on or e[0] in CLS.get(on,())) and not (skip and skip(e))]
        if not idx: continue
        i = idx[min(int(f['u']*len(idx)),len(idx)-1)]
        if i in used: continue
        used.add(i)
        last = i
        call = events[i][0]
        kind = f['kind']; r = f['r']
        arg = 0
        if kind in ('err','do_then_err'):
            c   = next((k for k,v in CLS.items() if call in v),call)
            ee  = ERRS.get(c,OTHER)
            arg = ee[r % len(ee)]
            if kind=='do_then_err' and arg==errno.EINTR: arg = errno.EIO
        elif kind in ('short','torn_crash'):
            n = max(int(events[i][3]),1)
            arg = 1 + r % max(n-1,1) if kind=='short' else r % max(n,1)
        out.append((i,kind,arg))
    return out

def stats(fired):
    return {'fault:'+k:v for k,v in fired.items()}

def shrink(plan):
    '''Smaller fault lists'''
    for i in range(len(plan)):
        yield plan[:i]+plan[i+1:]
