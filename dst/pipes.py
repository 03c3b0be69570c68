'''Tools that are pipelines of other programs

The seam is $PATH: each of the vnl-... tools is replaced by a wrapper that runs
the real one, and then does what the fault plan wants of this stage. What the
stages of a pipeline produce doesn't depend on how they're scheduled

'''
import os
import subprocess
import sys
import signal
from . import tool

TOOLS = ('vnl-filter','vnl-sort','vnl-join')
# what each stage of each pipeline has in its arguments
STAGES = {'mrcal-rotate-corners': (('vnl-filter','--skipcomments'),('vnl-sort',''),('vnl-filter','!icorner')),
          'mrcal-is-within-valid-intrinsics-region': (('vnl-filter','__linenumber=NR'),('vnl-filter','--skipcomments'),('vnl-join',''),('vnl-filter','!__linenumber'))}
WRAPPER = r'''#!/bin/bash
# stage: which arguments, how, bytes, status
real=/usr/bin/${0##*/}
hit=0
if [ "$DST_STAGE_TOOL" = "${0##*/}" ]; then
  if [ -z "$DST_STAGE_ARG" ]; then hit=1
  else for a in "$@"; do case "$a" in *"$DST_STAGE_ARG"*) hit=1;; esac; done; fi
fi
if [ $hit = 0 ]; then exec $real "$@"; fi
case $DST_STAGE_HOW in
notfound) exit 127;;
early)    exit $DST_STAGE_STATUS;;
fail|kill)
  "$real" "$@" > "$DST_STAGE_TMP"
  head -c $DST_STAGE_BYTES "$DST_STAGE_TMP"
  rm -f "$DST_STAGE_TMP"
  if [ $DST_STAGE_HOW = kill ]; then kill -KILL $$; fi
  exit $DST_STAGE_STATUS;;
full)
  # the disk is full. The real tool sees that
  ulimit -f 0
  trap '' XFSZ
  exec $real "$@" > "$DST_STAGE_TMP.full";;
esac
'''

def gen(rng,nstages):
    return dict(stage=rng.randrange(nstages),how=rng.choice(('fail','fail','kill','early','notfound')),bytes=rng.choice((0,1,30,100,400,10**6)),status=rng.choice((1,2,13)))

def run(S,name,argv,d,stdin,stage,child):
    '''-> exit status'''
    tmp = f'{d}.bin'
    os.makedirs(tmp)
    try:
        for t in TOOLS:
            with open(f'{tmp}/{t}','w') as f: f.write(WRAPPER)
            os.chmod(f'{tmp}/{t}',0o755)
        os.environ['PATH'] = tmp+':'+os.environ['PATH']
        os.environ.pop('LD_PRELOAD',None)
        os.environ.update(DST_STAGE_TMP=f'{tmp}/tmp',LC_ALL='C')
        if stage:
            t,a = STAGES[name][stage['stage']]
            os.environ.update(DST_STAGE_TOOL=t,DST_STAGE_ARG=a,DST_STAGE_HOW=stage['how'],DST_STAGE_BYTES=str(stage['bytes']),DST_STAGE_STATUS=str(stage['status']))
        if child is not None:
            # the forked child dies when it writes its result
            import numpy as np
            savetxt,pid = np.savetxt,os.getpid()
            def bad(f,*a,**kw):
                if os.getpid()==pid: return savetxt(f,*a,**kw)
                if child==1: savetxt(f,a[0][:1],**kw)
                if child==2: f.flush(); os.kill(os.getpid(),signal.SIGKILL)
                raise OSError(28,'No space left on device')
            np.savetxt = bad
        if name=='mrcal-rotate-corners':
            with open(f'{d}/{stdin}') as i, open(f'{d}/STDOUT','w') as o, open(f'{d}/STDERR','w') as e:
                return subprocess.run([f'{os.environ["DST_TREE"]}/{name}',*argv],stdin=i,stdout=o,stderr=e,cwd=d).returncode
        return tool.run(S,name,argv,d,stdin=stdin)
    finally:
        if os.path.isdir(tmp):
            for x in os.listdir(tmp): os.unlink(f'{tmp}/{x}')
            os.rmdir(tmp)
