#!/usr/bin/env python3
# try.py GROUP RUNS PROPS FILE OLD NEW [OLD NEW...]  - plant, build, run
import sys,subprocess,os,shutil
g,n,props,f=sys.argv[1:5]; reps=sys.argv[5:]
D='/tmp/trywork/%d'%os.getpid(); os.makedirs(D)
subprocess.check_call(['git','-C','/repo','worktree','list'],stdout=subprocess.DEVNULL)
shutil.copytree('/repo',D+'/repo',symlinks=True)
p=D+'/repo/'+f; s=open(p).read()
for o,w in zip(reps[::2],reps[1::2]):
    o=o.encode().decode('unicode_escape'); w=w.encode().decode('unicode_escape')
    if s.count(o)<1: print('NOT FOUND',o); sys.exit(2)
    s=s.replace(o,w,1)
open(p,'w').write(s)
env=dict(os.environ,VERIF_REPO=D+'/repo')
r=subprocess.run(['python3','/verif/tools/devbuild.py',D+'/b',g],env=env,capture_output=True,text=True)
if r.returncode: print(r.stdout[-2000:],r.stderr[-3000:]); sys.exit(2)
for c in props.split(','):
    os.makedirs(D+'/out'+c)
    r=subprocess.run([D+'/b/dst','batch',c,'1',n,'8','300',D+'/out'+c],capture_output=True,text=True,errors='replace')
    import glob,re
    sm=open(D+'/out'+c+'/summary.json').read() if os.path.exists(D+'/out'+c+'/summary.json') else ''
    m=re.search(r'"runs.*?"seconds": [0-9.]*',sm)
    print(c,'rc',r.returncode,m.group(0) if m else r.stdout[-300:])
    for v in sorted(glob.glob(D+'/out'+c+'/viol*'))[:1]: print('\n'.join(open(v,errors='replace').read().split('\n')[1:6])[:600])
shutil.rmtree(D)
