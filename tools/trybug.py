#!/usr/bin/env python3
"""Run the check of a planted bug's property (or the checks named after a colon: BUG:C05,C06) on a private
patched copy of /repo (mount namespace), and report what it says."""
import sys,os,subprocess,json,time
R='/tmp/w/tb_repo'; V='/tmp/w/tb_verif'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def inns(c): return sh(f"unshare -m bash -c 'mount --bind {R} /repo && mount --bind {V} /verif && cd /verif && {c}'")
sys.stdout.reconfigure(line_buffering=True)
if not os.path.exists(R): sh(f'cp -a /repo {R}')
os.makedirs(V,exist_ok=True)
sh(f'rsync -a --delete --exclude .git --exclude seeded --exclude build --exclude evidence /verif/ {V}/')
sh(f'mkdir -p {V}/evidence {V}/build')
for a in sys.argv[1:]:
    bug,_,ids=a.partition(':')
    meta=json.load(open(f'/verif/seeded/{bug}/meta.json'))
    ids=ids.split(',') if ids else [meta['property']]
    sh(f'git -C {R} checkout -q -- . && git -C {R} fetch -q /repo HEAD && git -C {R} reset -q --hard FETCH_HEAD')
    p=sh(f'git -C {R} apply /verif/seeded/{bug}/patch.diff')
    if p.returncode: print(bug,'DOES NOT APPLY',p.stderr[:200]); continue
    for i in ids:
        t=time.time(); r=inns(f'set -o pipefail; VERIF_SEED=1 VERIF_TIER=quick python3 tools/run.py check {i} 2>&1 | tee /tmp/w/tb_last.log')
        l=[x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        print(bug,i,'exit',r.returncode,int(time.time()-t),'s',(l or r.stdout.splitlines()[-1:])[0:1],len(l))
    sh(f'git -C {R} checkout -q -- .')
