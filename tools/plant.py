#!/usr/bin/env python3
"""Confirm a planted bug in a private copy of /repo mounted over /repo (unshare -m).
usage: plant.py NAME...   reads /tmp/w/bugs/NAME/{edit.py,demo.cpp|demo.sh,meta.json}, writes /verif/seeded/NAME."""
import sys,os,subprocess,shutil,json,runpy
COPY='/tmp/w/pr'
DEMO='''#!/bin/bash
# Run with cwd = the repository, after the build.  Exit 0: behaviour as documented.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
S=subpackages/mav_trajectory_generation
g++ -std=c++17 -O1 -w -Iinclude -Iinclude/dynamic_trajectory_generator -I$S/include -isystem /usr/include/eigen3 -I"$d" "$d/demo.cpp" -o "$t/demo" _build/libdynamic_trajectory_generator.a _build/$S/libmav_trajectory_generation.a -lglog -lnlopt -lyaml-cpp -lpthread -ldl || exit 3
cd "$t" && timeout 240 "$t/demo"
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def inrepo(c): return sh(f"unshare -m bash -c 'mount --bind {COPY} /repo && cd /repo && {c}'")
def reset():
    sh(f'git -C {COPY} checkout -q -- . ; git -C {COPY} fetch -q /repo HEAD && git -C {COPY} reset -q --hard FETCH_HEAD')
def build():
    r=inrepo('bash /opt/vp/build.sh'); return r.returncode==0, (r.stdout+r.stderr)[-1500:]
def tests():
    r=inrepo('bash /opt/vp/test.sh /tmp/w/to.json'); 
    j=json.load(open('/tmp/w/to.json')); return set(j['passed'])>=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def main():
    sys.stdout.reconfigure(line_buffering=True)
    for n in sys.argv[1:]:
        src=f'/tmp/w/bugs/{n}'; dst=f'/verif/seeded/{n}'
        os.makedirs(dst,exist_ok=True)
        if os.path.exists(src+'/demo.cpp'):
            shutil.copy(src+'/demo.cpp',dst); open(dst+'/demo.sh','w').write(DEMO)
            if '"demo.h"' in open(src+'/demo.cpp').read(): shutil.copy('/tmp/w/bugs/demo.h',dst)
        if os.path.exists(src+'/demo.sh'): shutil.copy(src+'/demo.sh',dst)
        os.chmod(dst+'/demo.sh',0o755); shutil.copy(src+'/meta.json',dst)
        reset()
        ok,o=build()
        r0=[]
        for i in range(2): r0.append(inrepo(f'bash {dst}/demo.sh'))
        for f,a,b in runpy.run_path(src+'/edit.py')['E']:
            p=f'{COPY}/{f}'; s=open(p).read()
            assert s.count(a)==1,(n,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        d=sh(f'git -C {COPY} diff').stdout
        open(dst+'/patch.diff','w').write(d)
        okb,ob=build()
        if not okb: print(n,'BUILD FAILS',ob); reset(); continue
        t=tests(); r1=[inrepo(f'bash {dst}/demo.sh') for i in range(2)]
        good=ok and t and all(r.returncode==0 for r in r0) and all(r.returncode not in(0,3) for r in r1)
        print(n,'OK' if good else 'BAD','tests',t,'clean',[r.returncode for r in r0],'patched',[r.returncode for r in r1])
        if not good: print('  clean:',(r0[-1].stdout+r0[-1].stderr)[-600:]); 
        print('  patched:',(r1[-1].stdout+r1[-1].stderr)[-300:].replace('\n',' | '))
        reset()
main()
