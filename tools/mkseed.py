"""mkseed.add(id, property, needs, what, [(file, old, new)...], demo_cpp, files={}) writes /verif/seeded/<id>."""
import os, json, subprocess, tempfile, shutil
DEMO='''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99
g++ -std=c++20 -g -O1 %s -pthread -I include -I "$d" "$d/demo.cpp" -o $t/demo && ASAN_OPTIONS=detect_leaks=0 timeout 60 $t/demo; r=$?
rm -rf "$t"; exit $r
'''
def add(i, prop, needs, what, edits, demo, flags='-fsanitize=address', files=()):
    d='/verif/seeded/'+i; os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp(prefix='mkseed')
    try:
        subprocess.check_call(f'cp -a /repo/.git /repo/include {w}/ && git -C {w} checkout -q -- include', shell=True)
        for f,old,new,*k in edits:
            p=f'{w}/include/asyncpp/{f}'; s=open(p).read()
            assert k or s.count(old)==1, (i, f, s.count(old), old)
            parts=s.split(old); j=k[0] if k else 0
            open(p,'w').write(old.join(parts[:j+1])+new+old.join(parts[j+1:]))
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff','--','include'],text=True))
    finally: shutil.rmtree(w)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=what), open(d+'/meta.json','w'), indent=1)
    open(d+'/demo.sh','w').write(DEMO%flags); open(d+'/demo.cpp','w').write(demo)
    shutil.copy('/verif/tools/seedlib/demo.h', d)
    if 'hook_atomic.h' in demo: shutil.copy('/verif/tools/seedlib/hook_atomic.h', d)
