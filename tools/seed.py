#!/usr/bin/env python3
"""seed.py ID: checks /verif/seeded/ID in a scratch copy of /repo (applies, builds, stable tests pass, demo 0/nonzero).
   seed.py ID --run: additionally runs the property's check against the patched scratch tree's headers.
   seed.py all [--run]"""
import sys, os, subprocess, json, shutil, tempfile
V='/verif'
def sh(c, cwd=None, env=None, t=900):
    r=subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def one(i, run, tests=True):
    d=f'{V}/seeded/{i}'; meta=json.load(open(d+'/meta.json'))
    w=tempfile.mkdtemp(prefix='seed')
    try:
        rc,_=sh(f'cp -a /repo {w}/repo'); repo=w+'/repo'
        dd=w+'/demo'; os.mkdir(dd)
        for f in os.listdir(d):
            if not f.endswith(('.diff','.patch')) and f!='meta.json': shutil.copy(f'{d}/{f}', dd)
        a,o=sh(f'bash {dd}/demo.sh', repo, t=300)
        if a: return f'{i}: demo fails on unchanged tree rc={a}\n{o[-1500:]}'
        rc,o=sh(f'git apply {d}/patch.diff', repo)
        if rc: return f'{i}: patch does not apply {o}'
        b,o=sh(f'bash {dd}/demo.sh', repo, t=300)
        if b==0: return f'{i}: demo passes with the patch'
        res=f'{i}: demo 0/{b}'
        if tests:
            rc,o=sh(f'git -C {repo} diff > {w}/p')
            # stable tests through cmake build in the scratch copy
            rc,o=sh(f'git -C /repo diff --quiet && git -C /repo apply {d}/patch.diff && (bash /opt/vp/build.sh && bash /opt/vp/test.sh {w}/out.json); r=$?; git -C /repo checkout -- .; exit $r', '/repo')
            try:
                j=json.load(open(w+'/out.json')); base=json.load(open('/opt/vp/BASELINE.json'))['stable']
                ok=set(j.get('passed') or [k for k,v in j.items() if v in('pass','passed',True)])
                miss=[t for t in base if t not in ok]
                res+=f', tests missing {miss[:4]}' if miss else ', tests ok'
            except Exception as e: res+=f', tests ERR {e} {o[-600:]}'
        if run:
            e=dict(os.environ, VERIF_REPO=repo, VERIF_EVID=w)
            p=meta['property']
            rc,o=sh(f'{V}/check {p} quick', V, e)
            res+=f', check {p} rc={rc} '+' | '.join(l[:230] for l in o.splitlines() if 'VIOLATION' in l)[:500]
        return res
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__=='__main__':
    ids=[a for a in sys.argv[1:] if not a.startswith('-')]
    if ids==['all']: ids=sorted(os.listdir(V+'/seeded'))
    for i in ids: print(one(i, '--run' in sys.argv, '--notests' not in sys.argv), flush=True)
