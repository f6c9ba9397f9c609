#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seeds.py and validates each in a scratch copy. usage: mkseeds.py [ids...]"""
import sys, os, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
from seeds import S
import seeds2, seeds3
V=os.path.dirname(here)
MODS=['checks','driver','model','orc','rng','snappy','stats','wire']
def sh(c,cwd=None): return subprocess.run(['bash','-c',c],cwd=cwd,capture_output=True,text=True)
def one(s):
    if s['demo'] is None: return s['id']+' skipped'
    d=f"{V}/seeded/{s['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t=tempfile.mkdtemp(prefix='seed.'); r=t+'/repo'
    try:
        sh(f'git clone -q /repo {r}; cp /repo/Cargo.lock {r}/ 2>/dev/null')
        for f,old,new in s['edits']:
            p=f'{r}/{f}'; x=open(p).read()
            if x.count(old)<1: return s['id']+f' NO MATCH {f}: {old[:60]!r}'
            open(p,'w').write(x.replace(old,new,1))
        open(d+'/patch.diff','w').write(sh('git diff',r).stdout)
        for m in MODS: shutil.copy(f'{V}/harness/src/{m}.rs',d)
        shutil.copy(f'{here}/seedkit/kit.rs',d); shutil.copy(f'{V}/harness/Cargo.lock',d)
        main='#![allow(unused)]\n'+''.join(f'mod {m};\n' for m in MODS+['kit'])+'use kit::*;\nuse model::*;\n\n'+s['demo']+'\n\nfn main() {\n    driver::install_panic_hook();\n    if let Err(e) = demo() { eprintln!("{}", e); std::process::exit(1); }\n}\n'
        open(d+'/main.rs','w').write(main)
        open(d+'/demo.sh','w').write(open(f'{here}/seedkit/demo.sh').read().replace('\nRUN\n','\n'+s['run']+'\n'))
        os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        k=t+'/elsewhere'; shutil.copytree(d,k); os.remove(k+'/patch.diff'); os.remove(k+'/meta.json')
        bad=sh(f'bash {k}/demo.sh',r)
        o=sh('cargo test --offline 2>&1',r)
        nt=o.stdout.count(' ... ok')
        sh('git stash -q',r); ok=sh(f'bash {k}/demo.sh',r); a=sh(f'git apply --check {d}/patch.diff',r)
        v='OK' if bad.returncode not in (0,3,4) and ok.returncode==0 and nt==6 and 'FAILED' not in o.stdout and a.returncode==0 else 'BAD'
        return f"{s['id']} {v} demo: {ok.returncode}/{bad.returncode} tests {nt} apply {a.returncode} | {bad.stderr.strip()[-150:]!r} {ok.stderr.strip()[-1200:] if ok.returncode else ''}"
    finally: shutil.rmtree(t)
ids=sys.argv[1:]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,[s for s in S if not ids or s['id'] in ids]): print(r,flush=True)
