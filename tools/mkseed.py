#!/usr/bin/env python3
"""tools/mkseed.py: makes seeded/<id> from a description file (python; defines `seeds`, a list of dicts) given as argument:
{id, property, needs, breaks, edits: [(file, old, new), ...], demo: rust source or sh: script}"""
import sys, os, subprocess, json, shutil
W='/tmp/seed-wt'
for f in sys.argv[1:]:
    env = {}
    exec(open(f).read(), env)  # defines `seeds`
    for d in env['seeds']:
        S=f'/verif/seeded/{d["id"]}'
        os.makedirs(S, exist_ok=True)
        if not os.path.isdir(W): subprocess.check_call(['cp','-a','/repo',W])
        subprocess.check_call('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',shell=True,cwd=W)
        for (file,old,new) in d['edits']:
            p=f'{W}/{file}'; s=open(p).read()
            n=s.count(old)
            if n!=1: print(d['id'],file,'matches',n,repr(old[:80])); sys.exit(1)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','diff'],cwd=W).decode()
        open(S+'/patch.diff','w').write(diff)
        subprocess.check_call('git checkout -q -- .',shell=True,cwd=W)
        json.dump({'property':d['property'],'needs':d['needs'],'what_it_breaks':d['breaks']},open(S+'/meta.json','w'),indent=1)
        open(S+'/demo.rs','w').write(d['demo'])
        shutil.copy('/verif/tools/demo.sh',S+'/demo.sh')
        print('made',d['id'])
