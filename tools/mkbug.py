#!/usr/bin/env python3
"""mkbug.py SPEC...: writes seeded/<id>/{patch.diff,demo.sh,meta.json} from a spec (python dict file) beside demo.ts.
spec: seeded/<id>/spec.py is not kept; specs live in tools/bugs/<id>.py with ID-free content:
  EDITS=[(file, old, new)], PROPERTY, NEEDS, BREAKS, KIT=True/False, DEMO='''...'''"""
import sys,os,json,subprocess,shutil,re
V='/verif'; REPO=os.environ.get('REPO','/repo')
def sh(*a,**k): return subprocess.run(a,capture_output=True,text=True,**k)
for spec in sys.argv[1:]:
    bid=os.path.basename(spec)[:-3]
    ns={}
    exec(open(spec).read(),ns)
    d=f'{V}/seeded/{bid}'; os.makedirs(d,exist_ok=True)
    assert sh('git','-C',REPO,'status','--porcelain').stdout=='' , 'repo dirty'
    try:
        for f,old,new in ns['EDITS']:
            p=REPO+'/'+f; s=open(p).read()
            assert s.count(old)==1,(bid,f,s.count(old),old)
            # blame: lines removed must be original
            start=s[:s.index(old)].count('\n')+1
            s2=s.replace(old,new); 
            open(p,'w').write(s2)
        diff=sh('git','-C',REPO,'diff').stdout
        open(d+'/patch.diff','w').write(diff)
    finally:
        sh('git','-C',REPO,'checkout','--','.')
    # blame check
    cur=None;ln=0
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') :
            b=sh('git','-C',REPO,'blame','-s','-L',f'{ln},{ln}',cur).stdout
            if not b.startswith('^'): print(f'WARNING {bid}: {cur}:{ln} is not an original line: {b.strip()}')
            ln+=1
        elif l.startswith(' '): ln+=1
    json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.ts','w').write(ns['DEMO'].lstrip('\n'))
    shutil.copy(f'{V}/tools/demo/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    if ns.get('KIT'):
        shutil.copy('/tmp/k/kit.js',d+'/kit.js')
    print('wrote',bid)
