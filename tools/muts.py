#!/usr/bin/env python3
"""dev aid: muts.py TARGET PROP SECONDS < list of 'file<TAB>old<TAB>new' (\\n for newline): tries each mutant in /tmp/m/repo"""
import sys,subprocess,os,glob,json
t,prop,secs=sys.argv[1:4]
M=os.environ.get('MUTDIR','/tmp/m')
os.environ.update(VERIF_REPO=M+'/repo',VERIF_BUILD=M+'/build')
os.makedirs(M+'/out',exist_ok=True)
for n,l in enumerate(sys.stdin):
    l=l.rstrip('\n')
    if not l or l[0]=='#': continue
    f,a,b=[x.replace('\\n','\n') for x in l.split('\t')]
    subprocess.run('git checkout -q -- .',shell=True,cwd=M+'/repo')
    p=M+'/repo/'+f; s=open(p).read()
    if a not in s: print(n,'NOMATCH',a[:60]); continue
    open(p,'w').write(s.replace(a,b,1))
    r=subprocess.run(['python3','/verif/tools/vb.py',t],capture_output=True,text=True)
    if r.returncode: print(n,'BUILDFAIL',(r.stdout+r.stderr)[-300:]); continue
    for x in glob.glob(M+'/out/*'): os.unlink(x)
    r=subprocess.run([M+'/build/bin/'+t,'--out',M+'/out','--workers','8','--maxviol','3','--time',secs,'--prop',prop],capture_output=True,text=True)
    cl=set()
    for x in glob.glob(M+'/out/viol.*'):
        for y in open(x,errors='replace'):
            if y.startswith('class '): cl.add(y[6:].strip()); break
    try: j=json.loads(r.stdout.strip().split('\n')[-1]); st='%d runs %.1fs'%(j['runs'],j['wall'])
    except Exception as e: st='??'+r.stdout[-200:]+r.stderr[-200:]
    print(n,'CAUGHT' if cl else 'MISSED',sorted(cl),st,'|',f,a[:50].replace('\n','\\n'),'=>',b[:50].replace('\n','\\n'),flush=True)
subprocess.run('git checkout -q -- .',shell=True,cwd=M+'/repo')
