#!/usr/bin/env python3
"""reverts.py [IDX...]: takes back each repair of known_findings.txt in a scratch clone and runs the property's check, which has to report it"""
import json,os,subprocess,sys,glob,threading,queue,re
ENV=dict(os.environ,HOME='/root',PATH='/usr/local/go/bin:/usr/bin:/bin',GOPATH='/root/go',GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
fx=[]
for l in open('/verif/known_findings.txt'):
    m=re.match(r'fixed: property=(C\d\d) ([0-9a-f]+) (.*)',l)
    if m: fx.append(m.groups())
only=set(map(int,sys.argv[1:]))
q=queue.Queue()
for i,f in enumerate(fx):
    if not only or i in only: q.put((i,f))
def sh(c,d='/tmp',t=900):
    try: p=subprocess.run(c,shell=True,cwd=d,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,''
def work(k):
    d=f'/tmp/rv{k}'
    sh(f'rm -rf {d}; git clone -q /repo {d}')
    r={}
    for f in glob.glob('/verif/harness/*.go'): r[f'{d}/internal/zzverif/'+os.path.basename(f)]=f
    for f in glob.glob('/verif/harness/porcupine/*.go'): r[f'{d}/internal/zzporcupine/'+os.path.basename(f)]=f
    json.dump({'Replace':r},open(f'/tmp/ovrv{k}.json','w'))
    while True:
        try: i,(P,c,txt)=q.get_nowait()
        except queue.Empty: break
        sh('git reset -q --hard; git clean -fdq',d)
        rc,o=sh(f'git -c user.name=x -c user.email=x@x revert -n {c}',d)
        head=f'{i} {P} {c} {txt[:70]}: '
        if rc: print(head+'CONFLICT',flush=True); sh('git revert --abort; git reset -q --hard',d); continue
        race='-race' if P=='C12' else ''
        rc,o=sh(f'go build {race} -overlay /tmp/ovrv{k}.json -o /tmp/rvbin{k} ./internal/zzverif',d)
        if rc: print(head+'NOBUILD '+o[:200],flush=True); continue
        rc,o=sh(f'rm -f /tmp/rvo{k}; ulimit -v 60000000; GOMAXPROCS=3 /tmp/rvbin{k} -prop {P} -data /verif/harness/data -out /tmp/rvo{k} >/dev/null 2>&1' if not race else f'GOMAXPROCS=3 /tmp/rvbin{k} -prop {P} -data /verif/harness/data -out /tmp/rvo{k} >/dev/null 2>&1',d)
        v='?'
        try: v=(json.load(open(f'/tmp/rvo{k}'))['violations'] or [{'kind':'NONE'}])[0]['kind']
        except Exception as e: v='no report'
        print(head+f'rc {rc} {v}',flush=True)
    sh(f'rm -rf {d} /tmp/rvbin{k} /tmp/rvo{k} /tmp/ovrv{k}.json')
ts=[threading.Thread(target=work,args=(k,)) for k in range(3)]
[t.start() for t in ts]; [t.join() for t in ts]
