#!/usr/bin/env python3
"""run.py WORKERS FILE...: runs the checks against every mutant of the given files
of /repo which compiles and passes the tests; survivors go to /tmp/mut/survivors."""
import os,subprocess,sys,shutil,glob,threading,queue
VERIF=os.environ.get('VERIF_COPY','/verif')
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.26.10/bin:'+os.environ['PATH'],GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false')
MAP=[('tag/',['C03','C02','C22']),('internal/route/',['C11','C12','C10']),('internal/oapi/resolver/',['C27','C04','C16','C05','C24','C22','C06']),
 ('internal/oapi/scan/types/',['C01','C27','C02','C23','C05','C16','C04','C24','C22','C06']),('internal/oapi/oapi.go',['C09','C10','C25','C24','C06']),('internal/oapi/scan/cmds/',['C16','C24','C17','C22']),
 ('internal/container/',['C08','C15','C14','C09','C07','C04','C24','C06']),('internal/pointer/',['C13','C16','C04','C24']),('internal/pkgutil/',['C17','C07','C24','C22']),
 ('internal/oapi/config/',['C18','C26']),('cmd/',['C26','C19','C18']),('temp.go',['C14']),('internal/logging/',['C26']),('oapi.go',['C27','C14','C24','C09','C10','C17','C22','C04','C06'])]
def checks(f):
    for p,c in MAP: # the first that fits
        if f.startswith(p): return [x for x in c if os.path.exists(VERIF+'/mc/%s/main.go'%x.lower())]
jobs=queue.Queue()
for f in sys.argv[2:]:
    d='/tmp/mut/'+f.replace('/','_'); os.makedirs(d,exist_ok=True)
    n=int(subprocess.check_output(['/tmp/mutbin','/repo/'+f,d]).split()[-1])
    for i in range(n):
        if os.path.exists(f'{d}/{i}.go'): jobs.put((f,f'{d}/{i}.go',open(f'{d}/{i}.txt').read()))
print(jobs.qsize(),'mutants',flush=True)
lock=threading.Lock(); stat={}
def log(s,k):
    with lock:
        stat[k]=stat.get(k,0)+1
        open('/tmp/mut/log','a').write(k+' '+s+'\n')
        if k in('SURVIVED','TIMEOUT','BROKEN'): print(k,s,flush=True)
def work(w):
    W=f'/tmp/mutw{w}'; shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True)
    while True:
        try: f,g,desc=jobs.get_nowait()
        except queue.Empty: break
        shutil.copy(g,f'{W}/{f}')
        try:
            if subprocess.run(['go','build','./...'],cwd=W,env=ENV,capture_output=True).returncode: log(desc,'nocompile'); continue
            try:
                t=subprocess.run(['go','test','-vet=off','-count=1','-timeout','60s','./...'],cwd=W,env=ENV,capture_output=True,timeout=120).returncode
            except subprocess.TimeoutExpired: t=1
            if t: log(desc,'test'); continue
            for c in checks(f):
                try: r=subprocess.run(['nice',VERIF+'/check.sh',c],env=dict(ENV,VERIF_REPO=W,MC_FAILFAST='1',VERIF_NOEVIDENCE='1',GOCACHE='/root/.cache/go-build'),capture_output=True,timeout=400).returncode
                except subprocess.TimeoutExpired: r='timeout'
                if r==1: log(desc+' by '+c,'killed'); break
                if r!=0: log(desc+' %s=%s'%(c,r),'BROKEN' if r!='timeout' else 'TIMEOUT'); break
            else: log(desc,'SURVIVED')
        finally: shutil.copy('/repo/'+f,f'{W}/{f}')
    shutil.rmtree(W,ignore_errors=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(int(sys.argv[1]))]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
