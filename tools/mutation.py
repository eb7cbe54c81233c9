#!/usr/bin/env python3
"""Mutation run: mutation.py OUT.jsonl FILE:CHECK,CHECK... [FILE:...]  [--sample N] [--cap S]
Mutants of /repo files that build and pass the tests are given to the checks, one after the other,
until one reports a violation. Works in scratch copies under /var/tmp."""
import sys, os, subprocess, json, random, shutil, concurrent.futures as cf
out=sys.argv[1]; specs=[]; sample=None; cap=6; slots=2
a=sys.argv[2:]
while a:
    x=a.pop(0)
    if x=='--sample': sample=int(a.pop(0))
    elif x=='--cap': cap=int(a.pop(0))
    elif x=='--slots': slots=int(a.pop(0))
    else: f,c=x.split(':'); specs.append((f,c.split(',')))
root='/var/tmp/mu.%d'%os.getpid(); os.makedirs(root)
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
# A test uses a fixed file in /tmp: each run gets a /tmp of its own
TEST="unshare -Urm sh -c 'mount -t tmpfs x /tmp && timeout 40 go test ./...'"
def sh(cmd,cwd,t,**kw):
    e=dict(env); e.update(kw)
    try: p=subprocess.run(cmd,shell=True,cwd=cwd,env=e,capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 99,'timeout'
REPO=root+'/base'; shutil.copytree('/repo',REPO,symlinks=True); VER=root+'/ver'; os.makedirs(VER); sh('cp -a /verif/check.sh /verif/sim /verif/known_findings.txt %s/'%VER,'/',60)
sh('cd /verif/tools/mutate && go build -o %s/mutate .'%root,'/',60)
jobs=[]
for f,c in specs:
    ls=[l.split('\t') for l in sh('%s/mutate list %s/%s'%(root,REPO,f),'/',20)[1].splitlines()]
    jobs+=[(f,c,int(l[0]),int(l[1]),l[2]) for l in ls]
random.seed(7); random.shuffle(jobs)
if sample: jobs=jobs[:sample]
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); d['res']!='ERROR' and done.add((d['file'],d['n']))
jobs=[j for j in jobs if (j[0],j[2]) not in done]
def copies(k):
    w='%s/r%d'%(root,k); shutil.copytree(REPO,w,symlinks=True); return w
import queue, threading
q=queue.Queue()
for k in range(6): q.put(copies(k))
def filt(j):
    f,c,n,line,what=j; w=q.get()
    try:
        orig=open(REPO+'/'+f).read()
        p=subprocess.run([root+'/mutate','apply',REPO+'/'+f,str(n)],capture_output=True,text=True)
        open(w+'/'+f,'w').write(p.stdout)
        r,o=sh('go build ./... && go vet -copylocks=false . >/dev/null 2>&1; go build ./...',w,60)
        if r: res='nobuild'
        else:
            r,o=sh(TEST,w,60)
            res='tests' if r else 'alive'
        open(w+'/'+f,'w').write(orig)
        return j,res
    finally: q.put(w)
lock=threading.Lock()
def log(d):
    with lock:
        with open(out,'a') as h: h.write(json.dumps(d)+'\n')
alive=[]
with cf.ThreadPoolExecutor(6) as ex:
    for j,res in ex.map(filt,jobs):
        if res=='alive': alive.append(j)
        else: log(dict(file=j[0],n=j[2],line=j[3],what=j[4],res=res))
print(len(jobs),'mutants',len(alive),'alive after tests',flush=True)
vq=queue.Queue()
for k in range(slots):
    v='%s/v%d'%(root,k); os.makedirs(v); sh('cp -a %s/. %s/'%(VER,v),'/',60); vq.put((v,copies(100+k)))
def judge(j):
    f,c,n,line,what=j; v,w=vq.get()
    try:
        p=subprocess.run([root+'/mutate','apply',REPO+'/'+f,str(n)],capture_output=True,text=True)
        open(w+'/'+f,'w').write(p.stdout)
        rcs=[]; by=None; msg=''
        for k in c:
            r,o=sh('%s/check.sh %s quick'%(v,k),v,400,VSIM_REPO=w,VSIM_ARGS='-cap %d -mincap 1'%cap)
            rcs.append((k,r))
            if r==1: by=k; msg=[l for l in o.splitlines() if 'class' in l][:1]; break
            if r!=0: msg=o[-300:]
        log(dict(file=f,n=n,line=line,what=what,res='caught' if by else 'ERROR' if any(r not in (0,1) for k,r in rcs) else 'SURVIVES',by=by,rcs=rcs,msg=msg))
        shutil.copy(REPO+'/'+f,w+'/'+f)
    finally: vq.put((v,w))
with cf.ThreadPoolExecutor(slots) as ex: list(ex.map(judge,alive))
shutil.rmtree(root)
print('done')
