#!/usr/bin/env python3
"""mutants.py SEED N [filter]: tries N random small changes that the existing tests miss on a copy of
/repo and reports those no check notices. Development aid; nothing registered uses it."""
import json,os,random,subprocess,sys,re,shutil,time
seed,n=sys.argv[1],int(sys.argv[2]); filt=sys.argv[3] if len(sys.argv)>3 else ''
LAB='/tmp/mutlab'+seed
CH=[('libaac/','C01 H01 S03 U04 D02 D01'),('libavc/','C01 H01 S03'),('libamf/','A01 R05 R02'),('libflv/','F01 R09 C01 H01 D01'),('libmpeg/','T01 H01'),('libmp4/','D02 D01'),
('libdash/','D01 D02 H04 N01'),('libhls/','H01 H02 H03 H04 N01'),('libbroadcast/','R08 R07 R09'),('libsrt/tsdemux','U04'),('libsrt/','U03 U01 U02'),('librtsp/','S04 S02 S01 S03'),
('librtmp/chunk','R01 R02 R03'),('librtmp/message','R01 R03 R05 R09 R02'),('librtmp/control','R03 R02 R05'),('librtmp/handshake','R04'),('librtmp/command','R05 R02 R11'),
('librtmp/a','R09 R08 R06 R07'),('librtmp/video','R09 R08'),('librtmp/data','R09 R08'),('librtmp/room','R06 R07 R08 R09'),('librtmp/server','N01 R11 R07 R05 H04 R06'),('librtmp/client','R11'),
('librtmp/websocket','W01 R09'),('librtmp/srt','U04 U01 R06 R07'),('librtmp/rtsp_ingest','S03 S01 R06 R07'),('librtmp/rtsp_server','S01 S03 S04 R07 R08'),('librtmp/rtmp','R05 R07 R02 R03')]
REST='R10 R09 R08 R07 R06 R11 N01 W01 R05 S03 U04 H01 D01'
shutil.rmtree(LAB,ignore_errors=True); os.makedirs(LAB)
subprocess.check_call(['cp','-a','/repo',LAB+'/repo']); subprocess.check_call(['git','clone','-q','/verif',LAB+'/verif'])
os.makedirs(LAB+'/verif/evidence',exist_ok=True)
R=LAB+'/repo'
subprocess.check_call(['go','build','-o',LAB+'/mutate','.'],cwd='/verif/tools/mutate',env=dict(os.environ,GOFLAGS='-mod=mod',HOME='/root'))
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',HOME='/root',VERIF_REPO=R)
files=[f for f in subprocess.check_output("ls lib*/*.go | grep -v _test.go",shell=True,cwd=R,text=True).split() if filt in f]
ms=[json.loads(l) for l in subprocess.check_output([LAB+'/mutate']+files,cwd=R,env=env,text=True).splitlines()]
rnd=random.Random(seed); rnd.shuffle(ms)
log=open('/tmp/mutants_%s.log'%seed,'a')
def say(*a):
    print(*a,file=log,flush=True)
done=0
for m in ms:
    if done>=n: break
    p=R+'/'+m['File']; src=open(p,'rb').read()
    open(p,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['End']:])
    try:
        d='%s:%d %s %s %r -> %r'%(m['File'],m['Line'],m['Func'],m['Kind'],m['Old'][:80],m['New'][:90])
        if subprocess.run(['go','vet','./'+os.path.dirname(m['File'])],cwd=R,env=env,capture_output=True).returncode: continue
        try: t=subprocess.run(['go','test','-count=1','-timeout','60s','./...'],cwd=R,env=env,capture_output=True,timeout=120)
        except subprocess.TimeoutExpired: continue
        if t.returncode: continue
        done+=1
        ids=next(c for k,c in CH if m['File'].startswith(k)).split()
        ids+=[i for i in REST.split() if i not in ids]
        t0=time.time(); hit=None; odd=[]
        for i in ids:
            o=subprocess.run(['nice','python3',LAB+'/verif/check.py',i,'quick'],cwd=LAB+'/verif',env=env,capture_output=True,text=True)
            if o.returncode==1: hit=i; break
            if o.returncode: odd.append(i+':'+(o.stdout+o.stderr)[:200])
        say('%-8s'%(hit or 'MISSED'),d,'(%.0f s)'%(time.time()-t0),odd or '')
    finally:
        open(p,'wb').write(src)
say('end'); shutil.rmtree(LAB,ignore_errors=True)
