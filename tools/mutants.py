#!/usr/bin/env python3
"""Mutation test of the checks (never run by a check).
stage1: which mutants of all.json compile and pass the repository's tests
stage2: which of those each check detects.  Works in private mount namespaces
on copies of /repo, so several run at a time.
usage: mutants.py stage1|stage2 DIR   (DIR/all.json from tools/mutate)"""
import json,os,subprocess,sys,shutil,threading,queue,random
D=sys.argv[2]; REPO='/repo'
BASE=json.load(open('/opt/vp/BASELINE.json'))['stable']
def prep(i):
    r=f'{D}/w{i}'; shutil.rmtree(r,ignore_errors=True); os.makedirs(r)
    subprocess.run(['cp','-a',REPO,f'{r}/repo'],check=True)
    subprocess.run(['cp','-a',f'{D}/verif',f'{r}/verif'],check=True) if os.path.isdir(f'{D}/verif') else None
    return r
def ns(r,cmd,timeout):
    v=f'mount --bind {r}/verif /verif;' if os.path.isdir(f'{r}/verif') else ''
    p=subprocess.Popen(['unshare','-n','-m','--pid','--fork','--kill-child','--mount-proc','bash','-c',f'ip link set lo up; mount --bind {r}/repo /repo;{v} {cmd}'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=timeout); return p.returncode,o
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); return 124,''
def apply(r,m):
    f=m['file'].replace(REPO,f'{r}/repo'); s=open(m['file'],'rb').read()
    open(f,'wb').write(s[:m['off']]+m['new'].encode()+s[m['end']:])
    return f,m['file']
def stage1(r,m):
    # only the tests of the changed package (what the others notice is rare)
    d=os.path.dirname(m['file'])
    pkg='github.com/gocraft/health'+d[len(REPO):]
    for k in range(2):
        rc,o=ns(r,f'cd {d}; . /opt/vp/env.sh; cd {d}; go test -json -vet=off -count=1 -cpu 1 -timeout 20s $GC . > {r}/t.log',60)
        passed=set()
        try:
            for l in open(f'{r}/t.log'):
                try: e=json.loads(l)
                except ValueError: continue
                if e.get('Action')=='pass' and 'Test' in e: passed.add(e['Package']+'/'+e['Test'])
                if e.get('Action')=='build-fail': return 'nobuild'
        except OSError: pass
        miss=[x for x in BASE if x.rsplit('/',1)[0]==pkg and x not in passed]
        if not miss: return 'survived'
    return 'killed'
ORDER={'aggregator.go':'C06 C07 C09 C05 C08','error.go':'C03','health.go':'C01 C02 C03 C04','identifier.go':'C10',
'interval_aggregation.go':'C06 C09 C11 C12','interval_aggregation_clone.go':'C12 C08','interval_aggregation_merge.go':'C11 C12',
'json_polling_sink.go':'C05 C07 C08 C09 C10','json_polling_sink_http.go':'C10','json_writer_sink.go':'C17','writer_sink.go':'C16',
'runtime_metrics':'C22','bugsnag':'C18 C19','librato':'C20 C21','stack':'C23 C18 C03','statsd_sink.go':'C13 C14 C15',
'cmd/healthtop':'C29','cmd/healthd':'C31','healthd/api.go':'C28 C26 C27 C24 C25 C32','healthd/debouncer':'C24 C26 C27','healthd':'C24 C26 C25 C27 C28 C32 C33'}
def stage2(r,m):
    props=next(v for k,v in ORDER.items() if '/'+k in m['file']).split()
    if '/healthd/' not in m['file']:
        props+=[p for p in ['C%02d'%i for i in range(1,24)] if p not in props] if FULL else []
    sh=f'''cd /verif; P={props[0]}; . ./env.sh; W=$(mktemp -d {r}/b.XXXX); build $W >$W/log 2>&1 || {{ tail -5 $W/log; echo BUILDFAIL; exit 2; }}
for p in {' '.join(props)}; do TMPDIR=$W timeout 400 $W/harness -prop $p -tier quick -budget 0 -evidence $W/e.json -replays $W/rep -findings /verif/known_findings.json >$W/out 2>&1; rc=$?
 if [ $rc = 1 ]; then echo CAUGHT $p $(grep -v '^VIOL' $W/out | head -1 | cut -c1-200); exit 1; fi; if [ $rc != 0 ]; then echo RC $p $rc $(head -3 $W/out | cut -c1-300); fi; done
[ -n '{RACE}' ] || {{ echo SURVIVED; exit 0; }}; P=C30; . ./env.sh; RACE=1; W2=$(mktemp -d {r}/b.XXXX); build $W2 >$W2/log 2>&1 && TMPDIR=$W2 timeout 400 $W2/harness -prop C30 -tier quick -budget 0 -racebin $W2/harness-race -evidence $W2/e.json -replays $W2/rep -findings /verif/known_findings.json >$W2/out 2>&1; [ $? = 1 ] && {{ echo CAUGHT C30; exit 1; }}
echo SURVIVED; exit 0'''
    rc,o=ns(r,sh,2400)
    subprocess.run(f'rm -rf {r}/b.*',shell=True)
    return o.strip()[-600:] if rc!=124 else 'TIMEOUT'
RACE=os.environ.get('RACE','')
FULL=os.environ.get('FULL')=='1'
def main():
    st=sys.argv[1]; n=int(os.environ.get('N','8'))
    src={'stage1':'all.json','stage2':'survived.json'}[st]; out=open(f'{D}/{st}.out','a')
    done=set(l.split('\t')[0] for l in open(f'{D}/{st}.out'))
    q=queue.Queue(); lock=threading.Lock()
    for l in open(f'{D}/{src}'):
        m=json.loads(l); k=f"{m['file']}:{m['off']}:{m['end']}:{m['new']!r}"
        if k not in done: q.put((k,m))
    l=list(q.queue); random.Random(7).shuffle(l); q=queue.Queue(); [q.put(x) for x in l]
    print(q.qsize(),'to do',flush=True)
    def work(i):
        r=prep(i)
        while True:
            try: k,m=q.get_nowait()
            except queue.Empty: break
            f,o=apply(r,m)
            try: res=globals()[st](r,m)
            except Exception as e: res='ERR '+repr(e)
            shutil.copy(o,f)
            with lock:
                out.write(k+'\t'+res.replace('\n',' | ').replace('\t',' ')+'\n'); out.flush()
                if st=='stage1' and res=='survived': open(f'{D}/survived.json','a').write(json.dumps(m)+'\n')
        shutil.rmtree(r,ignore_errors=True)
    ts=[threading.Thread(target=work,args=(i,)) for i in range(n)]
    [t.start() for t in ts];[t.join() for t in ts]
main()
