import sys,subprocess,json,os,tempfile,shutil,glob,concurrent.futures as cf,time,collections
sc=sys.argv[1]; a,b=map(int,sys.argv[2].split('-')); opts=sys.argv[3:]
subprocess.run(['python3','/tmp/b.py',os.environ.get('V','plain')],stdout=subprocess.DEVNULL)
V=os.environ.get('V','plain'); J=int(os.environ.get('J','20'))
B=max(glob.glob('/verif/.build/bin/bees-%s-*'%V),key=os.path.getmtime); F=max(glob.glob('/verif/.build/bin/fsim-plain-*'),key=os.path.getmtime)
B=os.environ.get('B',B)
def run(s):
    d=tempfile.mkdtemp(prefix='verif-fsim-',dir='/dev/shm'); o='/tmp/o/%s-%d.json'%(sc,s)
    if os.path.exists(o): os.unlink(o)
    cmd=[F,sc,'--bees',B,'--scratch',d,'--out',o,'--seed',str(s)]
    for x in opts: cmd+=['--opt',x]
    try:
        p=subprocess.run(cmd,timeout=400,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); rc=p.returncode; out=p.stdout[-300:]
    except subprocess.TimeoutExpired: rc='TO'; out=b''
    if os.path.exists(d+'/log'): shutil.copy(d+'/log','/tmp/o/%s-%d.log'%(sc,s))
    shutil.rmtree(d,ignore_errors=True)
    return s,rc,out
os.makedirs('/tmp/o',exist_ok=True)
t=time.time(); agg=collections.Counter(); bad=0; mx={}
with cf.ThreadPoolExecutor(J) as ex:
    for s,rc,out in ex.map(run,range(a,b)):
        o='/tmp/o/%s-%d.json'%(sc,s)
        if not os.path.exists(o): print(s,'NO OUTPUT',rc,out); bad+=1; continue
        j=json.load(open(o))
        for k,v in j['stat'].items(): agg[k]+=v; mx[k]=max(mx.get(k,v),v)
        if len(sys.argv)>99 or j['inconclusive'] or j['violations'] or rc or j['san']:
            bad+=1
            if bad<=int(os.environ.get('N','8')): print(s,rc,'m%d w%d'%(j['stat'].get('mode',-1),j['stat'].get('workers',-1)),'INC:'+j['inconclusive'] if j['inconclusive'] else '',[(v['prop'],v['key'],v['msg'][:int(os.environ.get("L","230"))]) for v in j['violations']],j['san'][:200])
print('runs',b-a,'bad',bad,'wall %.1f'%(time.time()-t))
skip=('ev.',)
if os.environ.get('A'): print({k:round(v,1) for k,v in sorted(agg.items()) if not k.startswith('ev.')})
print('max wall',mx.get('wall_s'),'settle',mx.get('settle_s'))
