#!/usr/bin/env python3
"""Development aid (not a check): token-level mutants of /repo, tried against the checks.
   mutate.py N SEED WORKERS OUT [FILTER]   tries N random mutants; OUT gets one line per mutant."""
import random,re,subprocess,sys,os,shutil,threading,queue,glob,difflib
N,SEED,W,OUT=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]
FIL=sys.argv[5] if len(sys.argv)>5 else ''
SUBS=[(r' > ',[' < ',' >= ']),(r' < ',[' > ',' <= ']),(r' == ',[' != ']),(r' != ',[' == ']),(r' >= ',[' > ',' < ']),(r' <= ',[' < ',' > ']),
(r'\+ 1\b',['','+ 2']),(r'- 1\b',['']),(r' && ',[' || ']),(r' \|\| ',[' && ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
(r'edge\(0\)',['edge(1)']),(r'edge\(1\)',['edge(0)']),(r'\.zero\(\)',['.one()','.undet()']),(r'\.one\(\)',['.zero()','.undet()']),(r'\.undet\(\)',['.zero()','.one()']),
(r'\bf0\b',['f1']),(r'\bf1\b',['f0']),(r'\bg0\b',['g1']),(r'\bg1\b',['g0']),(r'\blow\b',['high']),(r'\bhigh\b',['low']),(r'\bh0\b',['h1']),
(r'\b0\b',['1']),(r'\b1\b',['0','2']),(r'\b2\b',['3','1']),(r'\bif (?!let)',['if !','if false && ','if true || ']),
(r'\.min\(',['.max(']),(r'\.max\(',['.min(']),(r'\bf\b',['g']),(r'\bg\b',['f']),(r'\bh\b',['g']),(r'Node::Zero',['Node::One']),(r'Node::One',['Node::Zero','Node::Undet']),(r'Node::Undet',['Node::Zero']),
(r'\.rev\(\)',['']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' + ']),(r'\.insert\(',['.remove(&']),(r'\.skip\(1\)',['']),(r'continue;',['break;']),(r'break;',['continue;']),
(r'Some\(',['None.or(Some(']),(r'Operation::And\b',['Operation::Or']),(r'Operation::Or\b',['Operation::And']),(r'Operation::Lt',['Operation::Eq']),(r'Operation::Eq',['Operation::Lt'])]
files=[]
for d in ['common','bddcore','mddcore','bss','mss']:
    files+=[f for f in sorted(glob.glob(f'/repo/{d}/src/*.rs')) if not f.endswith('_stack.rs') and not f.endswith('lib.rs')]
files=[f for f in files if FIL in f]
cands=[]
for f in files:
    lines=open(f).read().split('\n')
    for i,l in enumerate(lines):
        if '#[cfg(test)]' in l: break
        t=l.strip()
        if not t or t.startswith('//') or t.startswith('use ') or t.startswith('debug_assert') or t.startswith('#') or t.startswith('pub fn') or t.startswith('fn ') or t.startswith('impl') or '#[inline' in t: continue
        code=l.split('//')[0]
        for pat,reps in SUBS:
            for m in re.finditer(pat,code):
                for r in reps:
                    cands.append((f,i,code[:m.start()]+r+code[m.end():]))
        if t.endswith(';') and not t.startswith('let ') and not t.startswith('return') and not t.startswith('type') and not t.startswith('const'):
            cands.append((f,i,''))
            cands.append((f,i,''))
        m=re.match(r'^(\s*)return (.*);$',l)
random.Random(SEED).shuffle(cands)
seen=set(); todo=[]
for c in cands:
    if c in seen: continue
    seen.add(c); todo.append(c)
print(len(todo),'candidates'); todo=todo[:N]
q=queue.Queue(); [q.put((k,c)) for k,c in enumerate(todo)]
lock=threading.Lock()
ids=['C%02d'%i for i in range(1,26)]
def first(f):
    a=os.path.basename(f); b=f.split('/')[2]
    pref={'common':['C06','C03','C02'],'bddcore':['C01','C07','C03','C04','C06','C02','C24'],'mddcore':['C15','C16','C17','C22','C03','C04','C06','C02','C24'],
     'bss':['C14','C11','C08','C09','C10','C12','C13','C25','C05','C24'],'mss':['C18','C21','C22','C19','C20','C23','C25','C05','C24']}[b]
    return pref+[i for i in ids if i not in pref]
def worker(w):
    D=f'/tmp/mut/w{w}'; subprocess.run(['rm','-rf',D]); os.makedirs(D+'/verif')
    subprocess.run(f'mkdir {D}/repo && cd /repo && git archive HEAD | tar x -C {D}/repo && cp /verif/check.sh {D}/verif/ && cp -a /verif/harness {D}/verif/ && sed -i "s#/repo/#{D}/repo/#g" {D}/verif/harness/Cargo.toml && sed -i "s#cd /repo #cd {D}/repo #" {D}/verif/check.sh && sed -i "s/opt-level = 2/opt-level = 1/" {D}/verif/harness/Cargo.toml && mkdir {D}/verif/evidence {D}/verif/replays',shell=True,check=True)
    env=dict(os.environ,VERIF_SCALE='0.08')
    cpu=f'{2*w},{2*w+1}'
    def run(i,to=400):
        try: return subprocess.run(['taskset','-c',cpu,'bash','check.sh',i],cwd=D+'/verif',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=to)
        except subprocess.TimeoutExpired: return None
    while True:
        try: k,(f,i,new)=q.get_nowait()
        except queue.Empty: return
        mf=f.replace('/repo/',D+'/repo/')
        orig=open(mf).read(); L=orig.split('\n'); old=L[i]; L[i]=new; open(mf,'w').write('\n'.join(L))
        r=run('--build')
        if r is None or r.returncode!=0: res='BUILD'
        else:
            res='SURVIVED'
            for c in first(f):
                r=run(c)
                if r is None: res='TIMEOUT '+c; subprocess.run(['pkill','-f',D+'/verif']); break
                if r.returncode==1: res='CAUGHT '+c; break
                if r.returncode==2: res='ERROR '+c+' '+r.stdout[-200:].replace('\n',' '); break
        open(mf,'w').write(orig)
        if res!='BUILD':
            with lock: open(OUT,'a').write(f'{res}\t{f}:{i+1}\t{old.strip()}\t=>\t{new.strip()}\n')
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
subprocess.run(['rm','-rf','/tmp/mut'])
