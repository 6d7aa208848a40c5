#!/usr/bin/env python3
"""mutate.py build | run [--n N] [--seed S] [--files F,...] [--jobs J] OUT

Mutation sweep, used to find blind spots of the checks (nothing registered in
MANIFEST.json uses it). Small syntactic changes of libtsm's sources, one at a
time, are compiled into a shared library below prebuilt check binaries; a
mutant survives when no check fails and the stable tests pass."""
import os, re, sys, random, subprocess as sp, json, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V='/verif'; H=V+'/harness'; R=os.environ.get('VT_REPO','/repo'); W=os.environ.get('MUT_W','/tmp/mut')
SAN='-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
FLAGS={'std':'','age':'-DVT_TINY_AGE','sim':'-DVT_SIMOS'}
VAR={'C12':'age','C26':'sim'}
IDS=[f'C{i:02d}' for i in range(1,36)]
def cf(v): return f'clang -std=gnu99 -O1 -g -fPIC {SAN} -Wno-everything -D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -fno-strict-aliasing -fno-common -ffast-math {FLAGS[v]} -I{H} -I{R}/src/tsm -I{R}/src/shared -I{R}/external -I{R}/external/wcwidth'
SRC=['src/tsm/'+f for f in sorted(os.listdir(R+'/src/tsm')) if f.endswith('.c')]+['src/shared/'+f for f in sorted(os.listdir(R+'/src/shared')) if f.endswith('.c')]+['external/wcwidth/wcwidth.c']
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,errors='replace',**k)
def obj(f): return os.path.basename(f)[:-2]+'.o'
def build():
    shutil.rmtree(W,ignore_errors=True); os.makedirs(W)
    jobs=[]
    for v in FLAGS:
        os.makedirs(f'{W}/base/{v}')
        for f in SRC: jobs.append(f'{cf(v)} -include {H}/config.h -include {H}/prelude.h -c {R}/{f} -o {W}/base/{v}/{obj(f)}')
        jobs.append(f'{cf(v)} -c {H}/alloc.c -o {W}/alloc.{v}.o')
        jobs.append(f'clang++ -std=c++17 -O1 -g {SAN} -w {FLAGS[v]} -I{H} -I{R}/src/tsm -c {H}/driver.cpp -o {W}/driver.{v}.o')
    jobs.append(f'clang -std=gnu99 -O1 -w -c {H}/ref_wcwidth.c -o {W}/refw.o')
    for i in IDS:
        v=VAR.get(i,'std')
        jobs.append(f'clang++ -std=c++17 -O1 -g {SAN} -w {FLAGS[v]} -I{H} -I{R}/src/tsm -c {H}/checks/{i}.cpp -o {W}/{i}.o')
        if os.path.exists(f'{H}/checks/{i}.c'): jobs.append(f'{cf(v)} -c {H}/checks/{i}.c -o {W}/{i}.glue.o')
    with ThreadPoolExecutor(8) as ex:
        for c,r in zip(jobs,ex.map(sh,jobs)):
            if r.returncode: print(c,r.stdout); sys.exit(1)
    for v in FLAGS: link(f'{W}/base/{v}',f'{W}/base/{v}')
    def lk(i):
        v=VAR.get(i,'std'); g=f'{W}/{i}.glue.o' if os.path.exists(f'{W}/{i}.glue.o') else ''
        return sh(f'clang++ {SAN} -rdynamic {W}/{i}.o {g} {W}/driver.{v}.o {W}/alloc.{v}.o {W}/refw.o -L{W}/base/{v} -lvt -lpthread -o {W}/{i}')
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lk,IDS):
            if r.returncode: print(r.stdout); sys.exit(1)
def link(objs,out,repl=None):
    l=[f'{objs}/{obj(f)}' for f in SRC if not (repl and obj(f)==os.path.basename(repl))]+([repl] if repl else [])
    r=sh(f'clang {SAN} -shared -Wl,-z,undefs {" ".join(l)} -o {out}/libvt.so'); 
    if r.returncode: raise Exception(r.stdout)
QUICK={}
for i in IDS:
    m=re.search(r',(\d+),(\d+)\};',open(f'{H}/checks/{i}.cpp').read()); QUICK[i]=int(m[1])
ENV={**os.environ,'ASAN_OPTIONS':'detect_leaks=0:hard_rss_limit_mb=2500:abort_on_error=0:exitcode=79:allocator_may_return_null=0','VT_NOSHRINK':'1'}
def runcheck(i,d,frac,jobs=1,timeout=600):
    v=VAR.get(i,'std')
    try: p=sp.run([f'{W}/{i}','--jobs',str(jobs),'--cases',str(max(20,int(QUICK[i]*frac))),'--seed','1'],env={**ENV,'LD_LIBRARY_PATH':f'{d}/{v}'},stdout=sp.PIPE,stderr=sp.STDOUT,timeout=timeout,text=True,errors='replace')
    except sp.TimeoutExpired: return 'timeout'
    return None if p.returncode==0 else f'rc{p.returncode} '+p.stdout.strip()[-200:]
# ------------------------------------------------------------ mutants
OPS=[(r'(?<![<>=!&|+\-*/])<(?![<=])',['<=','>']),(r'(?<![<>=\-])>(?![>=])',['>=','<']),(r'<=(?!=)',['<','==']),(r'(?<![>])>=',['>','==']),(r'==',['!=']),(r'!=',['==']),(r'&&',['||']),(r'\|\|',['&&']),
 (r'(?<![+\-])\+(?![+=\-])',['-','+ 1 +']),(r'(?<![+\-(,=<>&|?:] )(?<![+\-(])-(?![\-=>])',['+','- 1 -']),(r'\+\+',['--']),(r'--',['++']),(r'\+=',['-=','=']),(r'-=',['+=','=']),
 (r'\btrue\b',['false']),(r'\bfalse\b',['true']),(r'(?<=[(\s])!(?=[\w(])',['']),(r'\bbreak;',['']),(r'\bcontinue;',['']),(r'\breturn;',['']),(r'(?<=[\s(|])~',['']),(r'(?<![\w.])(\d+)(?![\w.])',['N+1','N-1']),(r'(?<![\w.])0x[0-9a-fA-F]+(?!\w)',['H+1','H-1']),(r'&=',['|=']),(r'\|=',['&=','=']),(r'(?<!&)&(?![&=\w])',['|'])]
def mutants(f,rng):
    ls=open(f'{R}/{f}').read().split('\n'); out=[]; com=False; fn=False
    for n,l in enumerate(ls):
        s=l.strip()
        if com:
            if '*/' in s: com=False
            continue
        if s.startswith('/*'):
            if '*/' not in s: com=True
            continue
        if not s or s[0]=='#' or s.startswith('//') or 'llog_' in s or s.startswith('LLOG') or 'LLOG_SUBSYSTEM' in s: continue
        if not l[0] in ' \t' : continue
        code=re.sub(r'/\*.*?\*/',lambda m:' '*len(m[0]),l)
        code=re.sub(r'"(\\.|[^"\\])*"',lambda m:'"'+'_'*(len(m[0])-2)+'"',code); code=re.sub(r"'(\\.|[^'\\])'",lambda m:"'"+'_'*(len(m[0])-2)+"'",code)
        for pat,reps in OPS:
            for m in re.finditer(pat,code):
                for r in reps:
                    t=m[0]
                    if r=='N+1': x=str(int(t)+1)
                    elif r=='N-1':
                        if t=='0': continue
                        x=str(int(t)-1)
                    elif r in('H+1','H-1'):
                        q=int(t,16)+(1 if r=='H+1' else -1)
                        if q<0: continue
                        x=hex(q)
                    else: x=r
                    out.append((f,n,l,l[:m.start()]+x+l[m.end():]))
        # string and character changes
        for m in re.finditer(r'"((?:\\.|[^"\\])+)"',l):
            p=m.start(1)+rng.randrange(len(m[1])); 
            if l[p].isalnum() and l[p-1]!='\\': out.append((f,n,l,l[:p]+('7' if l[p]!='7' else '8')+l[p+1:]))
        if re.match(r'^\s+[\w>\-\.\[\]\(\)]+(\s*[+\-|&]?=\s*[^;]+|\(.*\)|\+\+|--);$',l) and not re.match(r'^\s+(return|struct|unsigned|int|bool|char|size_t|const|static)\b',l): out.append((f,n,l,re.match(r'^\s+',l)[0]+';'))
        if re.match(r'^\s*(\} else )?if \(.*\) ?\{?$',l):
            m=re.search(r'if \((.*)\)',l); out.append((f,n,l,l[:m.start(1)]+'1'+l[m.end(1):])); out.append((f,n,l,l[:m.start(1)]+'0'+l[m.end(1):]))
    return out
PRE={'vte':'C27 C15 C04 C14 C17 C16 C06 C23 C19 C20 C18 C08 C03 C05 C13 C02 C01 C24 C29 C30 C28 C12 C10 C11 C09 C07 C34 C35 C32'.split(),
 'scr':'C04 C05 C03 C09 C07 C10 C12 C08 C11 C18 C24 C01 C28 C30 C14 C27 C02 C06 C17 C19 C29 C23 C20 C34 C32 C33'.split(),
 'sel':'C10 C11 C12 C01 C24 C28 C07 C09'.split(),'uni':'C21 C13 C22 C24 C04 C10 C29 C30 C01 C20 C02'.split(),'shl':'C22 C25 C26 C31 C30 C21 C24 C13 C01'.split()}
def order(f):
    b=os.path.basename(f); k='sel' if 'selection' in b or 'render' in b else 'scr' if 'screen' in b else 'uni' if 'unicode' in b or 'wcwidth' in b else 'shl' if f.startswith('src/shared') else 'vte'
    return PRE[k]
def evaluate(mu):
    f,n,a,b=mu; t0=time.time(); d=tempfile.mkdtemp(prefix='m',dir=W)
    try:
        ls=open(f'{R}/{f}').read().split('\n'); ls[n]=b; src=f'{d}/{os.path.basename(f)}'; open(src,'w').write('\n'.join(ls))
        have={}
        def lib(v):
            if v in have: return have[v]
            os.makedirs(f'{d}/{v}'); o=f'{d}/{v}/{obj(f)}'
            r=sh(f'{cf(v)} -I{R}/{os.path.dirname(f)} -include {H}/config.h -include {H}/prelude.h -c {src} -o {o}')
            if r.returncode: have[v]=False; return False
            link(f'{W}/base/{v}',f'{d}/{v}',o); have[v]=True; return True
        if not lib('std'): return 'nocompile',''
        # no change of the compiled code
        def plain(x,o): sh(f"clang -std=gnu99 -O2 -g0 -w -D_GNU_SOURCE -D__FILE__=0 -D__LINE__=0 -I{H} -I{R}/src/tsm -I{R}/src/shared -I{R}/external -I{R}/external/wcwidth -I{R}/{os.path.dirname(f)} -include {H}/config.h -c {x} -o {o}"); return open(o,'rb').read() if os.path.exists(o) else os.urandom(9)
        os.makedirs(f'{d}/p'); shutil.copy(f'{R}/{f}',f'{d}/p/'+os.path.basename(f)); p1=plain(f'{d}/p/'+os.path.basename(f),f'{d}/p1.o'); shutil.copy(src,f'{d}/p/'+os.path.basename(f)); 
        if p1==plain(f'{d}/p/'+os.path.basename(f),f'{d}/p2.o'): return 'same code',''
        for frac,to in ((1/60,60),(1/8,120)):
            for i in order(f):
                if not lib(VAR.get(i,'std')): return 'nocompile',''
                r=runcheck(i,d,frac,1,to)
                if r: return ('killed' if frac<.1 else 'killed late'),i+' '+r
        # stable tests
        T=f'{d}/t'; os.makedirs(T); sh(f'cp -a {R} {T}/repo; rm -rf {T}/repo/_build; cp {src} {T}/repo/{f}; mkdir {T}/vp; for x in build.sh run_check.py; do sed "s#/repo#{T}/repo#g" /opt/vp/$x > {T}/vp/$x; done')
        r=sh(f'bash {T}/vp/build.sh',cwd=T+'/repo')
        if r.returncode: return 'nobuild',''
        sh(f'python3 {T}/vp/run_check.py {T}/res.txt',cwd=T+'/repo')
        st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        ok={l[5:].strip() for l in open(T+'/res.txt') if l.startswith('PASS ')}-{l[5:].strip() for l in open(T+'/res.txt') if l.startswith('FAIL ')}
        if st-ok: return 'tests',str(sorted(st-ok)[:2])
        return 'SURVIVED',''
    except Exception as e: return 'error',repr(e)
    finally: shutil.rmtree(d,ignore_errors=True)
def main():
    if sys.argv[1]=='build': return build()
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument('cmd'); ap.add_argument('out'); ap.add_argument('--n',type=int,default=100); ap.add_argument('--seed',type=int,default=1); ap.add_argument('--files',default=''); ap.add_argument('--jobs',type=int,default=8); ap.add_argument('--skip',default=''); ap.add_argument('--only',default='')
    a=ap.parse_args(); rng=random.Random(a.seed); fs=[f for f in SRC if any(x in f for x in a.files.split(','))] if a.files else [f for f in SRC if 'wcwidth' not in f and 'charsets' not in f]
    ms=[]
    for f in fs: ms+=mutants(f,rng)
    done=set()
    for x in filter(None,a.skip.split(',')):
        for l in open(x):
            p=l.rstrip('\n').split('\t')
            if len(p)>4: done.add((p[2],p[3],p[4]))
    ms=[m for m in ms if (f'{m[0]}:{m[1]+1}',m[2].strip(),m[3].strip()) not in done]
    if a.only:
        want={tuple(l.rstrip('\n').split('\t')[2:5]) for l in open(a.only) if l.startswith('SURVIVED')}; ms=[m for m in ms if (f'{m[0]}:{m[1]+1}',m[2].strip(),m[3].strip()) in want]
    rng.shuffle(ms)
    # spread over lines first
    seen={}; key=[]
    for m in ms: k=(m[0],m[1]); seen[k]=seen.get(k,0)+1; key.append(seen[k])
    ms=[m for _,m in sorted(zip(key,ms),key=lambda z:z[0])][:a.n]
    out=open(a.out,'a'); cnt={}
    def one(m): return m,evaluate(m)
    with ThreadPoolExecutor(a.jobs) as ex:
        for m,(r,t) in ex.map(one,ms):
            cnt[r]=cnt.get(r,0)+1; out.write('\t'.join([r,t.replace('\n',' | ').replace('\t',' ')[:160],f'{m[0]}:{m[1]+1}',m[2].strip(),m[3].strip()])+'\n'); out.flush()
    print(cnt)
if __name__=="__main__": main()
