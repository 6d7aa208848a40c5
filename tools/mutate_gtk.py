#!/usr/bin/env python3
"""mutate_gtk.py OUT.txt [N] [SEED]: mutants of src/gtktsm/gtktsm-terminal.c against C36 and C37."""
import os, random, shutil, subprocess as sp, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0,'/verif/tools'); import mutate
H='/verif/harness'; R='/repo'; F='src/gtktsm/gtktsm-terminal.c'; W='/tmp/mutg'; IDS=['C36','C37']
SAN='-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer'
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,errors='replace',**k)
def flags(i): 
    f=f'{H}/checks/{i}.flags'; return open(f).read().strip() if os.path.exists(f) else ''
PKG='gtk+-3.0 xkbcommon pangocairo'; PC=sh('pkg-config --cflags '+PKG).stdout.strip(); PL=sh('pkg-config --libs '+PKG).stdout.strip()
def cf(i): return f'clang -std=gnu99 -O1 -g {SAN} -Wno-everything -D_GNU_SOURCE -D_POSIX_C_SOURCE=199309L -fno-strict-aliasing -fno-common -ffast-math {flags(i)} -I{H} -I{R}/src/tsm -I{R}/src/shared -I{R}/external -I{R}/external/wcwidth'
def build():
    shutil.rmtree(W,ignore_errors=True)
    for i in IDS:
        d=f'{W}/{i}'; os.makedirs(d); cmds=[]
        import glob
        for f in glob.glob(R+'/src/tsm/*.c')+glob.glob(R+'/src/shared/*.c')+[R+'/external/wcwidth/wcwidth.c']:
            cmds.append(f'{cf(i)} -include {H}/config.h -include {H}/prelude.h -c {f} -o {d}/r_{os.path.basename(f)[:-2]}.o')
        cmds.append(f'{cf(i)} -c {H}/alloc.c -o {d}/h_alloc.o'); cmds.append(f'clang -std=gnu99 -O1 -w -c {H}/ref_wcwidth.c -o {d}/h_refw.o')
        for f in (f'{H}/driver.cpp',f'{H}/checks/{i}.cpp'): cmds.append(f'clang++ -std=c++17 -O1 -g {SAN} -w {flags(i)} {PC} -I{H} -I{R}/src/tsm -c {f} -o {d}/x_{os.path.basename(f)[:-4]}.o')
        with ThreadPoolExecutor(8) as ex:
            for c,r in zip(cmds,ex.map(sh,cmds)):
                if r.returncode: print(c,r.stdout); sys.exit(2)
def one(m):
    f,n,a,b=m; d=tempfile.mkdtemp(prefix='m',dir=W)
    try:
        ls=open(f'{R}/{f}').read().split('\n'); ls[n]=b; open(f'{d}/gtktsm-terminal.c','w').write('\n'.join(ls))
        for i in IDS:
            r=sh(f'{cf(i)} {PC} -I{d} -I{R}/src/gtktsm -c {H}/checks/{i}.c -o {d}/g{i}.o')
            if r.returncode: return m,('nocompile','')
            r=sh(f'clang++ {SAN} {W}/{i}/*.o {d}/g{i}.o {PL} -lpthread -lm -o {d}/{i}')
            if r.returncode: return m,('nocompile',r.stdout[-100:])
        env={**os.environ,'VT_NOSHRINK':'1','ASAN_OPTIONS':'detect_leaks=0:hard_rss_limit_mb=2500:exitcode=79:allocator_may_return_null=0','UBSAN_OPTIONS':'print_stacktrace=1'}
        for cases in (600,4000):
            for i in IDS:
                try: r=sp.run([f'{d}/{i}','--tier','quick','--seed','1','--replays',d,'--cases',str(cases)],stdout=sp.PIPE,stderr=sp.STDOUT,text=True,errors='replace',env=env,timeout=400)
                except sp.TimeoutExpired: return m,('killed',i+' timeout')
                if r.returncode: 
                    x=[l for l in r.stdout.split('\n') if 'FAILS' in l]
                    return m,('killed' if cases<1000 else 'killed late',i+' '+(x[0] if x else r.stdout[-120:]))
        return m,('SURVIVED','')
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    build(); rng=random.Random(int(sys.argv[3]) if len(sys.argv)>3 else 1); N=int(sys.argv[2]) if len(sys.argv)>2 else 10**6
    ms=mutate.mutants(F,rng); rng.shuffle(ms); seen={}; key=[]
    for m in ms: k=m[1]; seen[k]=seen.get(k,0)+1; key.append(seen[k])
    ms=[m for _,m in sorted(zip(key,ms),key=lambda z:z[0])][:N]; print(len(ms),'mutants')
    cnt={}
    with open(sys.argv[1],'a') as out, ThreadPoolExecutor(3) as ex:
        for m,(r,t) in ex.map(one,ms):
            cnt[r]=cnt.get(r,0)+1; out.write('\t'.join([r,t.replace('\n',' | ').replace('\t',' ')[:160],f'{m[0]}:{m[1]+1}',m[2].strip(),m[3].strip()])+'\n'); out.flush()
    print(cnt)
