#!/usr/bin/env python3
"""mutate.py <n> <seed> <out.jsonl> <worker> <file:ID,ID,...> ...: single-token mutants of /repo files, on scratch copies, against quick checks.
Appends one line per mutant (killed by / survived / does not compile). For finding blind spots; not part of any check."""
import sys, os, re, random, subprocess, shutil, json, time
V='/verif'
assert os.environ.get('HZV_SELF'), 'set HZV_SELF to a copy of /verif'
n, seed, out, worker = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
OPS=[(r'(?<![<>=!\-])<(?![<=])(?=\s)','<='),(r'<=','<'),(r'(?<![\->=])>(?![>=])(?=\s)','>='),(r'>=','>'),(r'==','!='),(r'!=','=='),(r'&&','||'),(r'\|\|','&&'),
     (r'\s\+ 1\b',''),(r'\s- 1\b',''),(r'\+\+','--'),(r'\+= ','-= '),(r'-= ','+= '),(r' \+ ',' - '),(r' - ',' + '),(r'\btrue\b','false'),(r'\bfalse\b','true'),
     (r'\b0\b','1'),(r'\b1\b','2'),(r'<< ','>> '),(r'>> ','<< '),(r'!(?=[a-zA-Z_(])',''),(r'\bbreak;','continue;'),(r' & ',' | '),(r' \* ',' + '),(r'\bif \((.*)\) \{','if (true) {'),(r'\bif \((.*)\) \{','if (false) {'),(r'0xff\b','0x7f')]
def candidates(path):
    L=open(path).read().split('\n'); c=[]
    incom=False
    for i,l in enumerate(L):
        s=l.strip()
        if s.startswith('/*'): incom=True
        if incom:
            if '*/' in s: incom=False
            continue
        if not s or s.startswith(('//','#','*','LOG_F','HZ_LOG','template','using','namespace','class','struct','public','private')) or 'LOG_F' in s: continue
        code=re.sub(r'"[^"]*"',lambda m:'\x01'*len(m.group(0)),l.split('//')[0])
        for p,r in OPS:
            for m in re.finditer(p,code): c.append((i,l[:m.start()]+r+l[m.end():]))
        if re.match(r'^[\w\->.\[\]()*&:]+(\(.*\)| [+\-|&^]?= .*|\+\+|--);$',s) and not s.startswith('return'): c.append((i,''))
        if 'scoped_lock' in s or 'unique_lock' in s: c.append((i,''))
        if s.startswith(('throw','continue;','return;')): c.append((i,';'))
    return L,c
for spec in sys.argv[5:]:
    f,ids=spec.split(':'); ids=ids.split(',')
    rnd=random.Random(f'{seed}{f}')
    L,c=candidates('/repo/src/'+f); rnd.shuffle(c)
    d=f'/tmp/mutants/{worker}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(os.path.dirname(d),exist_ok=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git','_build'))
    done=0
    for i,new in c:
        if done>=n: break
        M=list(L); M[i]=new
        open(f'{d}/src/{f}','w').write('\n'.join(M))
        t=f'{d}/src/{f}'
        src=t if t.endswith('.cpp') else None
        if src:
            r=subprocess.run(['clang++-18','-std=c++20','-w','-fsyntax-only','-DLOGURU_WITH_STREAMS=0','-DCL_HPP_ENABLE_EXCEPTIONS','-DCL_HPP_TARGET_OPENCL_VERSION=200',f'-I{V}/shim/std',f'-I{V}/shim',f'-I{d}/src',f'-I{d}/other/loguru/include',f'-I{d}/other/argparse/include',src],capture_output=True)
            if r.returncode: continue
        done+=1; res=None; t0=time.time()
        for x in ids:
            env=dict(os.environ,HZV_REPO=d)
            try: r=subprocess.run(['timeout','900','python3','hzv.py','check',x],cwd=os.environ.get('HZV_SELF',V),env=env,capture_output=True,text=True)
            except Exception as e: res='error'; break
            if 'VIOLATION' in r.stdout:
                w=[l for l in r.stdout.split('\n') if 'what:' in l]; res=f'{x}:{w[0].strip() if w else ""}'; break
            if r.returncode: res=f'{x}: rc {r.returncode} '+r.stdout[-200:]; break
        for sub in (['bin','obj'] if f.endswith('.h') else ['bin']):
            for g in os.scandir(os.environ.get('HZV_SELF',V)+'/.build/'+sub):
                if g.stat().st_mtime>=t0: os.unlink(g.path)
        open(out,'a').write(json.dumps(dict(file=f,line=i+1,old=L[i].strip(),new=new.strip(),result=res or 'SURVIVED',checks=ids if not res else None,s=round(time.time()-t0)))+'\n')
    shutil.rmtree(d,ignore_errors=True)
