#!/usr/bin/env python3
"""make_seed.py <id>: makes /verif/seeded/<id> from tools/demo/<id>.{json,cpp} and confirms it in a scratch copy:
the patch builds, the stable tests pass, the demonstration passes without and fails with it."""
import sys, os, json, subprocess, shutil, tempfile
V='/verif'
def sh(cmd, cwd=None, timeout=900):
    r=subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return r.returncode, (r.stdout+r.stderr)
def main(i):
    spec=json.load(open(f'{V}/tools/demo/{i}.json'))
    out=f'{V}/seeded/{i}'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    # stand-ins for the two absent submodules
    for d in ('rainman','bitio'):
        shutil.copytree(f'{V}/shim/{d}', f'{out}/inc/{d}')
    shutil.copy(f'{V}/tools/demo/{i}.cpp', f'{out}/demo.cpp')
    for f in spec.get('files',[]): shutil.copy(f'{V}/tools/demo/{f}', f'{out}/{os.path.basename(f)}')
    dirs=' '.join(spec['sources'])
    flags=spec.get('flags','-O1')
    open(f'{out}/demo.sh','w').write(f'''#!/bin/bash
# exit 0: {spec["property"]} holds here; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/hzdemo.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 3
srcs=()
for d in {dirs}; do
    while IFS= read -r f; do [ "$f" = "$repo/src/main.cpp" ] || srcs+=("$f"); done < <(find "$repo/src/$d" -name '*.cpp')
done
flags=(-std=c++20 -g1 -w {flags} -DLOGURU_WITH_STREAMS=0 -DCL_HPP_ENABLE_EXCEPTIONS -DCL_HPP_TARGET_OPENCL_VERSION=200
    -I"$here/inc" -I"$repo/src" -I"$repo/other/loguru/include" -I"$repo/other/argparse/include")
n=0
for f in "$here/demo.cpp" "$here/inc/rainman/rainman.cpp" "$here/inc/bitio/bitio.cpp" "$repo/other/loguru/src/loguru.cpp" "${{srcs[@]}}"; do
    n=$((n + 1))
    clang++-18 "${{flags[@]}}" -c "$f" -o "$tmp/$n.o" &
    [ $((n % 8)) = 0 ] && wait
done
wait
clang++-18 {flags} "$tmp"/*.o -o demo {spec.get("libs","-lcrypto")} -ldl -lpthread || {{ echo "cannot build the demonstration"; exit 3; }}
timeout {spec.get("timeout",60)} ./demo
''')
    os.chmod(f'{out}/demo.sh',0o755)
    tmp=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        shutil.copytree('/repo',f'{tmp}/repo',symlinks=True)
        R=f'{tmp}/repo'
        for f,old,new in spec['edits']:
            s=open(f'{R}/{f}').read()
            if s.count(old)!=1: print(i,'edit matches',s.count(old),'times:',old); return 1
            # only lines of the original repository
            open(f'{R}/{f}','w').write(s.replace(old,new))
        rc,d=sh('git diff',R); open(f'{out}/patch.diff','w').write(d)
        base=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd=R,capture_output=True,text=True).stdout.strip()
        for l in sh('git diff -U0',R)[1].splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                if l[1:].strip() not in subprocess.run(f'git grep -hF -e "{chr(0)}" {base}' if 0 else ['git','grep','-hF','-e',l[1:].strip(),base],cwd=R,capture_output=True,text=True).stdout:
                    print(i,'changes a line that is not original:',l)
        json.dump(dict(property=spec['property'],needs=spec['needs'],what_it_breaks=spec['what_it_breaks']),open(f'{out}/meta.json','w'),indent=1)
        # tests with the patch: the build system has /repo hard-wired, so the copy takes its place in a mount namespace
        if sh('git status --porcelain','/repo')[1].strip(): print('/repo is not clean'); return 1
        rc,o=sh(f"unshare -Urm bash -c 'mount --bind {R} /repo && cd / && bash /opt/vp/test.sh {tmp}/t.json'")
        t=json.load(open(f'{tmp}/t.json'))
        base_tests=json.load(open('/opt/vp/BASELINE.json'))
        ok_tests = len(t['passed'])>=5 and not t['failed']
        mv=tempfile.mkdtemp(prefix='seedd.',dir='/tmp'); shutil.copytree(out,f'{mv}/s')
        rc1,o1=sh(f'bash {mv}/s/demo.sh','/repo',600); rc2,o2=sh(f'bash {mv}/s/demo.sh',R,600)
        shutil.rmtree(mv)
        print(i,'tests',ok_tests,'clean',rc1,'patched',rc2, '' if rc1==0 and rc2!=0 and ok_tests else 'BAD\n'+o1[-1500:]+'\n--\n'+o2[-1500:])
        print('   ',o2.strip().splitlines()[-1:] )
        return 0
    finally: shutil.rmtree(tmp)
for i in sys.argv[1:]: main(i)
