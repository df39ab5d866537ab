#!/bin/bash
# mut.sh <ID> <file> <python-expr old> <new>: run a check against a scratch copy with one text replaced.
set -e
d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
python3 - "$d/$2" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:4]; s=open(p).read(); assert o in s, "text not found"; open(p,'w').write(s.replace(o,n,1))
P
cd /verif; cp -a evidence/$1.json /tmp/ev.$$ 2>/dev/null || true
HZV_REPO=$d timeout 900 python3 hzv.py check $1 | tail -${5:-14} || true
cp /tmp/ev.$$ evidence/$1.json 2>/dev/null || true; rm -f /tmp/ev.$$
rm -rf "$d"
