#!/bin/bash
# dev/mut.sh FILE OLD NEW PROP...   (literal replacement of the first occurrence; N=k selects the k-th)
f=$1 o=$2 n=$3; shift 3
d=$(mktemp -d /tmp/mut.XXXXXX)
F="$f" O="$o" N="$n" K="${K:-1}" python3 - $d <<'P' || { rm -rf $d; exit 3; }
import os,sys,difflib
f=os.environ['F'];s=open('/repo/'+f).read();o=os.environ['O'].encode().decode('unicode_escape');n=os.environ['N'].encode().decode('unicode_escape')
k=int(os.environ['K']);p=-1
for _ in range(k):
    p=s.find(o,p+1)
    if p<0: print('NOT FOUND',repr(o)); sys.exit(1)
t=s[:p]+n+s[p+len(o):]
open(sys.argv[1]+'/p.diff','w').write(''.join(difflib.unified_diff(s.splitlines(1),t.splitlines(1),'a/'+f,'b/'+f)))
P
"$(dirname "$0")/trial.sh" $d/p.diff "$@"
rm -rf $d
