#!/bin/bash
# dev/trial.sh PATCH [PROP...]: runs the checks against a scratch copy of /repo with PATCH applied
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/trial.XXXXXX)
git -C /repo archive HEAD | tar x -C $d
(cd $d && git init -q . && git apply --whitespace=nowarn "$p") || { echo APPLY-FAILED; rm -rf $d; exit 3; }
cd "$(dirname "$0")/.."
export PFSTAT_REPO=$d PFSTAT_EVID=$d/_ev
[ $# -gt 0 ] || set -- $(ls pfstat/props | sed -n 's/^p\([0-9]*\).py/P\1/p')
python3 -m pfstat.extract >/dev/null || { echo; echo DOES-NOT-COMPILE; echo; exit 4; }
for x in "$@"; do echo $x; done | xargs -P8 -I{} sh -c 'python3 check.py {} 2>&1 | grep -v " 0 violations, 0 known" | cut -c1-400'
rm -rf $d
