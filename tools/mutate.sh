#!/bin/bash
# tools/mutate.sh <property> <file relative to repo> <python regex> <replacement> [check args]: runs the check on a copy with one textual change

# MUT_SLOT (environment) names the copy, so that several can run at a time
R=/tmp/mut_repo$MUT_SLOT; B=/tmp/mut_build$MUT_SLOT; O=/tmp/mut_out$MUT_SLOT.txt
P=$1; F=$2; A=$3; C=$4; shift 4
[ -d $R ] || cp -a /repo $R
git -C $R checkout -q -- . ; git -C $R pull -q /repo HEAD 2>/dev/null || true
[ -d $B ] || cp -a /verif/build $B
python3 - "$R/$F" "$A" "$C" <<'P'
import sys,re
f,a,c=sys.argv[1:]
s=open(f).read(); n=len(re.findall(a,s))
if n!=1: print('MATCHES',n); sys.exit(1)
open(f,'w').write(re.sub(a,c,s))
P
cd /verif
VERIF_REPO=$R VERIF_BUILD=$B timeout 900 python3 check.py $P "$@" > $O 2>&1; rc=$?
git -C $R checkout -q -- .
echo "rc $rc $(grep -m1 -E "^VIOLATION|BUILD" $O | cut -c1-40) | $A => $C | $(grep -m1 -A1 "^config" $O | tail -1 | cut -c1-150)"
