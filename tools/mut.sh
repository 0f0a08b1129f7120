#!/bin/bash
# mut.sh CHECK FILE 'python-regex' 'replacement' : run one check on a mutated scratch copy (development aid)
set -e
rm -rf /tmp/mut/src && cp -a /repo/src /tmp/mut/src
python3 - "$2" "$3" "$4" <<'P'
import re,sys
p='/tmp/mut/src/smolgp/'+sys.argv[1]; s=open(p).read(); n=re.subn(sys.argv[2],sys.argv[3],s,count=1)
assert n[1]==1,"no match"; open(p,'w').write(n[0])
P
cd /verif && for c in $1; do SA_REPO=/tmp/mut timeout 900 python3-vt -m sa.run $c quick 2>&1 | cut -c1-250 | tail -${LINES_:-3}; done
