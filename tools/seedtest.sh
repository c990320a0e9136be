#!/bin/bash
# seedtest.sh <seed id> [check ids...]: validates a planted bug in a throw-away copy of /repo
# (builds, passes the tests, demo fails with it and passes without it) and runs checks on it.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/w; rsync -a --exclude .git --exclude replays $V/ $W/v; [ -n "$SRC" ] && rsync -a $SRC/src/ $W/w/src/; cp -a $S $W/demo
export W
unshare -m bash -c '
mount --bind $W/w /repo; mount --bind $W/v /verif
cd /repo
if [ -z "$NOTEST" ]; then
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; echo "demo unpatched: $?"
git apply $W/demo/patch.diff || exit 1
bash /opt/vp/build.sh >$W/b.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh $W/o.json >$W/t.log 2>&1; tail -1 $W/t.log
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; echo "demo patched: $? $(tail -1 $W/d1.log)"
else git apply $W/demo/patch.diff || exit 1; fi
cd /verif
for c in "$@"; do python3 check.py $c >$W/c.log 2>&1; rc=$?; echo $rc >$W/rc.$c; echo "check $c: rc=$rc $(grep -c ^VIOLATION $W/c.log) violations; $(grep refuted: $W/c.log | sort | uniq -c | sort -rn | head -2 | cut -c1-160 | tr "\n" "|") $(tail -1 $W/c.log | cut -c1-150)"; done
' _ "$@"
[ -n "$1" ] && python3 - $id "$W" "$V" "$@" <<'P'
import json,sys,os
id_,W,V,*cs=sys.argv[1:]
f=V+'/tools/caught.json'; d=json.load(open(f)) if os.path.exists(f) else {}
got=[c for c in cs if os.path.exists(W+'/rc.'+c) and open(W+'/rc.'+c).read().strip()=='1']
d[id_]=', '.join(got) or 'missed'
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
