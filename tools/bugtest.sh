#!/bin/bash
# bugtest.sh NAME PATCH|revert:COMMIT[,COMMIT]|none CHECK...: run checks (in private copies) on a changed /repo
# (development tool, not part of any check; needs the privilege to mount)
n=$1; p=$2; shift 2
w=/tmp/bt/$n; mkdir -p $w
cp -a /repo $w/repo; mkdir $w/verif; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude='./evidence/*' .) | tar xf - -C $w/verif
case $p in
 none) ;;
 revert:*) for c in $(echo ${p#revert:} | tr , ' '); do git -C $w/repo -c user.name=x -c user.email=x@x revert -n $c >/dev/null 2>&1 || { echo "$n CONFLICT"; rm -rf $w; exit 3; }; done;;
 *) git -C $w/repo apply $p || { echo "$n NOAPPLY"; rm -rf $w; exit 3; };;
esac
export n w
[ -n "$BT_DEMO" ] && { cp -a $BT_DEMO $w/demo; rm -f $w/demo/*.diff $w/demo/meta.json; }
[ -n "$BT_TEST" ] && cp -a /opt/vp $w/vp
unshare -m -n bash -c '
 python3 - <<P
import socket,fcntl,struct
s=socket.socket(); fcntl.ioctl(s,0x8914,struct.pack("16sh14x",b"lo",1|8|64))
P
 mount --bind $w/repo /repo; mount --bind $w/verif /verif; [ -d $w/vp ] && mount --bind $w/vp /opt/vp; cd /verif
 if [ -n "$BT_TEST" ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$n BUILD-FAILS"; bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1; python3 -c "
import json;t=json.load(open(\"$w/t.json\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));
print(\"$n tests\",len(t[\"passed\"]),t.get(\"failed\"))"; fi
 if [ -n "$BT_DEMO" ]; then (cd /repo; timeout 300 bash $w/demo/demo.sh >$w/dout 2>&1; echo "$n demo rc=$? $(tail -1 $w/dout | cut -c1-150)"); fi
 for c in "$@"; do t0=$(date +%s); timeout ${BT_TIMEOUT:-900} python3 check.py $c >$w/out 2>$w/err; rc=$?; t1=$(date +%s)
  echo "$n $c rc=$rc $((t1-t0))s $(grep -a -v KNOWN $w/out | head -1 | cut -c1-260) $( [ $rc = 2 -o $rc = 124 ] && tail -3 $w/err | cut -c1-300)"; done' x "$@"
rm -rf $w
