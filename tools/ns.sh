#!/bin/bash
# ns.sh NAME CMD...: runs CMD with private, throw-away copies (overlays) of /repo and /verif; needs the right to mount
set -e
n=$1; shift
d=/tmp/ns.$n
rm -rf "$d"; mkdir -p "$d"
exec unshare -mn bash -c '
set -e
d=$1; shift
mount -t tmpfs -o size=12g none "$d"
for x in repo verif; do
 mkdir -p $d/$x.up $d/$x.wk
 mount -t overlay overlay -o lowerdir=/$x,upperdir=$d/$x.up,workdir=$d/$x.wk /$x
done
ip link set lo up
cd /verif
"$@"' ns "$d" "$@"
