#!/bin/bash
# batch.sh BUGS.py WORKERS [NAME...]: run batch.py in WORKERS private copies under /tmp/mut
bugs=$(readlink -f $1); n=$2; shift 2
mkdir -p /tmp/mut
for ((w=0; w<n; w++)); do
  d=/tmp/mut/b$w; mkdir -p $d/repo $d/verif
  rsync -a --delete --exclude target --exclude .git /repo/ $d/repo/
  rsync -a --delete --exclude target --exclude work --exclude .git --exclude evidence --exclude replay /verif/ $d/verif/
  [ -d $d/repo/.git ] || (cd $d/repo && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm x)
  [ -d $d/verif/target ] || cp -a /verif/target $d/verif/target
  unshare -Urm bash -c "mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /verif; python3 $d/verif/tools/batch.py $bugs $w $n $*" > /tmp/mut/batch.$w.log 2>&1 &
done
wait
cat /tmp/mut/batch.*.log
