#!/bin/bash
# plant.sh ID [check...]: confirm a planted change and try the checks on it, all in copies under /tmp/pl.
# /tmp/pl/repo and /tmp/pl/verif are copies of /repo and /verif, bound over the originals in a private mount namespace.
id=$1; shift
here=/tmp/pl
mkdir -p $here/log
rsync -a --delete --exclude target --exclude .git /repo/ $here/repo/ 2>/dev/null
(cd $here/repo && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD)
rsync -a --delete --exclude target --exclude work --exclude .git --exclude evidence --exclude replay /verif/ $here/verif/
rm -rf $here/seed; cp -a /verif/seeded/$id $here/seed
pid=$(python3 -c "import json;print(json.load(open('$here/seed/meta.json'))['property'])")
[ $# -gt 0 ] && checks="$*" || checks=$pid
unshare -Urm bash -c "
mount --bind $here/repo /repo; mount --bind $here/verif /verif; cd /repo
if [ -z \"\$SKIP\" ]; then
bash /opt/vp/build.sh > $here/log/b0 2>&1 || { echo BASE BUILD FAILED; tail $here/log/b0; exit 1; }
bash $here/seed/demo.sh > $here/log/d0 2>&1; echo demo unchanged: \$?
fi
git apply $here/seed/patch.diff || { echo PATCH FAILED; exit 1; }
if [ -z \"\$SKIP\" ]; then
bash /opt/vp/build.sh > $here/log/b1 2>&1 || { echo BUILD FAILED; tail -30 $here/log/b1; git checkout -q -- .; exit 1; }
bash $here/seed/demo.sh > $here/log/d1 2>&1; echo demo with patch: \$?
if [ -z \"\$NOTEST\" ]; then
bash /opt/vp/test.sh $here/log/t.json > $here/log/t1 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('$here/log/t.json'))
def S(x,k):
    v=x.get(k,[]); return set(v)
st=S(b,'stable') or S(b,'stable_pass') or S(b,'passed') or S(b,'pass')
ps=S(r,'passed') or S(r,'pass')
print('tests:', len(st), 'stable; broken:', sorted(st-ps)[:5])
P
fi
fi
for c in $checks; do bash /verif/check.sh \$c quick > $here/log/c.\$c 2>&1; echo check \$c: \$?; tail -3 $here/log/c.\$c | cut -c1-300; done
git checkout -q -- .
"
