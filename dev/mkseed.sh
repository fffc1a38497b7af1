#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what_it_breaks"  -- edits read from a python script on stdin (run in /tmp/seedwork/repo),
# demo.py (or demo.sh) expected in /verif/seeded/ID already. Confirms build, tests, demo.
set -u
ID=$1; PROP=$2; NEEDS=$3; BREAKS=$4
D=/verif/seeded/$ID
mkdir -p $D
cd /repo && git checkout -q -- . 
python3 - || { git checkout -q -- .; exit 1; }
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
if [ -f $D/demo.py ] && [ ! -f $D/demo.sh ]; then
cat > $D/demo.sh <<'E2'
#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH=/repo/_build/pkg exec /usr/bin/python3 "$D/demo.py"
E2
fi
python3 - "$PROP" "$NEEDS" "$BREAKS" > $D/meta.json <<'E3'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
E3
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || { echo BUILD FAILED; tail -5 /tmp/seed.build; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
python3 - <<'E4'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k]) if isinstance(x[k],list) else set(k2 for k2,v in x[k].items() if v in (True,'passed','pass'))
    return set()
m=names(b)-names(r)
print('tests:', 'ALL PASS' if not m else 'FAIL %s'%sorted(m)[:3], len(names(r)))
E4
bash $D/demo.sh > /tmp/seed.demo 2>&1; a=$?
python3 /verif/checks/run.py $PROP > /tmp/seed.check 2>&1; c=$?
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
bash $D/demo.sh > /tmp/seed.demo0 2>&1; b=$?
echo "$ID $PROP: demo patched=$a clean=$b check=$c"
[ $a -ne 0 ] || echo "  DEMO DOES NOT FAIL WITH PATCH"
[ $b -eq 0 ] || { echo "  DEMO FAILS ON CLEAN"; tail -3 /tmp/seed.demo0; }
tail -4 /tmp/seed.check | cut -c1-300
