#!/bin/bash
# tryseed.sh ID [PROP]: run a check against a planted bug in a scratch copy
ID=$1; PROP=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
W=$(mktemp -d /tmp/try.XXXX); mkdir $W/r
( cd /repo && git archive HEAD | tar x -C $W/r ); ( cd $W/r && git init -q . && git apply /verif/seeded/$ID/patch.diff )
VERIF_REPO=$W/r python3 /verif/checks/run.py $PROP; echo "exit $?"
rm -rf $W
