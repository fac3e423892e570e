#!/bin/sh
# tools/seedcheck.sh ID [CHECK]: run the check of a planted bug on a scratch copy with the bug (development aid)
id=$1; c=${2:-$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
d=$(mktemp -d /tmp/sc.XXXXXX)
mkdir $d/t; cp -r /repo/fv3gfs $d/t/; (cd $d/t && git init -q && git apply --unsafe-paths --directory=$d/t /verif/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$id/patch.diff)
SA_ROOT=$d/t SA_EVIDENCE=$d python3 /verif/check.py $c > $d/out; grep VIOLATION $d/out; tail -${3:-2} $d/out | cut -c1-400; echo "$id $c done"
rm -rf "$d"
