#!/bin/bash
# tryseed.sh ID [PID...]: runs the checks against a seeded change in a scratch copy
id=$1; shift
pids=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
T=$(mktemp -d /tmp/try_XXXX); cp -a /repo $T/repo; cp -a /verif $T/verif; rm -rf $T/verif/seeded
git -C $T/repo apply /verif/seeded/$id/patch.diff || exit 3
for p in $pids; do (cd $T/verif; VERIF_REPO=$T/repo python3 check.py $p > out.txt; echo "$id $p exit $?"; tail -${LINES_:-4} out.txt | cut -c1-250); done
rm -rf "$T"
