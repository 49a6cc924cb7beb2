#!/bin/bash
# trybug.sh ID [PROP]: apply a planted bug in /repo, run its check, undo
I=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$I/meta.json'))['property'])")}
cd /repo && git apply /verif/seeded/$I/patch.diff || exit 9
cd /verif && python3 check.py $P ${TIER:-quick}; rc=$?
git -C /repo checkout -q -- .
echo "== $I $P rc=$rc"
