#!/bin/bash
# try_seed.sh ID [checks...]: stable tests and checks with the seed applied
id=$1; shift
p=/verif/seeded/$id/patch.diff
git -C /repo apply "$p" || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
python3 -c "
import json; d=json.load(open('/tmp/seed_o.json')); print('$id tests', len(d['passed']), 'passed', len(d['failed']), 'failed')"
fi
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for c in $props; do (cd /verif && ./check $c $CHECKARGS | sed "s/^/$id: /"); done
