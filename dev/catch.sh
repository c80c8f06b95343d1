#!/bin/bash
# catch.sh ID [PROP [TIER]]: do the checks catch a planted bug?
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
(cd /verif && python3 run.py $p ${3:-quick} 2>&1 | tail -6 | cut -c1-200); 
git -C /repo checkout -- .
