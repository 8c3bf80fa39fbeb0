#!/bin/bash
# mkseed.sh ID PROP NEEDS WHAT : takes the uncommitted change in /repo as the patch of seeded/ID (demo.py must already lie in /tmp/demo.py), undoes it
id=$1; d=/verif/seeded/$id; mkdir -p $d; cp /verif/tools/demo_lib/mcd.py $d/
[ -f /tmp/demo.py ] && mv /tmp/demo.py $d/demo.py
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
wc -l $d/patch.diff
