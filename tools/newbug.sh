#!/bin/bash
# newbug.sh ID PROP "needs" "what": records the current diff of /repo's working tree as a planted bug; main.rs comes on stdin
S=/verif/seeded/$1; mkdir -p $S; cat > $S/main.rs
git -C ${W:-/repo} diff > $S/patch.diff; git -C ${W:-/repo} checkout -q -- .
[ -s $S/patch.diff ] || echo "EMPTY PATCH"
cp /verif/tools/demo.sh.tmpl $S/demo.sh; chmod +x $S/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
