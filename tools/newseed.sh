#!/bin/bash
# newseed.sh ID PROP "needs" "breaks" : takes the diff of the scratch worktree /tmp/seedwt into seeded/ID
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/seedwt diff > $d/patch.diff
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open(sys.argv[1]+"/meta.json","w"), indent=1)
P
git -C /tmp/seedwt checkout -q -- .
