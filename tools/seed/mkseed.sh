#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the diff of the scratch tree $SCRATCH (default /tmp/scratch/repo)
# and demo.cc from tools/seed/demos/ID.cc into seeded/ID
set -e
S=${SCRATCH:-/tmp/scratch/repo}; H=$(cd "$(dirname "$0")" && pwd); D=$H/../../seeded/$1
mkdir -p $D; git -C $S diff > $D/patch.diff; [ -s $D/patch.diff ]
cp $H/demo.sh $H/build_demo.sh $H/demo_util.h $H/echo.proto $D/; [ -f $D/demo.cc ] || cp $H/demos/$1.cc $D/demo.cc
python3 - "$@" <<'P' > $D/meta.json
import json,sys
print(json.dumps(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),indent=1))
P
