#!/bin/bash
# checkseed.sh ID [CHECK [SECONDS]]: runs the check of the property the change breaks (or CHECK) on a patched copy of /repo
H=$(cd "$(dirname "$0")" && pwd); V=$(cd $H/../.. && pwd); D=$V/seeded/$1; T=/tmp/cs.$1; mkdir -p $T
P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
[ -d $T/repo ] && /bin/rm -rf "$T/repo" "$T/verif"; cp -a /repo $T/repo; cp -a $V $T/verif; git -C $T/repo apply $D/patch.diff || exit 1
unshare -m bash -c "mount --bind $T/repo /repo; mount --bind $T/verif /verif; cd /verif; SIM_SECONDS=${3:-25} python3 sim/check.py $P 2>$T/err | tail -4; echo \"$1 $P rc=\${PIPESTATUS[0]}\""
/bin/rm -rf "$T/repo" "$T/verif"
