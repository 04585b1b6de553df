#!/bin/bash
# sweep.sh SCENARIO SECONDS [extra simrun options]: 8 workers, prints violations
S=$1; T=$2; shift 2; D=/tmp/sweep.$S; rm -rf $D; mkdir -p $D
BASE=${BASE:-1}
for w in $(seq 0 $((${NW:-8} - 1))); do ${SIMRUN:-/verif/.build/simrun} run --scenario=$S --start=$w --stride=${NW:-8} --count=100000000 --base=$BASE --wall=$T --out=$D/out$w --replaydir=$D --minimise=${MIN:-8} "$@" >/dev/null 2>&1 & done; wait
cat $D/out? | grep "^violation\|^internal" | cut -c1-420; cat $D/out? | awk '/^runs/{r+=$2}/^sim_s/{s+=$2}/^maxwall/{if($2>m)m=$2}END{print "runs",r,"sim_s",s,"maxwall",m}'
