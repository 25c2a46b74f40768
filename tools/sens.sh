#!/bin/bash
# sens.sh PROP SECONDS COMMIT..: does the check notice when a repair is taken back?
P=$1; S=$2; shift 2
for c in "$@"; do
  if git -C /repo revert -n $c >/dev/null 2>&1; then
    if /verif/sim/build.sh >/tmp/sens.log 2>&1; then
      echo "== $c $(git -C /repo log -1 --format=%s $c | cut -c1-70)"
      /verif/sim/target/debug/simhost check $P --seconds $S 2>&1 | grep -v KNOWN | grep -v probes | cut -c1-200
    else echo "== $c does not build"; fi
  else echo "== $c conflicts"; fi
  git -C /repo revert --abort 2>/dev/null; git -C /repo reset -q --hard HEAD
done
/verif/sim/build.sh >/tmp/sens.log 2>&1
