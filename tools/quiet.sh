#!/bin/bash
# usage: quiet.sh [CHECK...]: the quick checks against copies of /repo, each with one of refactorings/*.diff
# (which change no behaviour) applied; prints only what goes wrong. SEED, J and W as in catch.py; R=R2 for one of them.
T=$(mktemp -d /tmp/quiet.XXXXXX)
trap 'rm -rf "$T"' EXIT
cd "$(dirname "$0")/.." || exit 1
. /opt/vp/env.sh
export VERIF_SEED=${SEED:-1} VERIF_WORKERS=${W:-2} T
for d in refactorings/${R:-*}.diff; do
  rm -rf "$T/repo"; cp -a /repo "$T/repo"
  git -C "$T/repo" apply "$PWD/$d" || exit 1
  export VERIF_REPO=$T/repo D=$d
  printf '%s\n' ${@:-$(ls harness/props | sed -n 's/^c\([0-9]*\).py/C\1/p')} |
  xargs -P "${J:-4}" -I{} sh -c '/opt/venv/bin/python run_check.py {} --quick >$T/{}.txt 2>&1; rc=$?
    [ $rc = 0 ] || { echo "$D {} exit $rc"; tail -4 $T/{}.txt | cut -c1-300; }'
done
