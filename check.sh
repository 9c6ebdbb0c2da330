#!/bin/bash
# check.sh ID quick|thorough        run the check of one property against /repo
# check.sh ID replay FILE           re-run one stored failing case
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=${1:?property id}; tier=${2:-${VERIF_TIER:-quick}}
export VERIF_ROOT="$here"
if [ "$tier" = replay ]; then export VERIF_REPLAY=$(realpath "${3:?replay file}"); tier=quick; fi
export VERIF_TIER=$tier
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 2
low=$(echo "$id" | tr A-Z a-z)
race=""; [ -e "checks/$low/RACE" ] && race="-race"
if ! go build $race -o "$bin/check" "./checks/$low" >"$bin/log" 2>&1; then
  cat "$bin/log" >&2; echo "build of check $id failed" >&2; exit 2
fi
cd "$bin" || exit 2
"$bin/check"
exit $?
