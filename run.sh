#!/bin/bash
# run.sh ID [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE           re-run one recorded case
# run.sh build OUT             build the checker only
cd "$(dirname "$0")" || exit 2
V="$PWD"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export VERIF_DIR="$V"
if [ "$1" = build ]; then
  (cd mc && go build -buildvcs=false -o "$2" .) || exit 2
  exit 0
fi
D=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
(cd mc && go build -buildvcs=false -o "$D/mc" .) || { echo "build of the checker failed" >&2; exit 2; }
if [ "$1" = C30 ] || { [ "$1" = replay ] && grep -q '"C30"' "$2"; }; then
  (cd mc && go build -race -buildvcs=false -o "$D/mc-race" .) || { echo "build of the checker failed" >&2; exit 2; }
fi
if [ "$1" = replay ]; then
  "$D/mc" -replay "$2"; exit $?
fi
"$D/mc" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
exit $?
