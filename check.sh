#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property of /repo's current working tree
# check.sh --replay <file>               run one recorded counterexample on the real code
# check.sh --build                       build the checker only
cd "$(dirname "$0")" || exit 2
here=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS CGO_ENABLED=0
repo=${VERIF_REPO:-/repo}
eng=$here/.build/engine
build() {
  mkdir -p "$here/.build" || return 1
  if [ ! -x "$eng" ] || [ -n "$(find "$here/engine" -newer "$eng" -type f | head -1)" ]; then
    (cd "$here/engine" && go build -o "$eng.$$" . && mv "$eng.$$" "$eng")
  fi
}
build || { echo "cannot build the checker" >&2; exit 2; }
case "$1" in
  --build) exit 0 ;;
  --replay) exec "$eng" -repo "$repo" -verif "$here" -replay "$2" ;;
esac
exec "$eng" -repo "$repo" -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
