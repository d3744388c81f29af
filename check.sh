#!/bin/bash
# check.sh ID      run one property's check against /repo's working tree
# check.sh --build build only
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1 || true
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GONOSUMDB='*' GOSUMDB=off GOTOOLCHAIN=local VP_ROOT="$here"
out="$here/.build"
mkdir -p "$out"
build() { # build NAME FLAGS...
  local name=$1; shift
  local tmp="$out/$name.$$"
  if ! (cd "$here/harness" && go build "$@" -o "$tmp" .) >&2; then
    echo "build of the checks against /repo failed" >&2
    rm -f "$tmp"
    return 1
  fi
  mv -f "$tmp" "$out/$name"
}
if [ "${1:-}" = --build ]; then
  build vp && CGO_ENABLED=1 build vp-race -race
  exit $?
fi
id=${1:?usage: check.sh ID}
build vp || exit 2
if "$out/vp" list | grep -qx "$id race"; then
  CGO_ENABLED=1 build vp-race -race || exit 2
  exec "$out/vp-race" check "$id"
fi
exec "$out/vp" check "$id"
