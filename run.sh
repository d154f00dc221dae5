#!/bin/bash
# run.sh <property> [--replay <file>]
# Builds the harness against /repo's current working tree and runs one check.
# VERIF_TIER (quick|thorough) and VERIF_SEED are honoured.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift || true
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
replay=()
if [ "${1:-}" = "--replay" ]; then
  f=$2
  read -r part case rseed rtier < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["part"] or "-", d["case"], d["seed"], d["tier"])' "$f")
  seed=$rseed; tier=$rtier
  # crashes and race reports are not tied to one case: the whole run is repeated
  [ "$case" -ge 0 ] && replay=(-part "$part" -case "$case")
fi
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -a "$here/harness" "$tmp/src"
cd "$tmp/src" || exit 3
if ! go build -o "$tmp/vh" . 2>"$tmp/build.log"; then
  echo "run.sh: the harness does not build against /repo:" >&2; cat "$tmp/build.log" >&2; exit 3
fi
race=
if "$tmp/vh" needs -prop "$prop" | grep -q race; then
  if ! go build -race -o "$tmp/vhrace" . 2>"$tmp/build.log"; then
    echo "run.sh: race build failed:" >&2; cat "$tmp/build.log" >&2; exit 3
  fi
  race=$tmp/vhrace
fi
svc= svcx=
if "$tmp/vh" needs -prop "$prop" | grep -qx svc; then
  if ! (cd /repo && GOFLAGS=-mod=readonly go build -o "$tmp/svc" ./cmd/service) 2>"$tmp/build.log"; then
    echo "run.sh: service build failed:" >&2; cat "$tmp/build.log" >&2; exit 3
  fi
  svc=$tmp/svc
fi
if "$tmp/vh" needs -prop "$prop" | grep -qx svcx; then
  # the same program with one more file in package cfg, which sets addresses, intervals and limits
  cp "$tmp/src/svccfg.go.txt" "$tmp/svccfg.go"
  (cd /repo && echo "{\"Replace\":{\"$PWD/cfg/zz_verif_env.go\":\"$tmp/svccfg.go\"}}" >"$tmp/overlay.json" &&
    GOFLAGS=-mod=readonly go build -overlay "$tmp/overlay.json" -o "$tmp/svcx" ./cmd/service) 2>"$tmp/build.log"
  if [ $? -ne 0 ]; then
    echo "run.sh: service build with overlay failed:" >&2; cat "$tmp/build.log" >&2; exit 3
  fi
  svcx=$tmp/svcx
fi
cd "$here"
"$tmp/vh" check -prop "$prop" -tier "$tier" -seed "$seed" -verif "$here" -tmp "$tmp" -racebin "$race" -svc "$svc" -svcx "$svcx" "${replay[@]}"
exit $?
