#!/bin/bash
# check.sh ID [options]: builds the monitor for a property against /repo's working tree and runs it.
# VERIF_SEED and VERIF_TIER select the cases. "-case N" replays a single case.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1
shift
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
work=$(mktemp -d /tmp/verifrun.XXXXXX) || exit 4
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
race=
case $id in
  C24) target=core race=-race ;;
  C29) target=calc ;;
  C30) target=confedit ;;
  C32) target=iqueue ;;
  C33) target=isets ;;
  *) target=core ;;
esac
case $target in
  calc) dir=examples/calc/verifmon ;;
  confedit) dir=examples/conf-edit/verifmon ;;
  *) dir=internal/verifmon/$target ;;
esac
# map harness sources to (virtual) directories of the repository
{
  echo '{"Replace":{'
  sep=
  for d in mon gen hx $target; do
    case $d in
      $target) to=$dir ;;
      *) to=internal/verifmon/$d ;;
    esac
    for f in "$here"/harness/$d/*.go; do
      printf '%s"%s/%s/%s":"%s"\n' "$sep" "$repo" "$to" "$(basename "$f")" "$f"
      sep=,
    done
  done
  echo '}}'
} > "$work/overlay.json"
cd "$repo" || exit 4
if ! go build -buildvcs=false $race -overlay "$work/overlay.json" -o "$work/monitor" "./$dir"; then
  echo "$id: the monitor does not build against the working tree"
  exit 2
fi
if [ $id = C19 ] && ! go build -buildvcs=false -o "$work/llxgen" ./cmd/llxgen; then
  echo "$id: the generator does not build"
  exit 2
fi
if [ $id = C29 ] && ! go build -buildvcs=false -o "$work/calc" ./examples/calc; then
  echo "$id: the calculator does not build"
  exit 2
fi
if [ $id = C30 ] && ! go build -buildvcs=false -o "$work/conf-edit" ./examples/conf-edit; then
  echo "$id: the editor does not build"
  exit 2
fi
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
export VERIF_BUILD_DIR=$work VERIF_REPO_DIR=$repo
"$work/monitor" -id "$id" -out "$here" "$@"
