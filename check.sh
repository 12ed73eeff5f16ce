#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against the current tree of
# /repo (or $VERIF_REPO) and decides one property.
set -u
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$DIR
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS='-mod=mod'
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
REPO=${VERIF_REPO:-/repo}
WORK=$(mktemp -d /tmp/pbtbuild.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
sed "s#=> /repo#=> $REPO#" "$DIR/harness/go.mod" > "$WORK/go.mod"
cp "$DIR/harness/go.sum" "$WORK/go.sum"
RACE=
case " ${RACE_IDS:-C22} " in *" $ID "*) RACE=-race;; esac
cd "$DIR/harness" || exit 2
if ! go build $RACE -tags timetzdata -modfile "$WORK/go.mod" -o "$WORK/pbt" . 2> "$WORK/build.log"; then
  cat "$WORK/build.log" >&2
  exit 2
fi
if [ "$ID" = C37 ]; then
  for g in cldr po; do
    if ! go build -modfile "$WORK/go.mod" -o "$WORK/gen-$g" "github.com/vorlif/spreak/catalog/${g}plural/generator" 2> "$WORK/build.log"; then
      cat "$WORK/build.log" >&2
      exit 2
    fi
  done
fi
export TMPDIR=$WORK PBT_SRC=$REPO PBT_BUILD=$WORK PBT_HARNESS=$DIR/harness
"$WORK/pbt" run "$ID" "$TIER"
