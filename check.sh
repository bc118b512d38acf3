#!/bin/bash
# usage: check.sh ID            run the check of property ID (tier from VERIF_TIER, seed from VERIF_SEED)
#        check.sh selftest      build the harness and cross-validate its reference models
#        check.sh replay FILE   evaluate one saved failing case
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: the machinery failed.
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
ID=${1:?usage: check.sh ID}
TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$TMP/src" "$TMP/w"
cp "$HERE"/harness/*.go "$HERE"/harness/go.sum "$TMP/src/" || exit 2
sed "s#=> /repo#=> $REPO#" "$HERE/harness/go.mod" > "$TMP/src/go.mod"
RACE=""
[ "$ID" = C13 ] && RACE="-race"
if [ "$ID" = replay ] && grep -q '"property": "C13"' "${2:?replay FILE}"; then RACE="-race"; fi
if ! (cd "$TMP/src" && go build $RACE -o "$TMP/h" . ) > "$TMP/build.log" 2>&1; then
  echo "ERROR: build failed"; tail -40 "$TMP/build.log"; exit 2
fi
export VERIF_REPO_DIR="$REPO" VERIF_HOME="$HERE"
if [ "$ID" = C21 ] || { [ "$ID" = replay ] && grep -q '"property": "C21"' "$2"; }; then
  if ! (cd "$REPO" && go build -o "$TMP/jsonex" ./examples/json) > "$TMP/build.log" 2>&1; then
    echo "ERROR: building the JSON example failed"; tail -40 "$TMP/build.log"; exit 2
  fi
  export VERIF_JSONEX="$TMP/jsonex"
fi
case "$ID" in
  selftest) "$TMP/h" -mode selftest; exit $? ;;
  replay) TMPDIR="$TMP/w" "$TMP/h" -mode replay -file "$2"; exit $? ;;
esac
"$TMP/h" -mode drive -id "$ID" -tier "$TIER" -seed "$SEED" -verif "$HERE" -tmp "$TMP/w" ${VERIF_CASES:+-cases $VERIF_CASES}
