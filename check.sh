#!/bin/bash
# check.sh ID [key=value...]: builds the harness and texted from /repo's working
# tree and runs the check of property ID. Exit 0: held; 1: VIOLATION; other: error.
set -u
id=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d /tmp/texted-check-XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
chmod 755 "$tmp"
# The harness is built as part of the module, through an overlay: nothing is
# written to the repository.
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/harness/*/*.go; do
    rel=${f#"$here"/harness/}
    printf '%s"%s/zzverif/%s":"%s"' "$sep" "$repo" "$rel" "$f"
    sep=$',\n'
  done
  echo '}}'
} > "$tmp/overlay.json"
race=
case " P34 " in *" $id "*) race=-race ;; esac
cd "$repo" || exit 3
go build -overlay "$tmp/overlay.json" $race -o "$tmp/vh" ./zzverif/vh || { echo "INCONCLUSIVE property=$id the harness does not build against this tree"; exit 3; }
go build -o "$tmp/texted" ./cmd/texted || { echo "INCONCLUSIVE property=$id texted does not build"; exit 3; }
chmod 755 "$tmp/vh" "$tmp/texted"
cd "$here" || exit 3
"$tmp/vh" check prop="$id" tier="${VERIF_TIER:-quick}" seed="${VERIF_SEED:-1}" bin="$tmp/texted" \
  evidence="$here/evidence" known="$here/known_findings.txt" repo="$repo" "$@"
