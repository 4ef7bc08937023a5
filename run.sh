#!/bin/bash
# run.sh <property>: builds the monitor against the working tree of /repo and runs one check.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/env.sh"
cd "$HERE" || exit 2
PROP="${1:?property}"
TIER="${VERIF_TIER:-quick}"
SEED="${VERIF_SEED:-1}"
BUILD="$HERE/.build"
mkdir -p "$BUILD" "$HERE/evidence" || exit 2
RACE=""
case "$PROP" in
  C14) RACE="-race" ;;
esac
# module file: the harness' own requirements completed by those of the repository as it is now
MODDIR="$(mktemp -d "$BUILD/mod.XXXXXX")" || exit 2
trap 'rm -rf "$MODDIR"' EXIT
sed -e '/^module /d' -e '/^go /d' -e '/^toolchain /d' /repo/go.mod > "$MODDIR/req" || exit 2
{
  echo "module verif/harness"
  echo
  echo "go 1.21"
  echo
  echo "require github.com/octarinesec/MAPL v0.0.0"
  cat "$MODDIR/req"
  echo
  echo "replace github.com/octarinesec/MAPL => /repo"
} > "$MODDIR/go.mod"
cat /repo/go.sum "$HERE/harness/go.sum" 2>/dev/null | sort -u > "$MODDIR/go.sum"
# each of the optional parts of the monitor is built only for its own properties
(
  cd "$HERE/harness" && go build $RACE -tags "only,$(echo "$PROP" | tr A-Z a-z)" -modfile "$MODDIR/go.mod" -o "$MODDIR/monitor" ./cmd/monitor
) > "$MODDIR/build.log" 2>&1
if [ $? -ne 0 ]; then
  echo "check error: build failed" >&2
  tail -40 "$MODDIR/build.log" >&2
  exit 2
fi
[ -n "${MONITOR_BUILD_ONLY:-}" ] && exit 0
export GORACE="halt_on_error=0 exitcode=66 history_size=3"
"$MODDIR/monitor" -prop "$PROP" -tier "$TIER" -seed "$SEED" -dir "$MODDIR" -evidence "$HERE/evidence"
exit $?
