#!/bin/bash
# bash /verif/run.sh PROP         check one property (exit 0 / 1 with a VIOLATION line)
# bash /verif/run.sh CMD PROP …   any other gvc command (prove, replay, list)
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
if [ -x /opt/veriftools/go/bin/go ]; then export PATH=/opt/veriftools/go/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
bin=$(mktemp -d /tmp/gvc.XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
(cd "$here/gvc" && go build -o "$bin/gvc" .) || { echo "gvc does not build" >&2; exit 3; }
# scratch files of solvers and test builds go below $bin too
export TMPDIR=$bin
case "$1" in
  prove|replay|list|ssa|prove1|check) "$bin/gvc" "$@" ;;
  *) "$bin/gvc" check "$@" ;;
esac
exit $?
