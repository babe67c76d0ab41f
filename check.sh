#!/bin/bash
# check.sh ID [--tier quick|thorough] [--replay FILE]
# Builds libdfp from /repo in a scratch directory, builds the check, runs it.
ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
ID=$1; shift
export VP_ROOT=$ROOT
. "$ROOT/lib/build.sh"
. "$ROOT/lib/safe.sh"
case $ID in
  C0[1-9]|C1[0-4]|C24|C25) P=arith ;;
  C1[5-9]) P=text ;;
  C20|C26|C27) P=state ;;
  C2[1-3]) P=elem ;;
  C28) P=locale ;;
  C29) P=stream ;;
  C30|C31) P=conv ;;
  C32) S=$(mktemp -d /tmp/vpcheck.XXXXXX) || exit 2; trap 'rm -rf "$S"' EXIT; run_safe "$S" "$@"; exit ;;
  *) echo "unknown property $ID"; exit 2 ;;
esac
S=$(mktemp -d /tmp/vpcheck.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
mkdir "$S/obj"
( compile_prog $P "$S/obj" ) >"$S/cc.log" 2>&1 &
cpid=$!
( build_lib "$S/b" ) || { echo "build of /repo failed"; exit 2; }
wait $cpid || { cat "$S/cc.log"; echo "build of the check failed"; exit 2; }
link_prog $P "$S/obj" "$S/b" || exit 2
"$S/obj/$P" "$ID" "$@"
