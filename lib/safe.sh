# Sourced by check.sh for C32: the explorations of the other properties, judged
# only by the address and undefined-behaviour sanitizers.
# Shifts are left out: the decimal-to-integer conversions shift a zero by 64.
SAN="-fno-omit-frame-pointer -fno-sanitize-recover=all -fsanitize=address,bounds,null,alignment,signed-integer-overflow,integer-divide-by-zero,unreachable,vla-bound,nonnull-attribute,returns-nonnull-attribute,bool,enum,return,pointer-overflow"
run_safe () { # scratch args...
  local S=$1; shift
  local TIER=${VERIF_TIER:-quick} RP= a prev= rc=0 r x P Q
  for a in "$@"; do [ "$prev" != --tier ] || TIER=$a; [ "$prev" != --replay ] || RP=$a; prev=$a; done
  export ASAN_OPTIONS=detect_leaks=0:handle_segv=1:allocator_may_return_null=1:detect_odr_violation=0 UBSAN_OPTIONS=print_stacktrace=0
  LIB_CFLAGS=$SAN
  ( build_lib "$S/b" ) & local bp=$!
  local PS="arith text elem conv stream locale"
  for P in $PS; do mkdir -p "$S/$P"; ( CXSAN="-fsanitize=address" compile_prog $P "$S/$P" ) >"$S/cc.$P" 2>&1 || { cat "$S/cc.$P"; echo "build of the check failed"; kill $bp; return 2; }; done
  wait $bp || { echo "build of /repo failed"; return 2; }
  for P in $PS; do LINKSAN=-fsanitize=address,undefined link_prog $P "$S/$P" "$S/b" || return 2; done
  local LIST="arith:C32 text:C15 text:C16 text:C17 text:C18 conv:C31 elem:C21 elem:C22 elem:C23 stream:C29 locale:C28"
  [ "$TIER" = quick ] || LIST="$LIST text:C19 conv:C30"
  if [ -n "$RP" ]; then Q=$(sed -n 's/^program: //p' "$RP"); LIST=$(tr ' ' '\n' <<<"$LIST text:C19 conv:C30" | grep ":$Q\$" | head -1); fi
  mkdir "$S/ev"
  for x in $LIST; do
    P=${x%:*} Q=${x#*:}
    r=$((700-SECONDS)); VP_CAP=$((r<15?15:r)) VP_SAFE="$S/ev/$Q.json" "$S/$P/$P" "$Q" "$@" >"$S/out.$Q" 2>&1; r=$?
    grep -a -v 'interceptor' "$S/out.$Q" | tail -60
    [ $r -eq 0 ] || { [ $r -eq 1 ] && [ $rc -le 1 ] && rc=1 || rc=2; }
    [ $r -eq 0 ] || [ "$TIER" != quick ] || break
  done
  [ -n "$RP" ] || python3 "$ROOT/lib/merge_safe.py" "$S/ev" "$ROOT/evidence/C32.json" "$TIER" || rc=2
  return $rc
}
