#!/bin/bash
# Usage: check.sh Cxx [--only group/case]
# Builds the harness against /repo's working tree and runs one property's check.
# Exit: 0 held, 1 VIOLATION, 2 no answer (build failure, nothing observed).
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOGC=200
unset VERIF_W32 VERIF_PROBE VERIF_PROBE_BIN GORACE GOMAXPROCS GODEBUG VERIF_SIM_BIN VERIF_SIM_RACE_BIN VERIF_RACE_LOG VERIF_CANARY_LOG
race=
export VERIF_DIR=$here
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP=$tmp
# Only what the property needs is built, so that a change of an interface the
# property does not use cannot keep it from being checked.
case $prop in
  C01) need="c01_arith" ;;
  C02) need="c02_convert" ;;
  C03|C04|C05|C07|C08) need="c03_math" ;;
  C06) need="c06_ticks c20_strategy c24_exec constants hist" ;;
  C09) need="c09_liquidity" ;;
  C1[0-5]) need="c10_pool hist" ;;
  C1[678]) need="c16_pool c10_pool hist" ;;
  C19) need="c19_table" ;;
  C20|C21|C22) need="c20_strategy hist" ;;
  C23) need="c23_prices" ;;
  C24) need="c24_exec hist" ;;
  C25) need="c25_race c20_strategy c24_exec c27_batch constants hist" ;;
  C26) need="c26_codec" ;;
  C27) need="c27_batch c24_exec hist" ;;
  C29) need="c29_input c27_batch c24_exec hist" ;;
  C28) need="c28_memory c20_strategy c24_exec hist" ;;
  *) echo "usage: check.sh C01..C29 [--only group/case]"; exit 2 ;;
esac
mkdir "$tmp/src" || exit 2
cd "$tmp/src" || exit 2
cp -r "$here/harness/ref" "$here/harness/go.mod" . || exit 2
for f in common util $need; do
  cp "$here/harness/$f.go" . || exit 2
done
build() { # output flags...
  local out=$1; shift
  if ! go build "$@" -o "$out" . >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log"
    echo "NO-ANSWER property=$prop: the harness does not build against /repo"
    exit 2
  fi
}
case $prop in
  C25) ( cd /repo && go build -race -o "$tmp/simulator-race" . ) >"$tmp/build.log" 2>&1 || {
         cat "$tmp/build.log"; echo "NO-ANSWER property=$prop: the simulator does not build"; exit 2; }
       export VERIF_SIM_RACE_BIN=$tmp/simulator-race VERIF_RACE_LOG=$tmp/race VERIF_CANARY_LOG=$tmp/canary
       export GORACE="log_path=$tmp/race halt_on_error=0 exitcode=0"
       race=-race ;;
  C27|C29) ( cd /repo && go build -o "$tmp/simulator" . ) >"$tmp/build.log" 2>&1 || {
         cat "$tmp/build.log"; echo "NO-ANSWER property=$prop: the simulator does not build"; exit 2; }
       export VERIF_SIM_BIN=$tmp/simulator
       # The statistics alone, if the program still has them in this shape.
       cp "$here/probe/probe.go.txt" "$tmp/probe.go"
       printf '{"Replace":{"/repo/zz_verif_probe.go":"%s"}}' "$tmp/probe.go" >"$tmp/overlay.json"
       if [ $prop = C27 ] && ( cd /repo && go build -overlay "$tmp/overlay.json" -o "$tmp/probe" . ) >"$tmp/probe.log" 2>&1; then
         export VERIF_PROBE_BIN=$tmp/probe
       fi ;;
esac
build "$tmp/vh" $race
# Thorough: the same workload and oracle once more as a 32-bit program, where
# big.Int words and int are half as wide.
case $VERIF_TIER/$prop in
  thorough/C01|thorough/C02|thorough/C03|thorough/C07|thorough/C08|thorough/C09)
    mkdir -p "$tmp/w32/evidence"
    cp -r "$tmp/src" "$tmp/w32/src"
    if ( cd "$tmp/w32/src" && GOARCH=386 go build -o "$tmp/vh32" . ) >"$tmp/build32.log" 2>&1; then
      VERIF_DIR=$tmp/w32 VERIF_TIER=quick VERIF_SEED=$((${VERIF_SEED:-1} + 1000)) "$tmp/vh32" "$@" >"$tmp/out32" 2>&1
      rc=$?
      sed "s#^VIOLATION .*##;s#^#32-bit: #" "$tmp/out32" | tail -n 5
      if [ $rc -eq 1 ]; then
        mkdir -p "$here/replays"
        cp "$tmp/w32/replays/$prop.json" "$here/replays/$prop.json"
        echo "VIOLATION property=$prop replay=$here/replays/$prop.json"
        exit 1
      fi
      export VERIF_W32="$(tail -n 1 "$tmp/out32")"
    else
      echo "NOTE property=$prop: no 32-bit program on this tree"
    fi ;;
esac
"$tmp/vh" "$@" 2>"$tmp/stderr"
rc=$?
if [ $rc -ne 0 ] && grep -q '^fatal error:\|^panic:' "$tmp/stderr"; then
  mkdir -p "$here/replays"
  replay=$here/replays/$prop.json
  python3 - "$prop" "$tmp/stderr" "$replay" <<'P'
import json,sys
prop,err,out=sys.argv[1:]
t=open(err,errors='replace').read()
json.dump({"property":prop,"case":"whole run","message":"the process died: "+t[:400],"stack":t[:20000]},open(out,'w'),indent=1)
P
  head -c 600 "$tmp/stderr"
  echo
  echo "VIOLATION property=$prop replay=$replay"
  exit 1
fi
head -c 2000 "$tmp/stderr" >&2
exit $rc
