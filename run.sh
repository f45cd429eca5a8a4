#!/bin/bash
# Builds the product from the current working tree and runs one check.
# usage: run.sh ID [quick|thorough]      run.sh ID replay FILE
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${FP_REPO:-/repo}
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
WORK=$(mktemp -d /tmp/fpmc.XXXXXXXX) || exit 2
cleanup() {
  case "$WORK" in
    /tmp/fpmc.????????) rm -rf "$WORK" ;;
  esac
}
trap cleanup EXIT
JH=/usr/lib/jvm/java-21-openjdk-amd64
if [ -x "$JH/bin/javac" ]; then export JAVA_HOME=$JH PATH="$JH/bin:$PATH"; fi
mkdir -p "$WORK/product" "$WORK/harness" || exit 2
find "$REPO/src/main/java" -name '*.java' > "$WORK/product.txt"
# the check itself and what it refers to; the other checks are left out
find "$HERE/src" -name '*.java' ! -name 'C[0-9][0-9].java' > "$WORK/harness.txt"
echo "$HERE/src/mc/$ID.java" >> "$WORK/harness.txt"
javac -encoding UTF-8 -nowarn -Xlint:none --release 8 -d "$WORK/product" @"$WORK/product.txt" > "$WORK/javac.log" 2>&1 \
  || { cat "$WORK/javac.log"; echo "ERROR: the product does not compile"; exit 2; }
javac -encoding UTF-8 -nowarn -Xlint:none --release 8 -sourcepath "$HERE/src" -cp "$WORK/product:$HERE/lib/asm-9.7.1.jar" -d "$WORK/harness" @"$WORK/harness.txt" > "$WORK/javac.log" 2>&1 \
  || { cat "$WORK/javac.log"; echo "ERROR: the harness does not compile against the product"; exit 2; }
export FP_WORK=$WORK FP_HERE=$HERE
java ${FP_JAVA:-} --add-opens java.base/java.lang=ALL-UNNAMED --add-opens java.base/java.util=ALL-UNNAMED -XX:SoftRefLRUPolicyMSPerMB=0 -Xmx${FP_HEAP:-8g} -Xss1m -XX:+UseParallelGC -cp "$WORK/product:$WORK/harness:$HERE/lib/asm-9.7.1.jar" \
  -Dmc.product="$WORK/product" -Dmc.harness="$WORK/harness" -Dmc.work="$WORK" -Dmc.here="$HERE" \
  mc.Main "$ID" "$TIER" "${3:-$HERE/evidence}" &
PID=$!
trap 'kill -9 $PID 2>/dev/null; cleanup; exit 2' INT TERM
wait $PID
exit $?
