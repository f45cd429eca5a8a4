#!/bin/bash
# Nothing is kept between runs: every check compiles the product and the harness itself.
# This verifies that both compile in this sandbox.
set -eu
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${FP_REPO:-/repo}
WORK=$(mktemp -d /tmp/fpmc.XXXXXXXX)
trap 'case "$WORK" in /tmp/fpmc.????????) rm -rf "$WORK" ;; esac' EXIT
JH=/usr/lib/jvm/java-17-openjdk-amd64
if [ -x "$JH/bin/javac" ]; then export JAVA_HOME=$JH PATH="$JH/bin:$PATH"; fi
mkdir -p "$WORK/p" "$WORK/h"
find "$REPO/src/main/java" -name '*.java' > "$WORK/p.txt"
find "$HERE/src" -name '*.java' > "$WORK/h.txt"
javac -encoding UTF-8 -nowarn -Xlint:none --release 8 -d "$WORK/p" @"$WORK/p.txt"
javac -encoding UTF-8 -nowarn -Xlint:none --release 8 -cp "$WORK/p:$HERE/lib/asm-9.7.1.jar" -d "$WORK/h" @"$WORK/h.txt"
echo "setup ok"
