#!/bin/bash
# Compiles the TLC operator override and runs its self-test.
set -e
cd "$(dirname "$0")"
mkdir -p build/classes evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/Dec.java
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
java -XX:+UseParallelGC -cp build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -workers 4 -metadir "$work/states" -noGenerateSpecTE -config spec/MCDec.cfg spec/MCDec.tla > "$work/out" 2>&1 \
  || { tail -30 "$work/out"; exit 1; }
grep -q "No error has been found" "$work/out"
echo "setup ok"
