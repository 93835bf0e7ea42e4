#!/bin/bash
# Nothing is installed: this only checks that the tools are there and that every
# specification parses.  The checks build the code under test themselves.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/out" 2>&1 || { cat "$tmp/out"; exit 1; }
  if grep -q -e '\*\*\* Errors' -e 'Fatal errors' -e 'Could not parse' "$tmp/out"; then cat "$tmp/out"; exit 1; fi
done
echo setup ok
