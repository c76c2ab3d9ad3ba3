#!/bin/bash
# Warms the Go build cache; the checks build everything they need themselves.
set -e
cd "$(dirname "$0")/.."
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -r harness "$d/h"
(cd "$d/h" && GOWORK=off GOFLAGS=-mod=mod go build -o "$d/conf" .)
java -version 2>&1 | head -1
for f in spec/*.tla; do test -s "$f"; done
echo setup done
