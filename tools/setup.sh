#!/bin/bash
# Builds the checker (offline) from the committed sources into /verif/bin.
set -e
base="$(cd "$(dirname "$0")/.." && pwd)"
. "$base/checker/env.sh"
mkdir -p "$base/bin" "$base/evidence" "$base/replay"
cd "$base/checker"
go build -o "$base/bin/secscheck" .
