#!/bin/bash
# check.sh PROPERTY: decides one property from the current sources of /repo.
base="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"
out=$(bash "$base/tools/setup.sh" 2>&1) || {
  echo "$out"
  echo "the checker could not be built"
  exit 2
}
. "$base/checker/env.sh"
exec "$base/bin/secscheck" -property "$prop" -repo "${REPO:-/repo}" -base "$base"
