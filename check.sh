#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 2
ROOT="$(cd .. && pwd)"
BIN="$(mktemp -d)"
trap 'rm -rf "$BIN"' EXIT
if ! OUT="$(go build -o "$BIN/verif" ./cmd/verif 2>&1)"; then
  echo "$OUT"
  mkdir -p "$ROOT/work/replay" "$ROOT/evidence"
  echo "$OUT" > "$ROOT/work/replay/$1.txt"
  echo "VIOLATION property=$1 replay=$ROOT/work/replay/$1.txt"
  exit 1
fi
"$BIN/verif" -p "$1" -root "$ROOT" -repo /repo
