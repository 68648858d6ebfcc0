#!/bin/bash
# Rebuild /verif/golden from the library as it was at commit 7df606e.
# usage: make_golden.sh [seed]; needs a clone of /repo with its history.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
git -C /repo archive 7df606e dhara | tar -x -C "$w"
mkdir "$w/img"
gcc -std=gnu11 -O1 -g -w -I"$here/harness" -I"$w/dhara" -o "$w/golden" \
	"$here"/harness/{golden,sim,vf}.c "$w"/dhara/*.c
"$w/golden" --profile make --seed "${1:-7}" --from 0 --to 12 --arg "$w/img"
mkdir -p "$here/golden"
for i in "$w"/img/*.img; do
	xz -9e -c "$i" > "$here/golden/$(basename "$i").xz"
done
ls -l "$here/golden"
