#!/bin/bash
# usage: tools/seed.sh <id> [--notest]   verify the planted bug in /verif/seeded/<id> in a scratch copy, then run the check against /repo
set -u
id=$1; D=/verif/seeded/$id; S=/tmp/seedcopy.$id
rm -rf "$S"; cp -a /repo "$S"
cd "$S"
bash "$D/demo.sh" >/tmp/seed.$id.log 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$S"; exit 1; }
if grep -q '\.c$' <(git diff --name-only); then C=1; else C=0; fi
b=x
if [ $C = 0 ]; then bash "$D/demo.sh" >>/tmp/seed.$id.log 2>&1; b=$?; fi
rm -rf "$S"
echo "$id: demo clean=$a patched=$b c=$C"
