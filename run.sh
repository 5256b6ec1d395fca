#!/bin/bash
# usage: bash run.sh PROPERTY [--replay FILE]
# Compiles /repo's working tree and the harness into a private directory and runs one check.
# VERIF_SEED (default 1), VERIF_TIER (quick or thorough), VERIF_REPO (default /repo).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
repo=${VERIF_REPO:-/repo}
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
jh=/usr/lib/jvm/java-21-openjdk-amd64
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-$id-XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/lib" "$work/harness"

find "$repo/src/main/java" -name '*.java' > "$work/lib.txt"
"$jh/bin/javac" --release 8 -Xlint:none -nowarn -proc:none -encoding UTF-8 -d "$work/lib" "@$work/lib.txt" \
  > "$work/lib.log" 2>&1 || { echo "cannot compile $repo"; cat "$work/lib.log"; exit 2; }
"$jh/bin/javac" --release 8 -Xlint:none -nowarn -proc:none -encoding UTF-8 -cp "$work/lib" -d "$work/harness" \
  "$here"/harness/src/pbt/*.java \
  > "$work/harness.log" 2>&1 || { echo "cannot compile the harness"; cat "$work/harness.log"; exit 2; }

mkdir -p "$here/evidence/replays"
export TZ=UTC LC_ALL=C.UTF-8
"$jh/bin/java" -Xmx6g -Xss1m -XX:+UseParallelGC -XX:-UsePerfData \
  -Duser.timezone=America/St_Johns -Duser.language=en -Duser.country=US \
  -Dvp.classes="$work/lib" -Dvp.base="$here/harness/base-constants.txt" ${VERIF_DUMP:+-Dvp.dump="$VERIF_DUMP"} \
  -Dvp.harness="$work/harness" -Dvp.work="$work" \
  -cp "$work/lib:$work/harness" pbt.Main "$id" "$tier" "$seed" \
  "$here/evidence/$id.json" "$here/evidence/replays/$id.replay" "$@"
