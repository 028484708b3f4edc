#!/bin/bash
# check.sh ID [quick|thorough]: builds the monitors against /repo's current
# working tree and decides the property. Exit 0: held on everything observed;
# 1: violated (see the VIOLATION line); anything else: no answer.
set -u
id=${1:?usage: check.sh ID [tier]}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
cd "$root/harness" || exit 2
go build -o "$work/vmon" ./cmd/vmon >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "INCONCLUSIVE property=$id the harness does not build against /repo"; exit 2; }
"$work/vmon" list >"$work/list" || exit 2
bins=()
for mode in race work; do
	grep -q "^$id .*mode=$mode" "$work/list" || continue
	flags=(-race)
	[ $mode = work ] && flags=(-cover -covermode=atomic -coverpkg=github.com/zyedidia/generic/...,./cmd/vmon)
	go build "${flags[@]}" -o "$work/vmon-$mode" ./cmd/vmon >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "INCONCLUSIVE property=$id the $mode build failed"; exit 2; }
	bins+=("-${mode}bin" "$work/vmon-$mode")
done
TMPDIR=$work "$work/vmon" check -prop "$id" -tier "$tier" -seed "$seed" -root "$root" "${bins[@]}"
