#!/bin/bash
# exit 0: the property held; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'find "$T" -type f -delete; rmdir "$T"' EXIT
{
	printf '{"Replace": {"%s": "%s"' "$R/PKG/zz_h_verif_test.go" "$D/h_test.go"
	printf ', "%s": "%s"}}' "$R/PKG/zz_demo_verif_test.go" "$D/demo_test.go"
} > "$T/ov.json"
go test -vet=off -overlay "$T/ov.json" -count=1 -timeout 200s -run '^TestZZDemo' ./PKG
