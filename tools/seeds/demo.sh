#!/bin/bash
# Fails (non-zero) when the change is present. Run with the repository as cwd.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_demo_lib_test.go":"%s/lib_test.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/overlay.json"
timeout 280 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestSeededDemo$' . > "$t/out" 2>&1
rc=$?
grep -v '^2[0-9]*/' "$t/out" | cut -c1-300 | tail -15
exit $rc
