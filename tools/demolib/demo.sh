#!/bin/bash
# Run with cwd = the repository. Exit 0: behaviour as promised; nonzero: broken.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s","%s/zz_demolib_test.go":"%s"}}' "$PWD" "$d/demo.txt" "$PWD" "$d/lib.txt" >"$t/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo$' .
