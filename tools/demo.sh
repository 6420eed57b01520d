#!/bin/bash
# runs demo.txt (a Go test) inside the module in the current directory
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
. /opt/vp/env.sh
P=$(head -1 "$D/demo.txt" | sed -n 's,^// in ,,p'); P=${P:-internal/zzdemo}
T=$(mktemp -d)
printf '{"Replace":{"%s":"%s"}}' "$R/$P/zz_demo_test.go" "$D/demo.txt" > "$T/overlay.json"
timeout 200 go test -vet=off -c -o "$T/demo" -overlay "$T/overlay.json" "./$P" && (cd "$T" && timeout 200 ./demo -test.run TestDemo)
rc=$?
rm -f "$T/overlay.json" "$T/demo"; rmdir "$T"
exit $rc
