#!/bin/bash
# exit 0: the property's behaviour is as it should be; nonzero: it is not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/ion-demo-XXXXXX)
trap 'rm -rf "$t"' EXIT
. "$here/options" 2>/dev/null
bash "$here/compile.sh" "$t/demo" "$here/demo.cpp" $APP > "$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
cd "$t" || exit 3
OTEL_SDK_DISABLED=true timeout 120 "$t/demo"
