#!/bin/bash
# compile.sh OUT DEMO.cpp [app]   compiles /repo's library (and, with "app", the application's main as ion_app_main) with a demo
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$1 demo=$2 app=$3
t=$(dirname "$out")
mkdir -p "$t/gen" "$t/o"
sed 's/@[A-Z_]*@/0.0.0/g' lib/version.h.in > "$t/gen/version.h"
flags="-std=gnu++23 -O1 -g -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB $DEMO_FLAGS -I$here/stubs -I$here -Ilib -Iapp -I$t/gen"
cxx=$(command -v clang++-19 || command -v clang++ || command -v g++)
src=$(find lib -name '*.cpp')
[ -n "$app" ] && src="$src $(ls app/*.cpp | grep -v telemetry.cpp)" && cp "$here/telemetry_stub.cpp" "$t/gen/" && src="$src $t/gen/telemetry_stub.cpp"
printf '%s\n' $src "$demo" | xargs -P 8 -I{} sh -c '
 o='"$t"'/o/$(echo "$1" | tr "/." "__").o; m=; case "$1" in app/main.cpp) m=-Dmain=ion_app_main;; esac
 '"$cxx $flags"' $m -c "$1" -o "$o"' _ {}
$cxx $DEMO_FLAGS -o "$out" "$t"/o/*.o -lspdlog -lfmt -lssl -lcrypto -lpthread
