#!/bin/bash
# builds demo.cc beside this file against /repo's build and runs it in a scratch directory
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo_XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
I="-I/repo/src/chunked_data_view/include -I/repo/src -I/repo/_build/src"
for m in metkitlib/include metkitlib/include/metkit eckitlib/include eckitlib/include/eckit eckitlib/include/eckit/option eccodeslib/include; do I="$I -isystem $SITE/$m"; done
L=""; R=$B/lib
for d in $(echo $WHEEL_LIBS | tr : ' '); do L="$L -L$d -Wl,-rpath-link,$d"; R=$R:$d; done
g++ -std=gnu++17 -O0 -DNDEBUG -fno-access-control -w $I "$D/demo.cc" -o "$T/demo" -L$B/lib $B/lib/libchunked_data_view.a -lfdb5 $L -lmetkit -leckit -leckit_option -leccodes -lpthread > "$T/log" 2>&1 || { tail -20 "$T/log"; echo "demo does not compile"; exit 3; }
cp "$D"/*.schema "$T" 2>/dev/null
cd "$T" && mkdir home root && FDB_HOME=$T/home HOME=$T/home LD_LIBRARY_PATH=$R timeout 200 ./demo "$T"
