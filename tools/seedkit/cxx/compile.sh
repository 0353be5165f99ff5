#!/bin/bash
# compile.sh DEMO.cpp OUTDIR: links the demo with every source of the repository (cwd), prints nothing
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
demo=$1; out=$2
np=$(/usr/bin/python3 -c 'import numpy;print(numpy.get_include())')
fl="-std=c++11 -w -fpermissive -O1 -include $here/shim.h -I$PWD/src -I$here -isystem $np -I/usr/include/python3.12"
{ echo "$demo"; find "$PWD/src" -name '*.cpp' ! -name '*_test.cpp' ! -path "$PWD/src/main.cpp" ! -path "$PWD/src/test.cpp"; } > "$out/list"
n=0; while read -r f; do n=$((n+1)); printf '%s %s\n' "$f" "$out/$n.o"; done < "$out/list" > "$out/jobs"
xargs -P 8 -L 1 bash -c 'g++ -c "$0" -o "$1" '"$fl" < "$out/jobs" || exit 9
g++ -o "$out/demo" "$out"/*.o -lpython3.12 -lpthread -ldl || exit 9
