#!/bin/bash
# exit 0: the property holds, 1: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
bash "$here/compile.sh" "$here/demo.cpp" "$tmp" || exit 9
/usr/bin/python3 "$here/py2.py" "$tmp/tree" "$PWD" || exit 9
cd "$tmp" && PYTHONPATH="$tmp/tree" timeout 200 ./demo > out.txt 2> err.txt
rc=$?
tail -n 2 err.txt
exit $rc
