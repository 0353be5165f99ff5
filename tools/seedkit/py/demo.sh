#!/bin/bash
# exit 0: the property holds, 1: broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
/usr/bin/python3 "$here/py2.py" "$tmp/tree" "$PWD" || exit 9
cd "$tmp" && PYTHONPATH="$tmp/tree:$tmp/tree/dyson" timeout 200 /usr/bin/python3 "$here/demo.py" > out.txt 2> err.txt
rc=$?
grep -a '^DEMO' out.txt; tail -n 2 err.txt
exit $rc
