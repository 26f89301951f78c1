#!/bin/bash
# every check builds what it needs from /repo; here only: does it build at all?
set -e
T=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/pbt-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
bash "$T/build_pbt.sh" "$d"
"$d/pbt" run C01 1 100 "$d/out"
tail -1 "$d/out"
