#!/bin/bash
# cwd /repo after the build; demo.c is compiled against the current sources
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
SRC=$(grep -v '^#' compile.sh | grep -oE '[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c' | sort -u | grep -v Main/gkc.c)
for f in $SRC; do echo "$f"; done | xargs -P8 -I{} sh -c 'gcc -O1 -g -w -c -o "'"$W"'/$(echo {} | tr / _).o" {}' || exit 3
gcc -O1 -g -w -I. -o "$W/demo" "$D/demo.c" "$W"/*.o -Wl,--defsym,wg_show_database=0 -lm || exit 3
cd "$W" && timeout 120 ./demo
