#!/bin/bash
# build.sh OUTDIR [REPO]: compiles /repo/src (sanitized) and the harness into OUTDIR/h
set -e
O=$1; R=${2:-/repo}; D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O/obj" "$O/inc"
# configuration header: the build's own if present, else an empty one
if [ -f "$R/_build/m4rie/config.h" ]; then cp "$R/_build/m4rie/config.h" "$O/inc/config.h"; elif [ -f "$R/src/config.h" ]; then cp "$R/src/config.h" "$O/inc/config.h"; else echo > "$O/inc/config.h"; fi
ln -sfn "$R/src" "$O/inc/m4rie"
F="-g1 -O1 -fno-omit-frame-pointer -mmmx -msse -msse2 -w -I$O/inc -I$R/src ${SAN--fsanitize=address -fno-sanitize-recover=all}"
CC=${CC:-clang}
for f in "$R"/src/*.c "$D"/base.c "$D"/props.c; do echo "$f"; done | xargs -P 8 -I{} sh -c '$0 -c "$1" -o "'$O'/obj/$(basename "$1" .c).o" || exit 255' "$CC $F" {}
$CC ${SAN--fsanitize=address} "$O"/obj/*.o -o "$O/h" -lm4ri -lm
