#!/bin/bash
# build.sh OUTDIR : builds potion from /repo's current working tree (tracked and new, not
# ignored files) into OUTDIR, with the project's own Makefile rules, objects in parallel.
# Never writes into /repo.
set -e
OUT=${1:?}
REPO=${REPO:-/repo}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C GIT_CEILING_DIRECTORIES=$(dirname "$OUT")
unset CFLAGS LDFLAGS MAKEFLAGS DEBUG MAKELEVEL
mkdir -p "$OUT"
git -c safe.directory='*' -C "$REPO" ls-files -z -c -o --exclude-standard \
  | (cd "$REPO" && while IFS= read -r -d '' f; do [ -f "$f" ] && printf '%s\0' "$f"; done) \
  | tar -C "$REPO" --null -T - -cf - | tar -C "$OUT" -xf -
cd "$OUT"
mk() { make -s CC=clang AR=ar ${VP_G:+"DEBUGFLAGS=-O3 -DNDEBUG -finline -fno-stack-protector -g"} "$@"; }
rm -rf bin && mkdir bin
mk -f config.mak config
touch tools/greg.c
mk bin/greg
touch -d '-1 hour' tools/greg.c
mk tools/greg.c
mk core/syntax.c
OBJS=$(mk --eval='vp-print-obj: ; @echo $(OBJ) core/potion.o $(PLIBS_OBJS)' vp-print-obj)
OBJS=${OBJS//lib\/readline\/linenoise.o/}
printf '%s\n' $OBJS | grep -v readline/ | xargs -P 8 -n 1 make -s CC=clang AR=ar ${VP_G:+"DEBUGFLAGS=-O3 -DNDEBUG -finline -fno-stack-protector -g"}
mk static
