#!/bin/bash
# usage: build.sh OUTDIR VARIANT...   (compiles the real sources of $VP_REPO, default /repo, with sanitizers)
set -e
R=${VP_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1; shift
mkdir -p "$O"
for v in "$@"; do
  F="-std=gnu++17 -g1 -w -I$R/include -I$R/src -I$H"; C="clang++"
  case $v in *ext*) F="$F -DMSHIO_EXT_NANOSPLINE";; esac
  case $v in *san*) F="$F -O1 -fsanitize=address,undefined -fno-sanitize=vptr,float-divide-by-zero -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -DNDEBUG";;
             *pat*) F="$F -O0 -DNDEBUG -ftrivial-auto-var-init=pattern";;
             *zero*) F="$F -O0 -DNDEBUG -ftrivial-auto-var-init=zero";; esac
  mkdir -p "$O/$v"
  for s in $R/src/*.cpp "$H/harness.cpp"; do echo "$C $F -c $s -o $O/$v/$(basename $s .cpp).o"; done
  echo "$C $F $O/$v/*.o -o $O/harness-$v" > "$O/$v/link"
done | xargs -P 8 -I{} sh -c '{}' || exit 1
for v in "$@"; do sh "$O/$v/link" & done; wait
