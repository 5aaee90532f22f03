#!/bin/bash
# author tool: build the whole engine (with the shims) and run every check_*
# program of the repository's test suite in a scratch copy of tests/
set -e
R=${VERIF_REPO:-/repo}; V=$(dirname "$(dirname "$(readlink -f "$0")")")
W=$(mktemp -d /tmp/rt_XXXXXX); cd $W; mkdir o
INC="-I$V/shim -I$R/lib/include -I$R/lib -I$R -I$R/util"
(for s in $R/lib/antlr/gen/*.cpp $R/lib/antlr/*.cpp; do echo "g++ -std=c++17 -O0 -w -include $V/shim/antlr_once.h -I/usr/include/antlr4-runtime $INC -I$R/lib/antlr -c $s -o o/$(basename $s).o"; done
 for s in $R/util/*.c $R/lib/*.c $V/shim/csv.c; do echo "gcc -g -O1 -w -std=gnu11 -D_GNU_SOURCE $INC '-DSCHEMA_DATADIR=\"$R/lib/schema/\"' -c $s -o o/$(basename $s).o"; done) | xargs -P8 -I{} sh -c "{}"
cp -r $R/tests tests; cd tests
for f in check_*.c; do n=${f%.c}; [ $n = check_common ] && continue
 x="check_common.c"; grep -q '"output.h"' $f && x="$x output.c"
 [ $n = check_hashmap ] && x=""
 gcc -w -g $INC -I. $f $x -c 2>$n.err && g++ -rdynamic -o $n $n.o $(for y in $x; do echo ${y%.c}.o; done) ../o/*.o -lcheck -lsubunit -lpcre2-8 -lantlr4-runtime -lreadline -pthread -lm -lrt 2>>$n.err || { gcc -w -g $INC -I. -c $f $x && g++ -rdynamic -o $n $n.o $(for y in $x; do echo ${y%.c}.o; done) ../o/*.o -lcheck -lpcre2-8 -lantlr4-runtime -lreadline -pthread -lm -lrt; }
 (timeout 60 ./$n > $n.out 2>$n.err2; echo "$n rc=$? $(grep -a '^[0-9]*%' $n.out | tail -1)"; grep -a ':[FE]:' $n.out | head -5) || true
done
cd /; rm -rf "$W"
