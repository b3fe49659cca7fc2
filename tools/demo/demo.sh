#!/bin/bash
# compiles demo.c together with the sources in the current directory (the repository) and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I$R/source -I$R/source/graphics/pc -I$R/source/graphics -I$R/source/interpreter -I$R/source/subsystem -I$R/source/extension"
gcc -std=gnu11 -O1 -g -w -DPC $I $(find "$R/source" -name '*.c' ! -name main.c ! -path '*/nds/*' | sort) "$D/demo.c" -o "$T/demo" -lcsfml-audio -lcsfml-graphics -lcsfml-window -lcsfml-system -lm -lpthread 2>"$T/log" || { cat "$T/log"; exit 3; }
mkdir "$T/w" && cd "$T/w" && cp -r "$R/resources" . && mkdir programs || exit 3
timeout 120 ../demo > ../out 2> ../err; r=$?
cat ../err | tail -5; exit $r
