#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
export ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1 UBSAN_OPTIONS=halt_on_error=1
I="-I$PWD/include -I$PWD/include/NodesetLoader -I$PWD/src -I$here/include -I$here -I/usr/include/libxml2"
F="-w -g -std=gnu11 -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined"
H="-Dmalloc=dm_malloc -Dcalloc=dm_calloc -Drealloc=dm_realloc -Dfree=dm_free"
i=0
for f in "$PWD"/src/*.c "$PWD"/src/nodes/*.c "$here/ua_model.c"; do
    i=$((i + 1)); gcc $F $I $H -c "$f" -o "$d/o$i.o" || exit 98
done
gcc $F $I "$here/demo.c" "$here/common.c" "$d"/o*.o -lxml2 -o "$d/demo" || exit 98
cd "$d" && timeout -s KILL 100 ./demo "$d"
