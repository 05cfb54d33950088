#!/bin/bash
# Compiles prog.cd with the compiler in the current directory, runs it and compares the output with want.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo "{\"Replace\":{\"$r/internals/vdemo/main.go\":\"$d/demo_main.go\"}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./internals/vdemo || exit 2
cd "$t" || exit 2
[ -d "$d/files" ] && cp -r "$d/files/." "$t/"
timeout 60 ./demo "$d/prog.cd" > got 2> err
cat err >&2
diff got "$d/want"
