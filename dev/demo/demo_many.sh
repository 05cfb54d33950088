#!/bin/bash
# Compiles and runs prog.cd 60 times with the compiler in the current directory: output and messages are the same each time.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
echo "{\"Replace\":{\"$r/internals/vdemo/main.go\":\"$d/demo_main.go\"}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./internals/vdemo || exit 2
cd "$t" || exit 2
[ -d "$d/files" ] && cp -r "$d/files/." "$t/"
timeout 60 ./demo "$d/prog.cd" > first 2>&1
for i in $(seq 60); do
	timeout 60 ./demo "$d/prog.cd" > got 2>&1
	diff first got || exit 1
done
grep -q -- "$(cat "$d/want")" first
