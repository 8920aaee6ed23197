#!/bin/bash
# compiles the library of the current directory and the demonstration beside this file, and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here"/*.rs "$t"/
cfg=()
[ -f "$here/cfg" ] && cfg=(--cfg "$(cat "$here/cfg")")
rustc --edition 2021 --crate-name lunify --crate-type rlib -A warnings -C debug-assertions=on "${cfg[@]}" -o "$t/liblunify.rlib" src/lib.rs
rustc --edition 2021 -A warnings --extern lunify="$t/liblunify.rlib" -o "$t/demo" "$t/main.rs"
"$t/demo"
