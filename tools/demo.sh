#!/bin/bash
# Builds demo.rs against the libraries that build.sh has just built, and runs it.
H=$(cd "$(dirname "$0")" && pwd)
D=/repo/target/debug/deps
export RUSTUP_TOOLCHAIN=1.70.0 HOME=/root PATH=/root/.cargo/bin:$PATH
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -f "$T/demo" "$T/log"; rmdir "$T"' EXIT
ext=()
for c in arena better_borrow cs_codegen tp_contract_example unity_states circle_game eyre safer_ffi rsharp; do
    grep -q "$c" "$H/demo.rs" || continue
    f=$(ls -t $D/lib$c-*.rlib 2>/dev/null | head -1)
    [ -n "$f" ] && ext+=(--extern $c=$f)
done
for r in $(ls -t $D/libtp_client-*.rlib); do
    if rustc --edition 2021 -A warnings -C debug-assertions=on "$H/demo.rs" -o "$T/demo" -L dependency=$D --extern tp_client=$r "${ext[@]}" 2> "$T/log"; then
        timeout 120 "$T/demo"; exit $?
    fi
done
tail -30 "$T/log"; exit 8
