#!/bin/bash
# Builds demo.cpp beside this file against the library in ./_build and runs it. LDX: extra link flags.
D=$(cd "$(dirname "$0")" && pwd)
S=$PWD/reference/src
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
LDX=""; SAN=""
[ -f "$D/flags" ] && . "$D/flags"
g++ -std=c++17 -g -w $SAN -I"$D" -I$S/client/include -I$S/clientimpl/include -I$S/taimpl/include -I$S/taimpl/include/internal -I$S/taimpl/include/porting \
    -I$S/util/include "$D/demo.cpp" -o "$W/demo" $LDX -Wl,--start-group _build/src/clientimpl/libsaclientimpl.a \
    _build/src/taimpl/libtaimpl.a _build/src/util/libutil.a -Wl,--end-group -lcrypto -lyajl -lpthread -lm || exit 3
export ROOT_KEYSTORE=$PWD/reference/test/root_keystore.p12
cd "$W" && timeout 120 ./demo
