#!/bin/sh
# builds demo.cpp (beside this file) with the sources of the current directory and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
F="-w -g -O1 -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=undefined"
for f in voucher/array voucher/keyvalue voucher/serialize voucher/voucher voucher/request voucher/crypto_ossl utils/os utils/log brski/config brski/pledge/pledge_utils; do
  gcc $F -ffunction-sections -Isrc -c src/$f.c -o "$T/$(basename $f).o" || exit 2
done
g++ -std=c++17 $F -ffunction-sections -Isrc -I"$D" "$D/demo.cpp" src/brski/masa/masa_api.cpp src/brski/registrar/registrar_api.cpp src/brski/pledge/pledge_request.cpp \
  "$T"/*.o -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all -lcrypto -lm -lpthread -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
