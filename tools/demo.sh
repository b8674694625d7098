#!/bin/sh
# builds demo.c (beside this file) with the library sources of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -D_GNU_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=undefined -Isrc -I"$D" "$D/demo.c" \
  src/voucher/array.c src/voucher/keyvalue.c src/voucher/serialize.c src/voucher/voucher.c src/voucher/request.c \
  src/voucher/crypto_ossl.c src/utils/os.c src/utils/log.c EXTRA -lcrypto -lm -lpthread -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=LEAKS timeout 120 ./demo
