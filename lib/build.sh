#!/bin/bash
# build.sh OUTDIR: builds the conformance driver from /repo's working tree and the TLC numeric override.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; OUT="$1"; R="${COLORMAGIC_REPO:-/repo}"
mkdir -p "$OUT/obj" "$OUT/cls"
CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
FL="-std=c++14 -O1 -w -fsanitize=address -fms-extensions -Wno-nonportable-include-path -D_GLIBCXX_ASSERTIONS -isystem $V/shim -include $V/shim/msvc_compat.h -I$R/ColorMagic"
srcs=$(find "$R/ColorMagic" -name '*.cpp')
{ for f in $srcs "$V/driver/driver.cpp"; do echo "$f"; done; } | xargs -P 8 -I{} sh -c 'o="'"$OUT"'/obj/$(echo "{}" | tr "/" "_").o"; '"$CXX $FL"' -c "{}" -o "$o" || { echo "compile error {}" >&2; exit 255; }'
$CXX -fsanitize=address "$OUT"/obj/*.o -o "$OUT/driver"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$OUT/cls" "$V"/java/*.java
