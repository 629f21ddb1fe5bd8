#!/bin/sh
# Build the simulated operating system (needs only gcc). Checks build it themselves when it is missing or old.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -f build/libdst.so ] || [ shim/shim.c -nt build/libdst.so ]; then
    t=$(mktemp build/libdst.XXXXXX)
    gcc -O2 -fPIC -shared -fvisibility=hidden -w -o "$t" shim/shim.c -ldl
    chmod 755 "$t"
    mv -f "$t" build/libdst.so
fi
# Locales with another encoding and a decimal comma, for C08 (left out where localedef or its sources are missing).
if [ ! -f build/loc/done ]; then
    mkdir -p build/loc
    for l in de_DE.ISO-8859-1:de_DE:ISO-8859-1 de_DE.UTF-8:de_DE:UTF-8 tr_TR.ISO-8859-9:tr_TR:ISO-8859-9; do
        n=${l%%:*}; r=${l#*:}
        t=$(mktemp -d build/loc/tmp.XXXXXX)
        if localedef -c -i "${r%%:*}" -f "${r#*:}" "$t/l" >/dev/null 2>&1 && [ -d "$t/l" ]; then
            rm -rf "build/loc/$n" && mv "$t/l" "build/loc/$n" || true
        fi
        rm -rf "$t"
    done
    touch build/loc/done
fi
