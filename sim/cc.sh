#!/bin/bash
# Compiler used for the library under test: clang with AddressSanitizer and the simulator's hooks.
# The repository's own CMake files decide everything else.
cov=""
for a in "$@"; do
    case "$a" in
    */checks/*.c|*CMakeFiles/CMakeScratch/*) cov="none" ;;
    /repo/*.c|*/engine/*.c|*/keylib/*.c|*/dstulib/*.c) cov="-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores" ;;
    esac
done
ld=""
for a in "$@"; do [ "$a" = -shared ] && ld="-Wl,--wrap=__asan_memcpy,--wrap=__asan_memmove,--wrap=__asan_memset"; done
[ "$cov" = none ] && cov=""
exec /usr/bin/clang "$@" -fsanitize=address -g -fno-omit-frame-pointer -fno-common -ftrivial-auto-var-init=pattern $cov $ld
