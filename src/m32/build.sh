# Sourced for checks that run as 32-bit programs: the C library's i386 development files are not installed, but its shared objects,
# the compiler's i386 runtime and the (architecture-independent) headers are.
RT32="$(ls -d /usr/lib/llvm-18/lib/clang/18/lib/linux 2>/dev/null || dirname "$(clang --print-file-name=libclang_rt.asan-x86_64.a)")"
MF="-m32 -fno-pic -isystem $HERE/src/m32/include -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu"
# link32 OUT OBJECTS...
link32() {
    local out="$1" l=/usr/lib32; shift
    clang $MF -w -c "$HERE/src/m32/start.c" -o start32.o || return 1
    clang++ -m32 -no-pie -nostdlib -nostartfiles start32.o "$RT32/clang_rt.crtbegin-i386.o" "$@" \
        -Wl,--whole-archive "$RT32/libclang_rt.asan-i386.a" "$RT32/libclang_rt.asan_cxx-i386.a" -Wl,--no-whole-archive -Wl,--export-dynamic \
        $l/libstdc++.so.6 $l/libm.so.6 $l/libgcc_s.so.1 $l/libc.so.6 $l/ld-linux.so.2 "$RT32/libclang_rt.builtins-i386.a" "$RT32/clang_rt.crtend-i386.o" \
        -Wl,-dynamic-linker,/lib/ld-linux.so.2 -o "$out"
}
