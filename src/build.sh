# Sourced by run_check.sh; the current directory is the build directory.
# Everything is compiled from $REPO's working tree; nothing is written there.
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,function,nonnull-attribute,pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
INC="-I$REPO/include -DZYCORE_STATIC_BUILD"
CCW="-w"

# compile_lib DIR COMPILER FLAGS... : all library sources to DIR/*.o (in parallel, call `join` afterwards)
JOBS=()
bg() { if [ "${EXTRA:-}" ]; then variant "$@" & else "$@" & fi; JOBS+=($!); }
# A further configuration of the library in which /repo's code does not compile is a finding, which the check reports in every case.
variant() {
    local e="err.$BASHPID"
    "$@" 2>"$e" && { rm -f "$e"; return 0; }
    sleep 1; "$@" 2>"$e" && { rm -f "$e"; return 0; }
    cat "$e"; { echo "$*"; grep -m1 'error: ' "$e" || head -n1 "$e"; } | tr '\n"' ' .' > "unbuildable.$BASHPID"; rm -f "$e"
}
join() { local r=0 p; for p in "${JOBS[@]}"; do wait "$p" || r=1; done; JOBS=(); return $r; }
lib_sources() { find "$REPO/src" -name '*.c' | LC_ALL=C sort; }
compile_lib() {
    local d="$1"; shift
    mkdir -p "$d"
    local f o
    while read -r f; do
        o="$d/$(echo "${f#"$REPO"/src/}" | tr / _).o"
        bg "$@" $INC $CCW -c "$f" -o "$o"
    done < <(lib_sources)
}
# rename_lib DIR PREFIX : prefix every symbol the objects in DIR define
rename_lib() {
    local d="$1" p="$2"
    nm --defined-only -g "$d"/*.o | awk 'NF==3 && $3 !~ /^win_/{print $3}' | LC_ALL=C sort -u | awk -v p="$p" '{print $1" "p$1}' > "$d/map"
    local o; for o in "$d"/*.o; do objcopy --redefine-syms="$d/map" "$o" || return 1; done
}
# Flags that make clang compile the branches for Windows and Microsoft's compiler, for this machine's ABI (stand-in headers in src/win).
sim_windows() {
    local a="-D_WIN64 -D_M_AMD64"; [ "${ARCH32:-}" ] && a="-D_M_IX86"
    echo "-U__clang__ -U__GNUC__ -U__GNUG__ -U__linux -U__linux__ -Ulinux -U__unix -U__unix__ -Uunix -D_WIN32 -D_MSC_VER=1930 -DSIM_WINDOWS $a -fms-extensions -fms-compatibility -isystem $HERE/src/win/include"
}
# Are the stand-ins enough to compile FILES...? Not if they use something of the real headers that is not of the library.
standins_suffice() {
    local f; for f in "$@"; do
        clang ${MF:-} $(sim_windows) $INC -w -fsyntax-only "$f" 2>standin.err || ! grep -m1 'error: ' standin.err | grep -E "undeclared|unknown type name|file not found|no member named" | grep -qviE "'zya|'zyc" || { cat standin.err; echo "the stand-in headers do not suffice for $f"; return 1; }
    done
}
# The Windows branches of src/API under the prefix win_, to be linked with the fake system of src/win/win32.hpp. WIN: compiler flags.
win_api() {
    local f; mkdir -p win_
    if ! standins_suffice "$REPO"/src/API/*.c "$HERE/src/win/consts.c"; then XFLAGS="$XFLAGS -DNO_WIN"; REDO_PROP=1; return; fi
    WIN=1
    for f in "$REPO"/src/API/*.c "$HERE/src/win/consts.c"; do bg clang $MF -g -O1 $SAN -mllvm -asan-globals=0 $(sim_windows) $INC $CCW -c "$f" -o "win_/$(basename "$f").o"; done
}
win_link() { [ "${WIN:-}" ] || return 0; rename_lib win_ win_ || return 1; EXTRA_OBJS+=(win_/*.o); }
# Two locales with other letters and another decimal point (src/locales.hpp does without if they cannot be made).
make_locales() { mkdir -p locales; localedef -i tr_TR -f ISO-8859-9 locales/tr9 >/dev/null 2>&1 & JOBS2+=($!); localedef -i de_DE -f ISO-8859-1 locales/de1 >/dev/null 2>&1 & JOBS2+=($!); }
JOBS2=()
CXX="clang++ -std=c++17 -g -O1 $SAN $INC -I$HERE/src -Wno-unused"
LDL="-lpthread"

# Checks that also run as 32-bit programs, where those can run.
ALSO32=" C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C30 C31 C34 "
can_run_32() { [[ "$ALSO32" == *" $1 "* ]] || return 1; (mkdir -p probe32 && cd probe32 && . "$HERE/src/m32/build.sh" && clang++ $SAN $MF -c "$HERE/src/m32/probe.cpp" -o probe.o && link32 probe probe.o && ./probe); }

build_check() {
    [ "${ARCH32:-}" ] || (can_run_32 "$1" && mkdir b32 && cd b32 && ARCH32=1 && EVERYTHING_IS_VARIANT=1 && build_arch "$@") >build32.log 2>&1 &
    local p32=$!
    build_arch "$@" || return 1
    [ "${ARCH32:-}" ] || wait "$p32"
    return 0
}
build_arch() {
    local id="$1" tier="$2"
    local src; src="$(ls "$HERE"/src/"$id"_*.cpp)"
    WORKERS=""; EXTRA_OBJS=(); FUZZABLE=1; XFLAGS=""; REDO_PROP=""; WIN=""
    MF=""
    [ -f "$HERE/src/$id.build" ] && . "$HERE/src/$id.build"
    [ "${ARCH32:-}" ] && { . "$HERE/src/m32/build.sh"; CXX="$CXX $MF"; }
    grep -q 'locales.hpp' "$src" && make_locales
    EXTRA="${LIB_IS_VARIANT:-}"; compile_lib lib clang -g -O1 $SAN $MF ${LIBFLAGS:-}
    EXTRA="${EVERYTHING_IS_VARIANT:-}"; bg $CXX -c "$HERE/src/engine.cpp" -o engine.o
    bg $CXX $XFLAGS -c "$src" -o prop.o; EXTRA=
    if declare -F build_extra >/dev/null; then EXTRA=1; build_extra || return 1; EXTRA=; fi
    join || return 1
    if [ "$REDO_PROP" ]; then $CXX $XFLAGS -c "$src" -o prop.o || return 1; fi
    if ls unbuildable.* >/dev/null 2>&1; then
        [ "${ARCH32:-}" ] && return 0
        clang++ $SAN prop.o engine.o lib/*.o -o check $LDL -no-pie -Wl,--unresolved-symbols=ignore-all
        return
    fi
    local j; for j in ${JOBS2[@]+"${JOBS2[@]}"}; do wait "$j" || true; done; JOBS2=()
    if declare -F post_extra >/dev/null; then post_extra || return 1; fi
    if [ "${ARCH32:-}" ]; then link32 check prop.o engine.o ${EXTRA_OBJS[@]+"${EXTRA_OBJS[@]}"} lib/*.o; return; fi
    clang++ $SAN prop.o engine.o ${EXTRA_OBJS[@]+"${EXTRA_OBJS[@]}"} lib/*.o -o check $LDL || return 1
    if [ "$tier" = thorough ] && [ "$FUZZABLE" = 1 ]; then
        compile_lib flib clang -g -O1 $SAN -fsanitize=fuzzer-no-link ${LIBFLAGS:-}
        bg $CXX -fsanitize=fuzzer-no-link -DENGINE_FUZZ -c "$HERE/src/engine.cpp" -o fengine.o
        bg $CXX -fsanitize=fuzzer-no-link -DENGINE_FUZZ $XFLAGS -c "$src" -o fprop.o
        join || return 1
        clang++ $SAN -fsanitize=fuzzer fprop.o fengine.o ${EXTRA_OBJS[@]+"${EXTRA_OBJS[@]}"} flib/*.o -o fuzz $LDL || return 1
    fi
    return 0
}

# Coverage-guided campaign: one libFuzzer process per core, fixed number of executions each.
run_fuzz() {
    local id="$1" n k pids=() execs=0
    n="$(nproc)"
    for k in $(seq 1 "$n"); do
        mkdir -p "fz$k/corpus" "fz$k/art"
        ./fuzz -seed=$(( (${VERIF_SEED:-1} * 1000 + k) % 2147483647 )) -runs="${FUZZ_RUNS:-300000}" -max_len=4096 -len_control=20 \
            -max_total_time="${FUZZ_TIME:-600}" -timeout=60 -rss_limit_mb=3000 -artifact_prefix="fz$k/art/" -print_final_stats=1 "fz$k/corpus" >"fz$k/log" 2>&1 &
        pids+=($!)
    done
    wait "${pids[@]}"
    for k in $(seq 1 "$n"); do
        execs=$((execs + $(sed -n 's/^stat::number_of_executed_units: *//p' "fz$k/log" | head -n1 | grep . || echo 0)))
        local a; for a in "fz$k"/art/*; do [ -f "$a" ] && FUZZ+=(--input "$B/$a"); done
    done
    FUZZ+=(--fuzz-execs "$execs")
}
