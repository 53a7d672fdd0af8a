# sourced by demo.sh with cwd = the repository; HERE = the demonstration's folder
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
PYI=/usr/include/python3.12
NPI=/usr/lib/python3/dist-packages/numpy/core/include
PYL=/usr/lib/python3.12/config-3.12-x86_64-linux-gnu
FLAGS="-O1 -std=c++11 -w -fPIC -DVERIF_ENGINE -include $HERE/shim.h -I$REPO/src -I$HERE -I$PYI -I$NPI"
# build_demo: compile the repository's sources and $HERE/demo.cpp into $T/demo
build_demo() {
    mkdir -p "$T/o"
    { find "$REPO/src" -name '*.cpp' ! -name main.cpp; echo "$HERE/engine.cpp"; echo "$HERE/demo.cpp"; } |
        awk -v t="$T/o" '{printf "%s %s/%d.o\n",$0,t,NR}' > "$T/list"
    xargs -P 8 -L 1 sh -c "g++ $FLAGS -c \"\$1\" -o \"\$2\" || exit 255" sh < "$T/list" || { echo "cannot build"; exit 3; }
    g++ -rdynamic "$T"/o/*.o -o "$T/demo" -L$PYL -lpython3.12 -ldl -lm -lpthread || exit 3
    mkdir -p "$T/run"
    cd "$T/run"
}
