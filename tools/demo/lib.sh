# helper of the demonstrations: generates code for *.proto beside it with the built generator, compiles demo.cpp against the built libraries and runs it
H=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=/repo/_build
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LANG=C.UTF-8 QT_QPA_PLATFORM=offscreen QT_LOGGING_RULES='*=false'
QTI=$(pkg-config --cflags Qt5Core Qt5Network Qt5Gui Qt5Qml 2>/dev/null)
QTL=$(pkg-config --libs Qt5Core Qt5Network Qt5Gui Qt5Qml 2>/dev/null)
LIBS="protobuf:Qt5Protobuf"
gen() { # OPTIONS FILE...
    local o=$1; shift
    QT_PROTOBUF_OPTIONS="$o" protoc --plugin=protoc-gen-qtprotobufgen=$B/src/generator/qtprotobufgen --qtprotobufgen_out="$T" -I"$H" "$@" || { echo "generator failed"; exit 9; }
}
compile() { # SOURCE... (extra flags in $FLAGS)
    local inc="-I$T -I/repo/src/protobuf -I/repo/src/grpc -I/repo/src/grpc/quick -I$B/src/protobuf -I$B/src/grpc -I$B/include -I$B/include/Protobuf -I$B/include/Grpc -I$B/include/ProtobufQtTypes $QTI"
    local moc; moc=$(command -v /usr/lib/qt5/bin/moc || command -v moc)
    local objs=""
    for s in $(cd "$T" && find . -name '*.qpb.cpp'); do
        g++ -std=c++17 -fPIC -g0 -w $FLAGS $inc -c "$T/$s" -o "$T/$(echo $s | tr / _).o" || exit 9
        objs="$objs $T/$(echo $s | tr / _).o"
    done
    for s in $(cd "$T" && find . -name '*.qpb.h'); do
        $moc $inc "$T/$s" -o "$T/moc_$(echo $s | tr / _).cpp" && g++ -std=c++17 -fPIC -g0 -w $FLAGS $inc -include "$T/$s" -c "$T/moc_$(echo $s | tr / _).cpp" -o "$T/moc_$(echo $s | tr / _).o" || exit 9
        objs="$objs $T/moc_$(echo $s | tr / _).o"
    done
    local l=""
    for x in $LIBS; do l="$l -L$B/src/${x%%:*} -l${x##*:} -Wl,-rpath,$B/src/${x%%:*}"; done
    g++ -std=c++17 -fPIC -g0 -w $FLAGS $inc "$@" $objs -o "$T/demo" $l $QTL $XL -lpthread -Wl,-rpath,$B/src/protobuf || exit 9
}
run() { (cd "$T" && timeout ${LIMIT:-60} "$T/demo" "$@"); }
