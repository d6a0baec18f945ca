# Builds demo.cpp with this repository's sources.  Usage: . lib.sh; build [flags]; then run "$T/demo".
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LANG=C.UTF-8
INC="-I$ROOT/_build/headers/include -I$ROOT/include -I$ROOT/src -I$ROOT/3rd_party/base64/include -isystem $HERE/shim -isystem $ROOT/_build/generated -isystem $ROOT/_build/generated/lightstep-tracer-common -isystem $ROOT/_build/generated/lightstep-tracer-configuration"
build() {  # all of src, but for the alternatives that are not used
  F="$*"
  find "$ROOT/src" -name '*.cpp' | grep -v -e _windows.cpp -e no_stream_recorder -e no_dns_resolver -e /grpc_transporter/ > "$T/list"
  find "$ROOT/_build/generated" -name '*.pb.cc' >> "$T/list"
  ls "$ROOT"/3rd_party/base64/src/base64.cpp "$HERE/shim/opentracing_shim.cpp" "$HERE/demo.cpp" >> "$T/list"
  export INC F T
  xargs -P 8 -I{} sh -c 'o=$T/$(echo {} | tr / _).o; case {} in */demo.cpp|*shim.cpp) S=gnu++17;; *) S=gnu++14;; esac; g++ -c -O0 -w -std=$S -pthread $F $INC {} -o $o' < "$T/list"
  g++ -pthread $F -o "$T/demo" "$T"/*.o -levent -levent_pthreads -lcares -lprotobuf -lz -ldl
}
