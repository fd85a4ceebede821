# Usage: . build.sh; demo_build OUT SRC...   (sources relative to /repo; demo.cc beside this file)
# Compiles the given sources of the working tree with the stand-in headers in shims/.
set -e
REPO=$(pwd)
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
demo_build() {
  mkdir -p "$W/gen/farmhash" "$W/o"
  ln -s /usr/include/farmhash.h "$W/gen/farmhash/farmhash.h"
  protos=$(cd "$REPO" && find dpf dcf pir -name '*.proto')
  (cd "$REPO" && protoc -I"$REPO" --cpp_out="$W/gen" $protos)
  find "$W/gen" -name '*.pb.h' | while read -r h; do
    sed -i -e 's|^ *// @@protoc_insertion_point(class_scope:.*|&\n public:\n  absl::Cord SerializeAsCord() const { return absl::Cord(SerializeAsString()); }|' "$h"
    sed -i -e '1i #include "absl/strings/cord.h"' "$h"
  done
  FL="-std=c++17 -O1 -w -Wno-narrowing -isystem /usr/include/android -I$REPO -I$W/gen -I$HERE/shims $DEMO_FLAGS"
  { for s in "$@"; do echo "$REPO/$s"; done; for p in $protos; do echo "$W/gen/${p%.proto}.pb.cc"; done; echo "$HERE/demo.cc"; } |
    xargs -P 8 -I{} sh -c 'g++ '"$FL"' -c "{}" -o "'"$W"'/o/$(echo "{}" | tr / _).o"'
  g++ $DEMO_FLAGS -o "$W/demo" "$W"/o/*.o $(pkg-config --libs absl_status absl_statusor absl_strings absl_cord absl_flat_hash_map absl_flat_hash_set absl_int128 absl_str_format absl_random_random absl_hash protobuf 2>/dev/null || echo -lprotobuf) -lprotobuf -lhwy -lfarmhash /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lpthread
}
