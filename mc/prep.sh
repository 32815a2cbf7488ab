#!/bin/bash
# Builds /verif/mc/.vendor/: copies of the cached tokio, dashmap, parking_lot and notify
# sources with the hooks of patches/*.patch applied.
set -e
here=$(cd "$(dirname "$0")" && pwd)
cd "$here"
stamp=$(cat patches/*.patch | sha256sum | cut -c1-16)
if [ -f .vendor/stamp ] && [ "$(cat .vendor/stamp)" = "$stamp" ]; then exit 0; fi
rm -rf "$here/.vendor"
mkdir -p "$here/.vendor"
for p in patches/*.patch; do
  c=$(basename "$p" .patch)
  src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/"$c" | head -1)
  cp -r "$src" .vendor/"$c"
  chmod -R u+w .vendor/"$c"
  (cd .vendor/"$c" && rm -f .cargo-checksum.json .cargo-ok Cargo.lock && patch -s -p1 < "$here/$p")
done
echo "$stamp" > .vendor/stamp
