#!/bin/bash
# Build the model-checking harness against /repo's current working tree.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$here/mc/target"
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
if grep -qw avx2 /proc/cpuinfo && grep -qw bmi2 /proc/cpuinfo && grep -qw fma /proc/cpuinfo; then
  export RUSTFLAGS="-C target-cpu=x86-64-v3 --cfg pmcp_mc"
else
  export RUSTFLAGS="-C target-cpu=x86-64-v2 --cfg pmcp_mc"
fi
mkdir -p "$here/work"
exec 9>"$here/work/build.lock"
flock 9
"$here/mc/prep.sh"
# Never trust timestamps: if the sources differ from what was last compiled,
# make cargo recompile the crate under test.
sum=$(cd /repo && find Cargo.toml src -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-32)
if [ "$(cat "$here/mc/target/.pmcp-sum" 2>/dev/null)" != "$sum" ]; then
  rm -rf "$here"/mc/target/debug/.fingerprint/pmcp-*
fi
cd "$here/mc"
if ! cargo build --offline --locked >"$here/work/build.log" 2>&1; then
  tail -60 "$here/work/build.log" >&2
  exit 3
fi
echo "$sum" > "$here/mc/target/.pmcp-sum"
