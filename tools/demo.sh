#!/bin/bash
# exit 0 when main.rs (next to this file) finds the property intact in the crate at $PWD
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
d=$(mktemp -d /tmp/osu-demo.XXXXXXXX) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\nname="osu-demo"\nversion="0.1.0"\nedition="2021"\n[dependencies]\nosu-file-parser={path="%s"}\n[workspace]\n' "$repo" > "$d/Cargo.toml"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q
