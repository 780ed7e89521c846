#!/bin/bash
# run in /repo: exit 0 if the property's behaviour is intact.
# The integrator (src/) is compiled with small stand-ins for its 2019 dependencies (shim.tgz).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
tar xzf "$here/shim.tgz" -C "$d" || exit 2
mkdir -p "$d/ida" "$d/demo/src"
cp -r "$repo/src" "$d/ida/src"
cp "$d/shim/ida/linear.rs" "$d/ida/src/linear.rs"
mkdir -p "$d/ida/src/nonlinear"
cp "$d"/shim/ida/nonlinear/*.rs "$d/ida/src/nonlinear/"
sed "s#@SHIM@#$d/shim#; s#@REPO@#$repo#" "$d/shim/ida/Cargo.toml.in" > "$d/ida/Cargo.toml"
cp "$here/main.rs" "$here/sup.rs" "$d/demo/src/"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ida = { path = "../ida" }
ndarray = { path = "../shim/ndarray" }
failure = { path = "../shim/failure" }
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="--cfg ida_verif"
cd "$d/demo" && cargo build --offline --quiet 2>"$d/err" || { tail -40 "$d/err"; exit 2; }
timeout 60 "$d/target/debug/demo"
rc=$?
[ $rc = 101 ] && rc=1
exit $rc
