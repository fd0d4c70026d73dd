#!/bin/bash
# Builds the program from /repo's working tree next to a small in-memory runtime and runs the scenario in demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
prog=$(cat "$here/program")
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
. /opt/vp/env.sh
mkdir -p "$w"/{decimal/src,$prog/src,run/src}
cp -r "$PWD/programs/$prog/src/." "$w/$prog/src/"
find "$w/$prog/src" -type f -exec touch {} +
cp "$here/decimal.rs" "$w/decimal/src/lib.rs"
cp "$here/sim.rs" "$here/fx.rs" "$w/run/src/"
cp "$here/demo.rs" "$w/run/src/main.rs"
cat > "$w/decimal/Cargo.toml" <<T
[package]
name = "decimal"
version = "0.4.0"
edition = "2021"
[dependencies]
anchor-lang = "0.24.2"
T
cat > "$w/$prog/Cargo.toml" <<T
[package]
name = "$prog"
version = "5.2.1"
edition = "2021"
[lib]
name = "$prog"
[features]
default = []
dev = []
no-entrypoint = []
cpi = []
no-idl = []
no-log-ix-name = []
[dependencies]
anchor-lang = "0.24.2"
anchor-spl = "0.24.2"
decimal = { path = "../decimal" }
T
cat > "$w/run/Cargo.toml" <<T
[package]
name = "run"
version = "0.1.0"
edition = "2021"
[dependencies]
anchor-lang = "0.24.2"
anchor-spl = "0.24.2"
bincode = "1"
$prog = { path = "../$prog" }
[workspace]
[profile.dev]
overflow-checks = true
T
cp "$here/Cargo.lock" "$w/run/Cargo.lock"
export CARGO_TARGET_DIR="$w/target"
mkdir -p "$w/target/debug"
for d in deps build .fingerprint; do cp -a "/opt/vp/partial/target/debug/$d" "$w/target/debug/" 2>/dev/null; done
cd "$w/run"
RUSTFLAGS="" cargo build --offline -q 2> "$w/log" || { tail -40 "$w/log"; echo "demo does not build"; exit 2; }
RUST_MIN_STACK=67108864 timeout 200 "$w/target/debug/run"
