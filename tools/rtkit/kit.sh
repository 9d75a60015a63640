# Sourced by demo.sh: builds main.rs beside it against /repo's modules (and the stand-ins for
# crates that are not there, in stubs.tgz) in a scratch directory and runs it. Exit status is
# that of the program.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$w"' EXIT
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS="--cap-lints allow" CARGO_INCREMENTAL=0
repo=$(pwd)
tar -xzf "$here/stubs.tgz" -C "$w" || exit 3
find "$w" -type l | while read -r l; do t=$(readlink "$l"); ln -sfn "$repo${t#/repo}" "$l"; done
grep -rl "/repo/" "$w" --include=*.rs --include=*.toml | while read -r f; do [ -L "$f" ] || sed -i "s,/repo/,$repo/,g" "$f"; done
mkdir -p "$w/demo/src"
cat > "$w/demo/Cargo.toml" <<X
[package]
name = "demo"
version.workspace = true
edition.workspace = true
[dependencies]
anyhow.workspace = true
hashbrown.workspace = true
oak_proto_rust = { path = "../oak_proto_rust" }
oak_time = { path = "../oak_time" }
prost.workspace = true
raft = { path = "../raft" }
rand = { path = "../rand" }
slog.workspace = true
tcp_proto = { path = "../tcp_proto" }
tcp_runtime = { path = "../tcp_runtime" }
tcp_tablet_store = { path = "../tcp_tablet_store" }
tcp_atomic_counter = { path = "../tcp_atomic_counter" }
tcp_tablet_cache = { path = "../tcp_tablet_cache" }
X
sed -i 's/"rt_driver"/"demo"/' "$w/Cargo.toml"
cp "$here"/*.rs "$w/demo/src/"
cd "$w" || exit 3
cargo build --offline -q -p demo 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 120 "$w/target/debug/demo"
