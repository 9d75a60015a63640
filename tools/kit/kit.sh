# Sourced by demo.sh: builds main.rs beside it against /repo's modules in a scratch directory
# and runs it. Exit status is that of the program.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$w"' EXIT
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS="--cap-lints allow" CARGO_INCREMENTAL=0
repo=$(pwd)
mkdir -p "$w"/{proto/src,runtime/src,store/src,cache/src,demo/src}
cp "$here/Cargo.lock.txt" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<X
[workspace]
resolver = "2"
members = ["proto", "runtime", "store", "cache", "demo"]
[workspace.package]
version = "0.0.0"
edition = "2021"
[workspace.dependencies]
ahash = { version = "0.8.3", default-features = false }
base64 = { version = "0.21", default-features = false, features = ["alloc"] }
hashbrown = "0.14"
prost = { version = "0.14", default-features = false, features = ["derive"] }
prost-build = { version = "0.14", default-features = false }
sha2 = { version = "0.10", default-features = false }
slog = { version = "2.2.0", default-features = false }
slog-term = "2.9.0"
spin = "0.9.8"
X
crate() { # dir name lib-name
  printf '[package]\nname = "%s"\nversion.workspace = true\nedition.workspace = true\n[lib]\nname = "%s"\ndoctest = false\n' "$2" "$3" > "$w/$1/Cargo.toml"
}
crate proto tcp_proto tcp_proto
cat >> "$w/proto/Cargo.toml" <<X
path = "$repo/proto/src/lib.rs"
[features]
default = ["std"]
std = []
tonic = []
[dependencies]
prost.workspace = true
[build-dependencies]
prost-build.workspace = true
X
sed "s,/repo/,$repo/,g" "$here/proto_build.rs.txt" > "$w/proto/build.rs"
crate runtime tcp_runtime_min tcp_runtime
cat >> "$w/runtime/Cargo.toml" <<X
[features]
default = ["std", "testing"]
std = ["slog/std"]
testing = []
[dependencies]
slog.workspace = true
slog-term.workspace = true
spin.workspace = true
tcp_proto = { path = "../proto" }
X
cat > "$w/runtime/src/lib.rs" <<X
extern crate alloc;
extern crate core;
extern crate slog;
extern crate tcp_proto;
pub mod logger;
pub mod platform;
use std::error::Error as StdError;
X
ln -s "$repo/runtime/src/logger.rs" "$repo/runtime/src/platform.rs" "$w/runtime/src/"
crate store tcp_tablet_store_min tcp_tablet_store_service
printf '[dependencies]\nprost.workspace = true\n[build-dependencies]\nprost-build.workspace = true\n' >> "$w/store/Cargo.toml"
cat > "$w/store/build.rs" <<X
fn main() {
    let mut c = prost_build::Config::new();
    c.btree_map(["."]);
    c.bytes([".apps.tablet_store.service.TabletMetadata"]);
    c.compile_protos(&["$repo/apps/tablet_store/service/proto/tablet_store.proto"], &["$repo/apps/tablet_store/service/proto"]).unwrap();
}
X
cat > "$w/store/src/lib.rs" <<X
extern crate prost;
pub mod apps { pub mod tablet_store { pub mod service { include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs")); } } }
X
crate cache tcp_tablet_cache_min tcp_tablet_cache_service
cat >> "$w/cache/Cargo.toml" <<X
[features]
default = ["std", "testing"]
std = []
testing = []
[dependencies]
ahash.workspace = true
base64.workspace = true
hashbrown.workspace = true
prost.workspace = true
sha2.workspace = true
slog.workspace = true
tcp_proto = { path = "../proto" }
tcp_runtime = { package = "tcp_runtime_min", path = "../runtime" }
tcp_tablet_store_service = { package = "tcp_tablet_store_min", path = "../store" }
[build-dependencies]
prost-build.workspace = true
X
cat > "$w/cache/build.rs" <<X
fn main() {
    let mut c = prost_build::Config::new();
    c.btree_map(["."]);
    c.bytes([".apps.tablet_cache.service.PutKeyRequest", ".apps.tablet_cache.service.PutKeyResponse",
        ".apps.tablet_cache.service.GetKeyRequest", ".apps.tablet_cache.service.GetKeyResponse", ".apps.tablet_cache.service.TabletContents"]);
    c.compile_protos(&["$repo/apps/tablet_cache/service/proto/tablet_cache.proto"], &["$repo/apps/tablet_cache/service/proto"]).unwrap();
}
X
cat > "$w/cache/src/lib.rs" <<X
extern crate alloc;
extern crate hashbrown;
extern crate prost;
extern crate slog;
extern crate tcp_runtime;
extern crate tcp_tablet_store_service;
pub mod apps { pub mod tablet_cache { pub mod service { include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs")); } } }
pub mod store;
pub mod transaction;
X
ln -s "$repo/apps/tablet_cache/service/src/store.rs" "$repo/apps/tablet_cache/service/src/transaction.rs" "$repo/apps/tablet_cache/service/src/transaction" "$w/cache/src/"
printf '[package]\nname = "demo"\nversion.workspace = true\nedition.workspace = true\n[dependencies]\nahash.workspace = true\nhashbrown.workspace = true\nprost.workspace = true\nsha2.workspace = true\nslog.workspace = true\ntcp_proto = { path = "../proto" }\ntcp_runtime = { package = "tcp_runtime_min", path = "../runtime" }\ntcp_tablet_cache_service = { package = "tcp_tablet_cache_min", path = "../cache" }\ntcp_tablet_store_service = { package = "tcp_tablet_store_min", path = "../store" }\n' > "$w/demo/Cargo.toml"
cp "$here"/*.rs "$w/demo/src/"
cd "$w" || exit 3
cargo build --offline -q -p demo 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 60 "$w/target/debug/demo"
