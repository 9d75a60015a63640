//! As /repo/apps/tablet_cache/service/build.rs, but with prost-build instead
//! of Oak's micro_rpc_build.

fn main() {
    println!("cargo:rerun-if-changed=/repo/apps/tablet_cache/service/proto/tablet_cache.proto");
    println!("cargo:rerun-if-changed=build.rs");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".apps.tablet_cache.service.PutKeyRequest",
        ".apps.tablet_cache.service.PutKeyResponse",
        ".apps.tablet_cache.service.GetKeyRequest",
        ".apps.tablet_cache.service.GetKeyResponse",
        ".apps.tablet_cache.service.TabletContents",
    ]);
    config
        .compile_protos(
            &["/repo/apps/tablet_cache/service/proto/tablet_cache.proto"],
            &["/repo/apps/tablet_cache/service/proto"],
        )
        .unwrap();
}
