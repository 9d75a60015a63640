//! As /repo/apps/tablet_store/service/build.rs, but with prost-build instead of Oak's micro_rpc_build.
fn main() {
    println!("cargo:rerun-if-changed=/repo/apps/tablet_store/service/proto/tablet_store.proto");
    println!("cargo:rerun-if-changed=build.rs");
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".apps.tablet_store.service.TabletMetadata",
    ]);
    config
        .compile_protos(
            &["/repo/apps/tablet_store/service/proto/tablet_store.proto"],
            &["/repo/apps/tablet_store/service/proto"],
        )
        .unwrap();
}
