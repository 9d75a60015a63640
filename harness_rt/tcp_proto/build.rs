//! Generates the messages of /repo/proto/src/endpoint.proto, with stand-ins for the Oak types.
use std::{env, fs, path::Path};

const PROTO: &str = "/repo/proto/src/endpoint.proto";

fn main() {
    println!("cargo:rerun-if-changed={PROTO}");
    println!("cargo:rerun-if-changed=build.rs");
    let out_dir = env::var("OUT_DIR").unwrap();
    let proto_dir = Path::new(&out_dir).join("proto_src");
    fs::create_dir_all(proto_dir.join("proto/attestation")).unwrap();
    fs::create_dir_all(proto_dir.join("proto/session")).unwrap();
    fs::write(
        proto_dir.join("proto/attestation/endorsement.proto"),
        "syntax = \"proto3\";\npackage oak.attestation.v1;\nmessage Endorsements { bytes contents = 1; }\n",
    )
    .unwrap();
    fs::write(
        proto_dir.join("proto/attestation/reference_value.proto"),
        "syntax = \"proto3\";\npackage oak.attestation.v1;\nmessage ReferenceValues { bytes contents = 1; }\n",
    )
    .unwrap();
    fs::write(
        proto_dir.join("proto/session/session.proto"),
        "syntax = \"proto3\";\npackage oak.session.v1;\nmessage SessionRequest { bytes contents = 1; }\nmessage SessionResponse { bytes contents = 1; }\n",
    )
    .unwrap();
    let proto = proto_dir.join("endpoint.proto");
    fs::copy(PROTO, &proto).unwrap();
    let mut config = prost_build::Config::new();
    config.extern_path(".oak", "::oak_proto_rust::oak");
    config.btree_map(["."]);
    config.bytes([
        ".trustedcompute.runtime.endpoint.StartReplicaRequest",
        ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
        ".trustedcompute.runtime.endpoint.ExecuteProposalRequest",
        ".trustedcompute.runtime.endpoint.ExecuteProposalResponse",
        ".trustedcompute.runtime.endpoint.DeliverAppMessage",
        ".trustedcompute.runtime.endpoint.Entry",
        ".trustedcompute.runtime.endpoint.Payload",
    ]);
    config.compile_protos(&[&proto], &[&proto_dir]).unwrap();
    let tonic_dir = Path::new(&out_dir).join("tonic");
    fs::create_dir_all(&tonic_dir).unwrap();
    fs::write(tonic_dir.join("trustedcompute.runtime.endpoint.rs"), "").unwrap();
}
