//! Generates the messages of /repo/proto/src/endpoint.proto without the fields of Oak types.
use std::{env, fs, path::Path};

const PROTO: &str = "/repo/proto/src/endpoint.proto";

/// Leaves out the imports of Oak's files, the fields of Oak's types and the
/// oneofs that have no other field.
fn without_oak(source: &str) -> String {
    let kept: Vec<&str> = source
        .lines()
        .filter(|line| {
            let line = line.trim_start();
            let ty = line
                .strip_prefix("repeated ")
                .or(line.strip_prefix("optional "))
                .unwrap_or(line);
            !(line.starts_with("import \"proto/") || ty.starts_with("oak."))
        })
        .collect();
    let mut out = String::new();
    let mut i = 0;
    while i < kept.len() {
        let line = kept[i].trim();
        if line.starts_with("oneof ") && line.ends_with('{') {
            let mut j = i + 1;
            while j < kept.len() && (kept[j].trim().is_empty() || kept[j].trim().starts_with("//")) {
                j += 1;
            }
            if j < kept.len() && kept[j].trim() == "}" {
                i = j + 1;
                continue;
            }
        }
        out.push_str(kept[i]);
        out.push('\n');
        i += 1;
    }
    out
}

fn main() {
    println!("cargo:rerun-if-changed={PROTO}");
    println!("cargo:rerun-if-changed=build.rs");
    let out_dir = env::var("OUT_DIR").unwrap();
    let proto_dir = Path::new(&out_dir).join("proto");
    fs::create_dir_all(&proto_dir).unwrap();
    let proto = proto_dir.join("endpoint.proto");
    fs::write(&proto, without_oak(&fs::read_to_string(PROTO).unwrap())).unwrap();
    let mut config = prost_build::Config::new();
    config.btree_map(["."]);
    config.bytes([
        ".trustedcompute.runtime.endpoint.StartReplicaRequest",
        ".trustedcompute.runtime.endpoint.DeliverSystemMessage",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotRequest",
        ".trustedcompute.runtime.endpoint.DeliverSnapshotResponse",
        ".trustedcompute.runtime.endpoint.ExecuteProposalRequest",
        ".trustedcompute.runtime.endpoint.ExecuteProposalResponse",
        ".trustedcompute.runtime.endpoint.DeliverAppMessage",
        ".trustedcompute.runtime.endpoint.Entry",
        ".trustedcompute.runtime.endpoint.Payload",
    ]);
    config.compile_protos(&[&proto], &[&proto_dir]).unwrap();
    // /repo/proto/src/lib.rs also includes the tonic server, which the harness does not need.
    let tonic_dir = Path::new(&out_dir).join("tonic");
    fs::create_dir_all(&tonic_dir).unwrap();
    fs::write(tonic_dir.join("trustedcompute.runtime.endpoint.rs"), "").unwrap();
}
