fn main() {
    println!("cargo:rerun-if-changed=eraftpb.proto");
    prost_build::Config::new().compile_protos(&["eraftpb.proto"], &["."]).unwrap();
}
