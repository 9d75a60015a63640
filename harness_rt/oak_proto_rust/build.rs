fn main() {
    println!("cargo:rerun-if-changed=oak.proto");
    println!("cargo:rerun-if-changed=session.proto");
    prost_build::Config::new().compile_protos(&["oak.proto", "session.proto"], &["."]).unwrap();
}
