mod channel;
mod cluster;
mod session;
mod storage;
mod store;
mod system;
mod transfer;

// The world of the tablet cache is the one that its modules are driven in.
#[allow(dead_code)]
#[path = "../../../harness/cache_driver/src/data.rs"]
mod data;
#[allow(dead_code)]
#[path = "../../../harness/cache_driver/src/kv.rs"]
mod kv;
#[allow(dead_code)]
#[path = "../../../harness/cache_driver/src/ring.rs"]
mod ring;
#[allow(dead_code)]
#[path = "../../../harness/cache_driver/src/world.rs"]
mod world;

use vcommon::{flush, run_trace, Args, Rng, J};

fn main() {
    let args = Args::parse();
    let seed = args.num("seed", 1);
    let n = args.num("n", 10) as usize;
    let mut w = args.writer();
    let scripts: Vec<J> = match args.get("scripts") {
        Some(path) => std::fs::read_to_string(path)
            .expect("scripts")
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(J::parse)
            .collect(),
        None => Vec::new(),
    };
    for (i, script) in scripts.iter().enumerate() {
        let mut rng = Rng::new(seed.wrapping_mul(7_919).wrapping_add(i as u64));
        run_trace(&mut w, 1_000_000 + i, |rec| {
            match args.cmd.as_str() {
                "cluster" => cluster::script(rec, script, &mut rng),
                "channel" => channel::script(rec, script, &mut rng),
                "store" => store::script(rec, script, &mut rng),
                "system" => system::script(rec, script, &mut rng),
                "transfer" => transfer::script(rec, script, &mut rng),
                "storage" => storage::script(rec, script, &mut rng),
                other => panic!("no scripts for {}", other),
            }
            J::B(true)
        });
    }
    let first = args.num("first", 0) as usize;
    for i in first..first + n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        run_trace(&mut w, i, |rec| {
            match args.cmd.as_str() {
                "cluster" => cluster::random(rec, &mut rng),
                "channel" => channel::random(rec, &mut rng),
                "store" => store::random(rec, &mut rng),
                "system" => system::random(rec, &mut rng),
                "transfer" => transfer::random(rec, &mut rng),
                "storage" => storage::random(rec, &mut rng),
                other => panic!("unknown subcommand {}", other),
            }
            J::B(true)
        });
    }
    flush(&mut w);
}
