mod data;
mod kv;
mod log;
mod meta;
mod ring;
mod txn;
mod world;

use vcommon::{flush, run_trace, Args, Rng, J};

fn main() {
    let args = Args::parse();
    let seed = args.num("seed", 1);
    let n = args.num("n", 10) as usize;
    let mut w = args.writer();
    let scripts: Vec<J> = match args.get("scripts") {
        Some(path) => std::fs::read_to_string(path)
            .expect("scripts")
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(J::parse)
            .collect(),
        None => Vec::new(),
    };
    for (i, script) in scripts.iter().enumerate() {
        let mut rng = Rng::new(seed.wrapping_mul(7_919).wrapping_add(i as u64));
        run_trace(&mut w, 1_000_000 + i, |rec| {
            match args.cmd.as_str() {
                "meta" => meta::script(rec, script, &mut rng),
                "data" => data::script(rec, script, &mut rng),
                "txn" => txn::script(rec, script, &mut rng),
                "kv" => kv::script(rec, script, &mut rng),
                "log" => log::script(rec, script, &mut rng),
                other => panic!("no scripts for {}", other),
            }
            J::B(true)
        });
    }
    for i in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
        run_trace(&mut w, i, |rec| {
            match args.cmd.as_str() {
                "meta" => meta::random(rec, &mut rng),
                "data" => data::random(rec, &mut rng),
                "txn" => txn::random(rec, &mut rng),
                "kv" => kv::random(rec, &mut rng),
                "log" => log::random(rec, &mut rng),
                other => panic!("unknown subcommand {}", other),
            }
            J::B(true)
        });
    }
    flush(&mut w);
}
