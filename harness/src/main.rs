//! conform ENGINE SCENARIOS.ndjson TRACES.ndjson SEED
//! Runs every scenario (one JSON value per line) on the real library and
//! writes one trace per line, flushed before the next scenario starts, so that
//! an abort or hang identifies its scenario.
mod b;
mod c;
mod d;
mod h;
mod i;
mod json;
mod k;
mod mint;
mod s;
mod sem;
mod util;
mod w;

use std::io::{BufRead, BufReader, Write};
use util::Rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let engine = a[1].as_str();
    let seed: u64 = a[4].parse().unwrap();
    let verbose = std::env::var("CONFORM_VERBOSE").is_ok();
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        // panics of the code under test are outcomes; panics of the harness itself are tool errors
        let own = i.location().map(|l| l.file().starts_with("src/")).unwrap_or(false);
        let msg = i.payload().downcast_ref::<String>().cloned().unwrap_or_default();
        if msg.starts_with("harness:") || (own && util::GUARDED.with(|g| g.get()) == 0) {
            default(i);
            std::process::exit(3);
        }
        if verbose {
            default(i);
        }
    }));
    if engine == "pristine" {
        return d::pristine();
    }
    let input = BufReader::new(std::fs::File::open(&a[2]).unwrap());
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&a[3]).unwrap();
    for line in input.lines() {
        let scen: serde_json::Value = serde_json::from_str(&line.unwrap()).unwrap();
        let id = scen["id"].as_u64().unwrap();
        let mut rng = Rng::new(seed, id);
        let mut trace = match engine {
            "hostile" => h::run(&scen, &mut rng),
            "wire" => w::run(&scen, &mut rng),
            "ipld" => i::run(&scen, &mut rng),
            "build" => b::run(&scen, &mut rng),
            "store" => s::run(&scen, &mut rng),
            "did" => k::run_dids(&scen, &mut rng),
            "key" => k::run_keys(&scen, &mut rng),
            "cap" => c::run(&scen, &mut rng),
            "del" => d::run(&scen, &mut rng),
            other => panic!("harness: unknown engine {other}"),
        };
        trace["conc"] = serde_json::json!(trace["conc"].to_string());
        trace["id"] = serde_json::json!(id);
        let mut text = trace.to_string();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}
