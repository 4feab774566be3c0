mod bulk;
mod calls;
mod deep;
mod derived;
mod doc;
mod gen;
mod io;
mod kept;
mod obs;
mod profiles;
mod replay;
mod rng;
mod tool;
mod tree;
mod typed;
mod typegen;

use serde_json::json;
use std::io::Write;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    // A call that does not come back is an observation too.
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let g = obs::CURRENT.lock().unwrap();
        if let Some((t, what)) = g.as_ref() {
            if t.elapsed().as_secs() >= 20 {
                println!("HANG {}", what);
                let _ = std::io::stdout().flush();
                std::process::exit(97);
            }
        }
    });
    let run = move || match args[1].as_str() {
        // gen PROFILE SEED FROM COUNT OUT
        "gen" => {
            let seed: u64 = args[3].parse().unwrap();
            let from: u64 = args[4].parse().unwrap();
            let n: u64 = args[5].parse().unwrap();
            let mut w = std::io::BufWriter::new(std::fs::File::create(&args[6]).unwrap());
            for idx in from..from + n {
                let mut r = rng::Rng::new(seed, idx);
                let obs = profiles::session(&args[2], &mut r);
                writeln!(w, "{}", json!({"id": idx, "obs": obs})).unwrap();
            }
        }
        // replay KIND CFG TLC_OUTPUT WHAT,... OUT
        "replay" => {
            let cfg: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let what: Vec<&str> = args[5].split(',').collect();
            replay::run(&args[2], &cfg, &args[4], &what, &args[6]);
        }
        // sessions CFG TLC_OUTPUT OUT: sessions for the schedules of a model
        "sessions" => {
            let cfg: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let mut w = std::io::BufWriter::new(std::fs::File::create(&args[4]).unwrap());
            let gen = replay::generated(&args[3]);
            let all = if cfg.get("calls").is_some() { calls::schedules(&cfg, &gen) } else { io::schedules(&cfg, &gen) };
            for (i, obs) in all.into_iter().enumerate() {
                writeln!(w, "{}", json!({"id": i, "obs": obs})).unwrap();
            }
        }
        x => panic!("command {x}"),
    };
    // deep recursion in the library should fail because of the library, not of a small stack
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap();
    if h.join().is_err() {
        eprintln!("harness panicked");
        std::process::exit(2);
    }
}
