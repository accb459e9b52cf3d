use dlp_mc::*;
use mc_core::checks;
use mc_core::explore::Run;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    setup();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = checks::IDS.iter().copied().find(|i| *i == args[2]).expect("property id");
            let t0 = Instant::now();
            let mut run = Run::new(id, tier(), seed());
            run.known = known(id).into_iter().map(|k| k.0).collect();
            checks::check(&mut run);
            std::process::exit(report(&run, t0, &checks::assumptions(id)));
        }
        Some("replay") => std::process::exit(replay(&args[2])),
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | mc replay FILE");
            std::process::exit(2);
        }
    }
}
