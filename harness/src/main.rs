//! Executes scenarios against the real resolver and records what it answered.
//! See /verif/DESIGN.md, section "Binding".
mod exec;
mod sched;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        // a thread has a smaller stack than the process, and is where a user may well call
        Some("run") => {
            let done = std::thread::spawn(move || exec::run_file(&args[2], &args[3], &args[4], args.get(5).map_or(0, |s| s.parse().unwrap()))).join();
            std::process::exit(if done.is_ok() { 0 } else { 101 })
        }
        _ => {
            eprintln!("usage: vp-harness run IN OUT SCRATCH [SKIP]");
            std::process::exit(2);
        }
    }
}
