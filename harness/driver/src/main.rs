//! Drives the real broker over TCP.  It knows nothing about the properties: the scripts it
//! executes and the packets it expects come from the specification.
mod broker;
mod net;
mod replay;
mod stress;

fn main() {
    // broken pipes are errors to handle, not a reason to end
    let args: Vec<String> = std::env::args().collect();
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("replay") => replay::main(&args[2]),
        Some("stress") => stress::main(&args[2]),
        _ => {
            eprintln!("usage: driver replay|stress JOB");
            2
        }
    };
    std::process::exit(rc);
}
