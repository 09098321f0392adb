//! Replays behaviours of spec/gov.qnt on the governance program.
#[path = "../../harness/src/common.rs"]
#[allow(dead_code)]
mod common;
#[path = "../../harness/src/drive.rs"]
mod drive;
mod gov;
#[path = "../../harness/src/svm.rs"]
#[allow(dead_code)]
mod svm;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("gov") => drive::run(&args[2], &args[3..], gov::install, gov::replay),
        _ => {
            eprintln!("usage: conform-gov gov OUT.json TRACE.itf.json...|@LIST");
            std::process::exit(2);
        }
    }
}
