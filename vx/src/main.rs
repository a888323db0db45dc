//! vx: mechanical extraction of functions and code blocks from the crate under
//! verification, lowered to the dialect Verus accepts.  See DESIGN.md ("Extraction") for the list
//! of rewrites.  Nothing here knows what the code is *supposed* to do.
mod common;
mod inline;
mod inputs;
mod iterlow;
mod nomlow;
mod orchain;
mod prelow;
mod slicepat;
mod slices;
mod strlow;
mod units;
mod wraplow;

use std::{env, fs, path::Path, process};

fn main() {
    let args: Vec<String> = env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: vx <repo/src> <unit> <out.rs>");
        process::exit(2)
    }
    let src = Path::new(&args[1]);
    match units::run(src, &args[2]) {
        Ok(out) => {
            fs::write(&args[3], out.render()).unwrap();
        }
        Err(e) => {
            // extraction failure = "proof undecided", distinguished by exit code 3
            println!("VX-UNDECIDED {}", e);
            process::exit(3)
        }
    }
}
