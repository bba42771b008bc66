//! Bounded native stand-in: runs the real crates on enumerated and seeded inputs and compares them
//! with an executable form of the specification used by the contracts.  Never counted as proof; it
//! covers the functions the verifiers cannot reach and searches a failing input when an
//! obligation is no longer discharged.
mod core;
mod docs;
mod edits;
mod evals;
mod gen;
mod model;
mod number;
mod prims;
mod serdes;
mod text;
mod walk;

use crate::core::Run;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let [_, cmd, open, close, n] = args.as_slice() {
        if cmd == "--deep" {
            text::deep(open, close, n.parse().unwrap());
            return;
        }
    }
    let prop = args.get(1).map(String::as_str).unwrap_or("");
    let tier = args.get(2).map(String::as_str).unwrap_or("quick");
    let seed: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|_| {}));
    let mut run = Run::new(prop, tier, seed);
    // Deeply nested inputs are part of some properties.
    let handle = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            match run.prop.as_str() {
                "C01" => number::c01(&mut run),
                "C02" => number::c02(&mut run),
                "C03" => number::c03(&mut run),
                "C04" => prims::c04(&mut run),
                "C06" => prims::c06(&mut run),
                "C16" => prims::c16(&mut run),
                "C21" => serdes::c21(&mut run),
                "C22" => serdes::c22(&mut run),
                "C05" => text::c05(&mut run),
                "C08" => edits::c08(&mut run),
                "C09" => evals::c09(&mut run),
                "C10" => evals::c10(&mut run),
                "C11" => evals::c11(&mut run),
                "C12" => evals::c12(&mut run),
                "C13" => evals::c13(&mut run),
                "C14" => evals::c14(&mut run),
                "C23" => evals::c23(&mut run),
                "C15" => text::c15(&mut run),
                "C17" => text::c17(&mut run),
                "C25" => text::c25(&mut run),
                "C27" => text::c27(&mut run),
                "C29" => walk::c29(&mut run),
                "C18" => docs::c18(&mut run),
                "C19" => docs::c19(&mut run),
                "C20" => docs::c20(&mut run),
                "C28" => docs::c28(&mut run),
                other => {
                    eprintln!("unknown property {other}");
                    std::process::exit(3);
                }
            }
            run.finish();
        })
        .unwrap();
    handle.join().unwrap();
}
