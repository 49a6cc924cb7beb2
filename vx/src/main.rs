//! vx: mechanical extraction of the code under contract into Verus input.
//!
//! vx UNIT.spec EXPANDED_DIR OUT.rs OUT.json
mod render;
mod spec;
mod toks;
mod inline;
mod lift;
mod weave;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx UNIT.spec EXPANDED_DIR OUT.rs OUT.json");
        std::process::exit(2);
    }
    let p = Path::new(&a[1]);
    let text = std::fs::read_to_string(p).expect("unit file");
    let mut u = spec::Unit::default();
    spec::parse(&text, &mut u, p.parent().unwrap());
    if a.iter().any(|x| x == "--probe") {
        u.opts.insert("probe".into(), String::new());
    }
    match render::run(&u, Path::new(&a[2])) {
        Ok((rs, js)) => {
            std::fs::write(&a[3], rs).unwrap();
            std::fs::write(&a[4], serde_json::to_string_pretty(&js).unwrap()).unwrap();
        }
        Err(e) => {
            eprintln!("vx: {}", e);
            std::process::exit(3);
        }
    }
}
