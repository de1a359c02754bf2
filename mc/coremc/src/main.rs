#![allow(clippy::all)]
mod drv;
mod mirror;
mod model;
mod edits;
mod findmod;
mod refmodel;
mod selmod;
mod undo;
mod seq;
mod wrapmod;
mod plugmod;
mod filemod;
mod io;
mod stylemod;
mod lifemod;
mod confmod;
mod cachemod;
mod convmod;
mod lspmod;
mod recmod;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    match id.as_str() {
        "C22" => wrapmod::run(),
        "C25" => plugmod::run(),
        "C28" => stylemod::run(),
        "C33" => convmod::run(),
        "C34" => lspmod::run(),
        "C35" => recmod::run(),
        "C32" => cachemod::run(),
        "C31" => confmod::run31(),
        "C30" => lifemod::run30(),
        "C29" => lifemod::run29(),
        "C26" | "C27" => filemod::run(&id),
        "C15" => selmod::run(),
        "C21" => findmod::run(),
        "C18" => undo::run(),
        "C17" | "C20" => edits::run(&id),
        "C16" | "C19" => seq::run(&id),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}
