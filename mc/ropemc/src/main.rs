#![allow(clippy::all)]
mod util;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c13;
mod emodel;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    match id.as_str() {
        "C01" => c01::run(),
        "C02" => c02::run(),
        "C03" => c03::run(),
        "C04" => c04::run(),
        "C05" => c05::run(),
        "C06" => c06::run(),
        "C07" => c07::run(),
        "C08" => c08::run(),
        "C13" => c13::run(),
        "C09" => c09::run(),
        "C10" | "C11" | "C12" | "C14" => c10::run(&id),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}
