extern crate alloc;
mod checks;
mod ctx;
mod elf;
mod encvm;
mod progen;
mod report;
mod rng;
mod rv;

use report::{Report, Tier};

fn main() {
    report::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).map(String::as_str).unwrap_or("");
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let rep: &'static Report = Box::leak(Box::new(Report::new(id, tier, seed, args.get(2).cloned())));
    if !id.starts_with("M01") && id != "C01-run" {
        if let Some(code) = report::supervise(rep) {
            std::process::exit(code);
        }
        report::watch(rep);
    }
    match id {
        "E01" => checks::cycle::e01(rep),
        "E05" => checks::tables::e05(rep),
        "E06" => checks::tables::e06(rep),
        "T01" => checks::plain::t01(rep),
        "T02" => checks::plain::t02(rep),
        "T03" => checks::plain::t03(rep),
        "T04" => checks::e2e::t04(rep),
        "E02" => checks::units::e02(rep),
        "E03" => checks::units::e03(rep),
        "E04" => checks::units::e04(rep),
        "E07" => checks::global::e07(rep),
        "E08" => checks::global::e08(rep),
        "E09" => checks::global::e09(rep),
        "E10" => checks::global::e10(rep),
        "E11" => checks::scratch::e11(rep),
        "G01" => checks::guest::g01(rep),
        "G02" => checks::guest::g02(rep),
        "B01" => checks::guest::b01(rep),
        "D01" => checks::decode::d01(rep),
        "D02" => checks::decode::d02(rep),
        "M01" => checks::sanit::m01(rep),
        "M01-workload" => checks::sanit::workload(rep),
        "C01" => checks::settings::c01(rep),
        "C01-run" => {
            checks::settings::run(rep);
            std::process::exit(0)
        }
        "D03" => checks::refuse::d03(rep),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    }
    std::process::exit(rep.finish());
}
