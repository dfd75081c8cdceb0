//! Runs simulations of the aseprite-loader library: many seeded runs per property,
//! the first violation minimised and written out as a replay file.

mod alone;
mod blendref;
mod canon;
mod churn;
mod disk;
mod doc;
mod encode;
mod minimise;
mod oracle;
mod plan;
mod prng;
mod report;
mod runner;
mod scale;
mod sched;
mod seams;
mod world;
mod zlib;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => runner::check(&args[2..]),
        Some("replay") => runner::replay(&args[2..]),
        Some("selftest") => runner::selftest(&args[2..]),
        Some("show") => runner::show(&args[2..]),
        _ => {
            eprintln!("usage: asim check PROPERTY TIER SEED VERIFDIR | replay FILE | selftest PROPERTY FROM COUNT WORKERS | show PROPERTY SEED");
            2
        }
    };
    std::process::exit(code);
}
