mod gen;
mod model;
mod props;
mod real;
mod rng;
mod runner;

#[global_allocator]
static COUNTING: props::memory::Counting = props::memory::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "wpv run|worker ID | single ID PHASE IDX | replay ID FILE | list";
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        },
        // development aid: show INPUT (escapes as in Rust) OPTS
        Some("show") => {
            props::show(&gen::unescape(&a[2]), &real::Opts::parse(a.get(3).map(|s| &s[..]).unwrap_or("")));
            0
        },
        Some(cmd) => {
            let p = match a.get(2).and_then(|id| props::all().into_iter().find(|p| p.id == id)) {
                Some(p) => p,
                None => {
                    println!("unknown property; {usage}");
                    std::process::exit(2)
                },
            };
            match cmd {
                "run" => runner::run_supervised(p),
                "worker" => runner::run_worker(p),
                // development aid: print a case
                "case" => {
                    println!("{}", runner::case_at(p, false, 1, a[3].parse().unwrap(), a[4].parse().unwrap()).show());
                    0
                },
                "single" => runner::single(p, a[3].parse().unwrap(), a[4].parse().unwrap()),
                "replay" => runner::replay(p, &a[3]),
                _ => {
                    println!("{usage}");
                    2
                },
            }
        },
        None => {
            println!("{usage}");
            2
        },
    };
    std::process::exit(code);
}
