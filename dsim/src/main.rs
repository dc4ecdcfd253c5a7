//! Deterministic simulation of optlib with fault injection.
mod env;
mod exec;
mod plan;
mod prng;
mod stat;
mod kit;
mod lab;
mod baton;
mod props;

use exec::Prop;

fn find(id: &str) -> Option<&'static dyn Prop> {
    props::all().iter().copied().find(|p| p.id() == id)
}

fn main() {
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let unknown = |id: &str| -> ! {
        eprintln!("dsim: unknown property {}", id);
        std::process::exit(2)
    };
    let code = match a.as_slice() {
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        ["check", id] => exec::check(find(id).unwrap_or_else(|| unknown(id))),
        ["check-inner", id, progress] => {
            env::limit_memory(20 << 30);
            exec::check_inner(find(id).unwrap_or_else(|| unknown(id)), progress)
        }
        ["replay", file] => exec::replay(file),
        ["replay-inner", file] => {
            env::limit_memory(20 << 30);
            exec::replay_inner(file, &find)
        }
        ["plan", id, index] => {
            let (base, deep) = exec::seed_tier();
            print!("{}", exec::make_plan(find(id).unwrap_or_else(|| unknown(id)), base, index.parse().unwrap(), deep).text());
            0
        }
        ["digest", n, jobs] => {
            for p in props::all() {
                println!("{} {:016x}", p.id(), exec::digest(*p, n.parse().unwrap(), jobs.parse().unwrap()));
            }
            0
        }
        _ => {
            eprintln!("usage: dsim check ID | replay FILE | plan ID INDEX | digest N JOBS | list");
            2
        }
    };
    std::process::exit(code);
}
