mod alloc;
mod checks;
mod dec;
mod enc;
mod gen;
mod refs;
mod runner;
mod tape;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let checks = checks::all();
    let get = |id: &str| {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no check {}", id);
            std::process::exit(2)
        })
    };
    let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed = env("VERIF_SEED", "1").parse().unwrap_or(1);
            runner::parent(get(&a[2]), seed, &env("VERIF_TIER", "quick"))
        }
        Some("child") => runner::child(get(&a[2]), a[4].parse().unwrap(), &a[3], &a[5]),
        Some("one") | Some("replay") => runner::replay(&checks, &a[2]),
        Some("seeds") => {
            checks::robust::seeds(&a[2], a[3].parse().unwrap());
            0
        }
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: jdcheck run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
