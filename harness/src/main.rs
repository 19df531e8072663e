mod alloc;
mod civil;
mod cli;
mod comp;
mod dc;
mod hostile;
mod model;
mod probes;
mod props;
mod rng;
mod run;
mod tz;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> run::Prop {
        match props::all().into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            }
        }
    };
    match a.get(1).map(|s| s.as_str()) {
        // with the stack of an ordinary thread, which is less than that of the main thread
        // (not for C28: only the memory of the main thread can be kept, see keep_memory)
        Some("worker") if a[2] != "C25" && a[2] != "C28" => {
            let b = a.clone();
            let p = find(&a[2]);
            let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || run::worker(&p, &b[3..]));
            let _ = t.unwrap().join();
            std::process::exit(101)
        }
        Some("worker") => run::worker(&find(&a[2]), &a[3..]),
        Some("run") => {
            // vh run <property> <tier> <seed> <verif dir>
            let tier = if a[3] == "thorough" { run::Tier::Thorough } else { run::Tier::Quick };
            let seed = a[4].parse().unwrap_or(1);
            std::process::exit(run::parent(&find(&a[2]), tier, seed, std::path::Path::new(&a[5])));
        }
        Some("case") => {
            // vh case <property> <tier> <seed> <index>
            let tier = if a[3] == "thorough" { run::Tier::Thorough } else { run::Tier::Quick };
            std::process::exit(run::replay(&find(&a[2]), tier, a[4].parse().unwrap(), a[5].parse().unwrap()));
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            let v: serde_json::Value = serde_json::from_str(&s).unwrap();
            let tier = if v["tier"] == "thorough" { run::Tier::Thorough } else { run::Tier::Quick };
            std::process::exit(run::replay(
                &find(v["property"].as_str().unwrap()),
                tier,
                v["seed"].as_u64().unwrap(),
                v["index"].as_u64().unwrap_or(0),
            ));
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {} {:?} {:?}", p.id, p.level, p.cases, p.budget);
            }
        }
        _ => {
            eprintln!("usage: vh run|case|replay|list ...");
            std::process::exit(2);
        }
    }
}
