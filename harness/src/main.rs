mod convprops;
mod dict;
mod engine;
mod gen;
mod instr;
mod layout;
mod lexprops;
mod parseprops;
mod props;
mod reflex;
mod refparse;
mod runner;
mod sut;
mod tape;
mod text;
mod tree;
mod stats;
mod words;

#[global_allocator]
static ALLOC: instr::Counting = instr::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    sut::install_panic_hook();
    let seed = || -> u64 {
        std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
    };
    let code = match a[..] {
        ["check", id, tier] => engine::check(id, tier, seed()),
        ["worker", id, tier, seed, dir] => {
            engine::worker(id, tier, seed.parse().unwrap(), dir.as_ref())
        }
        ["one", id, file] => engine::one(id, &std::fs::read(file).unwrap()),
        ["replay", file] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            match v["probe"].as_str() {
                Some(key) => props::probe(key),
                None => engine::one(
                    v["property"].as_str().unwrap(),
                    &engine::unhex(v["tape"].as_str().unwrap()),
                ),
            }
        }
        ["probe", key] => props::probe(key),
        ["stats", id, n] => {
            stats::print(id, n.parse().unwrap(), seed());
            0
        }
        ["dict"] => {
            let d = dict::dict();
            println!("{:?}\n{:?}\n{:?}", d.counts, d.texts, d.chars);
            0
        }
        ["list"] => {
            for p in props::ALL {
                println!("{} {} cases", p.id, p.cases);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <id> quick|thorough | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
