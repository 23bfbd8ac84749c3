mod engine;
mod gen;
mod model;
mod props;
mod src;

use src::Src;

#[global_allocator]
static ALLOC: engine::Counting = engine::Counting;

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    engine::install();
    let all = props::all();
    let find = |id: &str| all.iter().find(|p| p.id == id);
    match arg(1).as_str() {
        "list" => {
            for p in &all {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        "run" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            match find(&arg(2)) {
                Some(p) => engine::run(p, if arg(3) == "thorough" { "thorough" } else { "quick" }, seed),
                None => 2,
            }
        }
        "worker" => match find(&arg(2)) {
            Some(p) => {
                engine::worker(p, num(3), num(4), num(5), &arg(6));
                0
            }
            None => 2,
        },
        "try" => match find(&arg(2)) {
            Some(p) => {
                let o = engine::execute(p, Src::random(engine::case_seed(num(3), p.id, num(4))), true, true);
                println!("{}\n{:?}", o.ctx.desc, o.result);
                i32::from(o.result.is_err())
            }
            None => 2,
        },
        "replay" => {
            let f: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(2)).unwrap()).unwrap();
            let p = find(f["property"].as_str().unwrap()).unwrap();
            let src = match f["tape"].as_array() {
                Some(t) => Src::replay(t.iter().map(|v| v.as_u64().unwrap()).collect()),
                None => Src::random(f["case_seed"].as_u64().unwrap()),
            };
            let o = engine::execute(p, src, true, true);
            println!("{}", o.ctx.desc);
            match o.result {
                Ok(()) => {
                    println!("PASS");
                    0
                }
                Err(m) => {
                    println!("FAIL {m}");
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: harness list | run ID [quick|thorough] | try ID SEED CASE | replay FILE");
            2
        }
    }
}

fn main() {
    // A fixed stack, so that stack use does not depend on the environment.
    let t = std::thread::Builder::new().stack_size(24 << 20).spawn(real_main).unwrap();
    std::process::exit(t.join().unwrap_or(2));
}
