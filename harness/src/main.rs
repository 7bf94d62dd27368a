use harness::engine::{self, *};
use harness::props;
use std::path::Path;

fn prop(id: &str) -> &'static Prop {
    props::all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap_or(2)
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).cloned() {
        Some("run") => {
            let p = prop(a[2]);
            on_big_stack(move || engine::parent(p))
        }
        Some("worker") => engine::worker(prop(a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), Path::new(a[5])),
        Some("case") => {
            let p = prop(a[2]);
            let v = read_slot(Path::new(a[3])).expect("case file");
            on_big_stack(move || {
                let mut ctx = Ctx::new(&v, false);
                match eval(p.f, &mut ctx) {
                    Ok(()) => 0,
                    Err(m) => {
                        println!("{}", m);
                        1
                    }
                }
            })
        }
        Some("probe") => {
            let p = prop(a[2]);
            let key = a[3].to_string();
            let pr = p.probes.iter().find(|x| x.key == key).expect("probe");
            match no_panic(pr.f) {
                Ok(Ok(())) => 0,
                Ok(Err(m)) | Err(m) => {
                    println!("{}", m);
                    1
                }
            }
        }
        Some("replay") => {
            let text = std::fs::read_to_string(a[2]).expect("replay file");
            let id = text.lines().find_map(|l| l.strip_prefix("property ")).expect("property line").to_string();
            let v = parse_choices(text.lines().find_map(|l| l.strip_prefix("choices ")).unwrap_or(""));
            let p = prop(&id);
            let path = a[2].to_string();
            on_big_stack(move || {
                let (d, r) = describe(p, &v);
                println!("{}", d);
                match r {
                    Ok(()) => {
                        println!("passes");
                        0
                    }
                    Err(m) => {
                        println!("failure: {}", m);
                        println!("VIOLATION property={} replay={}", p.id, path);
                        1
                    }
                }
            })
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        _ => {
            eprintln!("usage: pbt run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
