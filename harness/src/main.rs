mod alloc;
mod engine;
mod ffi;
mod gen;
mod model;
mod ops;
mod props;
mod sut;
mod tape;

use engine::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf());
    unsafe { ffi::ref_ebur128_libinit() };
    let arg = |i: usize| a.get(i).cloned().unwrap_or_else(|| usage());
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| usage());
    let find = |id: &str| props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    let cmd = arg(1);
    if cmd != "check" && cmd != "list" {
        install_panic_hook();
    }
    match cmd.as_str() {
        "list" => props::ALL.iter().for_each(|p| println!("{}\t{}", p.id, p.technique)),
        "check" => {
            install_panic_hook();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let o = Opts { id: arg(2), tier: arg(3), seed, root };
            let mut extra = vec![];
            if let Ok(f) = std::env::var("VERIF_EXTRA") {
                for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
                    if let Some((k, v)) = l.split_once('=') {
                        if let Ok(v) = v.parse() {
                            extra.push((k.to_string(), v));
                        }
                    }
                }
            }
            std::process::exit(check(find(&o.id), &o, &extra));
        }
        "worker" => {
            let o = Opts { id: arg(2), tier: arg(3), seed: num(4), root };
            worker(find(&o.id), &o, num(5), num(6), &PathBuf::from(arg(7)), num(8));
        }
        "shrink" => shrink_cmd(find(&arg(2)), &PathBuf::from(arg(3)), &PathBuf::from(arg(4)), arg(5) == "thorough"),
        "exec" => {
            let data = parse_tape(&std::fs::read_to_string(arg(3)).expect("tape file"));
            std::process::exit(exec_cmd(find(&arg(2)), data, arg(4) == "thorough"));
        }
        "gentape" => {
            let o = Opts { id: arg(2), tier: arg(3), seed: num(4), root };
            gentape(find(&o.id), &o, num(5), &PathBuf::from(arg(6)));
        }
        "describe" => {
            let o = Opts { id: arg(2), tier: arg(3), seed: num(4), root };
            describe_cmd(find(&o.id), &o, num(5));
        }
        "solo" => {
            let mut s = String::new();
            use std::io::Read;
            std::io::stdin().read_to_string(&mut s).expect("tape");
            println!("{}", props::c18::solo(parse_tape(&s)));
        }
        "replay" => {
            let txt = std::fs::read_to_string(arg(2)).expect("replay file");
            let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            let code = exec_cmd(find(&get("property")), parse_tape(&get("tape")), get("tier") == "thorough");
            std::process::exit(code);
        }
        _ => {
            usage::<()>();
        }
    }
}

fn usage<T>() -> T {
    eprintln!("usage: ebur128-verif check ID quick|thorough | replay FILE | list");
    std::process::exit(2)
}
