#![allow(clippy::all)]
#![cfg_attr(feature = "unsized", feature(unsize, coerce_unsized))]
mod canning;
#[cfg(feature = "diagnostics")]
mod docs;
#[cfg(feature = "diagnostics")]
mod dot;
mod flavors;
#[cfg(feature = "diagnostics")]
mod handles;
#[cfg(feature = "diagnostics")]
mod handles_far;
mod history;
mod ids;
mod nested;
mod pbt;
mod quarantine;
mod scale;
mod shapes;

#[global_allocator]
static ALLOC: quarantine::Quarantine = quarantine::Quarantine;

mod props;
#[cfg(feature = "unsized")]
mod supers;
mod threads;
mod utils;
mod world;

use pbt::{CaseCfg, RunCfg, Source};
use std::fmt::Write as _;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn flag(name: &str) -> bool {
    std::env::args().any(|x| x == name)
}
fn num(name: &str, def: u64) -> u64 {
    arg(name).map_or(def, |s| s.parse().expect(name))
}

fn main() {
    pbt::install_hook();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let prop = arg("--prop").unwrap_or_default();
    match cmd.as_str() {
        "run" => {
            let f = props::case_fn(&prop).expect("unknown property");
            let cfg = RunCfg {
                prop: prop.clone(),
                seed: num("--seed", 1),
                from: num("--from", 0),
                cases: num("--cases", 1000),
                threads: num("--threads", 8) as usize,
                time_limit: Duration::from_secs(num("--time", 600)),
                thorough: flag("--thorough"),
                status_file: arg("--status"),
                digests: flag("--digests"),
            };
            let o = pbt::run(f, &cfg);
            if let Some(p) = arg("--keys") {
                let b: Vec<u8> = o.keys.iter().flat_map(|k| k.to_le_bytes()).collect();
                std::fs::write(p, b).unwrap();
            }
            let mut j = String::from("{");
            let _ = write!(
                j,
                "\"evaluations\":{},\"discarded\":{},\"ops\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},",
                o.evaluations, o.discarded, o.ops, o.nontrivial, o.distinct_nontrivial
            );
            let l: Vec<String> = o.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
            let _ = write!(j, "\"labels\":{{{}}},", l.join(","));
            let s: Vec<String> = o.samples.iter().map(|s| esc(s)).collect();
            let _ = write!(j, "\"samples\":[{}],", s.join(","));
            let d: Vec<String> = o.digests.iter().map(|(i, d)| format!("[{},\"{:x}\"]", i, d)).collect();
            let _ = write!(j, "\"digests\":[{}],", d.join(","));
            match &o.failure {
                None => j.push_str("\"failure\":null"),
                Some(f) => {
                    let c: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
                    let _ = write!(
                        j,
                        "\"failure\":{{\"case\":{},\"msg\":{},\"choices\":[{}],\"trace\":{},\"shrink_evaluations\":{}}}",
                        f.index,
                        esc(&f.msg),
                        c.join(","),
                        esc(&f.trace),
                        f.shrink_evals
                    );
                }
            }
            j.push('}');
            match arg("--out") {
                Some(p) => std::fs::write(p, j).unwrap(),
                None => {
                    println!(
                        "{} cases, {} ops, {} non-trivial, {} distinct",
                        o.evaluations, o.ops, o.nontrivial, o.distinct_nontrivial
                    );
                    println!("{:?}", o.labels);
                    if flag("-v") {
                        for s in &o.samples {
                            println!("{}", s);
                        }
                    }
                    if let Some(f) = &o.failure {
                        println!("FAIL case {}: {}\n{}\nchoices {:?}", f.index, f.msg, f.trace, f.choices);
                    }
                }
            }
            std::process::exit(if o.failure.is_some() { 1 } else { 0 });
        }
        // Runs one case: by its index, or by its choices.
        "case" => {
            let f = props::case_fn(&prop).expect("unknown property");
            let tries = num("--tries", 20);
            let cfg = CaseCfg { prop: prop.clone(), want_trace: true, thorough: flag("--thorough"), only: None, no_reuse: false, ablate: "" };
            let mut last = None;
            for _ in 0..tries {
                let mut src = match arg("--choices") {
                    Some(c) => Source::replay(
                        c.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect(),
                    ),
                    None => Source::random(pbt::case_seed(num("--seed", 1), &prop, num("--index", 0))),
                };
                let th = std::thread::Builder::new().stack_size(pbt::STACK);
                let o = std::thread::scope(|s| {
                    th.spawn_scoped(s, || pbt::run_one(f, &mut src, &cfg)).unwrap().join().unwrap()
                });
                let bad = o.fail.is_some();
                last = Some(o);
                if bad {
                    break;
                }
            }
            let o = last.unwrap();
            println!("{}", o.trace);
            println!("digest {:x}", o.digest);
            match o.fail {
                Some(m) => {
                    println!("FAIL {}", m);
                    std::process::exit(1);
                }
                None => println!("ok"),
            }
        }
        _ => {
            for p in props::all() {
                println!("{}", p);
            }
        }
    }
}
