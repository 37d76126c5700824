#![allow(clippy::too_many_arguments, clippy::type_complexity)]
mod choices;
mod corpus;
mod ctx;
mod describe;
mod env;
mod json;
mod observe;
mod relocs;
mod runner;
mod sc_archive;
mod sc_build;
mod sc_bulk;
mod elfgen;
mod sc_cache;
mod sc_compress;
mod sc_lookup;
mod sc_macho;
mod sc_dyn;
mod sc_emit;
mod sc_golden;
mod elfmodel;
mod machomodel;
mod sc_pe;
mod sc_read;
mod sc_rewrite;
mod sc_write;
mod simio;
mod sp_elf;
mod sp_macho;
mod sp_pe;
mod sp_xcoff;
mod verify;
mod view;

use std::path::{Path, PathBuf};

fn props() -> Vec<runner::Prop> {
    let mut v = Vec::new();
    sc_write::props(&mut v);
    sc_emit::props(&mut v);
    sc_dyn::props(&mut v);
    sc_pe::props(&mut v);
    sc_build::props(&mut v);
    sc_macho::props(&mut v);
    sc_compress::props(&mut v);
    sc_lookup::props(&mut v);
    sc_archive::props(&mut v);
    sc_read::props(&mut v);
    sc_rewrite::props(&mut v);
    sc_cache::props(&mut v);
    sc_golden::props(&mut v);
    v.sort_by_key(|p| p.id);
    v
}

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let mut props = props();
    // for development: only one scenario
    if let Ok(only) = std::env::var("SIM_ONLY") {
        props.iter_mut().for_each(|p| p.scenarios.retain(|s| s.0 == only));
    }
    let code = match a.first().map(|s| s.as_str()) {
        // check ID TIER SEED ROOT [SECS] [LANES] [MAX_RUNS]
        Some("check") => {
            let lanes = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8);
            runner::check(
                &props, &arg(1), &arg(2), num(3, 1), Path::new(&arg(4)), a.get(5).and_then(|s| s.parse().ok()), num(6, lanes),
                num(7, u64::MAX),
            )
        }
        // worker ID seed lane lanes secs max_runs DIR ROOT
        Some("worker") => match props.iter().find(|p| p.id == arg(1)) {
            Some(p) => {
                let known: Vec<String> = runner::load_known(Path::new(&arg(8)))
                    .into_iter().filter(|k| k.property == p.id && !k.fixed).map(|k| k.class).collect();
                runner::worker(p, num(2, 1), num(3, 0), num(4, 1), num(5, 10), &PathBuf::from(arg(7)), &known, num(6, u64::MAX));
                0
            }
            None => 2,
        },
        Some("replay") => runner::replay(&props, Path::new(&arg(1))),
        Some("exec") => runner::exec(&props, Path::new(&arg(1))),
        Some("minimise") => runner::minimise_child(&props, Path::new(&arg(1)), num(2, 30), Path::new(&arg(3))),
        Some("dump-map") => {
            relocs::dump_map();
            0
        }
        Some("golden") => {
            sc_golden::make(&arg(1), &arg(2));
            0
        }
        Some("macho-list") => { sc_macho::list(); 0 }
        Some("elf-list") => { sc_build::list(); 0 }
        Some("list") => {
            for p in &props {
                println!("{} {}", p.id, p.scenarios.iter().map(|s| s.0).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|list ...");
            2
        }
    };
    std::process::exit(code);
}
