mod campaign;
mod gen;
mod gram;
mod monitor;
mod p_conflict;
mod p_core;
mod p_diag;
mod p_env;
mod p_generic;
mod p_group;
mod p_name;
mod p_nostd;
mod p_report;
mod p_size;
mod miri;
mod p_inst;
mod props;
mod report;
mod rng;
mod spec;
mod subject;

use campaign::*;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: vh <property> quick|thorough | vh replay <file>");
        std::process::exit(2);
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    let sub = match subject::Subject::new(&a[1]) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot build the crate under test: {}", e);
            std::process::exit(2);
        }
    };
    if a[1] == "battery" {
        // vh battery C01,C02,..: several checks with one build (for experiments; no evidence, no replay files)
        let mut ctl = Ctl { sub, prop: String::new(), tier: "quick".into(), seed, start, stop: Default::default() };
        for p in a[2].split(',') {
            ctl.prop = p.into();
            ctl.stop = Default::default();
            let t = Instant::now();
            let r = props::run(&ctl);
            let s = t.elapsed().as_secs();
            match r {
                Err(e) => println!("{} error {}s {}", p, s, e.lines().next().unwrap_or("")),
                Ok(o) if o.acc.fails.is_empty() => println!("{} quiet {}s", p, s),
                Ok(o) => {
                    let f = &o.acc.fails[0];
                    println!("{} VIOLATED {}s [{}] {}", p, s, f.cat, f.msg.lines().next().unwrap_or(""));
                    if std::env::var("VH_FIRST").is_ok() {
                        break;
                    }
                }
            }
        }
        ctl.sub.cleanup();
        return;
    }
    let ctl = Ctl { sub, prop: a[1].clone(), tier: a[2].clone(), seed, start, stop: Default::default() };
    let code = if a[1] == "replay" { replay(&ctl, &a[2]) } else {
        match props::run(&ctl) {
            Ok(o) => report::finish(&ctl, o),
            Err(e) => {
                println!("no verdict: {}", e);
                2
            }
        }
    };
    if std::env::var("VH_KEEP").is_err() {
        ctl.sub.cleanup();
    }
    std::process::exit(code);
}
fn replay(ctl: &Ctl, file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let src = t.split("----- source\n").nth(1).and_then(|s| s.split("\n----- events").next()).unwrap_or("").to_string();
    let plan: Option<Vec<u32>> = t
        .lines()
        .find_map(|l| l.strip_prefix("plan "))
        .map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect());
    let id: u32 = src
        .split("pub mod g")
        .nth(1)
        .and_then(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
        .unwrap_or(0);
    let u = [subject::Unit { id, text: src }];
    match ctl.sub.build_bins(&u, &subject::Opts::default()) {
        Err(e) => {
            println!("{}", e);
            2
        }
        Ok((bins, errs)) => {
            for e in &errs {
                println!("does not build: {:?} {}", e.kind, e.msg);
            }
            if let (Some(b), Some(p)) = (bins.first(), plan) {
                let mut q = 4;
                let mut take = |n: usize| {
                    let v = p[q..q + n].to_vec();
                    q += n;
                    v
                };
                let mut vecs = vec![];
                for _ in 0..3 {
                    let n = take(1)[0] as usize;
                    vecs.push(take(n));
                }
                let r = monitor::Run { flags: p[2], syn: vecs[0].clone(), fail: vecs[1].clone(), ops: vecs[2].clone() };
                // header: count, then grammar, flags
                let r = monitor::Run { flags: p[2], ..r };
                match ctl.sub.run_bin(&b.path, &[(id, r)], 60) {
                    Ok(x) => {
                        if let Some(s) = x.stuck {
                            println!("{}", s.2);
                        }
                        if let Some(Some(l)) = x.logs.first() {
                            println!("{}", show_log(l));
                        }
                    }
                    Err(e) => println!("{}", e),
                }
            }
            0
        }
    }
}
