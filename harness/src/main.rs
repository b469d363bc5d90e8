#![allow(dead_code)]
mod checks;
mod client;
mod explore;
mod refs;
mod server;
mod world;

use checks::{check, Tier};
use explore::*;
use std::time::{Duration, Instant};

#[cfg(feature = "rt-tokio")]
const RT: &str = "tokio";
#[cfg(feature = "rt-async-std")]
const RT: &str = "async-std";

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn vjson(v: &Violation) -> String {
    format!("{{\"runtime\":{},\"job\":{},\"choices\":{:?},\"key\":{},\"message\":{}}}", esc(RT), esc(&v.job), v.choices, esc(&v.key), esc(&v.msg))
}

fn main() {
    // error values capture backtraces (behind a global lock) if these are set
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "solo" {
        println!("{}", checks::parallel::solo(&a[2]));
        return;
    }
    let usage = || -> ! {
        eprintln!("usage: mc check ID TIER OUT.json | mc replay ID TIER JOB CHOICES(comma) | mc dump ID TIER JOB | mc jobs ID TIER");
        std::process::exit(2)
    };
    if a.len() < 4 {
        usage();
    }
    let tier = match a[3].as_str() {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => usage(),
    };
    let Some(c) = check(&a[2], tier) else { usage() };
    match a[1].as_str() {
        "jobs" => {
            for j in &c.jobs {
                println!("{}", j.name);
            }
        }
        "check" => {
            let out = a.get(4).cloned().unwrap_or_else(|| usage());
            let cap: u64 = std::env::var("MC_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(300, 3600));
            let t0 = Instant::now();
            let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
            let lim = Limits { deadline: t0 + Duration::from_secs(cap), max_violations: 12, threads, max_exec_s: tier.pick(240, 3000) };
            let by_name: std::collections::HashMap<String, Job> = c.jobs.iter().map(|j| (j.name.clone(), j.clone())).collect();
            assert_eq!(by_name.len(), c.jobs.len(), "job names must be unique");
            let out2 = out.clone();
            let rule = c.rule;
            let mut tot = run_jobs(c.jobs, &lim, move |v| {
                let s = format!("{{\"runtime\":{},\"stuck\":true,\"violations\":[{}]}}", esc(RT), vjson(&v));
                let _ = std::fs::write(&out2, s);
                std::process::exit(3);
            });
            // every violation must replay
            let mut vs = vec![];
            for v in &tot.violations {
                let j = &by_name[&v.job];
                let r1 = replay(j, &v.choices);
                let r2 = replay(j, &v.choices);
                match (r1, r2) {
                    (Ok((Some((k1, _)), h1, _)), Ok((Some((k2, _)), h2, _))) if k1 == v.key && k2 == v.key && h1 == h2 => vs.push(vjson(v)),
                    // Client and environment are new in every execution and deterministic: what makes a
                    // repetition differ is state the library keeps in the process.
                    (Ok((x, _, _)), Ok((y, _, _))) => vs.push(vjson(&Violation {
                        msg: format!("{} (depends on what ran before in the process; repeated: {x:?} / {y:?})", v.msg),
                        ..v.clone()
                    })),
                    (x, y) => tot.engine_errors.push(format!("violation does not replay: {v:?}: {x:?} / {y:?}")),
                }
            }
            let mut all = Fnv::default();
            use std::hash::Hasher;
            let jo: Vec<String> = tot
                .job_obs
                .iter()
                .map(|(n, e, h)| {
                    all.write(n.as_bytes());
                    all.write_u64(*h);
                    format!("[{},{},{}]", esc(n), e, esc(&format!("{h:016x}")))
                })
                .collect();
            let s = format!(
                "{{\"runtime\":{},\"wall_s\":{:.3},\"executions\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"inner\":{},\"states\":{},\"transitions\":{},\"distinct_observations\":{},\"jobs\":{},\"capped\":{},\"rule\":{},\"samples\":[{}],\"violations\":[{}],\"engine_errors\":[{}],\"job_obs\":[{}]}}",
                esc(RT),
                t0.elapsed().as_secs_f64(),
                tot.executions,
                tot.evaluations,
                tot.nontrivial,
                tot.inner,
                tot.states,
                tot.transitions,
                tot.distinct_obs,
                tot.jobs,
                tot.capped,
                esc(rule),
                tot.samples.iter().take(6).map(|s| esc(s)).collect::<Vec<_>>().join(","),
                vs.join(","),
                tot.engine_errors.iter().take(5).map(|s| esc(s)).collect::<Vec<_>>().join(","),
                jo.join(",")
            );
            if std::fs::write(&out, s).is_err() {
                std::process::exit(2);
            }
        }
        "replay" | "dump" => {
            let name = a.get(4).cloned().unwrap_or_else(|| usage());
            let Some(j) = c.jobs.iter().find(|j| j.name == name) else {
                eprintln!("no such job");
                std::process::exit(2)
            };
            if a[1] == "dump" {
                dump(j, |c, h, n| println!("{c:?} {h:016x} {n}"));
                return;
            }
            let choices: Vec<u32> = a.get(5).map(|s| s.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.trim().parse().ok()).collect()).unwrap_or_default();
            match replay(j, &choices) {
                Err(e) => {
                    eprintln!("engine error: {e}");
                    std::process::exit(2)
                }
                Ok((Some((k, m)), h, n)) => {
                    println!("VIOLATED [{k}] {m}\n  note: {n}\n  observation {h:016x}");
                    std::process::exit(1)
                }
                Ok((None, h, n)) => println!("held; note: {n}; observation {h:016x}"),
            }
        }
        _ => usage(),
    }
}
