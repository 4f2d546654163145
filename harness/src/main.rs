mod dbg;
mod derive;
mod engine;
mod gen;
mod model;
mod mutate;
mod print;
mod props_text;
mod props_tools;
mod props_tree;
mod rng;
mod shrink;
mod sys;
mod checks;

use engine::*;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: Counting = Counting;

fn path_var(name: &str, default: &str) -> PathBuf {
    PathBuf::from(std::env::var(name).unwrap_or_else(|_| default.to_string()))
}

fn places() -> Places {
    let me = path_var("MON_ME", "");
    Places {
        verif: path_var("MON_VERIF", "/verif"),
        bins: path_var("MON_BINS", "/verif/work/bins"),
        me: if me.as_os_str().is_empty() { std::env::current_exe().unwrap() } else { me },
        asan: path_var("MON_ASAN", "/verif/target/asan/x86_64-unknown-linux-gnu/release/mon"),
        tsan: path_var("MON_TSAN", "/verif/target/tsan/x86_64-unknown-linux-gnu/release/mon"),
        scratch: path_var("MON_SCRATCH", "/tmp/mon-scratch"),
        work: path_var("MON_WORK", "/verif/work/run"),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|n| n as u64).unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn replay_path(places: &Places, id: &str) -> PathBuf {
    places.verif.join("work/replay").join(format!("{}.json", id))
}

fn write_replay(places: &Places, id: &str, vs: &[Violation]) -> PathBuf {
    let p = replay_path(places, id);
    let list: Vec<String> = vs
        .iter()
        .map(|v| {
            format!(
                "    {{\n      \"stream\": {},\n      \"case\": {},\n      \"why\": {},\n      \"source\": {},\n      \"expected\": {},\n      \"got\": {}\n    }}",
                json_str(&v.stream),
                v.case,
                json_str(&v.why),
                json_str(&v.source),
                json_str(&v.expected),
                json_str(&v.got)
            )
        })
        .collect();
    let t = format!(
        "{{\n  \"property\": {},\n  \"seed\": {},\n  \"tier\": {},\n  \"rerun\": \"VERIF_SEED={} VERIF_TIER={} ONLY_STREAM=<stream> ONLY_CASE=<case> ./run.sh {}\",\n  \"violations\": [\n{}\n  ]\n}}\n",
        json_str(id),
        seed() as i64,
        json_str(if thorough() { "thorough" } else { "quick" }),
        seed() as i64,
        if thorough() { "thorough" } else { "quick" },
        id,
        list.join(",\n")
    );
    let _ = write_atomically(&p, &t);
    p
}

fn show(v: &Violation) {
    let short = |s: &str| s.chars().take(1500).collect::<String>();
    println!("--- {} (stream {}, case {})", v.why, v.stream, v.case);
    println!("{}", short(&v.source));
    println!("expected: {}", short(&v.expected));
    println!("got:      {}", short(&v.got));
}

fn evidence(places: &Places, c: &Check, o: &Outcome) {
    let s = &o.stats;
    let counts: Vec<String> = s.counts.iter().map(|(k, v)| format!("      {}: {}", json_str(k), v)).collect();
    let streams: Vec<String> = s.per_stream.iter().map(|(k, v)| format!("      {}: {}", json_str(k), v)).collect();
    let samples: Vec<String> = s.samples.iter().flat_map(|(k, v)| v.iter().map(move |x| format!("      {}", json_str(&format!("[{}]\n{}", k, x))))).collect();
    let assumptions: Vec<String> = checks::COMMON.iter().chain(c.assumptions.iter()).map(|a| format!("    {}", json_str(a))).collect();
    let t = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"planned_cases_completed\": {},\n    \"cases_per_stream\": {{\n{}\n    }},\n    \"observed\": {{\n{}\n    }},\n    \"samples\": [\n{}\n    ]\n  }},\n  \"assumptions\": [\n{}\n  ],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json_str(c.id),
        json_str(if thorough() { "thorough" } else { "quick" }),
        seed() as i64,
        s.evaluations,
        s.distinct.len(),
        json_str(c.rule),
        o.complete,
        streams.join(",\n"),
        counts.join(",\n"),
        samples.join(",\n"),
        assumptions.join(",\n"),
        o.wall,
        o.violations.len()
    );
    write_atomically(&places.verif.join("evidence").join(format!("{}.json", c.id)), &t).expect("evidence");
}

fn work(id: &str) -> i32 {
    let places = places();
    let list = checks::checks();
    let c = match list.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            println!("no such check: {}", id);
            return 2;
        }
    };
    std::fs::create_dir_all(&places.work).expect("work folder");
    let only = match (std::env::var("ONLY_STREAM"), std::env::var("ONLY_CASE")) {
        (Ok(s), Ok(c)) => c.parse().ok().map(|c| (s, c)),
        _ => None,
    };
    let cap = std::env::var("MON_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 720 } else { 150 });
    let o = run(c, seed(), thorough(), only, &places, Duration::from_secs(cap));
    evidence(&places, c, &o);
    println!("{}: {} evaluations, {} distinct, {:.1} s{}", c.id, o.stats.evaluations, o.stats.distinct.len(), o.wall, if o.complete { "" } else { " (time was up before all planned cases)" });
    println!("{:?} {:?}", o.stats.per_stream, o.stats.counts);
    for k in &o.known {
        println!("KNOWN-FINDING: property={} {}", c.id, k);
    }
    let mut v = o.violations;
    v.sort_by_key(|x| x.source.len());
    if !v.is_empty() {
        let p = write_replay(&places, c.id, &v);
        for x in v.iter().take(std::env::var("SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(2)) {
            show(x);
        }
        println!("VIOLATION property={} replay={}", c.id, p.display());
        return 1;
    }
    for i in &o.inconclusive {
        println!("INCONCLUSIVE: {}", i);
    }
    if !o.inconclusive.is_empty() || o.stats.evaluations == 0 || o.stats.distinct.is_empty() {
        return 2;
    }
    0
}

/// Runs the check in a process of its own, and looks into it if that process dies.
fn check(id: &str) -> i32 {
    let places = places();
    let started = Instant::now();
    let me = std::env::current_exe().unwrap();
    let _ = std::fs::remove_dir_all(&places.work);
    std::fs::create_dir_all(&places.work).expect("work folder");
    let status = Command::new(&me).arg("work").arg(id).status().expect("worker");
    match status.code() {
        Some(c @ 0..=2) => return c,
        _ => {}
    }
    println!("the worker ended with {}", status);
    let mut vs = vec![];
    for (k, t) in slots(&places.work).into_iter().enumerate() {
        let f = places.work.join(format!("suspect-{}", k));
        if std::fs::write(&f, &t).is_err() {
            continue;
        }
        let s = Command::new(&me).arg("one").arg(&f).output().expect("one");
        if let Some(sig) = s.status.signal() {
            vs.push(Violation {
                stream: "crash".to_string(),
                case: k as u64,
                why: format!("the parser was ended by signal {}", sig),
                source: t,
                expected: "a tree or an error".to_string(),
                got: String::from_utf8_lossy(&s.stderr).chars().take(2000).collect(),
            });
        }
    }
    if vs.is_empty() {
        println!("INCONCLUSIVE: no text could be found that ends the parser");
        return 2;
    }
    let list = checks::checks();
    if let Some(c) = list.iter().find(|c| c.id == id) {
        let mut stats = Stats::default();
        stats.evaluations = vs.len() as u64;
        for v in &vs {
            stats.distinct.insert(hash(&v.source));
            stats.samples.entry("crash".to_string()).or_default().push(v.source.clone());
        }
        let o = Outcome { violations: vs.clone(), known: vec![], inconclusive: vec![], stats, complete: false, wall: started.elapsed().as_secs_f64() };
        evidence(&places, c, &o);
    }
    let p = write_replay(&places, id, &vs);
    show(&vs[0]);
    println!("VIOLATION property={} replay={}", id, p.display());
    1
}

fn one(file: &str) {
    let t = std::fs::read_to_string(Path::new(file)).expect("text");
    let o = on_big_stack(move || {
        exit_on_limit(CASE_LIMIT);
        elm_parser::verif::parse(&t)
    });
    println!("{}", o);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |k: usize| args.get(k).map(|s| &s[..]).unwrap_or("");
    let code = match arg(1) {
        "check" => check(arg(2)),
        "work" => work(arg(2)),
        "one" => {
            one(arg(2));
            0
        }
        "sealed" => {
            props_tools::sealed(arg(2));
            0
        }
        "batch" => {
            props_tools::batch(arg(2), arg(3).parse().unwrap_or(1));
            0
        }
        "list" => {
            for c in checks::checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            println!("usage: mon check ID | work ID | one FILE | list");
            2
        }
    };
    std::process::exit(code);
}
