use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use zokv::driver::*;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().map(|s| esc(&s)).collect::<Vec<_>>().join(", "))
}
fn fstr(x: &Fr) -> String {
    let b: num_bigint::BigUint = x.into_repr().into();
    b.to_string()
}

struct Known {
    property: String,
    case: String,
    label: String,
    text: String,
}
fn known(root: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        // property=<id> | case=<case> | label=<label> | <text>
        let p: Vec<&str> = l.splitn(4, " | ").collect();
        if p.len() == 4 {
            v.push(Known {
                property: p[0].trim_start_matches("property=").into(),
                case: p[1].trim_start_matches("case=").into(),
                label: p[2].trim_start_matches("label=").into(),
                text: p[3].into(),
            });
        }
    }
    v
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check(&a[2], a.get(3).map_or("quick", |s| s.as_str()))),
        Some("replay") => std::process::exit(replay_file(&a[2])),
        Some("list") => {
            for id in zokv::props::ids() {
                for t in [false, true] {
                    for c in zokv::props::cases(id, t).unwrap() {
                        println!("{} {} {}", id, if t { "thorough" } else { "quick" }, c.id());
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: zokv check <property> <quick|thorough> | replay <file> | list");
            std::process::exit(2);
        }
    }
}

fn replay_file(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut prop = String::new();
    let mut case = String::new();
    let mut label = String::new();
    let mut seed = 1u64;
    let mut assign = BTreeMap::new();
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            prop = x.into();
        } else if let Some(x) = l.strip_prefix("case ") {
            case = x.into();
        } else if let Some(x) = l.strip_prefix("label ") {
            label = x.into();
        } else if let Some(x) = l.strip_prefix("seed ") {
            seed = x.parse().unwrap();
        } else if let Some(x) = l.strip_prefix("var ") {
            let (n, v) = x.split_once(' ').unwrap();
            assign.insert(n.to_string(), v.parse::<Fr>().ok().expect("value"));
        }
    }
    let cs = zokv::props::cases(&prop, true).expect("property");
    let c = match cs.iter().find(|c| c.id() == case) {
        Some(c) => c,
        None => {
            println!("no such case: {}", case);
            return 2;
        }
    };
    let fails = run_big(|| replay(c.as_ref(), seed, &assign));
    for (l, d) in fails.iter() {
        println!("fails natively: {} ({})", l, d);
    }
    if fails.iter().any(|(l, _)| *l == label) {
        println!("reproduced: {} / {}", case, label);
        1
    } else {
        println!("not reproduced");
        0
    }
}
fn run_big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let root = std::env::var("ZOKV_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let mut cs = match zokv::props::cases(id, thorough) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    if let Ok(f) = std::env::var("ZOKV_ONLY") {
        cs.retain(|c| c.id().contains(&f));
    }
    let limit = std::env::var("ZOKV_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(
        if thorough { 3 * 3600 } else { 420 },
    );
    let cfg = Cfg {
        seed,
        thorough,
        deadline: t0 + Duration::from_secs(limit),
        query_limit: Duration::from_secs(if thorough { 300 } else { 60 }),
        verbose: std::env::var("ZOKV_VERBOSE").is_ok(),
        stop_on_failure: true,
    };
    let r = run_cases(&cs, &cfg);
    let kn = known(&root);
    let mut violations = 0;
    let mut known_hit = vec![];
    let mut unreproduced = vec![];
    let _ = std::fs::create_dir_all(format!("{}/replays", root));
    for (i, f) in r.failures.iter().enumerate() {
        let k = kn
            .iter()
            .find(|k| k.property == id && k.case == f.case && k.label == f.label);
        if let Some(k) = k {
            if known_hit.iter().all(|x: &String| *x != k.text) {
                println!("KNOWN-FINDING: property={} {} [{} / {}]", id, k.text, f.case, f.label);
                known_hit.push(k.text.clone());
            }
            continue;
        }
        if !f.reproduced {
            unreproduced.push(format!("{}/{}: {}", f.case, f.label, f.detail));
            continue;
        }
        let path = format!("{}/replays/{}-{}.txt", root, id, i);
        let mut t = format!(
            "# replay: {}/run.sh replay {}\nproperty {}\ncase {}\nlabel {}\nseed {}\n# {}\n",
            root, path, id, f.case, f.label, seed, f.detail.replace('\n', " ")
        );
        for (n, v) in f.assign.iter() {
            t.push_str(&format!("var {} {}\n", n, fstr(v)));
        }
        let _ = std::fs::write(&path, t);
        println!("  {} / {}: {}", f.case, f.label, f.detail);
        println!("VIOLATION property={} replay={}", id, path);
        violations += 1;
    }
    for u in r.inconclusive.iter().chain(unreproduced.iter()).take(20) {
        println!("UNDECIDED property={} {}", id, u);
    }
    let meta = zokv::props::meta(id);
    let obligations = r.goals + r.branch_obl + r.facts;
    let discharged = obligations
        .saturating_sub(r.inconclusive.len() + r.failures.len() + unreproduced.len());
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"other\",\n \"coverage\": {{\n  \"explanation\": {},\n  \"cases\": {}, \"paths_executed\": {}, \"paths_left_unexplored\": {},\n  \"goals\": {}, \"branch_obligations\": {}, \"facts\": {},\n  \"obligations\": {}, \"discharged\": {}, \"closed_by_rewriting\": {},\n  \"solver_queries\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"queries_by_solver\": {{{}}},\n  \"exact_splits\": {}, \"max_terms_in_query\": {}, \"terms_built\": {}, \"field_operations_executed\": {},\n  \"symbolic_variables\": {}, \"generic_branches\": {}, \"divisions\": {},\n  \"undecided\": {}, \"known_findings\": {},\n  \"functions\": {},\n  \"bounds\": {},\n  \"cases_run\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed, esc(meta.how),
        r.cases, r.paths, r.unexplored,
        r.goals, r.branch_obl, r.facts, obligations, discharged, r.rewritten,
        r.queries, r.solver_ms as f64 / 1000.0, r.max_ms as f64 / 1000.0,
        r.by_solver.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "),
        r.splits, r.max_nodes, r.terms, r.ops, r.vars, r.generic_branches, r.inverted,
        list(r.inconclusive.iter().cloned().chain(unreproduced.iter().cloned()).take(20)),
        list(known_hit.iter().cloned()),
        list(meta.functions.iter().map(|s| s.to_string())),
        list(meta.bounds.iter().map(|s| s.to_string()).chain(r.bounds.iter().cloned())),
        list(cs.iter().map(|c| c.id())),
        list(r.samples.iter().cloned()),
        list(zokv::props::ASSUMPTIONS.iter().map(|s| s.to_string()).chain(meta.assumptions.iter().map(|s| s.to_string()))),
        wall, violations
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, id), ev).expect("evidence");
    println!(
        "{} {}: {} cases, {} paths, {} obligations ({} by rewriting, {} solver queries, {:.1}s solver), {} undecided, {} known, {} violations, {:.1}s",
        id, tier, r.cases, r.paths, obligations, r.rewritten, r.queries,
        r.solver_ms as f64 / 1000.0, r.inconclusive.len() + unreproduced.len(),
        known_hit.len(), violations, wall
    );
    (violations > 0) as i32
}
