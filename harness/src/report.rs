//! Runs the parts of one property's check, writes its evidence, reports.

use crate::explore::{self, Driver, Limits, Stats};
use crate::{props, Tier};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::{Duration, Instant};

type Runner = Box<dyn Fn(&Limits, &(dyn Fn(&str) -> bool + Sync)) -> Stats + Send + Sync>;

pub struct Part {
    pub name: &'static str,
    pub driver: Driver,
    pub bound: u32,
    /// outcome classes that must be reached, or the part is vacuous
    pub expect: &'static [&'static str],
    /// own explorer; `driver` then only replays
    pub runner: Option<Runner>,
}

impl Part {
    /// Full product over the choices, no deviation bound.
    pub fn full(
        name: &'static str,
        expect: &'static [&'static str],
        driver: impl Fn(&mut explore::Ctx) -> explore::Res + Send + Sync + 'static,
    ) -> Part {
        Part { name, driver: Box::new(driver), bound: u32::MAX, expect, runner: None }
    }

    pub fn bounded(
        name: &'static str,
        bound: u32,
        expect: &'static [&'static str],
        driver: impl Fn(&mut explore::Ctx) -> explore::Res + Send + Sync + 'static,
    ) -> Part {
        Part { name, driver: Box::new(driver), bound, expect, runner: None }
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// site -> what fails, for this property.
fn known_findings(id: &str) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    let path = root().join("known_findings.txt");
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) if e.kind() == std::io::ErrorKind::NotFound => return Ok(m),
        Err(e) => return Err(format!("{}: {e}", path.display())),
    };
    for l in text.lines() {
        let Some(l) = l.strip_prefix(&format!("known: property={id} site=")) else {
            continue;
        };
        let (site, what) = l.split_once(" what=").ok_or(format!("bad known finding: {l}"))?;
        m.insert(site.to_owned(), what.to_owned());
    }
    Ok(m)
}

pub fn run(id: &str, tier: Tier) -> i32 {
    let start = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(parts) = props::parts(id, tier) else {
        eprintln!("check error: unknown property {id}");
        return 2;
    };
    let known = match known_findings(id) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("check error: {e}");
            return 2;
        }
    };
    let is_known = |s: &str| known.contains_key(s);
    let threads = std::thread::available_parallelism().map_or(4, std::num::NonZeroUsize::get);
    let budget = Duration::from_secs(tier.pick(420, 780));
    let mut parts_json = vec![];
    let mut samples: Vec<Value> = vec![];
    let (mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64);
    let mut exhaustive = true;
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<String> = None;
    let mut error: Option<String> = None;
    for part in &parts {
        let t = Instant::now();
        let left = budget.saturating_sub(start.elapsed());
        let limits = Limits { wall: left, threads };
        let hang = |choices: &[u32]| {
            let path = write_replay(id, tier, part, choices, "hang", "an execution did not return within 60 s", &[], true);
            println!("property={id} part={}: an execution did not return within 60 s", part.name);
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        };
        let st = match &part.runner {
            Some(r) => r(&limits, &is_known),
            None => explore::explore(&part.driver, part.bound, &limits, &is_known, &hang),
        };
        states += st.nodes;
        transitions += st.calls;
        traces += st.executions;
        exhaustive &= !st.capped;
        for (k, v) in &st.known {
            *seen_known.entry(k.clone()).or_default() += v;
        }
        if let Some(e) = st.error {
            error = Some(format!("{}: {e}", part.name));
            break;
        }
        println!(
            "{id} {}: {} executions, {} states, {} transitions, {:.1}s{}",
            part.name,
            st.executions,
            st.nodes,
            st.calls,
            t.elapsed().as_secs_f64(),
            if st.capped { " (stopped by the time budget)" } else { "" }
        );
        let mut outcomes = BTreeMap::new();
        for (class, (n, choices)) in &st.outcomes {
            outcomes.insert(class.clone(), *n);
            if samples.len() < 24 && st.found.is_none() {
                let (_, labels) = explore::replay(&part.driver, choices);
                samples.push(json!({"part": part.name, "outcome": class, "choices": labels}));
            }
        }
        parts_json.push(json!({
            "part": part.name,
            "executions": st.executions,
            "states": st.nodes,
            "transitions": st.calls,
            "deviation_bound": if part.bound == u32::MAX { Value::Null } else { json!(part.bound) },
            "exhaustive_within_bounds": !st.capped && st.found.is_none(),
            "outcomes": outcomes,
        }));
        if let Some(f) = &st.found {
            if !f.reproducible {
                println!(
                    "{id} {}: this failure did not come back when the execution was repeated in the same process: it depends on earlier calls",
                    part.name
                );
            }
            println!("{id} {}: {}", part.name, f.problem.detail);
            for l in &f.labels {
                println!("    {l}");
            }
            let path = write_replay(
                id, tier, part, &f.choices, &f.problem.site, &f.problem.detail, &f.labels, false,
            );
            violation = Some(path);
            break;
        }
        if !st.capped && !outcomes.contains_key(crate::scn::OUTSIDE) {
            for want in part.expect {
                if !outcomes.contains_key(*want) && !st.known.keys().any(|k| k == want) {
                    error = Some(format!("{}: vacuous, outcome '{want}' never reached", part.name));
                }
            }
        }
        if error.is_some() {
            break;
        }
    }
    for (site, n) in &seen_known {
        println!("KNOWN-FINDING: property={id} {} [{n} executions, site {site}]", known[site]);
    }
    let evidence = json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": transitions,
            "traces_validated_against_impl": traces - seen_known.values().sum::<u64>(),
            "traces_matching_known_findings": seen_known.values().sum::<u64>(),
            "exhaustive": exhaustive && violation.is_none() && error.is_none(),
            "parts": parts_json,
            "samples": samples,
            "counting": "states: nodes of the explored choice tree (or distinct protocol states for the breadth-first part); transitions: calls into the implementation; traces: complete executions of the real code whose every observation agreed with the reference model",
        },
        "assumptions": [
            "the virtual clock replaces the C clock_gettime symbol for the code under test (self-tested at start)",
            "inputs outside the enumerated alphabets and bounds are not covered",
            "ssi-dids, ssi-jwk, chrono, serde_json and base64 are used as shipped",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": i32::from(violation.is_some()),
    });
    let dir = root().join("evidence");
    let write = std::fs::create_dir_all(&dir).and_then(|()| {
        std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n")
    });
    if let Err(e) = write {
        eprintln!("check error: cannot write evidence: {e}");
        return 2;
    }
    if let Some(e) = error {
        eprintln!("check error: {e}");
        return 2;
    }
    if let Some(p) = violation {
        println!("VIOLATION property={id} replay={p}");
        return 1;
    }
    println!("{id}: held on everything explored ({traces} executions, {:.1}s)", start.elapsed().as_secs_f64());
    0
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    id: &str,
    tier: Tier,
    part: &Part,
    choices: &[u32],
    site: &str,
    detail: &str,
    labels: &[String],
    hang: bool,
) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = (0..)
        .map(|n| dir.join(format!("{id}-{n}.json")))
        .find(|p| !p.exists())
        .expect("a free name");
    let v = json!({"property": id, "tier": tier.name(), "part": part.name, "choices": choices,
        "site": site, "detail": detail, "trace": labels, "hang": hang});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    path.display().to_string()
}

pub fn replay(file: &str) -> i32 {
    let go = || -> Result<i32, String> {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(file).map_err(|e| e.to_string())?)
            .map_err(|e| e.to_string())?;
        let id = v["property"].as_str().ok_or("no property")?;
        let tier = Tier::parse(v["tier"].as_str().unwrap_or("")).ok_or("no tier")?;
        let part = v["part"].as_str().ok_or("no part")?;
        let choices: Vec<u32> = v["choices"]
            .as_array()
            .ok_or("no choices")?
            .iter()
            .map(|x| x.as_u64().unwrap_or(0) as u32)
            .collect();
        let parts = props::parts(id, tier).ok_or("unknown property")?;
        let p = parts.iter().find(|p| p.name == part).ok_or("unknown part")?;
        let (r, labels) = explore::replay(&p.driver, &choices);
        for l in labels {
            println!("    {l}");
        }
        match r? {
            Ok(class) => {
                println!("no violation: {class}");
                Ok(0)
            }
            Err(p) => {
                println!("{}: {}", p.site, p.detail);
                println!("VIOLATION property={id} replay={file}");
                Ok(1)
            }
        }
    };
    go().unwrap_or_else(|e| {
        eprintln!("replay error: {e}");
        2
    })
}
