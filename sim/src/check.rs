//! Command line: checks, workers, replays.
use crate::exec::{Counts, Runner};
use crate::gen::{isolated, simulate};
use crate::rng::{hash_bytes, splitmix};
use crate::shrink::Shrinker;
use crate::trace::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const PROPS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
    "C19", "C20", "C21", "C22",
];

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    let mut x = seed ^ hash_bytes(prop.as_bytes()) ^ idx.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x);
    let s = splitmix(&mut x);
    // Each kind of long history has a fixed place early in the sequence, besides its share.
    match idx {
        8..=10 => (s & !255) | (idx - 7),
        11..=13 => (s & !255) | (idx - 6),
        14 => (s & !255) | 9,
        _ => s,
    }
}

/// What must have happened in a run for it to say something about the property.
fn probes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["claim.partial|claim.complete", "ok.cancel", "ok.swap", "drained.empty"],
        "C02" => &["claim.after_cancels|swap.over_cancels", "swap.several_orders|swap.order_partly_filled", "claim.partial|claim.complete"],
        "C03" => &["claim.partial", "claim.again|claim.complete", "refused.claim.unfilled|refused.claim.unknown"],
        "C04" => &["ok.cancel", "refused.cancel.filled", "refused.cancel.unknown|refused.cancel.owner"],
        "C05" => &["swap.several_ticks", "swap.left_liquidity|swap.emptied_last_tick"],
        "C06" => &["fault.bank_failure|payout.undeliverable|fault.out_of_gas", "retry|ok.claim", "ok.swap"],
        "C07" => &["quote.given", "ok.swap"],
        "C08" => &["ok.swap", "ok.cancel", "full_checks"],
        "C09" => &["pages.walked", "ok.place"],
        "C10" => &["place.behind_known_best", "ok.swap"],
        "C11" => &["role.changed", "refused.auth.role"],
        "C12" => &["paused", "resumed", "refused.place.paused|refused.claim.paused|refused.cancel.paused|refused.swap.paused|refused.batch.paused"],
        "C13" => &["batch.mixed", "batch.many"],
        "C14" => &["replicas", "fault.crash_mid_tx|fault.crash_between_txs|fault.dry_run", "ok.swap"],
        "C15" => &["upgrade", "ok.place", "ok.cancel|ok.claim"],
        "C16" => &["gas.measured", "ok.cancel", "ok.swap"],
        "C17" => &["drains", "ok.swap", "drained.empty"],
        "C18" => &["ok.place", "refused.place.funds|refused.place.tick|refused.place.bounty|refused.place.quantity"],
        "C19" => &["claim.bounty_and_fee", "fee.changed"],
        "C20" => &["ok.place", "ok.swap", "ok.cancel", "ok.claim"],
        "C21" => &["swap.to_target", "refused.swap.minimum", "swap.leftover_returned|swap.dust_kept"],
        "C22" => &["create.ok", "create.refused"],
        _ => &[],
    }
}

fn nontrivial(prop: &str, c: &Counts) -> bool {
    probes(prop).iter().all(|alts| alts.split('|').any(|p| c.get(p).copied().unwrap_or(0) > 0))
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    msgs: u64,
    blocks: u64,
    sim_ms: u64,
    counts: Counts,
    nontrivial: BTreeSet<u64>,
    histories: BTreeSet<u64>,
    states: BTreeSet<u64>,
    states_capped: bool,
    gas: BTreeMap<String, (u64, u64)>,
    sample: Option<String>,
    found: Option<Trace>,
    foreign: BTreeMap<String, (u64, String)>,
    wall: f64,
}

fn history_hash(r: &Runner) -> u64 {
    let mut b = vec![];
    for h in &r.hashes {
        b.extend_from_slice(&h.to_be_bytes());
    }
    hash_bytes(&b)
}

fn absorb(rep: &mut Report, prop: &str, seed: u64, r: &Runner) {
    rep.runs += 1;
    rep.msgs += r.ever_msgs;
    rep.blocks += r.blocks;
    rep.sim_ms += r.sim_ms;
    for (k, v) in &r.counts {
        *rep.counts.entry(k.clone()).or_default() += v;
    }
    let h = history_hash(r);
    rep.histories.insert(h);
    if nontrivial(prop, &r.counts) {
        rep.nontrivial.insert(h);
    }
    if rep.states.len() < 400_000 {
        rep.states.extend(r.digests.iter().copied());
    } else {
        rep.states_capped = true;
    }
    for (k, v) in &r.gas_max {
        let e = rep.gas.entry(k.clone()).or_insert((0, 0));
        if v.0 > e.0 {
            *e = *v;
        }
    }
    if let Some(f) = &r.foreign {
        let e = rep.foreign.entry(format!("{} {:?}", f.tag, f.props)).or_insert((0, format!("run seed {seed}: {}", f.detail)));
        e.0 += 1;
    }
}

/// worker PROP SEED START STRIDE MS MAXRUNS THOROUGH OUT STOP
fn worker(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let ms: u64 = a[4].parse().unwrap();
    let max: u64 = a[5].parse().unwrap();
    let thorough = a[6] == "1";
    let out = PathBuf::from(&a[7]);
    let stop = PathBuf::from(&a[8]);
    let t0 = Instant::now();
    let mut rep = Report::default();
    let mut idx = start;
    let mut n = 0;
    while t0.elapsed() < Duration::from_millis(ms) && n < max {
        let rs = run_seed(seed, &prop, idx);
        std::fs::write(out.with_extension("cur"), format!("{idx} {rs}")).ok();
        let (viol, full, t) = isolated(|| {
            let (r, t) = simulate(&prop, &prop, rs, thorough);
            absorb(&mut rep, &prop, rs, &r);
            (r.viol.clone(), nontrivial(&prop, &r.counts), t)
        });
        if rep.sample.is_none() && full && serde_json::to_string(&t.steps).map_or(0, |s| s.len()) < 6000 {
            rep.sample = Some(serde_json::to_string(&t).unwrap());
        }
        if let Some(v) = viol {
            let budget = Duration::from_millis(if thorough { 60_000 } else { 20_000 });
            std::fs::write(&stop, b"x").ok();
            let mut s = Shrinker::new(&prop, &v, budget);
            let mut m = s.run(&t);
            rep.counts.insert("shrink.replays".into(), s.tried);
            m.violation = m.violation.or(Some(v));
            rep.found = Some(m);
            std::fs::write(out.with_extension("full"), serde_json::to_string(&t).unwrap()).ok();
            break;
        }
        idx += stride;
        n += 1;
        if n % 8 == 0 && stop.exists() {
            break;
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    std::fs::write(&out, serde_json::to_vec(&rep).unwrap()).unwrap();
    0
}

fn load(p: &Path) -> Option<Trace> {
    serde_json::from_slice(&std::fs::read(p).ok()?).ok()
}

/// Replays a recorded history; 1 if it fails as recorded.
fn replay_cmd(a: &[String]) -> i32 {
    if let Some(v) = std::fs::read(&a[0]).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()) {
        if let (Some(p), Some(rs)) = (v["property"].as_str(), v["regenerate_run_seed"].as_u64()) {
            let c = crashes(p, rs, v["thorough"].as_bool().unwrap_or(false));
            println!("{}", if c { format!("VIOLATION property={p} replay={}", a[0]) } else { "the run ends normally".into() });
            return c as i32;
        }
    }
    let Some(t) = load(Path::new(&a[0])) else {
        eprintln!("cannot read {}", a[0]);
        return 2;
    };
    let focus = t.property.clone();
    let want = t.violation.clone();
    let verbose = a.iter().any(|x| x == "-v");
    let mut run = Runner::new(&t.cfg, &focus);
    if verbose {
        run.trace_log = Some(vec![]);
    }
    for (i, s) in t.steps.iter().enumerate() {
        if run.ended() {
            break;
        }
        if let Some(l) = &mut run.trace_log {
            l.push(format!("step {i}: {}", serde_json::to_string(s).unwrap().chars().take(200).collect::<String>()));
        }
        run.step(i, s);
    }
    run.finish();
    if let Some(l) = &run.trace_log {
        for x in l {
            println!("{x}");
        }
    }
    match (&run.viol, &want) {
        (Some(v), w) => {
            println!("violation [{}] {:?} at step {}: {}", v.tag, v.props, v.step, v.detail);
            if let Some(w) = w {
                println!("{}", if v == w { "exactly as recorded" } else { "differs from the recorded violation" });
            }
            println!("VIOLATION property={} replay={}", focus, a[0]);
            1
        }
        (None, _) => {
            println!("no violation of {focus}; the code under test behaves on this history");
            0
        }
    }
}

/// hashes PROP SEED FROM N THOROUGH: fingerprints of runs, for comparing processes.
fn hashes(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    let from: u64 = a[2].parse().unwrap();
    let n: u64 = a[3].parse().unwrap();
    for i in from..from + n {
        let rs = run_seed(seed, &a[0], i);
        isolated(|| {
            let (r, t) = simulate(&a[0], &a[0], rs, false);
            let th = hash_bytes(serde_json::to_string(&t.steps).unwrap().as_bytes());
            let ch = hash_bytes(format!("{:?}", r.counts).as_bytes());
            println!("{i} {:016x} {:016x} {:016x} {:016x}", th, history_hash(&r), ch, r.w.store.digest());
        });
    }
    0
}

fn spawn(args: &[String]) -> std::io::Result<Child> {
    Command::new(std::env::current_exe()?).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn()
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    if !PROPS.contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") || a.iter().any(|x| x == "--thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let ms: u64 = std::env::var("OBSIM_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600_000 } else { 50_000 });
    let workers: u64 = std::env::var("OBSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    println!("property={prop} seed={seed} tier={tier} workers={workers}");
    let dir = std::env::temp_dir().join(format!("obsim-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = check_in(&dir, &prop, seed, thorough, tier, ms, workers, t0);
    std::fs::remove_dir_all(&dir).ok();
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(dir: &Path, prop: &str, seed: u64, thorough: bool, tier: &str, ms: u64, workers: u64, t0: Instant) -> i32 {
    let s = |x: &str| x.to_string();
    let stop = dir.join("stop");
    let mut kids = vec![];
    for w in 0..workers {
        let out = dir.join(format!("w{w}.json"));
        let args = vec![
            s("worker"),
            s(prop),
            seed.to_string(),
            w.to_string(),
            workers.to_string(),
            ms.to_string(),
            u64::MAX.to_string(),
            s(if thorough { "1" } else { "0" }),
            out.display().to_string(),
            stop.display().to_string(),
        ];
        match spawn(&args) {
            Ok(c) => kids.push((w, out, c)),
            Err(e) => {
                eprintln!("cannot start worker: {e}");
                return 2;
            }
        }
    }
    // A run that never ends is found by the clock.
    let limit = Duration::from_millis(ms) + Duration::from_secs(if thorough { 240 } else { 120 });
    let mut hung: Option<u64> = None;
    let mut bad = false;
    for (w, out, c) in kids.iter_mut() {
        loop {
            match c.try_wait() {
                Ok(Some(st)) => {
                    if !st.success() {
                        let cur = std::fs::read_to_string(out.with_extension("cur")).unwrap_or_default();
                        eprintln!("worker {w} ended with {st} in run {cur}");
                        // Code under test that takes the whole node down does so every time.
                        let rs = cur.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok());
                        match rs {
                            Some(rs) if crashes(prop, rs, thorough) => hung = Some(rs),
                            _ => bad = true,
                        }
                        std::fs::write(&stop, b"x").ok();
                    }
                    break;
                }
                Ok(None) => {
                    if t0.elapsed() > limit {
                        let cur = std::fs::read_to_string(out.with_extension("cur")).unwrap_or_default();
                        eprintln!("worker {w} does not end in run {cur}");
                        hung = cur.split(' ').nth(1).and_then(|x| x.parse().ok());
                        c.kill().ok();
                        c.wait().ok();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                Err(_) => {
                    bad = true;
                    break;
                }
            }
        }
    }
    let mut rep = Report::default();
    let mut found: Vec<(Trace, PathBuf)> = vec![];
    for (_, out, _) in &kids {
        let Some(r) = std::fs::read(out).ok().and_then(|b| serde_json::from_slice::<Report>(&b).ok()) else { continue };
        rep.runs += r.runs;
        rep.msgs += r.msgs;
        rep.blocks += r.blocks;
        rep.sim_ms += r.sim_ms;
        for (k, v) in r.counts {
            *rep.counts.entry(k).or_default() += v;
        }
        rep.nontrivial.extend(r.nontrivial);
        rep.histories.extend(r.histories);
        rep.states.extend(r.states);
        rep.states_capped |= r.states_capped;
        for (k, v) in r.gas {
            let e = rep.gas.entry(k).or_insert((0, 0));
            if v.0 > e.0 {
                *e = v;
            }
        }
        for (k, v) in r.foreign {
            let e = rep.foreign.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        if rep.sample.is_none() {
            rep.sample = r.sample;
        }
        rep.wall = rep.wall.max(r.wall);
        if let Some(t) = r.found {
            found.push((t, out.with_extension("full")));
        }
    }
    // The same seeds again, in fresh processes of their own.
    let mut same = 0u64;
    let mut differ = 0u64;
    if found.is_empty() && !bad && hung.is_none() {
        let n = if prop == "C16" { 2 } else { 6 };
        let mut outs = vec![];
        for _ in 0..2 {
            let args = vec![s("hashes"), s(prop), seed.to_string(), s("0"), n.to_string()];
            if let Ok(c) = spawn(&args) {
                outs.push(c);
            }
        }
        let texts: Vec<Vec<u8>> = outs.into_iter().filter_map(|c| c.wait_with_output().ok()).map(|o| o.stdout).collect();
        if texts.len() == 2 {
            let ls: Vec<Vec<&[u8]>> = texts.iter().map(|t| t.split(|b| *b == b'\n').filter(|l| !l.is_empty()).collect()).collect();
            for (a, b) in ls[0].iter().zip(&ls[1]) {
                if a == b {
                    same += 1;
                } else {
                    differ += 1;
                }
            }
        }
    }
    found.sort_by_key(|(t, _)| serde_json::to_string(&t.steps).map_or(usize::MAX, |s| s.len()));
    let mut code = 0;
    let mut violations = 0;
    let mut line = String::new();
    let known = known_findings(prop);
    let replays = verif_dir().join("replays");
    for (t, full) in found {
        let v = t.violation.clone().unwrap();
        std::fs::create_dir_all(&replays).ok();
        let path = replays.join(format!("{prop}-{}.json", t.run_seed));
        std::fs::write(&path, serde_json::to_vec_pretty(&t).unwrap()).unwrap();
        // It has to fail the same way in a process of its own.
        let mut ok = false;
        for _ in 0..5 {
            if replays_ok(&path) {
                ok = true;
                break;
            }
        }
        if !ok {
            if let Ok(b) = std::fs::read(&full) {
                std::fs::write(&path, b).ok();
                for _ in 0..5 {
                    ok |= replays_ok(&path);
                }
            }
        }
        if !ok {
            eprintln!("the history found does not fail again: {} {}", v.tag, path.display());
            bad = true;
            continue;
        }
        if known.iter().any(|k| *k == v.tag) {
            continue;
        }
        violations += 1;
        if line.is_empty() {
            println!("run seed {}: [{}] {}", t.run_seed, v.tag, v.detail);
            line = format!("VIOLATION property={prop} replay={}", path.display());
            code = 1;
        }
    }
    if let (Some(rs), 0) = (hung, code) {
        if ["C03", "C05", "C16", "C17"].contains(&prop) {
            std::fs::create_dir_all(&replays).ok();
            let path = replays.join(format!("{prop}-{rs}-hang.json"));
            std::fs::write(&path, json!({"property": prop, "regenerate_run_seed": rs, "thorough": thorough, "what": "the run does not end, or takes the node down"}).to_string()).ok();
            println!("run seed {rs}: the run does not end, or takes the node down");
            line = format!("VIOLATION property={prop} replay={}", path.display());
            violations += 1;
            code = 1;
        } else {
            bad = true;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> =
        rep.counts.iter().filter(|(k, _)| k.starts_with("fault.") || k.starts_with("net.") || k.as_str() == "retry" || k.as_str() == "payout.undeliverable").collect();
    let others: BTreeMap<&String, &u64> = rep.counts.iter().filter(|(k, _)| !faults.contains_key(k)).collect();
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.runs,
            "distinct_nontrivial": rep.nontrivial.len(),
            "rule": format!("One evaluation is one simulated history from one run seed (derived from VERIF_SEED, the property and the run index). Histories are distinct when the sequence of transaction results and state digests differs; non-trivial when all of these happened in it: {}", probes(prop).join(" and ")),
            "samples": [rep.sample.as_ref().and_then(|s| serde_json::from_str::<serde_json::Value>(s).ok()).unwrap_or(json!({"run_seed": run_seed(seed, prop, 0), "regenerate": "obsim show"}))],
            "distinct_histories": rep.histories.len(),
            "distinct_committed_states": rep.states.len(),
            "distinct_states_capped": rep.states_capped,
            "messages_executed_and_judged": rep.msgs,
            "blocks": rep.blocks,
            "simulated_hours": rep.sim_ms as f64 / 3_600_000.0,
            "runs_per_hour": if rep.wall > 0.0 { (rep.runs as f64 / rep.wall * 3600.0) as u64 } else { 0 },
            "worker_processes": workers,
            "faults_injected": faults,
            "probes": others,
            "storage_operations_max": rep.gas,
            "ended_by_other_properties": rep.foreign,
            "rerun_in_other_processes": {"identical": same, "different": differ},
            "real_code": ["contract::instantiate", "contract::execute", "contract::query", "contract::reply", "contract::migrate", "sudo::sudo", "everything below them", "cosmwasm-std, cw-storage-plus, serde-json-wasm"],
            "stubs": ["storage (map with undo journal)", "bank", "address validation (no checksum)", "message dispatch of wasmd", "gas (storage operation count)", "block production, mempool, network, clients"],
        },
        "assumptions": [
            "The chain is honest: messages are atomic, balances are kept by the bank module, block time does not decrease.",
            "The reference model in sim/src/model.rs says what the statement says.",
            "Natively compiled contract code behaves like its wasm build.",
            "Sampled, not exhaustive."
        ],
        "violations": violations,
        "wall_s": wall,
    });
    let evd = verif_dir().join("evidence");
    std::fs::create_dir_all(&evd).ok();
    std::fs::write(evd.join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} runs, {} distinct and non-trivial, {} messages, {} committed states, {:.1} simulated hours, {:.1} s; rerun identical {same}, different {differ}",
        rep.runs,
        rep.nontrivial.len(),
        rep.msgs,
        rep.states.len(),
        rep.sim_ms as f64 / 3.6e6,
        wall
    );
    for (k, (n, d)) in &rep.foreign {
        println!("(ended {n} runs: {k}: {d})");
    }
    for k in known_lines(prop) {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    if code == 1 {
        println!("{line}");
        return 1;
    }
    if bad {
        return 2;
    }
    0
}

/// Whether the run brings its process down or does not end within two minutes.
fn crashes(prop: &str, rs: u64, thorough: bool) -> bool {
    let args = ["once".to_string(), prop.to_string(), rs.to_string(), (thorough as u8).to_string()];
    let Ok(mut c) = spawn(&args) else { return false };
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return !st.success(),
            Ok(None) if t0.elapsed() > Duration::from_secs(120) => {
                c.kill().ok();
                c.wait().ok();
                return true;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(20)),
            Err(_) => return false,
        }
    }
}

fn replays_ok(p: &Path) -> bool {
    let Ok(c) = spawn(&["replay".to_string(), p.display().to_string()]) else { return false };
    let Ok(o) = c.wait_with_output() else { return false };
    o.status.code() == Some(1)
}

fn findings() -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}
fn known_lines(prop: &str) -> Vec<String> {
    findings().into_iter().filter(|(p, _)| p == prop).map(|(_, d)| d).collect()
}
fn known_findings(prop: &str) -> Vec<String> {
    known_lines(prop).iter().filter_map(|d| d.split_whitespace().next().map(|s| s.to_string())).collect()
}

/// show PROP SEED [IDX]: one run, verbosely. With `@` the seed is the run seed itself.
fn show(a: &[String]) -> i32 {
    let rs = match a[1].strip_prefix('@') {
        Some(x) => x.parse().unwrap(),
        None => run_seed(a[1].parse().unwrap(), &a[0], a.get(2).and_then(|x| x.parse().ok()).unwrap_or(0)),
    };
    let focus = a.get(3).cloned().unwrap_or_else(|| a[0].clone());
    let focus = if focus == "any" { String::new() } else { focus };
    let (r, t) = simulate(&a[0], &focus, rs, false);
    println!("{}", serde_json::to_string(&t).unwrap());
    println!("{:?}", r.counts);
    println!("{:?} {:?}", r.viol, r.foreign);
    0
}

/// hunt PROP|any SEED N: runs with every oracle reporting; prints each kind of violation once.
fn hunt(a: &[String]) -> i32 {
    let n: u64 = a[2].parse().unwrap();
    let seed: u64 = a[1].parse().unwrap();
    let mut rep = Report::default();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let t0 = Instant::now();
    for i in 0..n {
        let prop = if a[0] == "any" { PROPS[i as usize % PROPS.len()] } else { &a[0] };
        let rs = run_seed(seed, prop, i);
        let t1 = Instant::now();
        let (viol, t) = isolated(|| {
            let (r, t) = simulate(prop, "", rs, a.iter().any(|x| x == "--thorough"));
            absorb(&mut rep, prop, rs, &r);
            (r.viol.clone(), t)
        });
        if t1.elapsed().as_secs() >= 10 {
            println!("({prop} run {rs} took {:.1} s)", t1.elapsed().as_secs_f64());
        }
        if let Some(v) = &viol {
            let c = seen.entry(v.tag.clone()).or_default();
            *c += 1;
            if *c == 1 {
                let mut s = Shrinker::new("", v, Duration::from_secs(10));
                let m = s.run(&t);
                let w = m.violation.clone().unwrap_or(v.clone());
                println!("[{prop} run {rs}] {} {:?}: {}", w.tag, w.props, w.detail);
                println!("   {}", serde_json::to_string(&m.steps).unwrap());
            }
        }
    }
    println!("{} runs {} msgs {:.1}s nontrivial {}", rep.runs, rep.msgs, t0.elapsed().as_secs_f64(), rep.nontrivial.len());
    println!("{:?}\n{:?}\ngas {:?}", seen, rep.counts, rep.gas);
    0
}

pub fn main(a: Vec<String>) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1..]),
        Some("worker") => worker(&a[1..]),
        Some("replay") => replay_cmd(&a[1..]),
        Some("hashes") => hashes(&a[1..]),
        Some("show") => show(&a[1..]),
        Some("once") => {
            simulate(&a[1], &a[1], a[2].parse().unwrap(), a[3] == "1");
            0
        }
        Some("hunt") => hunt(&a[1..]),
        _ => {
            eprintln!("usage: obsim check PROP | replay FILE [-v] | show PROP SEED IDX | hunt PROP SEED N");
            2
        }
    }
}

