//! Supervisor, workers, replay, evidence.

use crate::props::{self, PropDef, Stats, Verdict};
use crate::rng::{fold, hash_str, mix, Rng};
use crate::shrink;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const STACK: usize = 8 << 20;

pub fn scenario_seed(base: u64, id: &str, index: u64) -> u64 {
    mix(fold(fold(0xABCD, base), hash_str(id)) ^ mix(index + 1))
}

fn prop(id: &str) -> PropDef {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap()
}

/// Runs a scenario; anything that escapes it as a panic is a failure of the code under test or of
/// the harness, and in either case must not be mistaken for a pass.
fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    match crate::simdoc::catch(f) {
        Ok(v) => v,
        Err(c) => Verdict::Fail("panic".into(), format!("escaped panic: {c:?}")),
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn verif_dir() -> PathBuf {
    std::env::var("PPPSIM_VERIF")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn main() -> i32 {
    crate::simdoc::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| -> Option<String> {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: u64| opt(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let tier = opt("--tier")
                .or_else(|| std::env::var("VERIF_TIER").ok())
                .unwrap_or_else(|| "quick".into());
            check(&args[1], &tier, num("--seed", env_u64("VERIF_SEED", 1)), num("--runs", 0), num("--wall", 0), num("--jobs", 0))
        }
        Some("worker") => {
            let (id, base, from, to) = (
                args[1].clone(),
                args[2].parse().unwrap(),
                args[3].parse().unwrap(),
                args[4].parse().unwrap(),
            );
            let (out, deadline_ms) = (PathBuf::from(&args[5]), args[6].parse().unwrap());
            on_big_stack(move || worker(&id, base, from, to, &out, deadline_ms))
        }
        Some("replay") => replay(Path::new(&args[1])),
        Some("replay-inner") => {
            let p = PathBuf::from(&args[1]);
            on_big_stack(move || replay_inner(&p))
        }
        Some("shrink") => {
            let (a, b, s) = (PathBuf::from(&args[1]), PathBuf::from(&args[2]), num("--budget", 20));
            on_big_stack(move || shrink_file(&a, &b, s))
        }
        Some("gen") => {
            let p = prop(&args[1]);
            let base = num("--seed", 1);
            let i: u64 = args[2].parse().unwrap();
            let v = (p.gen)(&mut Rng::new(scenario_seed(base, p.id, i)));
            println!("{v}");
            0
        }
        Some("hashes") => {
            // one line per scenario: index, event-log hash, verdict (determinism proof)
            let id = args[1].clone();
            let (from, to) = (num("--from", 0), num("--to", 100));
            let base = num("--seed", 1);
            on_big_stack(move || {
                let p = prop(&id);
                for i in from..to {
                    let mut st = Stats::default();
                    let v = guarded(|| (p.run_seed)(scenario_seed(base, p.id, i), &mut st));
                    println!("{i} {:016x} {}", st.hash, match v { Verdict::Pass => "pass", Verdict::Skip(_) => "skip", _ => "FAIL" });
                }
                0
            })
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pppsim check|replay|gen|hashes|list ...");
            2
        }
    }
}

// ---------------------------------------------------------------- worker

fn worker(id: &str, base: u64, from: u64, to: u64, out: &Path, deadline_ms: u64) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let prog = fs::File::create(out.with_extension("prog")).unwrap();
    let mut total = Stats::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let (mut runs, mut skips, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut skip_why: BTreeMap<String, u64> = BTreeMap::new();
    let mut failure = Value::Null;
    let mut done = from;
    for i in from..to {
        if t0.elapsed().as_millis() as u64 > deadline_ms {
            break;
        }
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let mut st = Stats::default();
        let v = guarded(|| (p.run_seed)(scenario_seed(base, p.id, i), &mut st));
        done = i + 1;
        match v {
            Verdict::Pass => runs += 1,
            Verdict::Skip(w) => {
                skips += 1;
                *skip_why.entry(w.to_string()).or_default() += 1;
                continue;
            }
            Verdict::Fail(class, msg) => {
                failure = json!({"index": i, "class": class, "message": msg});
                break;
            }
        }
        for (k, n) in &st.counters {
            total.add(k, *n);
        }
        total.sim_time += st.sim_time;
        total.accesses += st.accesses;
        total.spans += st.spans;
        if st.nontrivial {
            nontrivial += 1;
            sigs.insert(st.hash);
        }
    }
    let mut sig = Vec::with_capacity(sigs.len() * 8);
    for s in &sigs {
        sig.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(out.with_extension("sig"), sig).unwrap();
    let r = json!({
        "runs": runs, "skips": skips, "nontrivial": nontrivial, "done": done,
        "counters": total.counters, "sim_time": total.sim_time,
        "accesses": total.accesses, "spans": total.spans, "failure": failure,
        "skip_why": skip_why,
    });
    fs::write(out, r.to_string()).unwrap();
    0
}

// ---------------------------------------------------------------- supervisor

struct Job {
    child: Child,
    out: PathBuf,
    from: u64,
    last: u64,
    last_cpu: f64,
    since: Instant,
}

/// CPU seconds used by a child of ours.
fn cpu(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

const HANG_CPU: f64 = 40.0;
const HANG_WALL: u64 = 240;

fn read_prog(out: &Path) -> Option<u64> {
    let b = fs::read(out.with_extension("prog")).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

struct Found {
    index: u64,
    chunk_from: u64,
    class: String,
    message: String,
}

fn check(id: &str, tier: &str, base: u64, runs: u64, wall: u64, jobs: u64) -> i32 {
    let t0 = Instant::now();
    let p = prop(id);
    let quick = tier != "thorough";
    let jobs = if jobs > 0 {
        jobs as usize
    } else {
        std::thread::available_parallelism().map_or(8, |n| n.get()).min(16)
    };
    let target = if runs > 0 {
        runs
    } else if quick {
        p.quick
    } else {
        p.quick * 15
    };
    let wall = Duration::from_secs(if wall > 0 {
        wall
    } else if quick {
        150
    } else {
        3600
    });
    println!("pppsim: property={id} tier={tier} VERIF_SEED={base} runs<={target} jobs={jobs}");
    let tmp = std::env::temp_dir().join(format!("pppsim-{id}-{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    let chunk = (target / (jobs as u64 * 6)).clamp(50, 5000);
    let mut next = 0u64;
    let mut active: Vec<Job> = Vec::new();
    let mut found: Option<Found> = None;
    let mut tot = Stats::default();
    let (mut nruns, mut nskips, mut nnon, mut procs) = (0u64, 0u64, 0u64, 0u64);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut skip_why: BTreeMap<String, u64> = BTreeMap::new();
    let mut harness_error: Option<String> = None;
    loop {
        while found.is_none()
            && harness_error.is_none()
            && active.len() < jobs
            && next < target
            && t0.elapsed() < wall
        {
            let to = (next + chunk).min(target);
            let out = tmp.join(format!("w{next}.json"));
            let left = wall.saturating_sub(t0.elapsed()).as_millis() as u64;
            let child = Command::new(&exe)
                .args([
                    "worker",
                    id,
                    &base.to_string(),
                    &next.to_string(),
                    &to.to_string(),
                    out.to_str().unwrap(),
                    &left.to_string(),
                ])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn();
            match child {
                Ok(child) => active.push(Job {
                    child,
                    out,
                    from: next,
                    last: u64::MAX,
                    last_cpu: 0.0,
                    since: Instant::now(),
                }),
                Err(e) => harness_error = Some(format!("cannot spawn worker: {e}")),
            }
            procs += 1;
            next = to;
        }
        if active.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(8));
        let mut i = 0;
        while i < active.len() {
            let j = &mut active[i];
            match j.child.try_wait() {
                Ok(Some(status)) => {
                    let j = active.swap_remove(i);
                    if status.success() {
                        let r: Value = fs::read_to_string(&j.out)
                            .ok()
                            .and_then(|s| serde_json::from_str(&s).ok())
                            .unwrap_or(Value::Null);
                        if r.is_null() {
                            harness_error = Some("worker left no result".into());
                            continue;
                        }
                        nruns += r["runs"].as_u64().unwrap();
                        nskips += r["skips"].as_u64().unwrap();
                        nnon += r["nontrivial"].as_u64().unwrap();
                        tot.sim_time += r["sim_time"].as_u64().unwrap();
                        tot.accesses += r["accesses"].as_u64().unwrap();
                        tot.spans += r["spans"].as_u64().unwrap();
                        for (k, n) in r["counters"].as_object().unwrap() {
                            tot.add(k, n.as_u64().unwrap());
                        }
                        for (k, n) in r["skip_why"].as_object().unwrap() {
                            *skip_why.entry(k.clone()).or_default() += n.as_u64().unwrap();
                        }
                        for c in fs::read(j.out.with_extension("sig")).unwrap_or_default().chunks(8) {
                            sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        let f = &r["failure"];
                        if !f.is_null() {
                            let idx = f["index"].as_u64().unwrap();
                            if found.as_ref().is_none_or(|x| x.index > idx) {
                                found = Some(Found {
                                    index: idx,
                                    chunk_from: j.from,
                                    class: f["class"].as_str().unwrap().into(),
                                    message: f["message"].as_str().unwrap().into(),
                                });
                            }
                        }
                        for e in ["json", "sig", "prog"] {
                            let _ = fs::remove_file(j.out.with_extension(e));
                        }
                    } else if found.is_none() {
                        let how = match status.signal() {
                            Some(s) => format!("killed by signal {s}"),
                            None => format!("exit code {:?}", status.code()),
                        };
                        match read_prog(&j.out) {
                            Some(idx) => {
                                found = Some(Found {
                                    index: idx,
                                    chunk_from: j.from,
                                    class: "crash".into(),
                                    message: format!("the process running the scenario died: {how}"),
                                })
                            }
                            None => harness_error = Some(format!("worker died: {how}")),
                        }
                    }
                    continue;
                }
                Ok(None) => {
                    let now = read_prog(&j.out).unwrap_or(u64::MAX);
                    let c = cpu(j.child.id());
                    if now != j.last {
                        j.last = now;
                        j.last_cpu = c;
                        j.since = Instant::now();
                    } else if c - j.last_cpu > HANG_CPU || j.since.elapsed().as_secs() > HANG_WALL {
                        let _ = j.child.kill();
                        let _ = j.child.wait();
                        if found.is_none() && now != u64::MAX {
                            found = Some(Found {
                                index: now,
                                chunk_from: j.from,
                                class: "hang".into(),
                                message: format!(
                                    "no progress for {:.0} s of CPU time / {} s",
                                    c - j.last_cpu,
                                    j.since.elapsed().as_secs()
                                ),
                            });
                        }
                        active.swap_remove(i);
                        continue;
                    }
                }
                Err(e) => harness_error = Some(format!("wait: {e}")),
            }
            i += 1;
        }
        if found.is_some() || harness_error.is_some() {
            for j in &mut active {
                let _ = j.child.kill();
                let _ = j.child.wait();
            }
            active.clear();
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = &found {
        violations = 1;
        code = 1;
        let path = report(&p, base, f, quick, &tmp);
        println!("{}: {}", f.class, f.message);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    let _ = fs::remove_dir_all(&tmp);
    let mut samples = Vec::new();
    for i in 0..2u64 {
        let seed = scenario_seed(base, p.id, i);
        let v = on_big_stack({
            let gen = p.gen;
            move || gen(&mut Rng::new(seed))
        });
        let mut s = v.to_string();
        if s.len() > 3000 {
            let mut n = 3000;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        samples.push(json!({"scenario_seed": seed, "scenario": s}));
    }
    let faults: BTreeMap<&str, u64> = tot
        .counters
        .iter()
        .filter_map(|(k, n)| k.strip_prefix("fault.").map(|k| (k, *n)))
        .collect();
    let probes: BTreeMap<&str, u64> = tot
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("fault."))
        .map(|(k, n)| (k.as_str(), *n))
        .collect();
    let ev = json!({
        "property": id,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": base,
        "level": p.level,
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": sigs.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": nruns,
            "scenarios_skipped": skip_why,
            "nontrivial_runs": nnon,
            "seeds_per_hour": (nruns as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "simulated_time_ticks": tot.sim_time,
            "simulated_time_note": "virtual clock; one tick per document access, slow nodes 100 more",
            "document_accesses": tot.accesses,
            "internal_span_points": tot.spans,
            "faults_injected": faults,
            "probes": probes,
            "distinct_interleavings": sigs.len(),
            "distinct_measure": "distinct hashes of the complete event log (accesses with node, span markers, operations with their outputs, faults, scheduling switches) over non-trivial runs",
            "real_components": ["partial-pretty-printer, all of src/, built from /repo's working tree with features serialization,profile"],
            "stub_components": ["document store (PrettyDoc implementation) except for doc_examples", "window (PrettyWindow implementation)", "no-nonsense-flamegraphs (span markers call the simulator)", "storage of notations (byte vector)"],
            "worker_processes": procs,
        },
        "assumptions": ["sampled, not exhaustive: a clean batch is evidence, not proof"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(
        evdir.join(format!("{id}.json")),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        harness_error = Some(format!("cannot write evidence: {e}"));
    }
    println!(
        "pppsim: {id}: {nruns} runs ({nskips} skipped), {} distinct non-trivial, {} accesses, {:.1} s, faults {:?}",
        sigs.len(),
        tot.accesses,
        t0.elapsed().as_secs_f64(),
        faults
    );
    if let Some(e) = harness_error {
        eprintln!("harness error: {e}");
        if code == 0 {
            return 2;
        }
    }
    if code == 0 && nruns == 0 {
        eprintln!("harness error: nothing was run");
        return 2;
    }
    code
}

// ---------------------------------------------------------------- reporting and replay

fn run_limited(args: &[&str], secs: u64) -> Option<(i32, String)> {
    let exe = std::env::current_exe().unwrap();
    let outp = std::env::temp_dir().join(format!(
        "pppsim-o-{}-{}",
        std::process::id(),
        hash_str(&args.join(" "))
    ));
    let f = fs::File::create(&outp).ok()?;
    let mut c = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(f)
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    let r = loop {
        if let Ok(Some(s)) = c.try_wait() {
            break Some(match s.signal() {
                Some(sig) => -sig,
                None => s.code().unwrap_or(-1),
            });
        }
        if cpu(c.id()) > secs as f64 || t0.elapsed().as_secs() > secs * 6 {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(3));
    };
    let text = fs::read_to_string(&outp).unwrap_or_default();
    let _ = fs::remove_file(&outp);
    Some((r.unwrap_or(i32::MIN), text))
}

/// What happens when the file is replayed in a fresh process: the class of its failure.
fn replay_class(path: &Path, secs: u64) -> Option<(String, String)> {
    let (code, text) = run_limited(&["replay-inner", path.to_str().unwrap()], secs)?;
    match code {
        0 => None,
        1 => {
            let line = text.lines().find(|l| l.starts_with("FAIL "))?;
            let v: Value = parse_json(&line[5..])?;
            Some((
                v["class"].as_str()?.to_string(),
                v["message"].as_str()?.to_string(),
            ))
        }
        i32::MIN => Some(("hang".into(), format!("no result within {secs} s of CPU time"))),
        n if n < 0 => Some((
            "crash".into(),
            format!("the process running the scenario was killed by signal {}", -n),
        )),
        n => Some(("crash".into(), format!("the process running the scenario exited with {n}"))),
    }
}

fn report(p: &PropDef, base: u64, f: &Found, quick: bool, tmp: &Path) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let seed = scenario_seed(base, p.id, f.index);
    let path = dir.join(format!("{}-{:016x}.json", p.id, seed));
    let scenario = on_big_stack({
        let gen = p.gen;
        move || {
            crate::simdoc::catch(|| gen(&mut Rng::new(seed))).unwrap_or(Value::Null)
        }
    });
    let mut file = json!({
        "property": p.id, "verif_seed": base, "scenario_index": f.index, "scenario_seed": seed,
        "class": f.class, "message": f.message, "minimised": false, "scenario": scenario,
    });
    let raw = tmp.join("raw.json");
    fs::write(&raw, file.to_string()).unwrap();
    let lim = if f.class == "hang" { HANG_CPU as u64 } else { 60 };
    let alone = replay_class(&raw, lim);
    println!("pppsim: replay of the unminimised scenario in a fresh process: {alone:?}");
    if alone.as_ref().is_some_and(|a| a.0 == f.class) {
        if f.class != "hang" {
            let small = tmp.join("small.json");
            let budget = if quick { 20 } else { 60 };
            let _ = run_limited(
                &[
                    "shrink",
                    raw.to_str().unwrap(),
                    small.to_str().unwrap(),
                    "--budget",
                    &budget.to_string(),
                ],
                budget * 4 + 20,
            );
            if small.exists() && replay_class(&small, lim).is_some_and(|a| a.0 == f.class) {
                let v: Value =
                    parse_json(&fs::read_to_string(&small).unwrap()).unwrap();
                file = v;
            }
        }
        file["reproduced_in_fresh_process"] = json!(true);
    } else {
        // The failure depends on what ran earlier in the same process: replay that history.
        let mut hist: Vec<u64> = (f.chunk_from..=f.index).collect();
        let hp = tmp.join("hist.json");
        let write = |h: &[u64]| {
            let mut v = file.clone();
            v["history"] = json!(h);
            fs::write(&hp, v.to_string()).unwrap();
        };
        write(&hist);
        let mut ok = replay_class(&hp, 120).is_some();
        if ok {
            let t0 = Instant::now();
            // drop blocks of earlier scenarios while it still fails
            let mut n = hist.len() / 2;
            while n >= 1 && t0.elapsed().as_secs() < 60 {
                let mut i = 0;
                while i < hist.len().saturating_sub(1) && t0.elapsed().as_secs() < 60 {
                    let mut h = hist.clone();
                    let end = (i + n).min(h.len() - 1);
                    h.drain(i..end);
                    write(&h);
                    if replay_class(&hp, 60).is_some() {
                        hist = h;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
            write(&hist);
            ok = replay_class(&hp, 60).is_some();
            file["history"] = json!(hist);
        }
        file["reproduced_in_fresh_process"] = json!(ok);
    }
    fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
    println!(
        "pppsim: VERIF_SEED={base} scenario seed {seed} (index {}), minimised={}, reproduced in a fresh process={}",
        f.index, file["minimised"], file["reproduced_in_fresh_process"]
    );
    path
}

fn run_file(v: &Value) -> Verdict {
    let p = prop(v["property"].as_str().unwrap_or(""));
    if let Some(h) = v["history"].as_array() {
        let base = v["verif_seed"].as_u64().unwrap_or(1);
        for i in h {
            let mut st = Stats::default();
            let seed = scenario_seed(base, p.id, i.as_u64().unwrap_or(0));
            let r = guarded(|| (p.run_seed)(seed, &mut st));
            if let Verdict::Fail(..) = r {
                return r;
            }
        }
        return Verdict::Pass;
    }
    guarded(|| (p.run)(&v["scenario"], &mut Stats::default()))
}

/// However deep it is.
fn parse_json(s: &str) -> Option<Value> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    serde::Deserialize::deserialize(&mut d).ok()
}

fn replay_inner(path: &Path) -> i32 {
    let v: Value = match fs::read_to_string(path).ok().and_then(|s| parse_json(&s)) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    match run_file(&v) {
        Verdict::Fail(c, m) => {
            println!("FAIL {}", json!({"class": c, "message": m}));
            1
        }
        Verdict::Skip(w) => {
            println!("SKIP {w}");
            0
        }
        Verdict::Pass => {
            println!("PASS");
            0
        }
    }
}

fn replay(path: &Path) -> i32 {
    let v: Value = match fs::read_to_string(path)
        .ok()
        .and_then(|s| parse_json(&s))
    {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    match replay_class(path, HANG_CPU as u64) {
        Some((c, m)) => {
            println!("{c}: {m}");
            println!(
                "VIOLATION property={} replay={}",
                v["property"].as_str().unwrap_or("?"),
                path.display()
            );
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

fn shrink_file(from: &Path, to: &Path, budget: u64) -> i32 {
    let mut v: Value = parse_json(&fs::read_to_string(from).unwrap()).unwrap();
    let class = v["class"].as_str().unwrap().to_string();
    let p = prop(v["property"].as_str().unwrap());
    let sc = v["scenario"].clone();
    let crash = class == "crash";
    let cand = to.with_extension("cand");
    let (best, tries) = shrink::shrink(&sc, Duration::from_secs(budget), |c| {
        if crash {
            let f = json!({"property": p.id, "scenario": c});
            fs::write(&cand, f.to_string()).unwrap();
            return replay_class(&cand, 20).is_some_and(|x| x.0 == class);
        }
        match guarded(|| (p.run)(c, &mut Stats::default())) {
            Verdict::Fail(c, _) => c == class,
            _ => false,
        }
    });
    if !crash {
        if let Verdict::Fail(_, m) = guarded(|| (p.run)(&best, &mut Stats::default())) {
            v["message"] = json!(m);
        }
    }
    v["scenario"] = best;
    v["minimised"] = json!(true);
    v["shrink_tries"] = json!(tries);
    let mut f = fs::File::create(to).unwrap();
    f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes())
        .unwrap();
    let _ = fs::remove_file(&cand);
    0
}
