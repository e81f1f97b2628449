//! Deterministic simulation of the tedium library. See /verif/DESIGN.md.

mod alloc;
mod corrupt;
mod disk;
mod exec;
mod gen;
mod huge;
mod many;
mod model;
mod rng;
mod run;
mod shrink;
mod tdms;
mod trace;
mod ty;
mod vfs;

use run::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use trace::Trace;

#[global_allocator]
static ALLOC: alloc::Limited = alloc::Limited;

const WATCHDOG: Duration = Duration::from_secs(100);

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("TDSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

/// Runs per tier.
fn budget(prop: &str, thorough: bool) -> u64 {
    let quick: u64 = match prop {
        "C01" => 90_000,
        "C02" => 60_000,
        "C03" => 70_000,
        "C04" => 70_000,
        "C05" => 80_000,
        "C06" => 120_000,
        "C07" => 120_000,
        "C08" => 50_000,
        "C09" => 20_000,
        "C10" => 80_000,
        "C11" => 200_000,
        "C12" => 80_000,
        "C13" => 150_000,
        "C14" => 400_000,
        "C15" => 400_000,
        "C16" => 150_000,
        "C19" => 60_000,
        "C20" => 40_000,
        _ => 0,
    };
    if let Ok(n) = std::env::var("TDSIM_RUNS") {
        return n.parse().expect("TDSIM_RUNS");
    }
    if thorough {
        quick * 20
    } else {
        quick
    }
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    checks: u64,
    accepted: u64,
    events: u64,
    by_op: [u64; 5],
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    nontrivial: u64,
    rerun: u64,
    known: BTreeMap<String, u64>,
    error: Option<String>,
    violation: Option<(u64, String, String)>,
    samples: Vec<serde_json::Value>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    seed: u64,
    run: u64,
    trace: Trace,
}

fn run_seed(seed: u64, i: u64) -> u64 {
    rng::mix2(rng::mix2(seed, 0x7ed1), i)
}

fn worker(a: &[String]) {
    let (prop, seed, w, nw, end, dir) =
        (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap(), PathBuf::from(&a[5]));
    let known = known_findings(prop);
    let mut rep = Report::default();
    let progress = std::fs::File::create(dir.join(format!("progress{w}"))).unwrap();
    use std::os::unix::fs::FileExt;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut i = w;
    while i < end {
        progress.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let t = gen::gen(prop, run_seed(seed, i));
        let o = run_trace(&t);
        rep.runs += 1;
        o.add(&mut rep.fired, &mut rep.probes);
        rep.checks += o.checks;
        rep.accepted += o.accepted;
        rep.events += o.calls;
        for k in 0..5 {
            rep.by_op[k] += o.n[k];
        }
        if (o.accepted > 0 || o.explored) && hashes.insert(o.hash) {
            rep.nontrivial += 1;
        }
        shapes.insert(o.shape);
        if i < 3 {
            let s = serde_json::to_value(&t).unwrap();
            if s.to_string().len() < 6000 {
                rep.samples.push(json!({"run": i, "seed": run_seed(seed, i).to_string(), "trace": s}));
            }
        }
        match o.result {
            Ok(()) => {}
            Err(Problem::Harness(m)) => {
                rep.error = Some(format!("run {i}: {m}"));
                break;
            }
            Err(Problem::Violation(v)) => {
                if let Some(k) = known.iter().find(|k| k.class == v.class && v.msg.contains(&k.text)) {
                    *rep.known.entry(k.line.clone()).or_insert(0) += 1;
                } else {
                    rep.violation = Some((i, v.class, v.msg));
                    break;
                }
            }
        }
        if (i / nw) % 61 == 0 {
            let o2 = run_trace(&t);
            rep.rerun += 1;
            if o2.hash != o.hash || o2.calls != o.calls {
                rep.error = Some(format!("run {i} is not deterministic"));
                break;
            }
        }
        i += nw;
    }
    let bytes = |s: &HashSet<u64>| s.iter().flat_map(|h| h.to_le_bytes()).collect::<Vec<u8>>();
    std::fs::write(dir.join(format!("hashes{w}")), bytes(&hashes)).unwrap();
    std::fs::write(dir.join(format!("shapes{w}")), bytes(&shapes)).unwrap();
    // In one step: the parent may end this process at any moment.
    let part = dir.join(format!("part{w}"));
    std::fs::write(&part, serde_json::to_vec(&rep).unwrap()).unwrap();
    std::fs::rename(&part, dir.join(format!("report{w}"))).unwrap();
}

pub struct Known {
    pub class: String,
    pub text: String,
    pub line: String,
}
/// Lines `finding: property=<id> class=<class> text=<part of the message> -- <what fails>`.
fn known_findings(prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("finding: property={prop} class=")) else { continue };
        let Some((class, r)) = r.split_once(" text=") else { continue };
        let Some((text, what)) = r.split_once(" -- ") else { continue };
        v.push(Known { class: class.into(), text: text.into(), line: what.into() });
    }
    v
}

/// Run a trace in a process of its own: (class, message) of a violation, or None. Err for harness trouble.
fn exec_sub(t: &Trace, timeout: Duration, dir: &Path) -> Result<Option<(String, String)>, String> {
    let f = dir.join("candidate.json");
    std::fs::write(&f, serde_json::to_vec(t).unwrap()).map_err(|e| e.to_string())?;
    exec_file(&f, timeout)
}
fn exec_file(f: &Path, timeout: Duration) -> Result<Option<(String, String)>, String> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let start = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
            break Some(s);
        }
        if start.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 50 { 300 } else { 5000 }));
    };
    let mut out = String::new();
    use std::io::Read;
    if let Some(mut o) = c.stdout.take() {
        let _ = o.read_to_string(&mut out);
    }
    match status {
        None => Ok(Some(("hang".into(), format!("the run does not end within {} s", timeout.as_secs())))),
        Some(s) if s.code() == Some(0) => Ok(None),
        Some(s) if s.code() == Some(1) => {
            let (c, m): (String, String) = serde_json::from_str(out.lines().last().unwrap_or("")).map_err(|e| format!("{e}: {out}"))?;
            Ok(Some((c, m)))
        }
        Some(s) if s.code().is_none() => {
            use std::os::unix::process::ExitStatusExt;
            Ok(Some(("abort".into(), format!("the process is ended by signal {}", s.signal().unwrap_or(0)))))
        }
        Some(s) => Err(format!("exit {:?}: {out}", s.code())),
    }
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let end = budget(prop, thorough);
    if end == 0 {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let nw: u64 = std::env::var("TDSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16)
    });
    let dir = std::env::temp_dir().join(format!("tdsim-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let code = check_in(prop, seed, &tier, thorough, end, nw, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(prop: &str, seed: u64, tier: &str, _thorough: bool, end: u64, nw: u64, dir: &Path, t0: Instant) -> i32 {
    let known = known_findings(prop);
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {}", k.line);
    }
    // Pinned traces first: the histories that once failed.
    let mut pinned = 0u64;
    let mut found: Option<(u64, String, String, Option<Trace>)> = None;
    let mut files: Vec<PathBuf> =
        std::fs::read_dir(verif().join("corpus").join(prop)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in &files {
        let Ok(r) = serde_json::from_slice::<Replay>(&std::fs::read(f).unwrap_or_default()) else {
            eprintln!("{}: not a replay file", f.display());
            return 2;
        };
        pinned += 1;
        match exec_sub(&r.trace, WATCHDOG, dir) {
            Ok(None) => {}
            Ok(Some((c, m))) => {
                if known.iter().any(|k| k.class == c && m.contains(&k.text)) {
                    continue;
                }
                found = Some((0, c, m, Some(r.trace)));
                break;
            }
            Err(m) => {
                eprintln!("harness error in {}: {m}", f.display());
                return 2;
            }
        }
    }
    let mut total = Report::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    if found.is_none() {
        let exe = std::env::current_exe().unwrap();
        let mut kids: Vec<Option<std::process::Child>> = vec![];
        for w in 0..nw {
            let c = Command::new(&exe)
                .args(["worker", prop, &seed.to_string(), &w.to_string(), &nw.to_string(), &end.to_string()])
                .arg(dir)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            kids.push(Some(c));
        }
        let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); nw as usize];
        let mut min = u64::MAX;
        let progress = |w: usize| -> u64 {
            std::fs::read(dir.join(format!("progress{w}"))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0)
        };
        while kids.iter().any(|k| k.is_some()) {
            std::thread::sleep(Duration::from_millis(20));
            for w in 0..nw as usize {
                let Some(k) = kids[w].as_mut() else { continue };
                let p = progress(w);
                if p != last[w].0 {
                    last[w] = (p, Instant::now());
                }
                let mut dead: Option<(&str, String)> = None;
                if let Some(s) = k.try_wait().unwrap() {
                    match std::fs::read(dir.join(format!("report{w}"))) {
                        Ok(b) => {
                            let r: Report = serde_json::from_slice(&b).unwrap();
                            if let Some((i, ..)) = &r.violation {
                                min = min.min(*i);
                            }
                            if let Some(e) = r.error {
                                eprintln!("harness error: {e}");
                                for k in kids.iter_mut().flatten() {
                                    let _ = k.kill();
                                    let _ = k.wait();
                                }
                                return 2;
                            }
                        }
                        Err(_) => {
                            dead = Some(("abort", format!("the process is ended: {s}")));
                        }
                    }
                    kids[w] = None;
                } else if last[w].1.elapsed() > WATCHDOG {
                    let _ = k.kill();
                    let _ = k.wait();
                    dead = Some(("hang", format!("the run does not end within {} s", WATCHDOG.as_secs())));
                    kids[w] = None;
                } else if p > min {
                    let _ = k.kill();
                    let _ = k.wait();
                    kids[w] = None;
                }
                if let Some((c, m)) = dead {
                    let p = progress(w);
                    if p < min || found.is_none() {
                        min = min.min(p);
                        if found.as_ref().map(|f| p < f.0).unwrap_or(true) {
                            found = Some((p, c.into(), m, None));
                        }
                    }
                }
            }
        }
        for w in 0..nw {
            let Ok(b) = std::fs::read(dir.join(format!("report{w}"))) else { continue };
            let r: Report = serde_json::from_slice(&b).unwrap();
            total.runs += r.runs;
            total.checks += r.checks;
            total.accepted += r.accepted;
            total.events += r.events;
            total.rerun += r.rerun;
            for k in 0..5 {
                total.by_op[k] += r.by_op[k];
            }
            for (k, v) in r.fired {
                *total.fired.entry(k).or_insert(0) += v;
            }
            for (k, v) in r.probes {
                *total.probes.entry(k).or_insert(0) += v;
            }
            for (k, v) in r.known {
                *total.known.entry(k).or_insert(0) += v;
            }
            total.samples.extend(r.samples);
            if let Some((i, c, m)) = r.violation {
                if found.as_ref().map(|f| i < f.0).unwrap_or(true) {
                    found = Some((i, c, m, None));
                }
            }
            for (name, set) in [("hashes", &mut hashes), ("shapes", &mut shapes)] {
                if let Ok(b) = std::fs::read(dir.join(format!("{name}{w}"))) {
                    set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((i, class, msg, pinned)) = &found {
        let t = pinned.clone().unwrap_or_else(|| gen::gen(prop, run_seed(seed, *i)));
        // The violation must come again in a process of its own before it counts.
        let wait = if class == "hang" { WATCHDOG } else { Duration::from_secs(30) };
        match exec_sub(&t, wait, dir) {
            Ok(Some((c, m))) => {
                let small = if std::env::var("TDSIM_NOSHRINK").is_ok() {
                    t.clone()
                } else {
                    let lim = Duration::from_secs(if c == "hang" { 60 } else { 75 });
                    let d = dir.to_path_buf();
                    shrink::shrink(&t, lim, &mut |x| {
                        matches!(exec_sub(x, Duration::from_secs(5), &d), Ok(Some((c2, _))) if c2 == c)
                    })
                };
                let (c, m) = match exec_sub(&small, wait, dir) {
                    Ok(Some(x)) => x,
                    _ => (c, m),
                };
                let rd = verif().join("replays");
                std::fs::create_dir_all(&rd).unwrap();
                let path = rd.join(format!("{prop}-{seed}-{i}.json"));
                let r = Replay { property: prop.into(), class: c.clone(), message: m.clone(), seed, run: *i, trace: small };
                std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
                println!("{prop}: run {i} (seed {seed}): [{c}] {m}");
                println!("VIOLATION property={prop} replay={}", path.display());
                code = 1;
            }
            x => {
                eprintln!("harness error: run {i} reported [{class}] {msg}, but alone it gives {x:?}");
                return 2;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = evidence(prop, seed, tier, &total, hashes.len() as u64, shapes.len() as u64, pinned, search, wall, code, nw, end);
    let ed = verif().join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(ed.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if code == 0 {
        println!(
            "{prop}: held in {} runs ({} distinct), {} storage accesses, {} comparisons, {:.1} s",
            total.runs,
            hashes.len(),
            total.events,
            total.checks,
            wall
        );
    }
    let _ = std::io::stdout().flush();
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    seed: u64,
    tier: &str,
    r: &Report,
    distinct: u64,
    shapes: u64,
    pinned: u64,
    search: f64,
    wall: f64,
    code: i32,
    nw: u64,
    end: u64,
) -> serde_json::Value {
    let (real, stub) = components(prop);
    let per_hour = if search > 0.0 { (r.runs as f64 / search * 3600.0) as u64 } else { 0 };
    json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r.runs,
            "distinct_nontrivial": distinct,
            "rule": "One evaluation is one simulated execution: a trace generated from its seed (calls of sessions, reads, faults, crash points, foreign segments or damage, as the property needs) run against the real library on the simulated storage. Non-trivial: at least one write call was accepted or damaged content was explored. Distinct: the hash over all storage accesses (kind, position, length, result, injected fault) differs from every other run's.",
            "samples": r.samples.iter().take(3).cloned().collect::<Vec<_>>(),
            "runs_planned": end,
            "pinned_traces": pinned,
            "seeds_per_hour": per_hour,
            "workers": nw,
            "simulated_time": "The system has no clock or timer; simulated progress is counted in storage accesses.",
            "storage_accesses": r.events,
            "storage_accesses_by_kind": {"read": r.by_op[0], "write": r.by_op[1], "seek": r.by_op[2], "flush": r.by_op[3], "open": r.by_op[4]},
            "accepted_calls": r.accepted,
            "comparisons_with_model": r.checks,
            "injected": r.fired,
            "reached": r.probes,
            "distinct_file_shapes": shapes,
            "file_shape_measure": "Per segment: ToC bits, kind of each raw data index, number of chunks (up to 3) and channels, from the independent decoder over the final bytes.",
            "reruns_with_equal_hash": r.rerun,
            "known_findings_hit": r.known,
            "components_real": real,
            "components_stubbed": stub,
        },
        "assumptions": [
            "Storage keeps writes in the order they were issued: after a crash a prefix of the bytes written is there (for C08, C09; content reordered by a disk without barriers is not simulated).",
            "Flushing the storage is what makes data durable: sync() is judged by flush() reaching the storage after the last write (in runs by path: by the writes reaching the operating system; that no fsync follows is a recorded finding of C08).",
            "Storage returns the bytes written to it unless a fault or damage is injected."
        ],
        "wall_s": wall,
        "violations": code,
    })
}

fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec![
        "tedium (all of /repo/src that the calls reach, compiled from the working tree)",
        "labview-interop, num-traits and std (BufReader, BufWriter, collections)",
    ];
    let mut stub = vec![];
    if prop == "C16" {
        real.push("std::fs::File and OpenOptions down to the C library calls");
        stub.push("the C library's file calls and the kernel's file system (open, read, write, lseek, close, stat, ftruncate, fsync, unlink)");
    } else {
        stub.push("the storage behind Read + Write + Seek (the type parameter F of TdmsFile)");
        if !matches!(prop, "C02" | "C04" | "C14" | "C15") {
            real.push("in a fifth of the runs: TdmsFile::load and create with std::fs::File down to the C library calls");
            stub.push("in those runs: the C library's file calls and the kernel's file system");
        }
    }
    match prop {
        "C20" => stub.push("the other application, while this library reads: its storage writes land between the accesses of the library"),
        "C10" => stub.push("the writing process, while a reader runs: its recorded storage writes land between the reader's accesses"),
        "C02" | "C03" | "C04" | "C06" | "C07" | "C08" | "C09" | "C11" | "C12" | "C13" | "C14" | "C15" | "C19" => {
            stub.push("other TDMS writers: the independent encoder")
        }
        _ => {}
    }
    if prop == "C15" {
        stub.push("the allocator's out-of-memory condition: requests above the armed limit fail");
    }
    (real, stub)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("worker") => {
            worker(&a[1..]);
            0
        }
        Some("exec") => {
            let b = std::fs::read(&a[1]).expect("file");
            let t: Trace = match serde_json::from_slice::<Replay>(&b) {
                Ok(r) => r.trace,
                Err(_) => serde_json::from_slice(&b).expect("trace"),
            };
            let o = run_trace(&t);
            match o.result {
                Ok(()) => 0,
                Err(Problem::Violation(v)) => {
                    println!("{}", serde_json::to_string(&(v.class, v.msg)).unwrap());
                    1
                }
                Err(Problem::Harness(m)) => {
                    println!("{m}");
                    3
                }
            }
        }
        Some("replay") => {
            let r: Replay = serde_json::from_slice(&std::fs::read(&a[1]).expect("file")).expect("replay file");
            match exec_file(Path::new(&a[1]), WATCHDOG) {
                Ok(None) => {
                    println!("{}: the trace runs without a violation", r.property);
                    0
                }
                Ok(Some((c, m))) => {
                    println!("[{c}] {m}");
                    println!("VIOLATION property={} replay={}", r.property, a[1]);
                    1
                }
                Err(m) => {
                    eprintln!("harness error: {m}");
                    2
                }
            }
        }
        Some("show") => {
            let t = gen::gen(&a[1], run_seed(a[2].parse().unwrap(), a[3].parse().unwrap()));
            println!("{}", serde_json::to_string_pretty(&t).unwrap());
            0
        }
        Some("one") => {
            let t = gen::gen(&a[1], run_seed(a[2].parse().unwrap(), a[3].parse().unwrap()));
            let o = run_trace(&t);
            println!("{:?} hash {:x} calls {}", o.result, o.hash, o.calls);
            0
        }
        _ => {
            eprintln!("usage: tdsim check PROP | replay FILE | show PROP SEED RUN");
            2
        }
    };
    std::process::exit(code);
}
