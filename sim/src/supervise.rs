//! `dst check`: spreads seeded runs over worker processes, turns a failure into a minimised replay
//! file, writes the evidence. `dst replay`: re-executes a replay file.

use crate::minimise::{verdict, Lab};
use crate::report::Record;
use crate::run::{Run, Sched};
use crate::{gen, run_seed, PROPS};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(100);

fn home() -> PathBuf {
    std::env::var("DST_HOME").map(PathBuf::from).unwrap_or_else(|_| std::env::current_dir().unwrap())
}

fn scratch() -> PathBuf {
    let base = std::env::var("DST_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| home().join(".build/scratch"));
    let d = base.join(format!("{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Worker {
    child: Child,
    id: String,
    seen: u64,
    since: Instant,
    first: u64,
    done: bool,
}

fn spawn_worker(prop: &str, seed: u64, tier: &str, first: u64, stride: u64, count: u64, secs: u64, dir: &Path, id: &str) -> Worker {
    let child = Command::new(crate::run::exe(crate::run::build_of(prop, first)))
        .args([
            "worker".to_string(),
            prop.into(),
            seed.to_string(),
            tier.into(),
            first.to_string(),
            stride.to_string(),
            count.to_string(),
            secs.to_string(),
            dir.display().to_string(),
            id.into(),
        ])
        .stdout(Stdio::null())
        .stderr(if std::env::var("DST_SLOW").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("spawn worker");
    Worker {
        child,
        id: id.into(),
        seen: 0,
        since: Instant::now(),
        first,
        done: false,
    }
}

fn progress(dir: &Path, id: &str) -> u64 {
    std::fs::read(dir.join(format!("{id}.progress")))
        .ok()
        .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
        .unwrap_or(0)
}

struct Failure {
    index: u64,
    first: u64,
    rec: Record,
}

#[derive(Default)]
struct Tally {
    sums: BTreeMap<String, u64>,
    hashes: BTreeMap<u64, (u64, bool)>,
    samples: BTreeMap<u64, String>,
}

fn collect(dir: &Path, id: &str, t: &mut Tally) {
    let Ok(text) = std::fs::read_to_string(dir.join(format!("{id}.result"))) else { return };
    for l in text.lines() {
        let mut w = l.splitn(3, ' ');
        let (k, a, b) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        match k {
            "sum" => *t.sums.entry(a.into()).or_default() += b.parse::<u64>().unwrap_or(0),
            "hash" => {
                let (h, n) = b.split_once(' ').unwrap_or((b, "0"));
                t.hashes.insert(
                    a.parse().unwrap_or(0),
                    (u64::from_str_radix(h, 16).unwrap_or(0), n == "1"),
                );
            }
            "sample" => {
                t.samples.insert(a.parse().unwrap_or(0), b.into());
            }
            _ => {}
        }
    }
}

/// (runs, seconds)
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let env = |n: &str| std::env::var(n).ok().and_then(|x| x.parse::<u64>().ok());
    let runs = match prop {
        "C01" => 12000,
        "C02" => 18000,
        "C03" => 24000,
        "C04" => 14000,
        "C05" => 12000,
        "C06" => 20000,
        "C07" => 14000,
        "C08" => 8000,
        "C09" => 14000,
        "C10" => 24000,
        "C12" => 16000,
        "C14" => 12000,
        _ => 5000,
    };
    let (r, s) = if thorough { (runs * 30, 800) } else { (runs, 220) };
    (env("DST_RUNS").unwrap_or(r), env("DST_SECONDS").unwrap_or(s))
}

fn explore(prop: &str, seed: u64, tier: &str, dir: &Path, stride: u64, count: u64, secs: u64, prefix: &str) -> (Tally, Option<Failure>) {
    let mut ws: Vec<Worker> = (0..stride)
        .map(|w| spawn_worker(prop, seed, tier, w, stride, count, secs, dir, &format!("{prefix}{w}")))
        .collect();
    let mut failure: Option<Failure> = None;
    let (mut hung, mut looked) = (false, false);
    while ws.iter().any(|w| !w.done) {
        std::thread::sleep(Duration::from_millis(5));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut fail = None;
            match w.child.try_wait() {
                Ok(Some(st)) => {
                    w.done = true;
                    if !st.success() {
                        fail = verdict(st, &dir.join(format!("{}.violation", w.id))).or_else(|| {
                            Some(Record {
                                class: "crash".into(),
                                message: format!("the process ended with {st}"),
                                ..Default::default()
                            })
                        });
                    }
                }
                Ok(None) => {
                    let p = progress(dir, &w.id);
                    if p != w.seen {
                        w.seen = p;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > if hung { HANG / 2 } else { HANG } {
                        hung = true;
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        fail = Some(Record {
                            class: "hang".into(),
                            message: format!("no progress for {} s", HANG.as_secs()),
                            ..Default::default()
                        });
                    }
                }
                Err(_) => w.done = true,
            }
            if let Some(rec) = fail {
                let index = progress(dir, &w.id).saturating_sub(1);
                // of several runs that hang, a small one says more
                let rank = |i: u64| (rec.class == "hang" && gen::run_at(prop, seed, i, tier == "thorough").u >= 1 << 17, i);
                if failure.as_ref().is_none_or(|f| rank(index) < rank(f.index)) {
                    failure = Some(Failure {
                        index,
                        first: w.first,
                        rec,
                    });
                }
            }
        }
        // after the first run that hangs, look at all the others once more
        let again = hung && !std::mem::replace(&mut looked, hung);
        if failure.is_some() && !again {
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
            }
        }
    }
    let mut t = Tally::default();
    for w in &ws {
        collect(dir, &w.id, &mut t);
    }
    (t, failure)
}

pub fn check(prop: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    println!("property {prop}, VERIF_SEED={seed}, tier {tier}");
    let start = Instant::now();
    let dir = scratch();
    let (count, secs) = budget(prop, tier == "thorough");
    let stride = std::env::var("DST_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64).next_multiple_of(4);
    let (t, failure) = explore(prop, seed, tier, &dir, stride, count, secs, "w");
    let code = match failure {
        Some(f) => {
            let line = report(prop, seed, tier, &dir, stride, f);
            println!("{line}");
            evidence(prop, seed, tier, &t, start.elapsed(), 1, None);
            1
        }
        None => {
            // the same seeds again, in a fresh process, one worker: every event must be the same
            let again = if tier == "thorough" { 160 } else { 40 };
            let d2 = dir.join("again");
            let _ = std::fs::create_dir_all(&d2);
            let (t2, f2) = explore(prop, seed, tier, &d2, 4, again, 30, "d");
            let (mut same, mut diff) = (0, vec![]);
            for (i, h) in &t2.hashes {
                match t.hashes.get(i) {
                    Some(x) if x == h => same += 1,
                    Some(_) => diff.push(*i),
                    None => {}
                }
            }
            if let Some(f) = f2 {
                println!("{}", report(prop, seed, tier, &dir, 4, f));
                evidence(prop, seed, tier, &t, start.elapsed(), 1, None);
                let _ = std::fs::remove_dir_all(&dir);
                return 1;
            }
            if !diff.is_empty() {
                println!("note: runs {diff:?} did not repeat exactly");
            }
            evidence(prop, seed, tier, &t, start.elapsed(), 0, Some((same, diff.len() as u64)));
            println!(
                "{} runs, {} distinct, no violation, {:.1} s",
                t.hashes.len(),
                distinct(&t),
                start.elapsed().as_secs_f64()
            );
            0
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Minimise, write the replay file, verify it; returns the line to print
fn report(prop: &str, seed: u64, tier: &str, dir: &Path, stride: u64, f: Failure) -> String {
    let replays = home().join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let file = replays.join(format!("{prop}-seed{seed}-run{}.replay", f.index));
    println!(
        "run {} violates {prop}: [{}] {} at {}",
        f.index, f.rec.class, f.rec.message, f.rec.at
    );
    let mut run = gen::run_at(prop, seed, f.index, tier == "thorough");
    run.build = crate::run::build_of(prop, f.index);
    let patience = Duration::from_secs(if run.u < 1 << 17 { 30 } else { 60 });
    let mut lab = Lab {
        dir: dir.to_path_buf(),
        class: f.rec.class.clone(),
        until: Instant::now() + Duration::from_secs(60),
        tried: 0,
        limit: if f.rec.class == "hang" { patience } else { Duration::from_secs(40) },
    };
    // alone, in a fresh process?
    let mut cands = vec![run.clone()];
    if f.rec.sched.is_some() {
        let mut r = run.clone();
        r.sched = f.rec.sched.clone().unwrap();
        cands.insert(0, r);
    }
    let mut found = None;
    for c in &cands {
        if let Some(r) = lab.one(&c.text()) {
            if found.is_none() || r.class == f.rec.class {
                lab.class = r.class.clone();
                run = c.clone();
                found = Some(r);
                break;
            }
        }
    }
    let text = match found {
        Some(rec) => {
            if let (Sched::Seed(_), Some(s)) = (&run.sched, &rec.sched) {
                run.sched = s.clone();
            }
            if run.mode == "oom" && rec.alloc != 0 {
                run.alloc = rec.alloc;
            }
            let n = run.steps.len();
            let (run, rec) = if rec.class != "hang" {
                lab.shrink(run, rec)
            } else if run.u < 1 << 17 {
                // runs of this size end within a moment; whatever is left is tried with patience
                lab.limit = Duration::from_secs(5);
                lab.until = Instant::now() + Duration::from_secs(120);
                let (small, less) = lab.shrink(run.clone(), rec.clone());
                lab.limit = patience;
                match lab.one(&small.text()) {
                    Some(r) if r.class == "hang" => (small, less),
                    _ => (run, rec),
                }
            } else {
                (run, rec)
            };
            println!("minimised {n} steps to {} in {} executions", run.steps.len(), lab.tried);
            println!("[{}] {} at {}", rec.class, rec.message, rec.at);
            for s in run.steps.iter().take(30) {
                println!("  {}", s.text());
            }
            header(&rec) + &run.text()
        }
        None => {
            // needs what earlier runs of its process left behind
            println!("not reproducible alone; the replay file repeats the runs of its worker process");
            header(&f.rec) + &format!("build {}\n", crate::run::BUILDS[run.build]) + &format!("range {prop} {seed} {tier} {} {stride} {}\n", f.first, f.index)
        }
    };
    std::fs::write(&file, &text).expect("replay file");
    lab.limit = if lab.class == "hang" { patience } else { Duration::from_secs(200) };
    match lab.one(&text) {
        Some(r) if r.class == Record::parse(&text).class => println!("replayed in a fresh process: same violation"),
        Some(r) => println!("replayed in a fresh process: another violation [{}] {}", r.class, r.message),
        None => println!("replayed in a fresh process: did NOT reproduce"),
    }
    format!("VIOLATION property={prop} replay={}", file.display())
}

fn header(r: &Record) -> String {
    let one = |s: &str| s.replace('\n', " ");
    format!("dst-replay 1\nclass {}\nmessage {}\nat {}\n", one(&r.class), one(&r.message), one(&r.at))
}

pub fn replay(file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("can not read {}", file.display());
        return 2;
    };
    let want = Record::parse(&text);
    let dir = scratch();
    let mut lab = Lab {
        dir: dir.clone(),
        class: want.class.clone(),
        until: Instant::now(),
        tried: 0,
        limit: Duration::from_secs(300),
    };
    let prop = Run::parse(&text)
        .map(|r| r.prop)
        .ok()
        .filter(|p| !p.is_empty())
        .or_else(|| {
            text.lines()
                .find_map(|l| l.strip_prefix("range "))
                .and_then(|l| l.split(' ').next().map(|x| x.to_string()))
        })
        .unwrap_or_default();
    let r = lab.one(&text);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Some(r) => {
            println!("[{}] {} at {}", r.class, r.message, r.at);
            println!(
                "{}",
                if r.class == want.class && r.message == want.message && r.at == want.at {
                    "exactly as recorded"
                } else if r.class == want.class {
                    "same class as recorded, other details"
                } else {
                    "differs from the record"
                }
            );
            println!("VIOLATION property={prop} replay={}", file.display());
            1
        }
        None => {
            println!("completed without violation");
            0
        }
    }
}

fn distinct(t: &Tally) -> usize {
    t.hashes
        .values()
        .filter(|x| x.1)
        .map(|x| x.0)
        .collect::<HashSet<_>>()
        .len()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn evidence(prop: &str, seed: u64, tier: &str, t: &Tally, wall: Duration, violations: u64, det: Option<(u64, u64)>) {
    let get = |k: &str| t.sums.get(k).copied().unwrap_or(0);
    let group = |p: &str, zero: bool| {
        let v: Vec<String> = t
            .sums
            .iter()
            .filter_map(|(k, v)| {
                let k = k.strip_prefix(p)?;
                (zero || *v > 0).then(|| format!("{}: {v}", esc(k)))
            })
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let secs = wall.as_secs_f64().max(0.001);
    let evals = t.hashes.len();
    let rule = match prop {
        "C01" => "one case = one seeded run (programs of 2-5 client threads, schedule, memory choices); distinct = distinct event hash (all library contacts with keys plus all switches and stale loads); non-trivial = at least 50 library calls and at least one preemption inside a library call",
        "C04" | "C10" => "one case = one seeded run (interleaved client programs plus faults); distinct = distinct event hash over every operation, comparison and fault; non-trivial = at least 50 library calls and at least one fault fired inside the library",
        "C11" => "one case = one seeded run with failures injected into allocations of the library, each in a forked child; distinct = distinct event hash; non-trivial = at least 50 library calls and at least one allocation failed",
        _ => "one case = one seeded run (interleaved client programs, plus the faults enabled in it); distinct = distinct event hash over every operation, comparison and fault; non-trivial = at least 50 library calls",
    };
    let mut f = vec![
        format!("\"evaluations\": {evals}"),
        format!("\"distinct_nontrivial\": {}", distinct(t)),
        format!("\"rule\": {}", esc(rule)),
        format!(
            "\"samples\": [{}]",
            t.samples.iter().take(4).map(|(i, s)| esc(&format!("run {i}: {s}"))).collect::<Vec<_>>().join(", ")
        ),
        format!("\"runs_per_hour\": {}", (evals as f64 * 3600.0 / secs) as u64),
        format!("\"library_calls\": {}", get("lib_calls")),
        format!("\"client_steps\": {}", get("steps")),
        format!("\"key_comparisons\": {}", get("comparisons")),
        format!("\"faults_fired\": {}", group("fault.", true)),
        format!("\"conditions_hit\": {}", group("probe.", true)),
        format!("\"collections\": {}", group("kind.", false)),
        format!("\"modes\": {}", group("mode.", false)),
        format!(
            "\"simulated_time\": {}",
            esc("the library has no clock; simulated time is counted in library calls and scheduling points")
        ),
        format!(
            "\"components\": {}",
            esc("real: the whole library, optimised, every second run with debug assertions and overflow checks and every second without; simulated: thread scheduler, visibility of relaxed atomics, the clients' lock, keys/values/groups/augmentations/visitors/sources (instrumented user code), allocator")
        ),
    ];
    if get("scheduling_points") > 0 {
        for k in ["scheduling_points", "switches", "atomic_accesses", "stale_loads", "os_blocked", "plain_accesses_traced", "plain_writes_to_shared_memory", "nested_queries"] {
            f.push(format!("{}: {}", esc(k), get(k)));
        }
    }
    if get("allocations") > 0 {
        f.push(format!("\"allocations_of_library\": {}", get("allocations")));
    }
    if let Some((same, diff)) = det {
        f.push(format!(
            "\"determinism\": {{\"runs_repeated_in_fresh_process\": {}, \"identical\": {same}, \"different\": {diff}}}",
            same + diff
        ));
    }
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {seed},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    {}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {violations}\n}}\n",
        esc(prop),
        esc(tier),
        f.join(",\n    "),
        [
            "sampling: a clean batch is evidence, not proof",
            "instrumented key, value and augmentation types stand for all user types",
        ]
        .iter()
        .map(|x| esc(x))
        .collect::<Vec<_>>()
        .join(", "),
        secs
    );
    let d = home().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{prop}.json")), text).expect("evidence file");
}
