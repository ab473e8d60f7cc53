//! Deterministic simulation of sweep-bptree. See /verif/DESIGN.md.

mod coll;
mod ctx;
mod exec;
mod gen;
mod minimise;
mod model;
mod oom;
mod report;
mod rng;
mod run;
mod supervise;
mod threads;
mod types;

use crate::ctx::ctx;
use crate::report::SINK;
use crate::run::Run;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::time::Instant;

#[global_allocator]
static ALLOC: oom::SimAlloc = oom::SimAlloc;

pub const PROPS: [&str; 13] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14",
];

/// Seed of run `i` of a property
pub fn run_seed(master: u64, prop: &str, i: u64) -> u64 {
    let p = prop.bytes().fold(7u64, |a, b| rng::mix2(a, b as u64));
    rng::mix2(rng::mix2(master, p), i)
}

fn arg(v: &[String], i: usize) -> String {
    v.get(i).cloned().unwrap_or_else(|| {
        eprintln!("missing argument {i}");
        std::process::exit(2)
    })
}

fn num(v: &[String], i: usize) -> u64 {
    arg(v, i).parse().unwrap_or_else(|_| {
        eprintln!("bad number {}", v[i]);
        std::process::exit(2)
    })
}

/// Execute, treating every panic that escapes as a violation
pub fn execute_guarded(run: &Run) -> u64 {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec::execute(run)));
    if let Err(p) = r {
        report::violated("panic", &report::panic_text(&*p), &ctx().where_.clone());
    }
    ctx().hash
}

fn worker(a: &[String]) {
    // worker PROP MASTER TIER FIRST STRIDE COUNT SECONDS DIR ID
    let prop = arg(a, 0);
    let (master, thorough) = (num(a, 1), arg(a, 2) == "thorough");
    let (first, stride, count, secs) = (num(a, 3), num(a, 4), num(a, 5), num(a, 6));
    let dir = PathBuf::from(arg(a, 7));
    let id = arg(a, 8);
    let progress = std::fs::File::create(dir.join(format!("{id}.progress"))).expect("progress file");
    SINK.lock().unwrap().0 = Some(dir.join(format!("{id}.violation")));
    let start = Instant::now();
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: Vec<(u64, u64, bool)> = vec![];
    let mut samples = vec![];
    let mut i = first;
    while i < count && start.elapsed().as_secs() < secs {
        let _ = progress.write_all_at(&(i + 1).to_le_bytes(), 0);
        SINK.lock().unwrap().1 = i;
        let mut run = gen::run_at(&prop, master, i, thorough);
        run.build = run::build_of(&prop, i);
        let t = Instant::now();
        let h = execute_guarded(&run);
        if std::env::var("DST_SLOW").is_ok() && t.elapsed().as_millis() > 1500 {
            eprintln!("slow run {i}: {} ms, {} u={} steps={}", t.elapsed().as_millis(), run.kind, run.u, run.steps.len());
        }
        let mut add = |k: &str, v: u64| *sums.entry(k.into()).or_default() += v;
        let s = &ctx().stats;
        let mut faults = 0;
        for (n, v) in ctx::FAULT_NAME.iter().zip(s.fired) {
            add(&format!("fault.{n}"), v);
            faults += v;
        }
        for (n, v) in ctx::PROBE_NAME.iter().zip(s.probes) {
            add(&format!("probe.{n}"), v);
        }
        for (n, v) in [
            ("lib_calls", s.lib_calls),
            ("steps", run.steps.len() as u64),
            ("comparisons", s.compares),
            ("fault.wrong_comparison", s.lies),
            ("fault.bad_position", s.bad_positions),
            ("fault.allocation_failure", s.allocs_failed),
            ("allocations", s.allocs),
            ("switches", s.switches),
            ("stale_loads", s.stale_loads),
            ("atomic_accesses", s.atomics),
            ("plain_accesses_traced", s.plain),
            ("plain_writes_to_shared_memory", s.shared_writes),
            ("nested_queries", s.nested),
            ("scheduling_points", s.points),
            ("os_blocked", s.escaped),
            ("runs", 1),
        ] {
            add(n, v);
        }
        add(&format!("kind.{}", run.kind), 1);
        add(&format!("mode.{}", run.mode), 1);
        faults += s.lies + s.bad_positions + s.allocs_failed;
        let inside = s.probes[14] > 0;
        let nontrivial = s.lib_calls >= 50
            && match prop.as_str() {
                "C01" => inside,
                "C04" | "C10" | "C11" => faults > 0,
                _ => true,
            };
        hashes.push((i, h, nontrivial));
        if samples.len() < 2 && run.steps.len() < 40 && nontrivial {
            samples.push((i, run.text()));
        }
        i += stride;
    }
    let mut out = String::new();
    for (k, v) in &sums {
        out += &format!("sum {k} {v}\n");
    }
    for (i, h, n) in &hashes {
        out += &format!("hash {i} {h:x} {}\n", *n as u8);
    }
    for (i, s) in &samples {
        out += &format!("sample {i} {}\n", s.replace('\n', ";"));
    }
    std::fs::write(dir.join(format!("{id}.result")), out).expect("result file");
}

/// Execute what a replay file describes; the record of a violation goes to `sink`
fn exec_file(path: &Path, sink: Option<PathBuf>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{}: {e}", path.display());
        std::process::exit(2)
    });
    SINK.lock().unwrap().0 = sink;
    if let Some(l) = text.lines().find(|l| l.starts_with("range ")) {
        // range PROP MASTER TIER FIRST STRIDE LAST
        let a: Vec<String> = l.split_whitespace().skip(1).map(|x| x.to_string()).collect();
        let (prop, master, thorough) = (arg(&a, 0), num(&a, 1), arg(&a, 2) == "thorough");
        let (first, stride, last) = (num(&a, 3), num(&a, 4), num(&a, 5));
        let mut i = first;
        while i <= last {
            SINK.lock().unwrap().1 = i;
            let mut run = gen::run_at(&prop, master, i, thorough);
            run.build = run::build_of(&prop, i);
            execute_guarded(&run);
            i += stride;
        }
        return;
    }
    let run = Run::parse(&text).unwrap_or_else(|e| {
        eprintln!("{e}");
        std::process::exit(2)
    });
    let h = execute_guarded(&run);
    let _ = writeln!(std::io::stdout(), "completed, event hash {h:016x}");
}

fn main() {
    report::silence_panics();
    let a: Vec<String> = std::env::args().skip(1).collect();
    // the allocation-error report would spend its time on naming stack frames
    std::env::set_var("RUST_BACKTRACE", "0");
    let rest = a.get(1..).unwrap_or(&[]).to_vec();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&rest),
        Some("exec") => exec_file(Path::new(&arg(&rest, 0)), rest.get(1).map(PathBuf::from)),
        Some("gen") => print!(
            "{}",
            gen::run_at(&arg(&rest, 0), num(&rest, 1), num(&rest, 2), rest.get(3).is_some_and(|t| t == "thorough")).text()
        ),
        Some("check") => std::process::exit(supervise::check(&arg(&rest, 0))),
        Some("replay") => std::process::exit(supervise::replay(Path::new(&arg(&rest, 0)))),
        _ => {
            eprintln!("usage: dst check PROP | replay FILE | gen PROP MASTER INDEX | exec FILE");
            std::process::exit(2)
        }
    }
}
