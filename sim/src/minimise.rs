//! Shrinks a failing run while the same class of violation persists. Every candidate runs in a
//! process of its own.

use crate::report::{Record, EXIT_VIOLATION};
use crate::run::{Run, Sched, Step};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Lab {
    pub dir: PathBuf,
    pub class: String,
    pub until: Instant,
    pub tried: u64,
    pub limit: Duration,
}

fn spawn(dir: &Path, n: usize, text: &str) -> Child {
    let f = dir.join(format!("cand{n}.run"));
    let v = dir.join(format!("cand{n}.violation"));
    let _ = std::fs::remove_file(&v);
    std::fs::write(&f, text).expect("write candidate");
    Command::new(crate::run::exe(crate::run::build_named(text)))
        .arg("exec")
        .arg(&f)
        .arg(&v)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}

/// What became of a process that executed a run
pub fn verdict(status: std::process::ExitStatus, record: &Path) -> Option<Record> {
    use std::os::unix::process::ExitStatusExt;
    if status.code() == Some(EXIT_VIOLATION) {
        let t = std::fs::read_to_string(record).unwrap_or_default();
        return Some(Record::parse(&t));
    }
    if let Some(s) = status.signal() {
        let name = match s {
            4 => "SIGILL",
            6 => "SIGABRT",
            7 => "SIGBUS",
            8 => "SIGFPE",
            9 => "SIGKILL",
            11 => "SIGSEGV",
            _ => "a signal",
        };
        return Some(Record {
            class: "crash".into(),
            message: format!("the process died of {name} inside the library"),
            at: "unknown".into(),
            ..Default::default()
        });
    }
    None
}

impl Lab {
    /// Run texts side by side; verdicts in order
    pub fn batch(&mut self, texts: &[String]) -> Vec<Option<Record>> {
        self.tried += texts.len() as u64;
        let mut kids: Vec<(Child, Option<Option<Record>>)> = texts
            .iter()
            .enumerate()
            .map(|(n, t)| (spawn(&self.dir, n, t), None))
            .collect();
        let start = Instant::now();
        loop {
            let mut open = false;
            for (n, (k, out)) in kids.iter_mut().enumerate() {
                if out.is_some() {
                    continue;
                }
                match k.try_wait() {
                    Ok(Some(st)) => *out = Some(verdict(st, &self.dir.join(format!("cand{n}.violation")))),
                    Ok(None) if start.elapsed() > self.limit => {
                        let _ = k.kill();
                        let _ = k.wait();
                        *out = Some(Some(Record {
                            class: "hang".into(),
                            message: format!("no end after {} s", self.limit.as_secs()),
                            at: "unknown".into(),
                            ..Default::default()
                        }));
                    }
                    Ok(None) => open = true,
                    Err(_) => *out = Some(None),
                }
            }
            if !open {
                break;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        kids.into_iter().map(|x| x.1.unwrap_or(None)).collect()
    }

    pub fn one(&mut self, text: &str) -> Option<Record> {
        self.batch(&[text.to_string()]).pop().unwrap()
    }

    fn fits(&self, r: &Option<Record>) -> bool {
        r.as_ref().is_some_and(|r| r.class == self.class)
    }

    /// first of the candidates that still fails
    fn first(&mut self, cands: Vec<Run>) -> Option<(Run, Record)> {
        for chunk in cands.chunks(8) {
            if Instant::now() > self.until {
                return None;
            }
            let mut texts: Vec<String> = chunk.iter().map(|c| c.text()).collect();
            let mut runs: Vec<Run> = chunk.to_vec();
            // with other steps an old schedule may miss: try a few fresh ones too
            if chunk.len() <= 2 && chunk[0].mode == "threads" {
                for c in chunk {
                    for s in 0..3 {
                        let mut c = c.clone();
                        c.sched = Sched::Seed(s);
                        texts.push(c.text());
                        runs.push(c);
                    }
                }
            }
            let v = self.batch(&texts);
            if let Some(i) = v.iter().position(|r| self.fits(r)) {
                let rec = v[i].clone().unwrap();
                let mut run = runs[i].clone();
                if let Some(s @ Sched::List { .. }) = &rec.sched {
                    run.sched = s.clone();
                }
                if run.mode == "oom" && rec.alloc != 0 {
                    run.alloc = rec.alloc;
                }
                return Some((run, rec));
            }
        }
        None
    }

    fn ddmin<T: Clone>(
        &mut self,
        best: &mut (Run, Record),
        get: impl Fn(&Run) -> Vec<T>,
        set: impl Fn(&mut Run, Vec<T>),
    ) -> bool {
        let mut changed = false;
        let mut size = get(&best.0).len().div_ceil(2);
        while size >= 1 {
            if Instant::now() > self.until {
                return changed;
            }
            let items = get(&best.0);
            if items.is_empty() {
                break;
            }
            let mut cands = vec![];
            let mut at = items.len();
            // later items first: what comes after the failure is useless
            while at > 0 {
                let lo = at.saturating_sub(size);
                let mut v = items.clone();
                v.drain(lo..at);
                let mut r = best.0.clone();
                set(&mut r, v);
                cands.push(r);
                at = lo;
            }
            match self.first(cands) {
                Some(b) => {
                    *best = b;
                    changed = true;
                    size = size.min(get(&best.0).len().max(1));
                }
                None => {
                    if size == 1 {
                        break;
                    }
                    size = size.div_ceil(2);
                }
            }
        }
        changed
    }

    fn args(&mut self, best: &mut (Run, Record)) -> bool {
        let mut changed = false;
        let mut i = 0;
        while i < best.0.steps.len() && Instant::now() < self.until {
            let st = best.0.steps[i].clone();
            let mut alts: Vec<Step> = vec![];
            if st.fault.is_some() {
                let mut s = st.clone();
                s.fault = None;
                alts.push(s);
            }
            for j in (0..5).rev() {
                let x = st.a[j];
                if x == 0 {
                    continue;
                }
                for y in [0, 1, x / 2, x - x.min(64), x - 1] {
                    if y < x {
                        let mut s = st.clone();
                        s.a[j] = y;
                        if !alts.contains(&s) {
                            alts.push(s);
                        }
                    }
                }
            }
            let cands = alts
                .into_iter()
                .map(|s| {
                    let mut r = best.0.clone();
                    r.steps[i] = s;
                    r
                })
                .collect();
            match self.first(cands) {
                Some(b) => {
                    *best = b;
                    changed = true;
                }
                None => i += 1,
            }
        }
        changed
    }

    pub fn shrink(&mut self, run: Run, rec: Record) -> (Run, Record) {
        let mut best = (run, rec);
        loop {
            let mut changed = self.ddmin(&mut best, |r| r.steps.clone(), |r, v| r.steps = v);
            for stale in [true, false] {
                changed |= self.ddmin(
                    &mut best,
                    |r| match &r.sched {
                        Sched::List { switches, stale: s } => if stale { s.clone() } else { switches.clone() },
                        _ => vec![],
                    },
                    |r, v| {
                        if let Sched::List { switches, stale: s } = &mut r.sched {
                            if stale {
                                *s = v
                            } else {
                                *switches = v
                            }
                        }
                    },
                );
            }
            changed |= self.args(&mut best);
            if !changed || Instant::now() > self.until {
                return best;
            }
        }
    }
}
