//! A run: configuration plus the schedule of client operations and faults. Text form = replay file.

use crate::ctx::{Fault, FAULT_NAME};

macro_rules! ops {
    ($($n: ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum Op { $($n),* }
        impl Op {
            pub const ALL: &'static [Op] = &[$(Op::$n),*];
            pub fn name(self) -> &'static str {
                match self { $(Op::$n => stringify!($n)),* }
            }
            pub fn parse(s: &str) -> Option<Op> {
                match s { $(stringify!($n) => Some(Op::$n),)* _ => None }
            }
        }
    };
}

ops!(
    // slot, key, flag
    Ins, Rem, Get, GetMut,
    // slot
    Ends, Clear, DropTree, Audit,
    // slot, lo, n, stride, order
    InsR, RemR,
    // src, dst
    Fork, Union, Swap,
    // slot, n, pattern, hint
    Bulk,
    // slot, seed, n
    Consume, Walk,
    // slot, cursor, ...
    CFirst, CLast, CGet, CMove, CVal, CWalk, CCopy, CDrop,
    // slot, goal kind, goal, behave, pos
    AGet, AMut, ARem, ARank, GSize, Visit,
    // slot, other, seed, n
    UWalk,
    // slot, lo, entries, operations, style
    Churn,
    // threads: gap without the lock
    Yield,
);

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub client: u8,
    pub op: Op,
    pub a: [u64; 5],
    pub fault: Option<(Fault, u64)>,
}

impl Step {
    pub fn new(client: u8, op: Op, a: &[u64]) -> Step {
        let mut x = [0; 5];
        x[..a.len()].copy_from_slice(a);
        Step {
            client,
            op,
            a: x,
            fault: None,
        }
    }
    pub fn with(mut self, f: Option<(Fault, u64)>) -> Step {
        self.fault = f;
        self
    }
    pub fn text(&self) -> String {
        let mut n = 5;
        while n > 0 && self.a[n - 1] == 0 {
            n -= 1;
        }
        let mut s = format!("c{} {}", self.client, self.op.name());
        for x in &self.a[..n] {
            s += &format!(" {x}");
        }
        if let Some((f, c)) = self.fault {
            s += &format!(" !{}:{}", FAULT_NAME[f as usize], c);
        }
        s
    }
    pub fn parse(s: &str) -> Option<Step> {
        let mut it = s.split_whitespace();
        let client = it.next()?.strip_prefix('c')?.parse().ok()?;
        let op = Op::parse(it.next()?)?;
        let mut st = Step::new(client, op, &[]);
        let mut i = 0;
        for w in it {
            if let Some(f) = w.strip_prefix('!') {
                let (n, c) = f.split_once(':')?;
                let idx = FAULT_NAME.iter().position(|x| *x == n)?;
                st.fault = Some((Fault::from_idx(idx), c.parse().ok()?));
            } else {
                *st.a.get_mut(i)? = w.parse().ok()?;
                i += 1;
            }
        }
        Some(st)
    }
}

/// Where the scheduler of simulated threads takes its decisions from
#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
    Seed(u64),
    /// (scheduling point, thread to run from there); loads listed in `stale` see old values
    List {
        switches: Vec<(u64, u32)>,
        stale: Vec<(u64, u32)>,
    },
}

/// Builds of the simulator: with and without debug assertions and overflow checks; with plain
/// memory accesses reported to the scheduler
pub const BUILDS: [&str; 3] = ["release", "plain", "traced"];

/// Runs alternate between the builds
pub fn build_of(prop: &str, index: u64) -> usize {
    match index % 4 {
        3 if prop == "C01" => 2,
        i => (i % 2) as usize,
    }
}

/// What a replay file asks for
pub fn build_named(text: &str) -> usize {
    text.lines()
        .find_map(|l| l.strip_prefix("build "))
        .and_then(|b| BUILDS.iter().position(|x| *x == b))
        .unwrap_or(0)
}

/// The simulator of that build
pub fn exe(build: usize) -> std::path::PathBuf {
    let me = std::env::current_exe().unwrap();
    let base = me.ancestors().nth(3).unwrap();
    base.join(["target/release", "target/plain", "traced/host/plain"][build]).join("dst")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub prop: String,
    /// index into BUILDS
    pub build: usize,
    /// step | threads | oom
    pub mode: String,
    pub seed: u64,
    pub kind: String,
    /// key universe
    pub u: u64,
    pub gshift: u32,
    pub lie_mode: u8,
    pub lie_rate: u32,
    /// user callbacks misbehave: only memory safety and bookkeeping are judged
    pub byzantine: bool,
    /// per mille probability of a switch at a plain / an atomic scheduling point
    pub switch: (u32, u32),
    /// per mille of relaxed loads that may see an older value
    pub stale: u32,
    pub threads: u8,
    /// per mille of callbacks out of queries that query again
    pub nest: u32,
    pub sched: Sched,
    /// fail this allocation (mode oom)
    pub alloc: u64,
    pub steps: Vec<Step>,
}

impl Run {
    pub fn text(&self) -> String {
        let mut s = String::new();
        s += &format!("build {}\n", BUILDS[self.build]);
        s += &format!("prop {}\nmode {}\nseed {}\nkind {}\n", self.prop, self.mode, self.seed, self.kind);
        s += &format!("universe {}\ngshift {}\n", self.u, self.gshift);
        s += &format!("lie {} {}\nbyzantine {}\n", self.lie_mode, self.lie_rate, self.byzantine as u8);
        s += &format!("switch {} {}\nstale {}\nthreads {}\nnest {}\nalloc {}\n", self.switch.0, self.switch.1, self.stale, self.threads, self.nest, self.alloc);
        match &self.sched {
            Sched::Seed(x) => s += &format!("schedule seed {x}\n"),
            Sched::List { switches, stale } => {
                s += "schedule list\n";
                for (p, t) in switches {
                    s += &format!("switch-at {p} {t}\n");
                }
                for (p, t) in stale {
                    s += &format!("stale-at {p} {t}\n");
                }
            }
        }
        for st in &self.steps {
            s += "step ";
            s += &st.text();
            s.push('\n');
        }
        s
    }

    pub fn parse(text: &str) -> Result<Run, String> {
        let mut r = Run::blank();
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (w, rest) = line.split_once(' ').unwrap_or((line, ""));
            let nums: Vec<u64> = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let n = |i: usize| nums.get(i).copied().ok_or(format!("bad line: {line}"));
            match w {
                "dst-replay" | "class" | "message" | "at" | "note" | "range" => {}
                "build" => r.build = BUILDS.iter().position(|b| *b == rest).unwrap_or(0),
                "prop" => r.prop = rest.into(),
                "mode" => r.mode = rest.into(),
                "seed" => r.seed = n(0)?,
                "kind" => r.kind = rest.into(),
                "universe" => r.u = n(0)?,
                "gshift" => r.gshift = n(0)? as u32,
                "lie" => {
                    r.lie_mode = n(0)? as u8;
                    r.lie_rate = n(1)? as u32;
                }
                "byzantine" => r.byzantine = n(0)? != 0,
                "switch" => r.switch = (n(0)? as u32, n(1)? as u32),
                "stale" => r.stale = n(0)? as u32,
                "threads" => r.threads = n(0)? as u8,
                "nest" => r.nest = n(0)? as u32,
                "alloc" => r.alloc = n(0)?,
                "schedule" => {
                    r.sched = if rest == "list" {
                        Sched::List {
                            switches: vec![],
                            stale: vec![],
                        }
                    } else {
                        Sched::Seed(n(0)?)
                    }
                }
                "switch-at" => {
                    if let Sched::List { switches, .. } = &mut r.sched {
                        switches.push((n(0)?, n(1)? as u32));
                    }
                }
                "stale-at" => {
                    if let Sched::List { stale, .. } = &mut r.sched {
                        stale.push((n(0)?, n(1)? as u32));
                    }
                }
                "step" => r.steps.push(Step::parse(rest).ok_or(format!("bad step: {line}"))?),
                _ => return Err(format!("bad line: {line}")),
            }
        }
        Ok(r)
    }

    pub fn blank() -> Run {
        Run {
            prop: String::new(),
            build: 0,
            mode: "step".into(),
            seed: 0,
            kind: "tree".into(),
            u: 64,
            gshift: 3,
            lie_mode: 0,
            lie_rate: 0,
            byzantine: false,
            switch: (0, 0),
            stale: 0,
            threads: 0,
            nest: 0,
            sched: Sched::Seed(0),
            alloc: 0,
            steps: vec![],
        }
    }
}
