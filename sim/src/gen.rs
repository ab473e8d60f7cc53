//! Seed -> run. Pure: the same property and seed always give the same run.
//!
//! A run is a set of clients, each with its own habits and its own favourite keys, interleaved by
//! the seeded scheduler, on collections of a seeded size and shape; which kinds of fault may
//! strike, and how often, is drawn per run.

use crate::coll::{MAPS, RAW, TREES};
use crate::ctx::Fault;
use crate::exec::SETUP;
use crate::rng::Rng;
use crate::run::{Op, Run, Sched, Step};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Arch {
    Writer,
    Mover,
    Sweeper,
    Reader,
    Scanner,
    Cursor,
    Ranker,
    Snapshotter,
    Consumer,
    Bulker,
    Unioner,
}
use Arch::*;
const ARCHS: [Arch; 11] = [
    Writer, Mover, Sweeper, Reader, Scanner, Cursor, Ranker, Snapshotter, Consumer, Bulker, Unioner,
];

struct Client {
    arch: Arch,
    slot: u64,
    /// favourite key range
    lo: u64,
    n: u64,
    cursor: u64,
}

struct Size {
    u: u64,
    /// initial number of elements
    fill: u64,
    steps: u64,
    big: bool,
}

struct Gen {
    r: Rng,
    prop: String,
    thorough: bool,
    kind: String,
    size: Size,
    faults: Vec<Fault>,
    /// of 1000 steps
    fault_rate: u64,
    byz: bool,
    group: bool,
    aug: bool,
    tree: bool,
    set: bool,
    hash: bool,
    threads: bool,
}

pub const EDGES: [u64; 40] = [
    0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 66, 80, 95, 96, 97, 127, 128, 129, 130, 192, 193, 1040, 1041,
    2048, 2112, 4095, 4096, 4097, 4159, 4160, 4161, 4162, 4176, 4224, 4225, 4226,
];
const FAR_EDGES: [u64; 8] = [8319, 8320, 8321, 8384, 8385, 12480, 12481, 12545];
const HUGE_EDGES: [u64; 5] = [266_240, 270_400, 270_401, 270_465, 274_561];

/// Run `i` of a property
pub fn run_at(prop: &str, master: u64, i: u64, thorough: bool) -> Run {
    let seed = crate::run_seed(master, prop, i);
    // one collection with more levels than the others can afford
    let deep = match prop {
        "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C09" | "C12" => i == 3 || thorough && i % 1500 == 4,
        _ => false,
    };
    if deep {
        return deepest(prop, seed);
    }
    generate(prop, seed, thorough)
}

/// Four levels of inner nodes: nodes half full, as ascending or descending insertion leaves them
fn deepest(prop: &str, seed: u64) -> Run {
    let mut r = Rng::new(seed);
    let mut run = Run::blank();
    run.prop = prop.into();
    run.seed = seed;
    run.kind = match prop {
        "C07" => r.pick(&["tree-count", "map-count", "tree-rv-count"]).to_string(),
        "C02" => r.pick(&["tree", "map", "set"]).to_string(),
        "C12" => "set".into(),
        _ => r.pick(&["tree", "tree-count"]).to_string(),
    };
    run.u = 1 << 22;
    run.gshift = 6;
    run.byzantine = false;
    let n = 2_300_000 + r.below(20_000);
    let base = r.below(1000);
    run.steps.push(Step::new(SETUP, Op::InsR, &[0, base, n, 1, r.below(2)]));
    let aug = prop == "C07" || prop == "C04" && run.kind == "tree-count";
    if prop == "C12" {
        // the other set: few, many in one place, or nearly as deep
        let m = *r.pick(&[60, 5000, 300_000]);
        let stride = *r.pick(&[1, 3, 7]);
        run.steps.push(Step::new(SETUP, Op::InsR, &[1, base + r.below(n), m, stride, r.below(2)]));
    }
    let risky = |s: Step, r: &mut Rng| {
        let f = match s.op {
            _ if prop != "C04" || r.chance(1, 3) => None,
            // one in the middle of the layers, or the clone of a separator key
            Op::Rem | Op::Ins | Op::ARem | Op::RemR if r.chance(1, 4) => Some((Fault::KClone, 1 + r.below(2))),
            Op::AGet | Op::AMut => Some((Fault::Callback, 1 + r.below(8))),
            Op::RemR | Op::Rem | Op::Ins | Op::Get | Op::GetMut | Op::ARank | Op::CGet | Op::CMove | Op::CVal => {
                Some((Fault::Cmp, 1 + r.below(30)))
            }
            _ => None,
        };
        s.with(f)
    };
    for i in 0..400 {
        if prop == "C12" && i % 16 == 0 {
            let (a, b) = *r.pick(&[(0, 1), (1, 0), (0, 1), (0, 0)]);
            run.steps.push(Step::new(2, Op::UWalk, &[a, b, r.next() & 0xFFFF_FFFF, 12 + r.below(40)]));
        }
        let k = base + r.below(n);
        let x = r.next() & 0xFFFF_FFFF;
        let s = match r.below(if aug { 12 } else { 8 }) {
            0 | 1 => Step::new(0, Op::Rem, &[0, k, x & 1]),
            2 => Step::new(1, Op::Ins, &[0, k]),
            3 | 4 => Step::new(1, Op::Get, &[0, k, 0]),
            5 if i % 40 == 0 => Step::new(2, Op::Walk, &[0, x, 200]),
            5 if run.kind.starts_with("tree") => Step::new(2, [Op::CGet, Op::CMove, Op::CMove, Op::CVal][(x % 4) as usize], &[0, x % 3, if x % 4 == 0 { k } else { x >> 3 }]),
            5 | 6 => Step::new(2, Op::Ends, &[0]),
            7 if i % 7 == 0 => Step::new(0, Op::RemR, &[0, k, 1 + r.below(9000), 1, r.below(2)]),
            7 => Step::new(1, Op::GetMut, &[0, k]),
            8 => Step::new(3, Op::ARank, &[0, k]),
            9 => Step::new(3, Op::AGet, &[0, 8 * r.below(100), k]),
            10 => Step::new(3, Op::ARem, &[0, 8 * r.below(100), k]),
            _ => Step::new(3, Op::AMut, &[0, 8 * r.below(100), k]),
        };
        let s = risky(s, &mut r);
        run.steps.push(s);
    }
    if prop == "C04" {
        for i in 0..12 {
            let s = Step::new(0, Op::RemR, &[0, base + r.below(n), 1 + r.below(40_000), 1, i % 2]);
            let s = s.with(Some(if i % 3 == 0 { (Fault::KClone, 1 + r.below(2)) } else { (Fault::Cmp, 1 + r.below(32)) }));
            run.steps.push(s);
        }
    }
    if prop == "C09" {
        run.steps.push(Step::new(0, Op::Fork, &[0, 1, 5]));
    }
    // down again, to sparse nodes
    let (keep, stride) = (r.below(2), *r.pick(&[1, 1, 2]));
    let down = Step::new(0, Op::RemR, &[0, base + keep, n / stride, stride, r.below(2)]);
    run.steps.push(down.with((prop == "C04").then(|| (Fault::KClone, 1 + r.below(3)))));
    run
}

pub fn generate(prop: &str, seed: u64, thorough: bool) -> Run {
    let mut r = Rng::new(seed);
    let mut run = Run::blank();
    run.prop = prop.into();
    run.seed = seed;

    let threads = match prop {
        "C01" => true,
        "C02" => r.chance(15, 100),
        "C03" => r.chance(15, 100),
        "C06" | "C07" | "C09" => r.chance(8, 100),
        "C12" => r.chance(20, 100),
        _ => false,
    };
    let kinds: Vec<&str> = match prop {
        "C03" => {
            let mut v = TREES.repeat(2);
            v.push("tree-rv-count");
            v
        }
        "C09" => {
            let mut v = TREES.repeat(2);
            v.extend(["tree-rv-count", "tree-rk-hash"]);
            v
        }
        "C07" => vec![
            "tree-count", "tree-group", "tree-hash", "map-count", "map-group", "map-hash", "tree-group", "tree-hash",
            "tree-rk-hash", "tree-rv-count",
        ],
        "C12" => vec!["set"],
        "C06" => vec!["tree", "tree-count", "set", "map", "tree-hash", "map-count", "tree-rk-hash"],
        _ => {
            let mut v = TREES.to_vec();
            v.extend(MAPS);
            v.extend(["set", "set", "tree", "tree-hash", "tree-group"]);
            v.extend(RAW);
            v
        }
    };
    run.kind = r.pick(&kinds).to_string();
    let kind = run.kind.clone();
    let group = kind.ends_with("group");
    let hash = kind.ends_with("hash");
    let byz = prop == "C10";

    // sizes
    let class = match prop {
        _ if threads => r.weighted(&[40, 40, 17, 3, 0]),
        "C06" => r.weighted(&[40, 40, 19, 1, 0]),
        "C10" => r.weighted(&[40, 35, 22, 3, 0]),
        "C12" => r.weighted(&[45, 45, 10, if thorough { 1 } else { 0 }, 0]),
        "C11" => r.weighted(&[30, 40, 27, 3, 0]),
        "C14" => r.weighted(&[420, 320, 240, 20, 0]),
        "C08" => r.weighted(&[240, 240, 440, 70, if thorough { 10 } else { 4 }]),
        _ => r.weighted(&[350, 300, 250, 95, if thorough { 5 } else { 2 }]),
    };
    let mut size = match class {
        0 => {
            let u = *r.pick(&[16, 64, 128, 256]);
            Size {
                u,
                fill: r.below(u + 1),
                steps: r.range(30, 300),
                big: false,
            }
        }
        1 => {
            let u = *r.pick(&[256, 512, 1024]);
            Size {
                u,
                fill: r.below(u + 1),
                steps: r.range(30, 400),
                big: false,
            }
        }
        2 => {
            let u = *r.pick(&[4096, 8192, 8192]);
            Size {
                u,
                fill: r.range(u / 4, u),
                steps: r.range(20, 160),
                big: true,
            }
        }
        3 => {
            let u = *r.pick(&[16384, 32768]);
            Size {
                u,
                fill: r.range(u / 4, u),
                steps: r.range(10, 60),
                big: true,
            }
        }
        _ => {
            let u = *r.pick(&[1 << 17, 1 << 18, 1 << 19]);
            Size {
                u,
                fill: r.range(u / 2, u),
                steps: r.range(4, 14),
                big: true,
            }
        }
    };
    if threads {
        size.steps = size.steps.min(r.range(20, 160));
    }
    if prop == "C11" {
        size.steps = size.steps.min(60);
    }
    if prop == "C14" {
        size.steps = size.steps.min(r.range(1, 80));
    }
    run.u = size.u;
    run.gshift = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 5,
        5 => 6,
        6 => 8,
        _ => 63 - (size.u.leading_zeros()),
    };

    // faults enabled in this run
    let pool: Vec<Fault> = match prop {
        "C04" => vec![Fault::Cmp, Fault::KClone, Fault::Callback],
        "C05" => vec![
            Fault::Cmp,
            Fault::KClone,
            Fault::VClone,
            Fault::VDrop,
            Fault::Source,
            Fault::AClone,
        ],
        "C07" => vec![Fault::Cmp, Fault::KClone, Fault::Callback],
        "C08" => vec![Fault::Cmp, Fault::KClone, Fault::Source, Fault::AClone],
        "C09" => vec![Fault::KClone, Fault::VClone, Fault::AClone, Fault::Cmp],
        "C10" => vec![Fault::Cmp, Fault::KClone, Fault::Callback],
        "C01" => vec![Fault::Cmp, Fault::Callback],
        "C12" => vec![Fault::Cmp],
        "C14" => vec![Fault::Cmp, Fault::KClone, Fault::VClone, Fault::AClone, Fault::Source, Fault::Callback],
        _ => vec![],
    };
    let quiet = match prop {
        "C04" => r.chance(1, 20),
        "C01" => r.chance(3, 4),
        "C10" => r.chance(2, 3),
        _ => r.chance(1, 3),
    };
    let mut faults = vec![];
    if !quiet {
        for f in &pool {
            if r.chance(3, 5) {
                faults.push(*f);
            }
        }
        if faults.is_empty() && !pool.is_empty() {
            faults.push(*r.pick(&pool));
        }
    }
    if prop == "C04" && !quiet && !faults.contains(&Fault::Cmp) && !faults.contains(&Fault::KClone) {
        faults.push(*r.pick(&[Fault::Cmp, Fault::KClone]));
    }
    let fault_rate = match prop {
        "C04" => *r.pick(&[60, 150, 350, 600]),
        _ => *r.pick(&[30, 100, 250, 500]),
    };

    if byz {
        run.byzantine = true;
        run.lie_mode = r.below(5) as u8;
        run.lie_rate = match run.lie_mode {
            2 => *r.pick(&[50, 500, 5000, 1_000_000]),
            _ => *r.pick(&[2, 10, 60, 300, 1024]),
        };
    }
    if threads {
        run.mode = "threads".into();
        run.threads = r.range(2, 5) as u8;
        run.switch = (
            *r.pick(&[0, 2, 10, 40, 150, 400]),
            *r.pick(&[20, 100, 300, 500, 800]),
        );
        run.stale = *r.pick(&[0, 100, 400, 700]);
        run.sched = Sched::Seed(r.next());
        if prop == "C01" {
            run.nest = *r.pick(&[0, 0, 0, 5, 40, 200]);
        }
    }
    if prop == "C11" {
        run.mode = "oom".into();
        run.stale = *r.pick(&[10, 40, 150, 600]);
    }

    let mut g = Gen {
        r,
        prop: prop.into(),
        thorough,
        kind: kind.clone(),
        size,
        faults,
        fault_rate,
        byz,
        group,
        aug: group || hash || kind.ends_with("count"),
        tree: kind.starts_with("tree"),
        set: kind == "set",
        hash,
        threads,
    };
    run.steps = g.program(&run);
    if prop == "C14" {
        g.churn(&mut run.steps);
    }
    run
}

impl Gen {
    /// long lives at bounded size, at arbitrary places of the program
    fn churn(&mut self, steps: &mut Vec<Step>) {
        let u = self.size.u;
        for _ in 0..self.r.range(1, 4) {
            let w = match self.r.below(8) {
                0..=2 => self.r.range(60, 140),
                3 => self.r.range(1, 40),
                4 | 5 if u > 8192 => self.r.range(4100, 4700),
                4 | 5 if u >= 4096 => self.r.range(1800, 2048),
                _ => self.r.below(u),
            };
            let times = match self.r.weighted(&[30, 40, 24, 6]) {
                0 => self.r.below(1000),
                1 => self.r.below(12_000),
                2 => self.r.below(60_000),
                _ => self.r.below(400_000),
            };
            let mut style = self.r.next() & 0xFFFF_FFFF;
            if self.r.chance(1, 4) {
                style |= (1 + self.r.below(200)) << 32;
            }
            let f = match self.fault(Op::Ins) {
                Some((f @ (Fault::Cmp | Fault::KClone), n)) => Some((f, n)),
                _ if !self.faults.is_empty() && self.r.chance(1, 3) => Some((Fault::KClone, 1)),
                _ => None,
            };
            let slot = if self.r.chance(1, 5) { self.r.below(3) } else { 0 };
            let at = self.r.below(steps.len() as u64 + 1) as usize;
            steps.insert(at, Step::new(7, Op::Churn, &[slot, self.r.below(u), w, times, style]).with(f));
        }
    }

    fn weights(&self) -> [u32; 11] {
        // Writer, Mover, Sweeper, Reader, Scanner, Cursor, Ranker, Snapshotter, Consumer, Bulker, Unioner
        let mut w = match self.prop.as_str() {
            "C01" => [12, 4, 1, 40, 14, 14, 14, 6, 0, 1, 3],
            "C02" => [40, 25, 6, 20, 6, 3, 4, 4, 1, 4, 3],
            "C03" => [20, 16, 7, 3, 1, 60, 0, 8, 0, 2, 3],
            "C04" => [34, 40, 3, 12, 2, 8, 16, 3, 0, 3, 3],
            "C05" => [30, 30, 8, 3, 3, 5, 6, 14, 12, 8, 3],
            "C06" => [10, 12, 3, 4, 60, 2, 2, 6, 20, 3, 3],
            "C07" => [26, 26, 4, 4, 1, 1, 50, 6, 1, 5, 3],
            "C08" => [20, 22, 3, 8, 4, 4, 8, 4, 3, 50, 3],
            "C09" => [26, 26, 6, 4, 4, 5, 8, 40, 8, 4, 3],
            "C10" => [34, 24, 3, 14, 6, 12, 24, 8, 5, 8, 3],
            "C12" => [18, 20, 3, 4, 2, 0, 0, 0, 3, 10, 60],
            _ => [30, 26, 4, 6, 3, 6, 6, 10, 4, 10, 3],
        };
        if !self.tree || self.kind.contains("-rk") {
            w[5] = 0;
        }
        if !self.tree {
            w[7] /= 4;
        }
        if !self.set {
            w[10] = 0;
        }
        if !self.tree && !self.set {
            w[8] = 0;
        }
        if !self.aug && !self.tree {
            w[6] = 0;
        }
        w
    }

    fn key(&mut self, c: &Client) -> u64 {
        let u = self.size.u;
        match self.r.below(20) {
            0 => self.r.below(u),
            1 => 0,
            2 => u - 1,
            3 => c.lo,
            _ => (c.lo + self.r.below(c.n.max(1))) % u,
        }
    }

    fn fault(&mut self, op: Op) -> Option<(Fault, u64)> {
        if self.faults.is_empty() || !self.r.chance(self.fault_rate, 1000) {
            return None;
        }
        use Op::*;
        let fits = |f: Fault| match f {
            Fault::Cmp => matches!(
                op,
                Ins | InsR | Rem | RemR | Get | GetMut | CGet | CMove | CVal | CWalk | ARank | Bulk | AMut | ARem | AGet | Union
                    | UWalk | Walk
            ),
            Fault::KClone => matches!(op, Ins | InsR | Rem | RemR | Fork | CFirst | CLast | CGet | CMove | CWalk | CCopy | Bulk | ARem),
            Fault::VClone | Fault::AClone => matches!(op, Fork | Ins | InsR | Rem | RemR | Bulk),
            // comparisons of groups also happen while the tree changes; those are not queries
            Fault::Callback => {
                matches!(op, AGet | ARank | Visit | GSize | AMut) || (op == ARem && self.hash)
            }
            Fault::VDrop => matches!(op, Clear | DropTree | Consume | Ins | Rem | InsR | RemR | ARem),
            Fault::Source => op == Bulk,
        };
        let mut of = self.faults.clone();
        // reads of a thread may only fail in ways that leave nothing to clean up
        of.retain(|f| fits(*f) && (!self.threads || matches!(f, Fault::Cmp | Fault::Callback)));
        if of.is_empty() {
            return None;
        }
        let f = *self.r.pick(&of);
        let n = match f {
            Fault::Cmp => match op {
                Bulk => 1 + self.r.below(self.r.clone().next() % 20_000 + 1),
                UWalk => 1 + self.r.below(self.size.u),
                _ => 1 + self.r.below(26),
            },
            Fault::KClone if op == Fork => 1 + self.r.below(self.size.u + 2),
            Fault::VClone if op == Fork => 1 + self.r.below(self.size.u + 2),
            Fault::KClone if op == Bulk => 1 + self.r.below(self.size.u / 32 + 2),
            Fault::KClone => 1 + self.r.weighted(&[70, 20, 10]) as u64,
            Fault::AClone if op == Fork => 1 + self.r.below(self.size.u / 48 + 3),
            Fault::AClone => 1 + self.r.below(4),
            Fault::Callback => 1 + self.r.below(8),
            Fault::Source => 1 + self.r.below(self.size.u + 2),
            Fault::VDrop if matches!(op, Clear | DropTree | Consume) => 1 + self.r.below(self.size.fill + 2),
            _ => 1,
        };
        Some((f, n))
    }

    fn bulk_n(&mut self) -> u64 {
        let u = self.size.u;
        if u >= 1 << 18 {
            return match self.r.below(3) {
                0 => *self.r.pick(&HUGE_EDGES),
                1 => 64 * 65 * self.r.range(1, 70) + self.r.below(3),
                _ => self.r.below(u),
            };
        }
        match self.r.below(10) {
            0..=3 => *self.r.pick(&EDGES),
            4 if self.size.big => *self.r.pick(&FAR_EDGES),
            5 => 64 * self.r.range(1, u / 64 + 1) + self.r.below(2),
            6 if self.size.big => 4160 * self.r.range(1, u / 4160 + 1) + 64 * self.r.below(2) + self.r.below(2),
            _ => self.r.below(u + 1),
        }
    }

    fn bulk(&mut self, client: u8, slot: u64) -> Step {
        let n = self.bulk_n();
        let pattern = (self.r.next() & 0xFFFF_FFF8) | *self.r.pick(&[0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 7]);
        let hint = self.r.below(8);
        let f = self.fault(Op::Bulk);
        let f = match f {
            // somewhere inside, often near the end or the boundary of a node
            Some((k, _)) if matches!(k, Fault::Source) => Some((k, 1 + self.r.below(n + 2))),
            Some((k, _)) if matches!(k, Fault::KClone) => Some((k, 1 + self.r.below(n / 64 + 2))),
            Some((k, _)) if matches!(k, Fault::AClone) => Some((k, 1 + self.r.below(n / 64 + 3))),
            f => f,
        };
        Step::new(client, Op::Bulk, &[slot, n, pattern, hint]).with(f)
    }

    fn range(&mut self, op: Op, client: u8, slot: u64, lo: u64, n: u64) -> Step {
        let stride = *self.r.pick(&[1, 1, 1, 1, 2, 3, 5, 64, 65, 129]);
        let order = match self.r.below(4) {
            0 => 0,
            1 => 1,
            2 => 2 + 4 * self.r.below(1 << 20),
            _ => 3,
        };
        let f = self.fault(op);
        Step::new(client, op, &[slot, lo % self.size.u, n, stride, order]).with(f)
    }

    /// n elements to begin with, in some insertion order
    fn fill(&mut self, out: &mut Vec<Step>, slot: u64, n: u64) {
        if n == 0 {
            return;
        }
        let u = self.size.u;
        let mk = |op, a: [u64; 5]| Step::new(SETUP, op, &a);
        match self.r.below(8) {
            0 | 1 => out.push(mk(Op::InsR, [slot, 0, n, 1, 0])),
            2 => out.push(mk(Op::InsR, [slot, 0, n, 1, 1])),
            3 => out.push(mk(Op::InsR, [slot, self.r.clone().below(u), n, 1, 2 + 4 * (self.r.clone().next() & 0xFFFFF)])),
            4 => out.push(mk(Op::InsR, [slot, 0, n, 1, 3])),
            5 => out.push(mk(Op::Bulk, [slot, n, 0, 0, 0])),
            6 => {
                let b = self.bulk(SETUP, slot).with(None);
                out.push(b)
            }
            _ => {
                // gaps
                out.push(mk(Op::InsR, [slot, 0, n, 1, 2]));
                out.push(mk(Op::RemR, [slot, 0, n / 2, 2, 2 + 4 * (self.r.clone().next() & 0xFFFFF)]));
            }
        }
        self.r.next();
    }

    fn program(&mut self, run: &Run) -> Vec<Step> {
        let mut out = vec![];
        let u = self.size.u;
        let fill = if self.r.chance(1, 12) { 0 } else { self.size.fill };
        self.fill(&mut out, 0, fill);
        if !self.size.big && self.r.chance(1, 3) || self.prop == "C12" && self.r.chance(5, 6) {
            let n = self.r.below(u + 1);
            self.fill(&mut out, 1, n);
        }
        let n_clients = if self.threads { run.threads as u64 } else { self.r.range(1, 6) };
        let mut w = self.weights();
        // swarm: some habits do not occur in this run
        for x in w.iter_mut() {
            if self.r.chance(1, 4) {
                *x /= 8;
            }
        }
        let mut clients: Vec<Client> = vec![];
        for i in 0..n_clients {
            let arch = ARCHS[self.r.weighted(&w)];
            let n = match self.r.below(4) {
                0 => u,
                1 => 1 + self.r.below(8),
                2 => 1 + self.r.below(70),
                _ => 1 + self.r.below(u),
            };
            clients.push(Client {
                arch,
                slot: if self.r.chance(1, 5) { self.r.below(3) } else { 0 },
                lo: self.r.below(u),
                n,
                cursor: i,
            });
        }
        if self.r.chance(2, 3) {
            // two clients meet at the same keys
            let (a, b) = (self.r.below(n_clients) as usize, self.r.below(n_clients) as usize);
            clients[a].lo = clients[b].lo;
            clients[a].n = clients[b].n;
        }
        let mut left = self.size.steps as i64;
        while left > 0 {
            let i = self.r.below(n_clients) as usize;
            let burst = if self.r.chance(1, 4) { self.r.range(2, 12) } else { 1 };
            for _ in 0..burst {
                let arch = if self.r.chance(1, 6) {
                    ARCHS[self.r.weighted(&w)]
                } else {
                    clients[i].arch
                };
                let before = out.len();
                self.act(&mut out, i as u8, arch, &mut clients[i]);
                left -= (out.len() - before).max(1) as i64;
            }
            if self.threads && self.r.chance(1, 5) {
                out.push(Step::new(i as u8, Op::Yield, &[]));
            }
            if !self.threads && self.r.chance(1, 60) {
                let (s, salt) = (clients[i].slot, self.r.next() & 0xFFFF);
                out.push(Step::new(i as u8, Op::Audit, &[s, salt]));
            }
        }
        // drain: many structures only break while they shrink to nothing
        if !self.threads && self.r.chance(1, 2) {
            let order = [0, 1, 3, 2 + 4 * self.r.below(1 << 20)][self.r.below(4) as usize];
            let n = if self.r.chance(1, 2) { u } else { self.r.below(u) };
            let lo = if n == u { 0 } else { self.r.below(u) };
            let f = self.fault(Op::RemR);
            out.push(Step::new(0, Op::RemR, &[0, lo, n, 1, order]).with(f));
        }
        out
    }

    fn act(&mut self, out: &mut Vec<Step>, c: u8, arch: Arch, cl: &mut Client) {
        let u = self.size.u;
        let slot = if self.r.chance(1, 10) { self.r.below(3) } else { cl.slot };
        let k = self.key(cl);
        let x = self.r.next() & 0xFFFF_FFFF;
        let mut push = |g: &mut Gen, op: Op, a: &[u64]| {
            let f = g.fault(op);
            out.push(Step::new(c, op, a).with(f));
        };
        match arch {
            Writer => {
                let op = [Op::Ins, Op::Rem, Op::Get, Op::GetMut][self.r.weighted(&[40, 34, 14, 12])];
                let flag = self.r.below(2);
                push(self, op, &[slot, k, flag]);
                if self.r.chance(1, 3) {
                    // look at what was just there
                    let near = (k + self.r.below(3) + u - 1) % u;
                    push(self, Op::Get, &[slot, near, 0]);
                }
                if self.r.chance(1, 12) {
                    cl.lo = self.r.below(u);
                }
            }
            Mover => {
                let cap = if self.size.big { u / 6 } else { u };
                let n = match self.r.below(5) {
                    0 => 1 + self.r.below(20),
                    1 => 1 + self.r.below(70),
                    2 => 1 + self.r.below(200),
                    _ => 1 + self.r.below(cap.max(1)),
                }
                .min(u);
                let op = if self.r.chance(48, 100) { Op::InsR } else { Op::RemR };
                let s = self.range(op, c, slot, k, n);
                out.push(s);
            }
            Sweeper => match self.r.below(6) {
                0 => push(self, Op::Clear, &[slot]),
                1 => {
                    push(self, Op::DropTree, &[slot]);
                }
                2 => {
                    let s = self.range(Op::RemR, c, slot, 0, u);
                    out.push(s);
                }
                3 => {
                    // all but a few
                    let keep = self.r.below(70);
                    let s = self.range(Op::RemR, c, slot, keep, u.saturating_sub(keep));
                    out.push(s);
                }
                4 => {
                    let s = self.range(Op::InsR, c, slot, k, u / 2 + 1);
                    out.push(s);
                }
                _ => push(self, Op::Ends, &[slot]),
            },
            Reader => {
                let op = [Op::Get, Op::Ends, Op::GetMut][self.r.weighted(&[80, 10, if self.threads { 0 } else { 10 }])];
                let flag = self.r.below(2);
                push(self, op, &[slot, k, flag]);
                if self.r.chance(1, 2) {
                    let far = self.r.below(u);
                    push(self, Op::Get, &[slot, far, 0]);
                    push(self, Op::Get, &[slot, k, 1]);
                }
                if self.set && self.r.chance(1, 4) {
                    let o = self.r.below(3);
                    push(self, Op::Union, &[slot, o]);
                }
            }
            Scanner => {
                let max = if self.threads {
                    120
                } else if self.size.big {
                    12_000
                } else {
                    1500
                };
                let n = 1 + self.r.below(max);
                push(self, Op::Walk, &[slot, x, n]);
            }
            Cursor => {
                let cur = if self.r.chance(1, 4) { self.r.below(8) } else { cl.cursor };
                match self.r.below(12) {
                    0 => push(self, Op::CFirst, &[slot, cur, x]),
                    1 => push(self, Op::CLast, &[slot, cur]),
                    2 | 3 => push(self, Op::CGet, &[slot, cur, k]),
                    4..=6 => {
                        push(self, Op::CMove, &[slot, cur, x]);
                        if self.r.chance(1, 2) {
                            push(self, Op::CVal, &[slot, cur]);
                        }
                    }
                    7 => {
                        let t = if self.threads { self.r.below(20) } else { self.r.below(400) };
                        push(self, Op::CWalk, &[slot, cur, x, t, x >> 8]);
                    }
                    8 | 9 => push(self, Op::CVal, &[slot, cur]),
                    10 => {
                        let d = self.r.below(8);
                        push(self, Op::CCopy, &[slot, cur, d]);
                    }
                    _ => {
                        // around a key that goes away
                        push(self, Op::CGet, &[slot, cur, k]);
                        push(self, Op::Rem, &[slot, k]);
                        push(self, Op::CMove, &[slot, cur, x]);
                    }
                }
            }
            Ranker => {
                let y = self.r.next() & 0xFFFF_FFFF;
                let (b, pos) = self.misbehave();
                let op = if self.aug {
                    [Op::AGet, Op::AMut, Op::ARem, Op::ARank, Op::GSize, Op::Visit][self.r.weighted(&[
                        20,
                        if self.threads { 0 } else { 14 },
                        if self.threads { 3 } else { 24 },
                        30,
                        if self.group { 14 } else { 0 },
                        if self.group { 0 } else { 14 },
                    ])]
                } else {
                    Op::Visit
                };
                let goal = if op == Op::AGet || op == Op::AMut || op == Op::ARem {
                    // near the favourite keys; for groups: any position in the group
                    if self.group && self.r.chance(1, 2) {
                        self.r.below(4)
                    } else {
                        y
                    }
                } else {
                    y
                };
                match op {
                    Op::ARank | Op::GSize => push(self, op, &[slot, k]),
                    _ => {
                        let what = if self.r.chance(1, 2) { x } else { k };
                        push(self, op, &[slot, goal, what, b, pos])
                    }
                }
            }
            Snapshotter => {
                let to = self.r.below(3);
                match self.r.below(8) {
                    0..=4 => push(self, Op::Fork, &[slot, to, x]),
                    5 => push(self, Op::Swap, &[slot, to]),
                    6 => push(self, Op::DropTree, &[to]),
                    _ => push(self, Op::Clear, &[to]),
                }
                if self.r.chance(1, 3) {
                    cl.slot = to;
                }
            }
            Consumer => {
                let n = match self.r.below(3) {
                    0 => self.r.below(10),
                    1 => self.r.below(200),
                    _ => self.r.below(2 * u),
                };
                let s = if self.r.chance(2, 3) && self.tree {
                    let to = (slot + 1 + self.r.below(2)) % 3;
                    push(self, Op::Fork, &[slot, to, x]);
                    to
                } else {
                    slot
                };
                push(self, Op::Consume, &[s, x, n]);
                if self.r.chance(1, 2) {
                    let s = self.range(Op::InsR, c, s, k, u / 3 + 1);
                    out.push(s);
                }
            }
            Unioner => {
                let a = self.union(slot, x);
                push(self, Op::UWalk, &a);
                if self.r.chance(1, 3) {
                    let s = self.range(if x & 1 == 0 { Op::InsR } else { Op::RemR }, c, a[1], k, 1 + x % 100);
                    out.push(s);
                }
            }
            Bulker => {
                let b = self.bulk(c, slot);
                out.push(b);
                match self.r.below(6) {
                    0 => {
                        // shrink from the right: the last nodes are the irregular ones
                        let n = u.min(1 + self.r.below(9000));
                        let f = self.fault(Op::RemR);
                        out.push(Step::new(c, Op::RemR, &[slot, u - n, n, 1, 1]).with(f));
                    }
                    1 => {
                        let n = b_n(out.last()).min(u);
                        let r = self.r.below(200).min(n);
                        out.push(Step::new(c, Op::RemR, &[slot, n - r, r, 1, self.r.below(2)]));
                    }
                    2 => {
                        let s = self.range(Op::RemR, c, slot, 0, u);
                        out.push(s);
                    }
                    3 => {
                        let s = self.range(Op::InsR, c, slot, k, u / 5 + 1);
                        out.push(s);
                    }
                    _ => {}
                }
            }
        }
        let _ = (&self.kind, self.thorough);
    }

    fn union(&mut self, slot: u64, x: u64) -> [u64; 4] {
        let other = self.r.below(3);
        let max = if self.threads {
            100
        } else if self.size.big && self.r.chance(9, 10) {
            600
        } else {
            1 + 3 * self.size.u
        };
        [slot, other, x, 1 + self.r.below(max)]
    }

    fn misbehave(&mut self) -> (u64, u64) {
        if self.byz {
            if self.r.chance(1, 2) {
                return (0, 0);
            }
            let pos = *self.r.pick(&[0, 1, 15, 16, 31, 62, 63, 64, 65, 66, 100, 1 << 20, u64::MAX, u64::MAX / 16]);
            return (1 + self.r.below(4), pos);
        }
        // visitors may give up or finish early
        (self.r.below(40), self.r.below(4))
    }
}

fn b_n(s: Option<&Step>) -> u64 {
    s.map(|s| s.a[1]).unwrap_or(0)
}
