//! Simulation context of the current run: object ledger, armed faults, event log hash.
//!
//! At any moment exactly one simulated thread runs (see `threads`), so the context is plain data
//! handed from thread to thread with the baton.

use crate::rng::{mix2, Rng};
use std::cell::{Cell, UnsafeCell};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Class {
    Key = 0,
    Value = 1,
    Aug = 2,
    Group = 3,
}
pub const NCLASS: usize = 4;
const CLASS_NAME: [&str; NCLASS] = ["key", "value", "augmentation", "group"];

/// Fault kinds
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Fault {
    Cmp = 0,
    KClone = 1,
    VClone = 2,
    Callback = 3,
    VDrop = 4,
    Source = 5,
    AClone = 6,
}
pub const NFAULT: usize = 7;
pub const FAULT_NAME: [&str; NFAULT] = [
    "cmp", "kclone", "vclone", "callback", "vdrop", "source", "aclone",
];

impl Fault {
    pub fn from_idx(i: usize) -> Fault {
        [
            Fault::Cmp,
            Fault::KClone,
            Fault::VClone,
            Fault::Callback,
            Fault::VDrop,
            Fault::Source,
            Fault::AClone,
        ][i % NFAULT]
    }
}

/// Panic payload of an injected fault
pub struct Injected(pub Fault);

#[derive(Clone, Copy)]
struct Obj {
    class: u8,
    /// 1 live, 2 released, 3 leaked by a permitted leak
    state: u8,
    tag: u16,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub lib_calls: u64,
    pub fired: [u64; NFAULT],
    pub lies: u64,
    pub bad_positions: u64,
    pub compares: u64,
    pub switches: u64,
    pub stale_loads: u64,
    pub atomics: u64,
    pub plain: u64,
    pub shared_writes: u64,
    pub nested: u64,
    pub points: u64,
    pub escaped: u64,
    pub allocs: u64,
    pub allocs_failed: u64,
    pub steps: u64,
    pub probes: [u64; NPROBE],
}

/// "This rare condition was hit" probes
pub const NPROBE: usize = 16;
pub const PROBE_NAME: [&str; NPROBE] = [
    "leaf_rotate",
    "leaf_merge",
    "inner_rotate",
    "inner_merge",
    "elements_over_64",
    "elements_over_4160",
    "elements_over_100000",
    "emptied",
    "operation_interrupted",
    "cursor_key_gone",
    "iterators_crossed_middle",
    "source_failed",
    "snapshot_diverged",
    "abandoned_consumer",
    "preempted_inside_library",
    "op_panicked_under_lies",
];

pub struct Ctx {
    objs: Vec<Obj>,
    pub live: [i64; NCLASS],
    live_tag: Vec<[i64; NCLASS]>,
    pub cur_tag: u16,
    pub armed: Option<(Fault, u64)>,
    pub fired: Option<Fault>,
    pub lie: Lie,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub stats: Stats,
    pub gshift: u32,
    /// step being executed, for messages
    pub where_: String,
    /// what the property under check says something about
    pub judge: Judge,
    /// most entries held at a time so far
    pub peak: usize,
    /// bytes the library held before the run
    pub mem0: i64,
    /// a panic struck where memory may be lost
    pub excused: bool,
}

/// Aspects that belong to some properties only
#[derive(Clone, Copy, Debug)]
pub struct Judge {
    /// reported remaining length of iterators
    pub iter_len: bool,
    /// augmentations, rank, select
    pub aug: bool,
    /// objects that are never released
    pub leak: bool,
    /// memory held and given back
    pub mem: bool,
}

impl Judge {
    pub fn of(prop: &str) -> Judge {
        Judge {
            iter_len: matches!(prop, "C06"),
            aug: matches!(prop, "C01" | "C04" | "C07" | "C08" | "C09"),
            leak: matches!(prop, "C04" | "C05" | "C10"),
            mem: matches!(prop, "C14"),
        }
    }
}

/// How key comparisons answer
#[derive(Clone, Debug, Default)]
pub struct Lie {
    /// 0 honest, 1 random answers, 2 order changes over time, 3 inconsistent a<b / b<a, 4 constant answer
    pub mode: u8,
    /// per 1024 comparisons
    pub rate: u32,
    pub rng: Option<Rng>,
    pub epoch: u64,
}

struct Global(UnsafeCell<Option<Ctx>>);
unsafe impl Sync for Global {}
static CTX: Global = Global(UnsafeCell::new(None));

pub fn reset(gshift: u32, prop: &str) {
    let c = Ctx {
        objs: Vec::with_capacity(4096),
        live: [0; NCLASS],
        live_tag: vec![[0; NCLASS]; 64],
        cur_tag: 0,
        armed: None,
        fired: None,
        lie: Lie::default(),
        hash: 0x1234,
        log: None,
        stats: Stats::default(),
        gshift,
        where_: String::new(),
        judge: Judge::of(prop),
        peak: 0,
        mem0: crate::oom::held().0,
        excused: false,
    };
    unsafe { *CTX.0.get() = Some(c) }
}

#[inline(always)]
#[allow(clippy::mut_from_ref)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { (*CTX.0.get()).as_mut().unwrap_unchecked() }
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    /// this thread is a simulated thread, its accesses are scheduling points
    pub static SIM_THREAD: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn sim_set_in_lib(v: bool);
}

/// True while library code (not a callback of it) runs on this thread
#[inline]
pub fn in_lib() -> bool {
    DEPTH.with(|d| d.get() & 1 == 1)
}

pub fn inside_call() -> bool {
    DEPTH.with(|d| d.get() > 0)
}

fn set_depth(v: u32) {
    DEPTH.with(|d| d.set(v));
    if SIM_THREAD.with(|s| s.get()) {
        unsafe { sim_set_in_lib(v & 1 == 1) }
    }
}

struct Restore(u32);
impl Drop for Restore {
    fn drop(&mut self) {
        set_depth(self.0)
    }
}

/// Run library code
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let d = DEPTH.with(|d| d.get());
    ctx().stats.lib_calls += 1;
    // in a process whose allocation failed no library call may come to an end
    let _c = OomCheck;
    let _r = Restore(d);
    if d & 1 == 0 {
        set_depth(d + 1);
    }
    f()
}

struct OomCheck;
impl Drop for OomCheck {
    fn drop(&mut self) {
        crate::oom::must_not_continue();
    }
}

/// Run harness code called back from the library
#[inline]
pub fn callback<R>(f: impl FnOnce() -> R) -> R {
    let d = DEPTH.with(|d| d.get());
    if d & 1 == 0 {
        return f();
    }
    let _r = Restore(d);
    set_depth(d + 1);
    f()
}

/// Reports a violation and ends the process: a violated run has no meaningful continuation.
pub fn violation(class: &str, msg: impl AsRef<str>) -> ! {
    crate::report::violated(class, msg.as_ref(), &ctx().where_.clone())
}

pub const MAGIC: u32 = 0xB7EE_0000;

#[inline]
fn magic_of(id: u32, class: Class) -> u32 {
    MAGIC ^ id.wrapping_mul(0x9E37_79B1) ^ ((class as u32) << 13)
}

impl Ctx {
    #[inline]
    pub fn ev(&mut self, a: u64, b: u64) {
        self.hash = (self.hash.rotate_left(5) ^ a)
            .wrapping_mul(0x517C_C1B7_2722_0A95)
            .wrapping_add(b);
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(s());
        }
    }

    #[inline]
    pub fn create(&mut self, class: Class) -> (u32, u32) {
        self.create_tagged(class, self.cur_tag)
    }

    pub fn create_tagged(&mut self, class: Class, tag: u16) -> (u32, u32) {
        let id = self.objs.len() as u32;
        self.objs.push(Obj {
            class: class as u8,
            state: 1,
            tag,
        });
        self.live[class as usize] += 1;
        while self.live_tag.len() <= tag as usize {
            self.live_tag.push([0; NCLASS]);
        }
        self.live_tag[tag as usize][class as usize] += 1;
        (id, magic_of(id, class))
    }

    pub fn next_id(&self) -> u32 {
        self.objs.len() as u32
    }

    pub fn live_of(&self, tag: u16) -> [i64; NCLASS] {
        self.live_tag.get(tag as usize).copied().unwrap_or_default()
    }

    pub fn tag_of(&self, id: u32) -> u16 {
        self.objs.get(id as usize).map(|o| o.tag).unwrap_or(0)
    }

    #[inline]
    pub fn touch(&self, class: Class, id: u32, magic: u32, what: &str) {
        if magic != magic_of(id, class) || id as usize >= self.objs.len() {
            violation(
                "invented-object",
                format!(
                    "{what}: the library exposed bytes that are no {} (uninitialised or overwritten memory)",
                    CLASS_NAME[class as usize]
                ),
            );
        }
        let o = self.objs[id as usize];
        if o.class != class as u8 {
            violation("invented-object", format!("{what}: object of another type"));
        }
        if o.state != 1 {
            violation(
                "use-after-release",
                format!(
                    "{what}: {} #{id} was {} before",
                    CLASS_NAME[class as usize],
                    if o.state == 2 { "released" } else { "abandoned" }
                ),
            );
        }
    }

    #[inline]
    pub fn release(&mut self, class: Class, id: u32, magic: u32) {
        if magic == magic_of(id, class)
            && (id as usize) < self.objs.len()
            && self.objs[id as usize].state == 2
        {
            violation(
                "double-release",
                format!("{} #{id} released twice", CLASS_NAME[class as usize]),
            );
        }
        self.touch(class, id, magic, "release");
        let o = &mut self.objs[id as usize];
        o.state = 2;
        let tag = o.tag;
        self.live[class as usize] -= 1;
        self.live_tag[tag as usize][class as usize] -= 1;
    }

    pub fn is_live(&self, id: u32) -> bool {
        self.objs[id as usize].state == 1
    }

    /// Write off all live objects selected by `f(id, tag)`: a permitted leak
    pub fn write_off(&mut self, from: u32, to: u32, tag: Option<u16>) -> u64 {
        let mut n = 0;
        for id in from..to {
            let o = &mut self.objs[id as usize];
            if o.state == 1 && tag.is_none_or(|t| t == o.tag) {
                o.state = 3;
                let (c, t) = (o.class as usize, o.tag as usize);
                self.live[c] -= 1;
                self.live_tag[t][c] -= 1;
                n += 1;
            }
        }
        n
    }

    /// A place where fault `f` may strike
    #[inline]
    pub fn fault_point(&mut self, f: Fault) {
        if let Some((kind, n)) = self.armed {
            if kind == f && !std::thread::panicking() {
                if n <= 1 {
                    self.armed = None;
                    self.fired = Some(f);
                    self.excused |= f == Fault::VDrop;
                    self.stats.fired[f as usize] += 1;
                    self.ev(77, f as u64);
                    std::panic::panic_any(Injected(f));
                }
                self.armed = Some((kind, n - 1));
            }
        }
    }

    pub fn probe(&mut self, name: &str) {
        if let Some(i) = PROBE_NAME.iter().position(|p| *p == name) {
            self.stats.probes[i] += 1;
        }
    }

    pub fn describe_live(&self, max: usize) -> String {
        let mut s = String::new();
        let mut n = 0;
        for (id, o) in self.objs.iter().enumerate() {
            if o.state == 1 {
                if n < max {
                    s += &format!(" {}#{}(tree {})", CLASS_NAME[o.class as usize], id, o.tag);
                }
                n += 1;
            }
        }
        s
    }

    pub fn hash_of(&self, extra: u64) -> u64 {
        mix2(self.hash, extra)
    }
}
