//! Scheduler of simulated threads.
//!
//! Clients are real threads, but exactly one of them runs at any moment: the one that holds the
//! baton. At every scheduling point (each access to an atomic, each contact of the library with a
//! key, value or callback, each lock operation of a client) the scheduler may hand the baton to
//! another thread. All choices come from the seed, or from the list in a replay file.
//!
//! It also decides what relaxed loads see: any value of the modification order since the last
//! exclusive phase that coherence and happens-before still allow.

use crate::ctx::{ctx, violation, SIM_THREAD};
use crate::rng::Rng;
use crate::run::Sched;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

extern "C" {
    fn sim_set_in_lib(v: bool);
    fn sim_get_in_lib() -> bool;
    fn gettid() -> i32;
}

const MAX_POINTS: u64 = 4_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    /// waits for the simulated lock
    Waiting,
    /// blocked inside the operating system, by a lock the scheduler does not own
    Blocked,
    Done,
}

/// What of the global context belongs to the running thread
#[derive(Clone, Default)]
struct Saved {
    cur_tag: u16,
    armed: Option<(crate::ctx::Fault, u64)>,
    fired: Option<crate::ctx::Fault>,
    where_: String,
}

struct Th {
    st: St,
    tid: i32,
    /// first index of the modification order it may still see, per location
    view: BTreeMap<usize, usize>,
    /// context of a thread that lost the baton while blocked
    saved: Option<Saved>,
}

#[derive(Clone)]
struct Store {
    val: u64,
    /// what an acquire load of this store gets to know
    view: Option<BTreeMap<usize, usize>>,
}

struct Inner {
    th: Vec<Th>,
    running: usize,
    points: u64,
    rng: Rng,
    rate: (u32, u32),
    stale: u32,
    list: Option<(Vec<(u64, u32)>, Vec<(u64, u32)>)>,
    li: usize,
    si: usize,
    made: Vec<(u64, u32)>,
    made_stale: Vec<(u64, u32)>,
    readers: u32,
    writer: Option<usize>,
    hist: BTreeMap<usize, Vec<Store>>,
    over: bool,
    escaped: bool,
}

pub struct Sim {
    m: Mutex<Inner>,
    cvs: Vec<Condvar>,
    main: Condvar,
    /// bumped at every scheduling point, for the watchdog
    beat: AtomicU64,
    stop: AtomicBool,
    exclusive: AtomicBool,
}

static mut SIM: Option<Arc<Sim>> = None;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[allow(static_mut_refs)]
fn sim() -> Option<&'static Arc<Sim>> {
    unsafe { SIM.as_ref() }
}

fn swap_out() -> Saved {
    let c = ctx();
    Saved {
        cur_tag: c.cur_tag,
        armed: c.armed.take(),
        fired: c.fired.take(),
        where_: std::mem::take(&mut c.where_),
    }
}
fn swap_in(s: Saved) {
    let c = ctx();
    c.cur_tag = s.cur_tag;
    c.armed = s.armed;
    c.fired = s.fired;
    c.where_ = s.where_;
}

impl Inner {
    fn ready(&self, not: usize) -> Vec<usize> {
        (0..self.th.len())
            .filter(|i| *i != not && self.th[*i].st == St::Ready)
            .collect()
    }
    /// pick who runs next; `forced`: the current thread can not go on
    fn choose(&mut self, me: usize, forced: bool, rate: u32) -> Option<usize> {
        self.points += 1;
        if self.points > MAX_POINTS && !self.over {
            // such a run is not explored further, but ends normally
            self.over = true;
        }
        let p = self.points;
        if let Some((sw, _)) = &self.list {
            while self.li < sw.len() && sw[self.li].0 < p {
                self.li += 1;
            }
            let mut to = None;
            if self.li < sw.len() && sw[self.li].0 == p {
                let t = sw[self.li].1 as usize;
                if t != me && t < self.th.len() && self.th[t].st == St::Ready {
                    to = Some(t);
                }
            }
            if to.is_none() && forced {
                to = self.ready(me).first().copied();
            }
            return to;
        }
        if !forced && (self.over || !self.rng.chance(rate as u64, 1000)) {
            return None;
        }
        let r = self.ready(me);
        if r.is_empty() {
            return None;
        }
        let t = *self.rng.pick(&r);
        self.made.push((p, t as u32));
        Some(t)
    }
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// A thread that lost the baton while it was blocked in the operating system
    fn regain(&self, me: usize) {
        let mut g = self.lock();
        if g.running == me && g.th[me].st == St::Ready {
            return;
        }
        g.th[me].st = St::Ready;
        if g.th[g.running].st == St::Done || g.th[g.running].st == St::Blocked {
            g.running = me;
        }
        while g.running != me {
            g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        // what it waited for happened before
        sync_all(&mut g, me);
        if let Some(s) = g.th[me].saved.take() {
            swap_in(s);
        }
    }

    fn go(&self, mut g: MutexGuard<'_, Inner>, me: usize, to: usize) {
        let c = ctx();
        c.stats.switches += 1;
        if crate::ctx::inside_call() {
            c.probe("preempted_inside_library");
        }
        c.ev(0x51717, to as u64);
        let saved = swap_out();
        g.running = to;
        self.cvs[to].notify_one();
        while g.running != me {
            g = self.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
        drop(g);
        swap_in(saved);
    }

    fn maybe_switch(&self, me: usize, atomic: bool) {
        self.beat.fetch_add(1, SeqCst);
        if self.exclusive.load(SeqCst) {
            return;
        }
        let mut g = self.lock();
        if g.running != me {
            drop(g);
            self.regain(me);
            g = self.lock();
        }
        let rate = if atomic { g.rate.1 } else { g.rate.0 };
        if let Some(to) = g.choose(me, false, rate) {
            self.go(g, me, to);
        }
    }

    /// The current thread waits: run somebody else
    fn wait_turn(&self, me: usize, st: St) {
        let mut g = self.lock();
        g.th[me].st = st;
        match g.choose(me, true, 0) {
            Some(to) => self.go(g, me, to),
            None => {
                if g.th.iter().any(|t| t.st == St::Blocked) {
                    // its turn comes when it wakes up
                    drop(g);
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let mut g = self.lock();
                    g.th[me].st = St::Ready;
                } else {
                    drop(g);
                    violation("deadlock", "no client can make progress");
                }
            }
        }
    }
}

thread_local! {
    static NEST: Cell<Option<*mut (dyn FnMut() + 'static)>> = const { Cell::new(None) };
}

/// While `f` runs, user code called back by the library calls `again`, which queries again
pub fn nesting<R>(again: &mut dyn FnMut(), f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NEST.with(|n| n.set(None));
        }
    }
    let p: *mut (dyn FnMut() + '_) = again;
    let p: *mut (dyn FnMut() + 'static) = unsafe { std::mem::transmute(p) };
    let _o = Off;
    NEST.with(|n| n.set(Some(p)));
    f()
}

fn nest() {
    struct Again(*mut (dyn FnMut() + 'static));
    impl Drop for Again {
        fn drop(&mut self) {
            NEST.with(|n| n.set(Some(self.0)));
        }
    }
    if let Some(p) = NEST.with(|n| n.get()) {
        if crate::ctx::inside_call() && !std::thread::panicking() {
            NEST.with(|n| n.set(None));
            let _a = Again(p);
            unsafe { (*p)() }
        }
    }
}

/// A scheduling point. kinds: 1 comparison, 2 clone, 3 callback, 4 lock
#[inline]
pub fn point(kind: u8) {
    if kind != 4 && NEST.with(|n| n.get()).is_some() {
        nest();
    }
    if !SIM_THREAD.with(|s| s.get()) {
        return;
    }
    slow_point(false)
}

#[cold]
fn slow_point(atomic: bool) {
    let Some(s) = sim() else { return };
    let me = ME.with(|m| m.get());
    s.maybe_switch(me, atomic);
}

fn outside<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let b = sim_get_in_lib();
        sim_set_in_lib(false);
        let r = f();
        sim_set_in_lib(b);
        r
    }
}

#[no_mangle]
extern "C" fn sim_before(_addr: *const u8, _kind: i32) {
    outside(|| {
        slow_point(true);
        ctx().stats.atomics += 1;
    });
}

#[no_mangle]
extern "C" fn sim_after(_addr: *const u8, _kind: i32) {
    outside(|| slow_point(true))
}

/// A compare-exchange that looks like taking a lock would fail now: let others run first.
#[no_mangle]
extern "C" fn sim_contended() -> bool {
    outside(|| {
        let Some(s) = sim() else { return false };
        if s.exclusive.load(SeqCst) {
            return false;
        }
        let me = ME.with(|m| m.get());
        s.beat.fetch_add(1, SeqCst);
        let mut g = s.lock();
        if g.points > MAX_POINTS {
            return false;
        }
        match g.choose(me, true, 0) {
            Some(to) => {
                s.go(g, me, to);
                true
            }
            None => false,
        }
    })
}

// ---- plain accesses (traced build)

/// What the readers of the current read phase did to plain memory
#[derive(Default)]
struct Trace {
    /// granule (8 bytes) -> threads that wrote it
    dirty: HashMap<usize, u32>,
    /// blocks allocated by a thread in this phase: its own
    fresh: BTreeMap<usize, usize>,
    /// location -> (threads that used it to synchronise, threads that touched it)
    sync: BTreeMap<usize, (u32, u32)>,
}
static TRACE: Mutex<Option<Trace>> = Mutex::new(None);

extern "C" {
    static mut sim_tracing: bool;
    static mut sim_dirty: bool;
    static mut sim_plain_count: u64;
    fn pthread_self() -> usize;
    fn pthread_getattr_np(t: usize, a: *mut [u64; 8]) -> i32;
    fn pthread_attr_getstack(a: *const [u64; 8], at: *mut usize, size: *mut usize) -> i32;
    fn pthread_attr_destroy(a: *mut [u64; 8]) -> i32;
}
thread_local! {
    static STACK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn my_stack() -> (usize, usize) {
    unsafe {
        let mut a = [0u64; 8];
        let (mut at, mut n) = (0, 0);
        if pthread_getattr_np(pthread_self(), &mut a) != 0 {
            return (0, 0);
        }
        pthread_attr_getstack(&a, &mut at, &mut n);
        pthread_attr_destroy(&mut a);
        (at, at + n + (1 << 14))
    }
}

/// Bookkeeping of the tracer, which must not trace itself
fn traced<R>(f: impl FnOnce(&mut Trace) -> R) -> Option<R> {
    if BUSY.with(|b| b.replace(true)) {
        return None;
    }
    let r = TRACE
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_mut()
        .map(|t| {
            let r = f(t);
            unsafe { sim_dirty = !t.dirty.is_empty() }
            r
        });
    BUSY.with(|b| b.set(false));
    r
}

fn tracing() -> bool {
    unsafe { sim_tracing && SIM_THREAD.with(|s| s.get()) }
}

pub fn allocated(p: *mut u8, size: usize) {
    if !tracing() || size == 0 || p.is_null() {
        return;
    }
    traced(|t| {
        let (a, e) = (p as usize, p as usize + size);
        t.fresh.insert(a, e);
        if !t.dirty.is_empty() {
            t.dirty.retain(|g, _| (*g << 3) + 8 <= a || *g << 3 >= e);
        }
        t.sync.retain(|l, _| *l < a || *l >= e);
    });
}

pub fn freed(p: *mut u8, size: usize) {
    if tracing() {
        traced(|t| t.fresh.remove(&(p as usize)));
    }
    if SIM_THREAD.with(|s| s.get()) {
        unsafe {
            // one thread runs at a time
            if FREED_N < FREED.len() {
                FREED[FREED_N] = (p as usize, p as usize + size);
            }
            FREED_N += 1;
        }
    }
}

/// blocks released since the atomics' histories were last looked at
static mut FREED: [(usize, usize); 64] = [(0, 0); 64];
static mut FREED_N: usize = 0;

/// What is at an address now has nothing to do with what was there before it was released
#[allow(static_mut_refs)]
fn forget_freed(g: &mut Inner) {
    unsafe {
        let n = std::mem::take(&mut FREED_N);
        if n == 0 || g.hist.is_empty() {
            return;
        }
        let gone = |a: usize| n > FREED.len() || FREED[..n].iter().any(|(lo, hi)| a >= *lo && a < *hi);
        g.hist.retain(|a, _| !gone(*a));
        for t in &mut g.th {
            t.view.retain(|a, _| !gone(*a));
        }
    }
}

fn on_my_stack(a: usize) -> bool {
    let (lo, hi) = STACK.with(|s| s.get());
    a >= lo && a < hi
}

#[no_mangle]
extern "C" fn sim_plain(addr: *const u8, size: u64, write: bool) {
    outside(|| {
        if !tracing() {
            return;
        }
        let (a, e) = (addr as usize, addr as usize + size as usize);
        if on_my_stack(a) || a == e {
            return;
        }
        let Some(s) = sim() else { return };
        if s.exclusive.load(SeqCst) {
            return;
        }
        // hand over before the access
        let hot = traced(|t| {
            if write {
                !t.fresh.range(..=a).next_back().is_some_and(|(_, end)| *end > a)
            } else {
                !t.dirty.is_empty() && (a >> 3..=(e - 1) >> 3).any(|g| t.dirty.contains_key(&g))
            }
        });
        if hot != Some(true) {
            return;
        }
        slow_point(true);
        let me = ME.with(|m| m.get());
        let bit = 1u32 << me;
        let race = traced(|t| {
            let mut race = false;
            for g in a >> 3..=(e - 1) >> 3 {
                let w = t.dirty.get(&g).copied().unwrap_or(0);
                for other in (0..32).filter(|o| (w & !bit) >> o & 1 == 1) {
                    let o = 1u32 << other;
                    race |= !t
                        .sync
                        .values()
                        .any(|(s, all)| s & bit != 0 && all & o != 0 || s & o != 0 && all & bit != 0);
                }
                if write {
                    t.dirty.insert(g, w | bit);
                }
            }
            race
        });
        if write {
            ctx().stats.shared_writes += 1;
            ctx().ev(0x5A4ED, size);
        }
        if race == Some(true) {
            violation(
                "data-race",
                format!(
                    "two reader threads access the same memory without synchronisation, at least one of them writes ({} of {size} bytes)",
                    if write { "write" } else { "read" }
                ),
            );
        }
    })
}

fn synchronising(addr: usize, mo: i32) {
    if !tracing() {
        return;
    }
    let bit = 1u32 << ME.with(|m| m.get());
    traced(|t| {
        let e = t.sync.entry(addr).or_default();
        e.1 |= bit;
        if mo != RELAXED {
            e.0 |= bit;
        }
    });
}

fn new_phase() {
    if unsafe { sim_tracing } {
        traced(|t| *t = Trace::default());
    }
}

// memory orders of the C ABI
const RELAXED: i32 = 0;
const CONSUME: i32 = 1;
const ACQUIRE: i32 = 2;
const ACQ_REL: i32 = 4;
const SEQ: i32 = 5;

#[no_mangle]
extern "C" fn sim_observe(addr: *const u8, cur: u64, mo: i32) -> u64 {
    outside(|| {
        synchronising(addr as usize, mo);
        let Some(s) = sim() else { return cur };
        if s.exclusive.load(SeqCst) {
            return cur;
        }
        let me = ME.with(|m| m.get());
        let mut g = s.lock();
        let g = &mut *g;
        let a = addr as usize;
        forget_freed(g);
        if on_my_stack(a) {
            return cur;
        }
        let h = g.hist.entry(a).or_default();
        if h.last().map(|x| x.val) != Some(cur) {
            h.clear();
            h.push(Store { val: cur, view: None });
            for t in &mut g.th {
                t.view.remove(&a);
            }
        }
        let last = h.len() - 1;
        let lo = g.th[me].view.get(&a).copied().unwrap_or(0).min(last);
        let mut i = last;
        if lo < last && mo != SEQ {
            let p = g.points;
            if let Some((_, st)) = &g.list {
                while g.si < st.len() && st[g.si].0 < p {
                    g.si += 1;
                }
                if g.si < st.len() && st[g.si].0 == p {
                    i = last - (st[g.si].1 as usize).min(last - lo);
                }
            } else if g.rng.chance(g.stale as u64, 1000) {
                i = lo + g.rng.below((last - lo) as u64) as usize;
                g.made_stale.push((p, (last - i) as u32));
            }
        }
        if i != last {
            ctx().stats.stale_loads += 1;
            ctx().ev(0x57A1E, (last - i) as u64);
        }
        g.th[me].view.insert(a, i);
        let st = h[i].clone();
        if matches!(mo, CONSUME | ACQUIRE | ACQ_REL | SEQ) {
            if let Some(v) = st.view {
                join(&mut g.th[me].view, &v);
            }
        }
        st.val
    })
}

fn join(a: &mut BTreeMap<usize, usize>, b: &BTreeMap<usize, usize>) {
    for (k, v) in b {
        let e = a.entry(*k).or_insert(0);
        *e = (*e).max(*v);
    }
}

fn sync_all(g: &mut Inner, me: usize) {
    let all: Vec<(usize, usize)> = g.hist.iter().map(|(a, h)| (*a, h.len() - 1)).collect();
    for (a, i) in all {
        g.th[me].view.insert(a, i);
    }
}

#[no_mangle]
extern "C" fn sim_stored(addr: *const u8, old: u64, val: u64, mo: i32, rmw: bool) {
    outside(|| {
        synchronising(addr as usize, mo);
        let Some(s) = sim() else { return };
        if s.exclusive.load(SeqCst) {
            return;
        }
        let me = ME.with(|m| m.get());
        let mut g = s.lock();
        let g = &mut *g;
        let a = addr as usize;
        forget_freed(g);
        if on_my_stack(a) {
            return;
        }
        let h = g.hist.entry(a).or_default();
        if h.last().map(|x| x.val) != Some(old) {
            h.clear();
            h.push(Store { val: old, view: None });
            for t in &mut g.th {
                t.view.remove(&a);
            }
        }
        let last = h.len() - 1;
        if rmw && mo != RELAXED {
            if let Some(v) = h[last].view.clone() {
                join(&mut g.th[me].view, &v);
            }
        }
        if rmw && old == val {
            g.th[me].view.insert(a, last);
            return;
        }
        let prev = h[last].view.clone();
        g.th[me].view.insert(a, last + 1);
        // release, acq_rel, seq_cst; an RMW continues the release sequence it extends
        let mut view = if mo >= 3 { Some(g.th[me].view.clone()) } else { None };
        if rmw {
            if let Some(p) = prev {
                match &mut view {
                    Some(v) => join(v, &p),
                    None => view = Some(p),
                }
            }
        }
        h.push(Store { val, view });
    })
}

#[no_mangle]
extern "C" fn sim_fence() {
    outside(|| {
        synchronising(0, SEQ);
        if let Some(s) = sim() {
            let me = ME.with(|m| m.get());
            let mut g = s.lock();
            sync_all(&mut g, me);
        }
    })
}

// ---- the readers-writer lock of the clients

pub fn lock_shared() {
    let s = sim().unwrap();
    let me = ME.with(|m| m.get());
    loop {
        s.maybe_switch(me, false);
        let mut g = s.lock();
        if g.writer.is_none() {
            g.readers += 1;
            return;
        }
        drop(g);
        s.wait_turn(me, St::Waiting);
    }
}

pub fn unlock_shared() {
    let s = sim().unwrap();
    let me = ME.with(|m| m.get());
    {
        let mut g = s.lock();
        g.readers -= 1;
        wake(&mut g);
    }
    s.maybe_switch(me, false);
}

fn wake(g: &mut Inner) {
    for t in &mut g.th {
        if t.st == St::Waiting {
            t.st = St::Ready;
        }
    }
}

pub fn lock_exclusive() {
    let s = sim().unwrap();
    let me = ME.with(|m| m.get());
    loop {
        s.maybe_switch(me, false);
        let mut g = s.lock();
        if g.writer.is_none() && g.readers == 0 {
            g.writer = Some(me);
            // everybody else's accesses happened before
            g.hist.clear();
            for t in &mut g.th {
                t.view.clear();
            }
            new_phase();
            s.exclusive.store(true, SeqCst);
            return;
        }
        drop(g);
        s.wait_turn(me, St::Waiting);
    }
}

pub fn unlock_exclusive() {
    let s = sim().unwrap();
    let me = ME.with(|m| m.get());
    {
        let mut g = s.lock();
        g.writer = None;
        s.exclusive.store(false, SeqCst);
        wake(&mut g);
    }
    s.maybe_switch(me, false);
}

/// Schedule as executed so far, for the replay file
pub fn realised() -> Option<Sched> {
    let s = sim()?;
    let g = s.m.try_lock().ok()?;
    Some(match &g.list {
        Some((a, b)) => Sched::List {
            switches: a.clone(),
            stale: b.clone(),
        },
        None => Sched::List {
            switches: g.made.clone(),
            stale: g.made_stale.clone(),
        },
    })
}

pub struct Outcome {
    pub points: u64,
    pub escaped: bool,
}

/// Run the programs as simulated threads until all are done
pub fn run<'a>(
    programs: Vec<Box<dyn FnOnce() + Send + 'a>>,
    sched: &Sched,
    rate: (u32, u32),
    stale: u32,
    trace: bool,
) -> Outcome {
    let n = programs.len();
    let (seed, list) = match sched {
        Sched::Seed(s) => (*s, None),
        Sched::List { switches, stale } => (0, Some((switches.clone(), stale.clone()))),
    };
    let s = Arc::new(Sim {
        m: Mutex::new(Inner {
            th: (0..n)
                .map(|_| Th {
                    st: St::Ready,
                    tid: 0,
                    view: BTreeMap::new(),
                    saved: None,
                })
                .collect(),
            running: usize::MAX,
            points: 0,
            rng: Rng::new(seed),
            rate,
            stale,
            list,
            li: 0,
            si: 0,
            made: vec![],
            made_stale: vec![],
            readers: 0,
            writer: None,
            hist: BTreeMap::new(),
            over: false,
            escaped: false,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
        beat: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        exclusive: AtomicBool::new(false),
    });
    unsafe {
        FREED_N = 0;
        SIM = Some(s.clone());
        if trace {
            *TRACE.lock().unwrap() = Some(Trace::default());
            sim_tracing = true;
        }
    }
    std::thread::scope(|sc| {
        for (me, p) in programs.into_iter().enumerate() {
            let s = s.clone();
            sc.spawn(move || {
                ME.with(|m| m.set(me));
                STACK.with(|x| x.set(my_stack()));
                {
                    let mut g = s.lock();
                    g.th[me].tid = unsafe { gettid() };
                    s.main.notify_one();
                    while g.running != me {
                        g = s.cvs[me].wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                }
                swap_in(Saved::default());
                SIM_THREAD.with(|x| x.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(p));
                SIM_THREAD.with(|x| x.set(false));
                if let Err(p) = r {
                    violation("panic", format!("client {me}: {}", crate::report::panic_text(&*p)));
                }
                swap_out();
                let mut g = s.lock();
                g.th[me].st = St::Done;
                match g.choose(me, true, 0) {
                    Some(to) => {
                        ctx().ev(0xD04E, to as u64);
                        g.running = to;
                        s.cvs[to].notify_one();
                    }
                    None => s.main.notify_one(),
                }
            });
        }
        let w = s.clone();
        sc.spawn(move || watchdog(&w));
        let mut g = s.lock();
        while g.th.iter().any(|t| t.tid == 0) {
            g = s.main.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        let first = g.choose(usize::MAX, true, 0).unwrap();
        g.running = first;
        s.cvs[first].notify_one();
        while g.th.iter().any(|t| t.st != St::Done) {
            g = s.main.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        drop(g);
        s.stop.store(true, SeqCst);
    });
    unsafe {
        SIM = None;
        sim_tracing = false;
        ctx().stats.plain += std::mem::take(&mut *(&raw mut sim_plain_count));
    }
    let g = s.lock();
    Outcome {
        points: g.points,
        escaped: g.escaped,
    }
}

fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"))
        .ok()
        .and_then(|s| {
            s.rsplit_once(')')
                .map(|(_, r)| r.trim_start().starts_with('S'))
        })
        .unwrap_or(false)
}

/// Takes the baton from a thread that sleeps in the operating system while holding it: it waits
/// for a lock of the library whose holder was descheduled.
fn watchdog(s: &Sim) {
    let mut last = u64::MAX;
    let mut same = 0;
    let mut stuck = 0;
    let mut pause = 1;
    while !s.stop.load(SeqCst) {
        std::thread::sleep(std::time::Duration::from_millis(pause));
        pause = (pause * 2).min(25);
        let b = s.beat.load(SeqCst);
        let g = s.lock();
        let r = g.running;
        let sleeps = r < g.th.len() && g.th[r].st == St::Ready && asleep(g.th[r].tid);
        drop(g);
        if b != last || !sleeps {
            last = b;
            same = 0;
            continue;
        }
        same += 1;
        if same < 8 {
            continue;
        }
        same = 0;
        let mut g = s.lock();
        if g.running != r || s.beat.load(SeqCst) != b || !asleep(g.th[r].tid) {
            continue;
        }
        g.escaped = true;
        match g.ready(r).first().copied() {
            Some(to) => {
                g.th[r].st = St::Blocked;
                g.th[r].saved = Some(swap_out());
                g.running = to;
                s.cvs[to].notify_one();
            }
            None => {
                stuck += 1;
                if stuck > 20 {
                    drop(g);
                    violation("deadlock", "a client sleeps forever inside the library");
                }
            }
        }
    }
}
