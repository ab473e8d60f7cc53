//! Executes steps against the real collection and compares with the reference model.

use crate::coll::*;
use crate::ctx::{self, ctx, violation, Class, Fault, Injected};
use crate::model::Model;
use crate::rng::Rng;
use crate::run::{Op, Run, Step};
use crate::types::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// objects owned by cursors and other harness-side holders
pub const CUR_TAG: u16 = 1;

pub enum Out<T> {
    Ok(T),
    Injected,
    Panicked(String),
}

/// Run one library interaction with an armed fault
pub fn attempt<T>(fault: Option<(Fault, u64)>, f: impl FnOnce() -> T) -> Out<T> {
    ctx().armed = fault;
    ctx().fired = None;
    let r = catch_unwind(AssertUnwindSafe(f));
    ctx().armed = None;
    match r {
        Ok(v) => Out::Ok(v),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                ctx().probe("operation_interrupted");
                Out::Injected
            } else {
                Out::Panicked(crate::report::panic_text(&*p))
            }
        }
    }
}

#[macro_export]
macro_rules! chk {
    ($byz: expr, $cond: expr, $class: expr, $($fmt: tt)*) => {
        if !$byz && !($cond) {
            $crate::ctx::violation($class, format!($($fmt)*));
        }
    };
}

pub struct CurE {
    pub c: Cur,
    pub key: u64,
    pub family: u32,
}

pub type Cursors = Vec<Option<CurE>>;

pub fn tagged<R>(tag: u16, f: impl FnOnce() -> R) -> R {
    struct Back(u16);
    impl Drop for Back {
        fn drop(&mut self) {
            ctx().cur_tag = self.0;
        }
    }
    let _b = Back(ctx().cur_tag);
    ctx().cur_tag = tag;
    f()
}

fn opt<T: std::fmt::Debug>(o: &Option<T>) -> String {
    format!("{o:?}")
}

pub fn key_of(m: &Model, k: u64) -> u64 {
    k % m.u as u64
}

pub fn goal(m: &Model, kind: AugKind, g: u64, x: u64) -> AugQ {
    match kind {
        AugKind::Count => AugQ::Nth(if g % 8 == 7 { x } else { x % (m.len() as u64 + 2) }),
        AugKind::Group => {
            let k = key_of(m, x);
            let gr = k >> ctx().gshift;
            AugQ::Group(gr, g % (m.group_size(gr) as u64 + 2))
        }
        _ => AugQ::Hash(Query {
            goal: if g % 2 == 0 {
                Goal::Nth(x % (m.len() as u64 + 2))
            } else {
                Goal::Lower(key_of(m, x))
            },
            behave: Behave::Honest,
            depth: 0,
        }),
    }
}

pub fn misbehave(byz: bool, b: u64, pos: u64) -> Behave {
    if !byz || b == 0 {
        return Behave::Honest;
    }
    Behave::Bad {
        depth: ((b - 1) % 4) as u32,
        pos: pos as usize,
    }
}

/// entry the model says `q` denotes
pub fn denoted(m: &Model, q: &AugQ) -> Option<KV> {
    match q {
        AugQ::Nth(n) => m.select_kv((*n).min(u32::MAX as u64) as usize),
        AugQ::Group(g, n) => {
            let k = m.select_in_group(*g, *n as usize)?;
            Some((k, m.get(k).unwrap()))
        }
        AugQ::Hash(q) => match q.goal {
            Goal::Nth(n) => m.select_kv(n as usize),
            Goal::Lower(k) => m.ceil(k),
        },
    }
}

fn check_aug<C: Coll>(c: &C, m: &Model, what: &str) {
    if !ctx().judge.aug {
        return;
    }
    let v = c.aug_view();
    let want = match C::AUG {
        AugKind::Plain => AugView::Plain,
        AugKind::Count => AugView::Count(m.len() as u64),
        AugKind::Group => AugView::Group(
            m.groups() as u64,
            m.last().map(|(k, _)| {
                let g = k >> ctx().gshift;
                (g, m.group_size(g) as u64)
            }),
        ),
        AugKind::Hash => AugView::Hash(m.root()),
    };
    if v != want {
        violation(
            "augmentation",
            format!("{what}: root augmentation {v:?}, contents say {want:?}"),
        );
    }
}

pub fn check_rank<C: Coll>(c: &C, m: &Model, key: u64, sk: &SK, byz: bool) {
    let Some(r) = c.aug_rank(sk) else { return };
    if byz || !ctx().judge.aug {
        return;
    }
    let want = match C::AUG {
        AugKind::Count => Rank::Count(m.rank(key) as u64),
        AugKind::Group => Rank::Group(Some((key >> ctx().gshift, m.rank_in_group(key) as u64))),
        AugKind::Hash => {
            let (cnt, hk) = m.prefix(key);
            Rank::Hash(Sum {
                cnt,
                hk,
                hkv: 0,
                max1: if cnt == 0 { 0 } else { m.pred(key).unwrap().0 + 1 },
            })
        }
        AugKind::Plain => return,
    };
    let want = if m.get(key).is_some() { Ok(want) } else { Err(want) };
    chk!(byz, r == want, "rank", "rank of key {key}: got {r:?}, expected {want:?}");
}

/// Cheap agreement between collection, model and ledger
pub fn agree<C: Coll>(c: &C, m: &Model, tag: u16, what: &str) {
    let (n, want) = (c.len(), m.len());
    if n != want {
        violation("len", format!("{what}: len() is {n}, expected {want}"));
    }
    if c.is_empty() != (want == 0) {
        violation("len", format!("{what}: is_empty() is {} with {want} elements", c.is_empty()));
    }
    check_values_live::<C>(tag, n, what);
    check_aug(c, m, what);
}

fn check_values_live<C: Coll>(tag: u16, n: usize, what: &str) {
    if C::IS_SET || !ctx().judge.leak {
        return;
    }
    let live = ctx().live_of(tag)[Class::Value as usize];
    if C::V::TRACKED && live != n as i64 {
        violation(
            "value-accounting",
            format!("{what}: collection of {n} elements owns {live} unreleased values"),
        );
    }
    let keys = ctx().live_of(tag)[Class::Key as usize];
    if C::KEYS_TRACKED && keys < n as i64 {
        violation(
            "key-accounting",
            format!("{what}: collection of {n} elements owns only {keys} unreleased keys"),
        );
    }
}

/// Full comparison
pub fn audit<C: Coll>(c: &C, m: &Model, tag: u16, salt: u64, what: &str) {
    agree(c, m, tag, what);
    let e = m.entries();
    {
        let mut it = c.iter();
        for (i, want) in e.iter().enumerate() {
            let got = it.next();
            if got != Some(*want) {
                violation(
                    "iteration",
                    format!("{what}: element {i} is {}, expected {want:?}", opt(&got)),
                );
            }
        }
        for _ in 0..2 {
            let got = it.next();
            if got.is_some() {
                violation(
                    "iteration",
                    format!("{what}: {} after all {} elements", opt(&got), e.len()),
                );
            }
        }
    }
    {
        let mut it = c.iter();
        for (i, want) in e.iter().enumerate().rev() {
            let got = it.next_back();
            if got != Some(*want) {
                violation(
                    "iteration",
                    format!("{what}: element {i} from the back is {}, expected {want:?}", opt(&got)),
                );
            }
        }
        let got = it.next_back();
        if got.is_some() {
            violation("iteration", format!("{what}: {} from the back after the end", opt(&got)));
        }
    }
    if let Some((f, l)) = c.ends() {
        if f != m.first() {
            violation("ends", format!("{what}: first is {}, expected {}", opt(&f), opt(&m.first())));
        }
        if l != m.last() {
            violation("ends", format!("{what}: last is {}, expected {}", opt(&l), opt(&m.last())));
        }
    }
    let mut rng = Rng::new(salt);
    let dense = e.len() <= 96;
    let n = if dense { e.len() } else { 24 };
    for i in 0..n {
        let (k, t) = if dense { e[i] } else { *rng.pick(&e) };
        let got = c.get(&Probe::new(k));
        if got != Some(t) {
            violation("lookup", format!("{what}: key {k} looks up {}, expected {t}", opt(&got)));
        }
    }
    for _ in 0..8 {
        let k = rng.below(m.u as u64);
        let got = c.get(&Probe::new(k));
        if got != m.get(k) {
            violation(
                "lookup",
                format!("{what}: key {k} looks up {}, expected {}", opt(&got), opt(&m.get(k))),
            );
        }
        tagged(CUR_TAG, || {
            let sk = SK::new(k);
            check_rank(c, m, k, &sk, false);
            if C::AUG != AugKind::Plain {
                let q = goal(m, C::AUG, rng.next() >> 8, rng.next() >> 8);
                let got = c.aug_get(q);
                let want = denoted(m, &q);
                if got != want && ctx().judge.aug {
                    violation(
                        "select",
                        format!("{what}: {q:?} selects {}, expected {}", opt(&got), opt(&want)),
                    );
                }
            }
            if let Some(s) = c.group_size(k >> ctx().gshift) {
                let g = k >> ctx().gshift;
                let want = m.group_size(g) as u64;
                if s != want && ctx().judge.aug {
                    violation("group-size", format!("{what}: group {g} has size {s}, expected {want}"));
                }
            }
        });
    }
}

/// Byzantine agreement: nothing but memory safety and bookkeeping
pub fn bookkeeping<C: Coll>(c: &C, tag: u16, full: bool, what: &str) {
    let n = c.len();
    check_values_live::<C>(tag, n, what);
    if c.is_empty() != (n == 0) {
        violation("len", format!("{what}: is_empty() is {} with length {n}", c.is_empty()));
    }
    if !full {
        return;
    }
    for back in [false, true] {
        let mut it = c.iter();
        let mut count = 0;
        loop {
            let x = if back { it.next_back() } else { it.next() };
            if x.is_none() {
                break;
            }
            count += 1;
            if count > n + 4 {
                break;
            }
        }
        if count != n {
            violation(
                "len",
                format!(
                    "{what}: len() is {n} but iteration{} yields {}{count}",
                    if back { " from the back" } else { "" },
                    if count > n { "at least " } else { "" }
                ),
            );
        }
    }
}

/// Interleaved consumers of iterators, each a window lo..hi into the entries
fn walk_steps<'a>(
    mut its: Vec<(Box<dyn PairIter + 'a>, usize, usize)>,
    e: &[KV],
    rng: &mut Rng,
    n: u64,
    spawn: &dyn Fn() -> Option<Box<dyn PairIter + 'a>>,
    side: &mut dyn FnMut(&mut Rng),
    what: &str,
) {
    // 0 mixed, 1 front only, 2 back only, 3 front then back around the middle
    let style = rng.below(4);
    let hops = rng.chance(1, 3);
    for step in 0..n {
        if its.is_empty() {
            match spawn() {
                Some(i) => its.push((i, 0, e.len())),
                None => return,
            }
        }
        let w = rng.below(its.len() as u64) as usize;
        let r = rng.below(100);
        if r < 6 && its.len() < 5 {
            // another consumer: fork or fresh
            let f = if r < 3 {
                its[w].0.fork().map(|i| (i, its[w].1, its[w].2))
            } else {
                spawn().map(|i| (i, 0, e.len()))
            };
            if let Some(f) = f {
                its.push(f);
            }
            continue;
        }
        if r < 9 {
            let (it, lo, hi) = its.swap_remove(w);
            ctx().probe("abandoned_consumer");
            match rng.below(6) {
                0 => {
                    let got = it.count();
                    if got != hi - lo {
                        violation("iterator", format!("{what}: count() is {got}, {} remain", hi - lo));
                    }
                }
                1 => {
                    let got = it.last();
                    let want = if lo < hi { Some(e[hi - 1]) } else { None };
                    if got != want {
                        violation(
                            "iterator",
                            format!("{what}: last() is {}, expected {}", opt(&got), opt(&want)),
                        );
                    }
                }
                2 => {
                    let how = rng.below(6);
                    let got = it.all(how);
                    let mut want = e[lo..hi].to_vec();
                    if how % 2 == 1 {
                        want.reverse();
                    }
                    if got != want {
                        violation(
                            "iterator",
                            format!(
                                "{what}: {} saw {} elements, not exactly the {} left in order",
                                ["fold", "rfold", "for_each", "rev().for_each", "collect", "rev().collect"][how as usize],
                                got.len(),
                                want.len()
                            ),
                        );
                    }
                }
                3 => {
                    let max = rng.chance(1, 2);
                    if let Some(got) = it.extreme(max) {
                        let want = if lo == hi {
                            None
                        } else {
                            Some(if max { e[hi - 1] } else { e[lo] })
                        };
                        if got != want {
                            violation(
                                "iterator",
                                format!(
                                    "{what}: {} is {}, expected {}",
                                    if max { "max()" } else { "min()" },
                                    opt(&got),
                                    opt(&want)
                                ),
                            );
                        }
                    }
                }
                _ => it.release(),
            }
            continue;
        }
        if r < 16 {
            side(rng);
        }
        let (it, lo, hi) = &mut its[w];
        let back = match style {
            0 => rng.chance(1, 2),
            1 => rng.chance(1, 20),
            2 => rng.chance(19, 20),
            _ => step % 2 == 1,
        };
        let left = *hi - *lo;
        let hop = if hops && rng.chance(1, 4) {
            if rng.chance(1, 4) {
                rng.below(left as u64 + 2) as usize
            } else {
                rng.below(70) as usize
            }
        } else {
            0
        };
        let want = if hop < left {
            Some(if back { e[*hi - 1 - hop] } else { e[*lo + hop] })
        } else {
            None
        };
        // the hop is now and then made by one of the searching adapters
        if hop > 0 && rng.chance(1, 3) {
            let how = 2 * rng.below(3) + back as u64;
            let got = it.until(how, hop);
            let want = match how {
                0 | 1 => Found::Item(want),
                // rposition counts from the front
                2 => Found::At(want.map(|_| hop)),
                3 => Found::At(want.map(|_| left - 1 - hop)),
                _ => Found::Flag(want.is_some()),
            };
            if got != want {
                violation(
                    "iterator",
                    format!(
                        "{what}: {} stopping at number {hop} gave {got:?}, expected {want:?} (window {}..{} of {})",
                        ["find", "rfind", "position", "rposition", "any", "rev().all"][how as usize],
                        lo,
                        hi,
                        e.len()
                    ),
                );
            }
            ctx().probe("iterator_search");
            let take = (hop + 1).min(left);
            if back {
                *hi -= take;
            } else {
                *lo += take;
            }
            continue;
        }
        let got = match (back, hop) {
            (false, 0) => it.next(),
            (true, 0) => it.next_back(),
            (false, h) => it.nth(h),
            (true, h) => it.nth_back(h),
        };
        if got != want {
            violation(
                "iterator",
                format!(
                    "{what}: {} returned {}, expected {} (window {}..{} of {})",
                    if back { "next_back" } else { "next" },
                    opt(&got),
                    opt(&want),
                    lo,
                    hi,
                    e.len()
                ),
            );
        }
        let take = (hop + 1).min(left);
        if back {
            *hi -= take;
        } else {
            *lo += take;
        }
        if left > 0 && *hi == *lo && *lo > 0 && *hi < e.len() {
            ctx().probe("iterators_crossed_middle");
        }
        let (a, b, l) = it.hint();
        let left = *hi - *lo;
        if ctx().judge.iter_len && (a != left || b != Some(left) || l != left) {
            violation(
                "iterator-len",
                format!("{what}: {left} elements remain but size_hint is ({a}, {b:?}) and len {l}"),
            );
        }
    }
    for (it, _, _) in its {
        it.release();
    }
}

fn drain_any(mut it: Box<dyn PairIter + '_>, rng: &mut Rng, n: u64) {
    for _ in 0..n {
        let x = if rng.chance(1, 2) { it.next() } else { it.next_back() };
        if x.is_none() {
            break;
        }
        it.hint();
    }
    it.release();
}

pub struct Slot<C: Coll> {
    pub c: C,
    pub m: Box<Model>,
    pub tag: u16,
    pub family: u32,
}

/// Operations that need only `&collection`
pub fn read_op<C: Coll>(
    s: &Slot<C>,
    other: Option<&Slot<C>>,
    st: &Step,
    byz: bool,
    cursors: &mut Cursors,
) {
    let (c, m) = (&s.c, &*s.m);
    let a = &st.a;
    let what = st.op.name();
    match st.op {
        Op::Get => {
            let k = key_of(m, a[1]);
            let got = if a[2] % 2 == 0 {
                c.get(&Probe::new(k))
            } else {
                let sk = SK::new_tagged(k, CUR_TAG);
                c.get_sk(&sk)
            };
            let want = m.get(k);
            chk!(byz, got == want, "lookup", "get({k}) is {}, expected {}", opt(&got), opt(&want));
        }
        Op::Ends => {
            if let Some((f, l)) = c.ends() {
                chk!(byz, f == m.first(), "ends", "first is {}, expected {}", opt(&f), opt(&m.first()));
                chk!(byz, l == m.last(), "ends", "last is {}, expected {}", opt(&l), opt(&m.last()));
            }
            if !byz && (c.len() != m.len() || c.is_empty() != (m.len() == 0)) {
                violation("len", format!("len() is {}, expected {}", c.len(), m.len()));
            }
        }
        Op::Audit => {
            if byz {
                bookkeeping(c, s.tag, true, "audit");
            } else {
                audit(c, m, s.tag, a[1], "audit");
            }
        }
        Op::Walk => {
            let mut rng = Rng::new(a[1]);
            if byz {
                drain_any(c.iter(), &mut rng, a[2]);
                return;
            }
            let e = m.entries();
            let mut side = |rng: &mut Rng| {
                let k = rng.below(m.u as u64);
                let got = c.get(&Probe::new(k));
                if got != m.get(k) {
                    violation("lookup", format!("get({k}) during iteration is {}", opt(&got)));
                }
            };
            walk_steps(vec![], &e, &mut rng, a[2].min(6 * e.len() as u64 + 20), &|| Some(c.iter()), &mut side, "iter");
        }
        Op::Union => {
            let o = other.unwrap_or(s);
            if let Some(got) = c.union_all(&o.c) {
                let mut want: Vec<u64> = m.entries().iter().chain(o.m.entries().iter()).map(|x| x.0).collect();
                want.sort();
                want.dedup();
                chk!(byz, got == want, "union", "union yields {} keys, expected {}", got.len(), want.len());
            }
        }
        Op::UWalk => {
            let o = other.unwrap_or(s);
            let mut rng = Rng::new(a[2]);
            if byz {
                if let Some(mut u) = c.union_iter(&o.c) {
                    for _ in 0..a[3].min(4 * (c.len() + o.c.len()) as u64 + 8) {
                        u.hint();
                        if u.next().is_none() {
                            break;
                        }
                    }
                    u.release();
                }
                return;
            }
            union_walk(s, o, &mut rng, a[3]);
        }
        Op::Fork => {
            // clone, compare, drop (the forking of slots is in World)
            if let Some(n) = tagged(CUR_TAG, || c.try_clone()) {
                if !byz {
                    let e = m.entries();
                    let mut it = n.iter();
                    for want in &e {
                        let got = it.next();
                        if got != Some(*want) {
                            violation("clone", format!("clone yields {}, expected {want:?}", opt(&got)));
                        }
                    }
                    if it.next().is_some() || n.len() != e.len() {
                        violation("clone", format!("clone has {} elements, original {}", n.len(), e.len()));
                    }
                    it.release();
                }
                n.release();
            }
        }
        Op::AGet if C::AUG != AugKind::Plain => {
            let mut q = goal(m, C::AUG, a[1], a[2]);
            if let AugQ::Hash(q) = &mut q {
                q.behave = misbehave(byz, a[3], a[4]);
            }
            let got = c.aug_get(q);
            let want = denoted(m, &q);
            let byz = byz || !ctx().judge.aug;
            chk!(byz, got == want, "select", "{q:?} selects {}, expected {}", opt(&got), opt(&want));
        }
        Op::ARank => {
            let k = key_of(m, a[1]);
            let sk = SK::new_tagged(k, CUR_TAG);
            tagged(CUR_TAG, || check_rank(c, m, k, &sk, byz));
        }
        Op::GSize => {
            let k = key_of(m, a[1]);
            let g = k >> ctx().gshift;
            if let Some(n) = tagged(CUR_TAG, || c.group_size(g)) {
                let want = m.group_size(g) as u64;
                let byz = byz || !ctx().judge.aug;
                chk!(byz, n == want, "group-size", "group {g} has size {n}, expected {want}");
            }
        }
        Op::Visit => {
            let mut q = Query {
                goal: if a[1] % 2 == 0 && C::AUG != AugKind::Plain {
                    Goal::Nth(a[2] % (m.len() as u64 + 2))
                } else {
                    Goal::Lower(key_of(m, a[2]))
                },
                behave: misbehave(byz, a[3], a[4]),
                depth: 0,
            };
            if !byz && a[3] % 8 == 1 {
                q.behave = Behave::Cancel { depth: (a[4] % 3) as u32 };
            }
            if !byz && a[3] % 8 == 2 {
                q.behave = Behave::Complete { depth: (a[4] % 3) as u32 };
            }
            let Some(r) = c.visit(Visitor { q }) else { return };
            if byz || !ctx().judge.aug {
                return;
            }
            let want = match q.goal {
                Goal::Nth(n) => m.select_kv(n as usize),
                Goal::Lower(k) => m.ceil(k),
            };
            let ok = match (q.behave, r) {
                (Behave::Cancel { .. }, None) => true,
                (Behave::Complete { .. }, Some(Some((u64::MAX, u64::MAX)))) => true,
                (_, None) => false,
                (_, Some(got)) => {
                    if matches!((q.goal, C::AUG), (Goal::Lower(_), AugKind::Plain | AugKind::Count)) {
                        // routed by separators: exact for present keys
                        let Goal::Lower(k) = q.goal else { unreachable!() };
                        got == want || (got.is_none() && m.get(k).is_none())
                    } else {
                        got == want
                    }
                }
            };
            chk!(byz, ok, "visit", "{q:?} visits to {r:?}, expected {}", opt(&want));
        }
        Op::CFirst | Op::CLast | Op::CGet | Op::CMove | Op::CVal | Op::CWalk | Op::CCopy | Op::CDrop
            if C::CURSORS =>
        {
            tagged(CUR_TAG, || cursor_op(s, st, byz, cursors))
        }
        _ => {}
    }
    let _ = what;
}

/// Several consumers of one union, interleaved: advance, fork, ask for the size, abandon
fn union_walk<C: Coll>(s: &Slot<C>, o: &Slot<C>, rng: &mut Rng, n: u64) {
    let mut want: Vec<u64> = s.m.entries().iter().chain(o.m.entries().iter()).map(|x| x.0).collect();
    want.sort_unstable();
    want.dedup();
    let Some(first) = s.c.union_iter(&o.c) else { return };
    // (iterator, first element still to come)
    let mut its: Vec<(Box<dyn UIter + '_>, usize)> = vec![(first, 0)];
    let hops = rng.chance(1, 4);
    let forks = rng.range(1, 8);
    for _ in 0..n.min(4 * want.len() as u64 + 20) {
        if its.is_empty() {
            its.push((s.c.union_iter(&o.c).unwrap(), 0));
        }
        let w = rng.below(its.len() as u64) as usize;
        let r = rng.below(100);
        if r < forks && its.len() < 5 {
            let f = if rng.chance(1, 8) {
                // the other way round
                (o.c.union_iter(&s.c).unwrap(), 0)
            } else {
                (its[w].0.fork(), its[w].1)
            };
            its.push(f);
            continue;
        }
        if r < forks + 2 {
            let (it, at) = its.swap_remove(w);
            let rest = &want[at..];
            ctx().probe("abandoned_consumer");
            let which = rng.below(6);
            let expect = match which {
                0 => Some(rest.len() as u64),
                1 => rest.first().copied(),
                2 | 3 => rest.last().copied(),
                4 => {
                    let got = it.all();
                    if got != rest {
                        violation(
                            "union",
                            format!("fold over a union saw {} elements, not exactly the {} left in order", got.len(), rest.len()),
                        );
                    }
                    continue;
                }
                _ => {
                    it.release();
                    continue;
                }
            };
            let got = it.finish(which);
            if got != expect {
                violation(
                    "union",
                    format!(
                        "{} of a union with {} elements to come is {}, expected {}",
                        ["count", "min", "last", "max"][which as usize],
                        rest.len(),
                        opt(&got),
                        opt(&expect)
                    ),
                );
            }
            continue;
        }
        if r < forks + 12 {
            // lookups meanwhile
            for x in [s, o] {
                let k = rng.below(x.m.u as u64);
                let got = x.c.get(&Probe::new(k));
                if got != x.m.get(k) {
                    violation("lookup", format!("get({k}) during a union is {}", opt(&got)));
                }
            }
        }
        let (it, at) = &mut its[w];
        let hop = if hops && rng.chance(1, 4) { rng.below(70) as usize } else { 0 };
        let expect = want.get(*at + hop).copied();
        let got = match catch_unwind(AssertUnwindSafe(|| if hop == 0 { it.next() } else { it.nth(hop) })) {
            Ok(got) => got,
            Err(p) if p.downcast_ref::<Injected>().is_some() => {
                // a comparison panicked: this consumer is through, the others go on
                ctx().probe("operation_interrupted");
                its.swap_remove(w).0.release();
                continue;
            }
            Err(p) => std::panic::resume_unwind(p),
        };
        if got != expect {
            violation(
                "union",
                format!(
                    "element {} of {} of a union is {}, expected {}",
                    *at + hop,
                    want.len(),
                    opt(&got),
                    opt(&expect)
                ),
            );
        }
        *at = (*at + hop + 1).min(want.len());
        let left = want.len() - *at;
        let (lo, hi) = it.hint();
        if lo > left || hi.is_some_and(|h| h < left) {
            violation(
                "union-hint",
                format!("{left} elements to come, but size_hint is ({lo}, {hi:?})"),
            );
        }
    }
    for (it, _) in its {
        it.release();
    }
}

/// A query whose callbacks (comparisons, clones, visitors) query the same collection again
fn read_nested<C: Coll>(rate: u32, s: &Slot<C>, other: Option<&Slot<C>>, st: &Step, cursors: &mut Cursors) {
    if rate == 0 {
        return read_op(s, other, st, false, cursors);
    }
    let mut rng = Rng::new(st.a.iter().fold(st.op as u64, |x, y| crate::rng::mix2(x, *y)));
    let mut inner: Cursors = (0..2).map(|_| None).collect();
    let mut again = || {
        if !rng.chance(rate as u64, 1000) {
            return;
        }
        ctx().stats.nested += 1;
        let op = [Op::Get, Op::Get, Op::Get, Op::CGet, Op::CMove, Op::Ends, Op::ARank, Op::AGet, Op::Walk][rng.below(9) as usize];
        let q = Step::new(st.client, op, &[0, rng.below(s.m.u as u64), rng.below(if op == Op::Walk { 30 } else { s.m.u as u64 }), 0, 0]);
        tagged(CUR_TAG, || read_op(s, None, &q, false, &mut inner));
    };
    crate::threads::nesting(&mut again, || read_op(s, other, st, false, cursors));
}

fn cursor_op<C: Coll>(s: &Slot<C>, st: &Step, byz: bool, cursors: &mut Cursors) {
    let (c, m) = (&s.c, &*s.m);
    let a = &st.a;
    let n = cursors.len() as u64;
    let w = (a[1] % n) as usize;
    let put = |cursors: &mut Cursors, w: usize, cur: Cur, want: u64| {
        let key = cur.key().read();
        chk!(byz, key == want, "cursor", "cursor is at key {key}, expected {want}");
        cursors[w] = Some(CurE {
            c: cur,
            key,
            family: s.family,
        });
    };
    match st.op {
        Op::CFirst | Op::CLast => {
            let last = st.op == Op::CLast;
            let want = if last { m.last() } else { m.first() };
            let got = if last {
                c.cur_last()
            } else if a[2] % 2 == 0 {
                c.cur_first()
            } else {
                c.cur_first_plain().map(|x| {
                    let v = c.cur_value(&x);
                    chk!(byz, v.is_some(), "cursor", "first cursor has no value");
                    (x, v.unwrap_or(0))
                })
            };
            match (got, want) {
                (Some((cur, v)), Some((wk, wv))) => {
                    chk!(byz, v == wv, "cursor", "{} cursor has value {v}, expected {wv}", st.op.name());
                    put(cursors, w, cur, wk);
                }
                (None, None) => {}
                (Some((cur, _)), None) => {
                    let k = cur.key().read();
                    chk!(byz, false, "cursor", "a cursor at {k} into an empty tree");
                }
                (None, Some(_)) => {
                    chk!(byz, false, "cursor", "no {} cursor for a tree of {}", st.op.name(), m.len());
                }
            }
        }
        Op::CGet => {
            let k = key_of(m, a[2]);
            let sk = SK::new(k);
            let want = m.get(k);
            match c.cur_get(&sk) {
                Some((cur, v)) => {
                    chk!(byz, v == want, "cursor", "get_cursor({k}) has value {}, expected {}", opt(&v), opt(&want));
                    put(cursors, w, cur, k);
                }
                None => {
                    chk!(byz, want.is_none(), "cursor", "no cursor for present key {k}");
                }
            }
        }
        Op::CMove | Op::CWalk => {
            let dir = [Dir::Next, Dir::Prev, Dir::NextV, Dir::PrevV][(a[2] % 4) as usize];
            let times = if st.op == Op::CMove { 1 } else { 1 + a[3] % 400 };
            for _ in 0..times {
                let Some(e) = &cursors[w] else { return };
                if e.family != s.family {
                    return;
                }
                let k = e.key;
                let want = match dir {
                    Dir::Next | Dir::NextV => m.succ(k),
                    _ => m.pred(k),
                };
                match (c.cur_move(&e.c, dir), want) {
                    (Some((cur, v)), Some((wk, wv))) => {
                        if let Some(v) = v {
                            let got = cur.key().read();
                            chk!(
                                byz,
                                v == wv && got == wk,
                                "cursor",
                                "{dir:?} from {k} leads to ({got}, {v}), expected ({wk}, {wv})"
                            );
                        }
                        put(cursors, w, cur, wk);
                    }
                    (None, None) => {
                        if st.op == Op::CWalk && a[4] % 2 == 1 {
                            cursors[w] = None;
                        }
                        return;
                    }
                    (Some((cur, _)), None) => {
                        let got = cur.key().read();
                        chk!(byz, false, "cursor", "{dir:?} from {k} leads to {got}, expected nothing");
                        return;
                    }
                    (None, Some((wk, _))) => {
                        chk!(byz, false, "cursor", "{dir:?} from {k} leads nowhere, expected {wk}");
                        return;
                    }
                }
            }
        }
        Op::CVal => {
            let Some(e) = &cursors[w] else { return };
            if e.family != s.family {
                return;
            }
            let k = e.c.key().read();
            chk!(byz, k == e.key, "cursor", "cursor key changed from {} to {k}", e.key);
            let want = m.get(k);
            if want.is_none() {
                ctx().probe("cursor_key_gone");
            }
            let got = c.cur_value(&e.c);
            chk!(byz, got == want, "cursor", "cursor at {k} has value {}, expected {}", opt(&got), opt(&want));
            let ex = c.cur_exists(&e.c);
            chk!(byz, ex == want.is_some(), "cursor", "cursor at {k} exists: {ex}");
        }
        Op::CCopy => {
            let d = (a[2] % n) as usize;
            if d == w {
                return;
            }
            let copy = cursors[w].as_ref().map(|e| CurE {
                c: ctx::lib(|| e.c.clone()),
                key: e.key,
                family: e.family,
            });
            cursors[d] = copy;
        }
        _ => cursors[w] = None,
    }
}

pub struct World<C: Coll> {
    pub slots: Vec<Option<Slot<C>>>,
    pub cursors: Cursors,
    pub tok: u64,
    tags: u16,
    families: u32,
    u: u64,
    gshift: u32,
    byz: bool,
    /// steps since bookkeeping was last fully checked
    since: u32,
    template: Model,
}

impl<C: Coll> World<C> {
    pub fn new(run: &Run) -> Self {
        World {
            slots: (0..3).map(|_| None).collect(),
            cursors: (0..8).map(|_| None).collect(),
            tok: 1000,
            tags: CUR_TAG,
            families: 0,
            u: run.u,
            gshift: run.gshift,
            byz: run.byzantine,
            since: 0,
            template: Model::new(run.u as usize, run.gshift, !C::IS_SET),
        }
    }

    pub fn next_tok(&mut self) -> u64 {
        self.tok += 1;
        self.tok
    }

    fn next_tag(&mut self) -> u16 {
        self.tags += 1;
        self.tags
    }

    fn ensure(&mut self, i: usize) -> &mut Slot<C> {
        if self.slots[i].is_none() {
            let tag = self.next_tag();
            self.families += 1;
            let c = tagged(tag, || C::make());
            self.slots[i] = Some(Slot {
                c,
                m: Box::new(self.template.empty_like()),
                tag,
                family: self.families,
            });
        }
        self.slots[i].as_mut().unwrap()
    }

    fn unexpected(&self, st: &Step, msg: &str) {
        if self.byz {
            ctx().probe("op_panicked_under_lies");
            return;
        }
        violation("panic", format!("{} panicked: {msg}", st.op.name()));
    }

    /// Every operation leaves the collection in agreement with the model
    fn settle(&mut self, i: usize, what: &str) {
        let byz = self.byz;
        self.since += 1;
        let since = self.since;
        let Some(s) = &self.slots[i] else { return };
        ctx().cur_tag = s.tag;
        if byz {
            let n = s.c.len();
            let full = n <= 300 || since % 16 == 0;
            bookkeeping(&s.c, s.tag, full, what);
        } else {
            agree(&s.c, &s.m, s.tag, what);
        }
    }

    fn after_interrupt(&mut self, i: usize, st: &Step, deep: bool) {
        if self.byz {
            return;
        }
        let Some(s) = &self.slots[i] else { return };
        let what = format!("after interrupted {}", st.op.name());
        ctx().cur_tag = s.tag;
        if deep && s.m.len() <= 6000 {
            audit(&s.c, &s.m, s.tag, st.a[1], &what);
        } else {
            agree(&s.c, &s.m, s.tag, &what);
        }
    }

    /// End of a collection: nothing of it may stay behind
    fn ended(&self, tag: u16, what: &str) {
        let l = ctx().live_of(tag);
        if l != [0; 4] && ctx().judge.leak {
            violation(
                "leak",
                format!(
                    "{what}: {} keys, {} values, {} augmentations, {} groups of it were never released:{}",
                    l[0], l[1], l[2], l[3],
                    ctx().describe_live(6)
                ),
            );
        }
    }

    fn insert_one(&mut self, i: usize, k: u64, st: &Step, deep: bool) -> bool {
        let tok = self.next_tok();
        let byz = self.byz;
        let s = self.ensure(i);
        ctx().cur_tag = s.tag;
        let k = k % s.m.u as u64;
        let sk = SK::new(k);
        let kid = sk.id();
        let vid = kid + 1;
        let v = C::V::make(tok);
        let c = &mut s.c;
        match attempt(st.fault, move || c.insert(sk, v)) {
            Out::Ok(got) => {
                let want = s.m.insert(k, tok);
                chk!(
                    byz,
                    got == want,
                    "insert-result",
                    "insert({k}) returned {}, expected {}",
                    opt(&got),
                    opt(&want)
                );
                true
            }
            Out::Injected => {
                if ctx().judge.leak && (ctx().is_live(kid) || (C::V::TRACKED && ctx().is_live(vid))) {
                    violation("leak", format!("interrupted insert({k}) kept its key or value"));
                }
                self.after_interrupt(i, st, deep);
                false
            }
            Out::Panicked(p) => {
                self.unexpected(st, &p);
                false
            }
        }
    }

    fn remove_one(&mut self, i: usize, k: u64, st: &Step, deep: bool) -> bool {
        let byz = self.byz;
        let s = self.ensure(i);
        ctx().cur_tag = s.tag;
        let k = k % s.m.u as u64;
        let c = &mut s.c;
        let by_sk = st.a[2] % 2 == 1 && st.op == Op::Rem;
        let r = if by_sk {
            let sk = SK::new_tagged(k, CUR_TAG);
            attempt(st.fault, || c.remove_sk(&sk))
        } else {
            attempt(st.fault, || c.remove(&Probe::new(k)))
        };
        match r {
            Out::Ok(got) => {
                let want = s.m.remove(k);
                chk!(
                    byz,
                    got == want,
                    "remove-result",
                    "remove({k}) returned {}, expected {}",
                    opt(&got),
                    opt(&want)
                );
                if s.m.len() == 0 && want.is_some() {
                    ctx().probe("emptied");
                }
                true
            }
            Out::Injected => {
                self.after_interrupt(i, st, deep);
                false
            }
            Out::Panicked(p) => {
                self.unexpected(st, &p);
                false
            }
        }
    }

    /// Memory held is bounded by the entries, and nothing is left when nothing exists
    pub fn memory(&mut self, what: &str) {
        if !ctx().judge.mem || self.byz {
            return;
        }
        let n: usize = self.slots.iter().flatten().map(|s| s.c.len()).sum();
        let peak = ctx().peak.max(n);
        ctx().peak = peak;
        let (bytes, blocks) = crate::oom::held();
        let held = bytes - ctx().mem0;
        let trees = self.slots.iter().flatten().count();
        if ctx().excused {
            return;
        }
        if trees == 0 {
            if held != 0 {
                violation("memory-leak", format!("{what}: {held} bytes are held though no collection exists any more"));
            }
            return;
        }
        // per entry: a leaf a fifth full and its place in the inner nodes; per tree: a few nodes.
        // About twice what the unchanged tree ever holds
        let node = C::ENTRY.max(C::KEY + 112);
        let bound = peak * (5 * C::ENTRY + C::KEY + 64) + trees * (4096 + 192 * node);
        if std::env::var("DST_RATIO").is_ok() {
            eprintln!("ratio {:.3} {} {held} {bound} {peak} {}", held as f64 / bound as f64, C::NAME, what);
        }
        if held > bound as i64 {
            violation(
                "memory-growth",
                format!("{what}: {held} bytes in {blocks} blocks are held for {trees} collections that together never had more than {peak} entries"),
            );
        }
    }

    /// A long life at bounded size: entries come and go `a[3]` times, now and then interrupted
    fn churn(&mut self, i: usize, st: &Step) {
        let u = self.u.next_power_of_two().max(2);
        let (lo, w, times, style) = (st.a[1] % u, 1 + st.a[2] % (u / 2), st.a[3], st.a[4]);
        let mut r = Rng::new(style);
        if style >> 32 != 0 {
            return self.again_and_again(i, st, &mut r);
        }
        let mut plain = st.clone();
        plain.fault = None;
        let (mut head, mut tail) = (lo, lo);
        let mut grow = true;
        let block = 1 + r.below(w);
        let mut left = 0;
        let mut up = false;
        for n in 0..times {
            let use_fault = st.fault.is_some() && r.chance(1, 16);
            let s = if use_fault { st } else { &plain };
            let (ins, k) = match style % 8 {
                // a queue, upward and downward
                0 | 1 => {
                    let ins = head - tail < w;
                    let k = if ins { &mut head } else { &mut tail };
                    *k += 1;
                    (ins, if style % 8 == 0 { *k } else { u.wrapping_sub(*k) })
                }
                // up to w and down to nothing: at the same end, at the other end, in the middle
                2..=4 => {
                    if head == lo {
                        grow = true
                    } else if head - lo >= w {
                        grow = false;
                        tail = 0;
                    }
                    if grow {
                        head += 1;
                        (true, head)
                    } else {
                        head -= 1;
                        tail += 1;
                        (
                            false,
                            match style % 8 {
                                2 => head + 1,
                                3 => lo + tail,
                                _ if tail % 2 == 0 => lo + (w + 1 - tail / 2),
                                _ => lo + 1 + tail / 2,
                            },
                        )
                    }
                }
                // blocks come and go around a base of w
                5 => {
                    if left == 0 {
                        left = block;
                        up = !up;
                        if up {
                            head = lo + r.below(w);
                        }
                    }
                    left -= 1;
                    (up, head + left)
                }
                // random
                6 => (r.chance(1, 2), lo + r.below(2 * w)),
                // a heartbeat around some number of entries
                _ => {
                    if n < w {
                        (true, lo + n)
                    } else {
                        if left == 0 {
                            left = 1 + block % 48;
                            up = !up;
                        }
                        left -= 1;
                        (!up, lo + (w - 1).saturating_sub(left))
                    }
                }
            };
            let k = k % u;
            if n % 8 == 7 && r.chance(1, 8) {
                let sl = self.ensure(i);
                ctx().cur_tag = sl.tag;
                let got = sl.c.get(&Probe::new(k));
                if got != sl.m.get(k) {
                    violation("lookup", format!("churn: get({k}) is {}", opt(&got)));
                }
            }
            if ins {
                self.insert_one(i, k, s, false);
            } else {
                self.remove_one(i, k, s, false);
            }
            let n = self.slots.iter().flatten().map(|s| s.m.len()).sum();
            ctx().peak = ctx().peak.max(n);
        }
    }

    /// The same few operations on the whole collection, over and over
    fn again_and_again(&mut self, i: usize, st: &Step, r: &mut Rng) {
        let (i, w) = (i as u64, 1 + st.a[2] % self.u);
        let mut left = st.a[3] as i64;
        let other = (i + 1) % 3;
        let queries = [
            Op::Get, Op::Ends, Op::Walk, Op::CFirst, Op::CLast, Op::CGet, Op::CMove, Op::CVal, Op::CCopy, Op::AGet, Op::AMut,
            Op::ARank, Op::GSize, Op::Visit, Op::Union, Op::UWalk, Op::GetMut,
        ];
        let few: Vec<Op> = (0..4).map(|_| *r.pick(&queries)).collect();
        let style = st.a[4] >> 32;
        while left > 0 {
            let mut next = |r: &mut Rng, op: Op, a: &[u64], cost: u64| {
                left -= cost as i64 + 40;
                let f = if r.chance(1, 16) { st.fault } else { None };
                (Step::new(st.client, op, a), f)
            };
            let fill = next(r, Op::InsR, &[i, st.a[1], w, 1, style & 1], w);
            let mut todo = vec![];
            match style % 8 {
                1 => todo.extend([fill, next(r, Op::Clear, &[i], 1)]),
                2 => {
                    let how = [0, 1, 1000][r.below(3) as usize];
                    todo.extend([fill, next(r, Op::Consume, &[i, r.clone().next() >> 8, how], 1)])
                }
                3 => todo.extend([fill, next(r, Op::Fork, &[i, other, style >> 3], w)]),
                4 => todo.push(next(r, Op::Bulk, &[i, w, style, style >> 3], w)),
                _ => {
                    for _ in 0..50 {
                        let op = *r.pick(&few);
                        let a = [i, r.next() >> 8, r.next() >> 8, if op == Op::UWalk { 20 } else { 0 }, 0];
                        let a = if op == Op::Walk { [i, a[1], 1 + a[2] % 20, 0, 0] } else { a };
                        todo.push(next(r, op, &a, 20));
                    }
                }
            }
            for (s, f) in todo {
                let fits = matches!(
                    (s.op, f),
                    (_, None) | (Op::InsR | Op::Fork | Op::CGet | Op::CMove | Op::CFirst, Some((Fault::KClone, _)))
                        | (Op::InsR | Op::Get | Op::CGet | Op::CMove | Op::ARank, Some((Fault::Cmp, _)))
                );
                self.step(&if fits { s.with(f) } else { s });
                let n = self.slots.iter().flatten().map(|s| s.m.len()).sum();
                ctx().peak = ctx().peak.max(n);
            }
        }
    }

    /// keys of a range step, in the order asked for
    fn range_keys(&self, a: &[u64; 5]) -> Vec<u64> {
        let u = self.u.next_power_of_two().max(2);
        let n = a[2].min(u);
        let stride = a[3].max(1);
        let mut v: Vec<u64> = (0..n).map(|i| (a[1] + i * stride) % u).collect();
        match a[4] % 4 {
            0 => {}
            1 => v.reverse(),
            2 => {
                let mut r = Rng::new(a[4]);
                for i in (1..v.len()).rev() {
                    v.swap(i, r.below(i as u64 + 1) as usize);
                }
            }
            _ => {
                // from both ends
                let mut w = Vec::with_capacity(v.len());
                let (mut l, mut h) = (0, v.len());
                while l < h {
                    w.push(v[l]);
                    l += 1;
                    if l < h {
                        h -= 1;
                        w.push(v[h]);
                    }
                }
                v = w;
            }
        }
        v
    }

    fn drop_slot(&mut self, i: usize, fault: Option<(Fault, u64)>, st: &Step) {
        let Some(s) = self.slots[i].take() else { return };
        ctx().cur_tag = s.tag;
        let tag = s.tag;
        let upto = ctx().next_id();
        match attempt(fault, move || s.c.release()) {
            Out::Ok(()) => self.ended(tag, "end of a collection"),
            Out::Injected => {
                ctx().write_off(0, upto, Some(tag));
            }
            Out::Panicked(p) => {
                // destruction has no business panicking, whatever the callbacks did
                violation("panic", format!("{}: dropping the collection panicked: {p}", st.op.name()));
            }
        }
    }

    pub fn step(&mut self, st: &Step) {
        let a = st.a;
        let i = (a[0] % 3) as usize;
        let byz = self.byz;
        ctx().ev(st.op as u64 + 1000, a[1]);
        match st.op {
            Op::Ins => {
                self.insert_one(i, a[1], st, true);
            }
            Op::Rem => {
                self.remove_one(i, a[1], st, true);
            }
            Op::InsR | Op::RemR => {
                let mut plain = st.clone();
                plain.fault = None;
                let mut deep = 3;
                for k in self.range_keys(&a) {
                    let done = if st.op == Op::InsR {
                        self.insert_one(i, k, st, deep > 0)
                    } else {
                        self.remove_one(i, k, st, deep > 0)
                    };
                    if !done {
                        deep -= deep.min(1);
                        // the user tries again
                        if st.op == Op::InsR {
                            self.insert_one(i, k, &plain, false);
                        } else {
                            self.remove_one(i, k, &plain, false);
                        }
                    }
                }
            }
            Op::Churn => self.churn(i, st),
            Op::GetMut => {
                let tok = self.next_tok();
                let mutate = a[2] % 2 == 1 && !C::IS_SET && C::AUG != AugKind::Hash;
                let s = self.ensure(i);
                ctx().cur_tag = s.tag;
                let k = key_of(&s.m, a[1]);
                let c = &mut s.c;
                match attempt(st.fault, || c.get_mut(&Probe::new(k), mutate.then_some(tok))) {
                    Out::Ok(got) => {
                        let want = s.m.get(k);
                        chk!(byz, got == want, "lookup", "get_mut({k}) is {}, expected {}", opt(&got), opt(&want));
                        if mutate && want.is_some() {
                            s.m.insert(k, tok);
                        }
                    }
                    Out::Injected => self.after_interrupt(i, st, true),
                    Out::Panicked(p) => self.unexpected(st, &p),
                }
            }
            Op::AMut | Op::ARem if C::AUG != AugKind::Plain => {
                let tok = self.next_tok();
                let mutate = a[4] % 2 == 1 && C::AUG != AugKind::Hash;
                let s = self.ensure(i);
                ctx().cur_tag = s.tag;
                let mut q = goal(&s.m, C::AUG, a[1], a[2]);
                if let AugQ::Hash(q) = &mut q {
                    q.behave = misbehave(byz, a[3], a[4]);
                }
                let want = denoted(&s.m, &q);
                let c = &mut s.c;
                if st.op == Op::AMut {
                    match attempt(st.fault, || c.aug_mut(q, mutate.then_some(tok))) {
                        Out::Ok(got) => {
                            let lax = byz || !ctx().judge.aug;
                            chk!(
                                lax,
                                got == want.map(|x| x.1),
                                "select",
                                "mutable {q:?} selects {}, expected {}",
                                opt(&got),
                                opt(&want)
                            );
                            if let (true, Some((k, _))) = (mutate, want) {
                                s.m.insert(k, tok);
                            }
                        }
                        Out::Injected => self.after_interrupt(i, st, true),
                        Out::Panicked(p) => self.unexpected(st, &p),
                    }
                } else {
                    match attempt(st.fault, || c.aug_remove(q)) {
                        Out::Ok(got) => {
                            let lax = byz || !ctx().judge.aug;
                            chk!(
                                lax,
                                got == want,
                                "select",
                                "removing {q:?} returned {}, expected {}",
                                opt(&got),
                                opt(&want)
                            );
                            if let Some((k, _)) = if lax { got } else { want } {
                                s.m.remove(k);
                            }
                        }
                        Out::Injected => self.after_interrupt(i, st, true),
                        Out::Panicked(p) => self.unexpected(st, &p),
                    }
                }
            }
            Op::Clear => {
                let s = self.ensure(i);
                ctx().cur_tag = s.tag;
                let (tag, upto) = (s.tag, ctx().next_id());
                let c = &mut s.c;
                match attempt(st.fault, || c.clear()) {
                    Out::Ok(true) => {
                        s.m.clear();
                        if !C::IS_SET && ctx().judge.leak {
                            let l = ctx().live_of(tag);
                            if l[0] != 0 || l[1] != 0 {
                                violation(
                                    "leak",
                                    format!("clear left {} keys and {} values unreleased", l[0], l[1]),
                                );
                            }
                        }
                        ctx().probe("emptied");
                    }
                    Out::Ok(false) => {}
                    Out::Injected => {
                        // a value panicked while being released: whatever is still reachable must be sound
                        let s = self.slots[i].take().unwrap();
                        let mut it = s.c.iter();
                        while it.next().is_some() {}
                        it.release();
                        if let Out::Panicked(p) = attempt(None, move || s.c.release()) {
                            violation("panic", format!("dropping after interrupted clear panicked: {p}"));
                        }
                        ctx().write_off(0, upto, Some(tag));
                        self.ended(tag, "collection after interrupted clear");
                        self.ensure(i);
                    }
                    Out::Panicked(p) => self.unexpected(st, &p),
                }
            }
            Op::DropTree => {
                self.drop_slot(i, st.fault, st);
            }
            Op::Swap => {
                let j = (a[1] % 3) as usize;
                if let (Some(_), Some(_)) = (&self.slots[i], &self.slots[j]) {
                    if i != j {
                        // the collection object itself moves
                        self.slots.swap(i, j);
                    }
                }
            }
            Op::Fork => {
                let j = (a[1] % 3) as usize;
                if i == j || !C::IS_TREE {
                    return;
                }
                let tag = self.next_tag();
                let s = self.ensure(i);
                let from = ctx().next_id();
                ctx().cur_tag = tag;
                if st.fault.is_none() && a[2] % 4 == 1 && self.slots[j].is_some() {
                    let mut d = self.slots[j].take().unwrap();
                    let s = self.slots[i].as_ref().unwrap();
                    let old = d.tag;
                    match attempt(None, || d.c.assign(&s.c)) {
                        Out::Ok(()) => {
                            (d.m, d.tag, d.family) = (s.m.clone(), tag, s.family);
                            self.slots[j] = Some(d);
                            self.ended(old, "overwriting by clone_from");
                            self.settle(j, "clone_from");
                            let s = self.slots[j].as_ref().unwrap();
                            ctx().cur_tag = s.tag;
                            if !byz && s.m.len() <= 3000 {
                                audit(&s.c, &s.m, s.tag, a[2], "clone_from");
                            }
                            ctx().probe("clone_from");
                        }
                        Out::Injected => {}
                        Out::Panicked(p) => self.unexpected(st, &p),
                    }
                    return;
                }
                let s = self.slots[i].as_ref().unwrap();
                match attempt(st.fault, || s.c.try_clone()) {
                    Out::Ok(Some(c)) => {
                        let n = Slot {
                            c,
                            m: s.m.clone(),
                            tag,
                            family: s.family,
                        };
                        self.drop_slot(j, None, st);
                        self.slots[j] = Some(n);
                        self.settle(j, "fresh clone");
                        let s = self.slots[j].as_ref().unwrap();
                        ctx().cur_tag = s.tag;
                        if !byz && s.m.len() <= 3000 {
                            audit(&s.c, &s.m, s.tag, a[2], "fresh clone");
                        }
                        ctx().probe("snapshot_diverged");
                    }
                    Out::Ok(None) => {}
                    Out::Injected => {
                        let upto = ctx().next_id();
                        ctx().write_off(from, upto, None);
                        self.after_interrupt(i, st, true);
                    }
                    Out::Panicked(p) => self.unexpected(st, &p),
                }
            }
            Op::Bulk => {
                let items = bulk_items(a[1], a[2], self.u.next_power_of_two().max(2));
                let base = self.tok;
                self.tok += items.len() as u64 + 1;
                let items: Vec<KV> = items
                    .into_iter()
                    .enumerate()
                    .map(|(n, k)| (k, base + 1 + n as u64))
                    .collect();
                let tag = self.next_tag();
                let from = ctx().next_id();
                ctx().cur_tag = tag;
                let src = Source {
                    items: items.clone().into_iter(),
                    hint: a[3] as u8,
                };
                match attempt(st.fault, move || C::bulk(src)) {
                    Out::Ok(c) => {
                        self.drop_slot(i, None, st);
                        self.families += 1;
                        let mut m = Box::new(self.template.empty_like());
                        for (k, t) in items {
                            m.insert(k, t);
                        }
                        self.slots[i] = Some(Slot {
                            c,
                            m,
                            tag,
                            family: self.families,
                        });
                        self.settle(i, "bulk construction");
                        let s = self.slots[i].as_ref().unwrap();
                        if !byz {
                            ctx().cur_tag = s.tag;
                            audit(&s.c, &s.m, s.tag, a[2], "bulk construction");
                        }
                    }
                    Out::Injected => {
                        ctx().probe("source_failed");
                        ctx().excused |= !matches!(ctx().fired, Some(Fault::Source | Fault::Cmp));
                        let upto = ctx().next_id();
                        ctx().write_off(from, upto, None);
                        self.after_interrupt(i, st, false);
                    }
                    Out::Panicked(p) => {
                        if byz {
                            // sorting under an inconsistent order may panic, items may leak
                            let upto = ctx().next_id();
                            ctx().write_off(from, upto, None);
                        }
                        self.unexpected(st, &p)
                    }
                }
            }
            Op::Consume => {
                self.ensure(i);
                let s = self.slots[i].take().unwrap();
                ctx().cur_tag = s.tag;
                let tag = s.tag;
                let upto = ctx().next_id();
                let e = if byz { vec![] } else { s.m.entries() };
                let mut back = None;
                let r = {
                    let (m, family) = (s.m, s.family);
                    let c = s.c;
                    let back = &mut back;
                    attempt(st.fault, move || match c.consume() {
                        Ok(it) => {
                            let mut rng = Rng::new(a[1]);
                            if byz {
                                drain_any(it, &mut rng, a[2]);
                            } else {
                                let first = std::cell::Cell::new(Some(it));
                                walk_steps(
                                    vec![(first.take().unwrap(), 0, e.len())],
                                    &e,
                                    &mut rng,
                                    a[2],
                                    &|| None,
                                    &mut |_| {},
                                    "into_iter",
                                );
                            }
                        }
                        Err(c) => *back = Some(Slot { c, m, tag, family }),
                    })
                };
                match r {
                    Out::Ok(()) => {
                        if back.is_some() {
                            self.slots[i] = back;
                        } else {
                            self.ended(tag, "end of a consuming iterator");
                        }
                    }
                    Out::Injected => {
                        ctx().write_off(0, upto, Some(tag));
                        self.ended(tag, "interrupted consuming iterator");
                    }
                    Out::Panicked(p) => violation("panic", format!("consuming panicked: {p}")),
                }
            }
            Op::Yield => {}
            _ => {
                let j = (a[1] % 3) as usize;
                self.ensure(i);
                let s = self.slots[i].as_ref().unwrap();
                let other = if matches!(st.op, Op::Union | Op::UWalk) { self.slots[j].as_ref() } else { None };
                ctx().cur_tag = s.tag;
                let cursors = &mut self.cursors;
                match attempt(st.fault, || read_op(s, other, st, byz, cursors)) {
                    Out::Ok(()) => {}
                    Out::Injected => self.after_interrupt(i, st, true),
                    Out::Panicked(p) => self.unexpected(st, &p),
                }
                return;
            }
        }
        self.settle(i, st.op.name());
    }

    /// Reach probes, then end everything and balance the books
    pub fn finish(&mut self) {
        for i in 0..self.slots.len() {
            if let Some(s) = &self.slots[i] {
                ctx().cur_tag = s.tag;
                if !self.byz {
                    audit(&s.c, &s.m, s.tag, 7, "end of run");
                } else {
                    bookkeeping(&s.c, s.tag, true, "end of run");
                }
                self.note_reach(i);
            }
            self.drop_slot(i, None, &Step::new(0, Op::DropTree, &[]));
        }
        self.cursors.clear();
        let l = ctx().live;
        if l != [0; 4] && ctx().judge.leak {
            violation(
                "leak",
                format!(
                    "end of run: {} keys, {} values, {} augmentations, {} groups never released:{}",
                    l[0], l[1], l[2], l[3],
                    ctx().describe_live(6)
                ),
            );
        }
    }

    pub fn note_reach(&self, i: usize) {
        if let Some(s) = &self.slots[i] {
            let r = s.c.reach();
            let p = &mut ctx().stats.probes;
            p[0] += r.leaf_rotate;
            p[1] += r.leaf_merge;
            p[2] += r.inner_rotate;
            p[3] += r.inner_merge;
            let n = s.c.len();
            p[4] += (n > 64) as u64;
            p[5] += (n > 4160) as u64;
            p[6] += (n > 100_000) as u64;
        }
    }

    pub fn template(&self) -> &Model {
        &self.template
    }
    pub fn gshift(&self) -> u32 {
        self.gshift
    }
}

/// keys of a bulk source: sorted, reversed, random, duplicates, all equal
pub fn bulk_items(n: u64, pattern: u64, u: u64) -> Vec<u64> {
    let mut r = Rng::new(pattern);
    let n = n.min(4 * u).min(600_000);
    let kind = pattern % 8;
    let off = r.below(u);
    let fits = n <= u;
    (0..n)
        .map(|i| match kind {
            0 | 1 if fits => i,
            2 if fits => n - 1 - i,
            3 => (i / 2) % u,
            4 => r.below(u),
            5 => {
                if r.chance(1, 5) {
                    r.below(u)
                } else {
                    i % u
                }
            }
            6 => {
                if n > 300 {
                    (i * 7 + off) % u
                } else {
                    off
                }
            }
            _ => (i + off) % u,
        })
        .collect()
}

/// One run in step mode
pub fn run_steps<C: Coll>(run: &Run) {
    let mut w = World::<C>::new(run);
    for (n, st) in run.steps.iter().enumerate() {
        ctx().where_ = format!("step {n}: {}", st.text());
        w.step(st);
        w.memory(&st.op.name());
    }
    ctx().where_ = "end of run".into();
    w.finish();
    w.memory(&"the end");
}

struct Shared<T>(*mut T);
unsafe impl<T> Send for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0)
    }
}
impl<T> Shared<T> {
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}
unsafe impl<T> Sync for Shared<T> {}

pub fn reads_only(op: Op) -> bool {
    use Op::*;
    matches!(
        op,
        Get | Ends | Audit | Walk | Fork | Union | UWalk | AGet | ARank | GSize | Visit | CFirst | CLast | CGet | CMove | CVal
            | CWalk | CCopy | CDrop
    )
}

pub const SETUP: u8 = 255;

/// One run in threads mode: client 255 prepares, every other client is a thread. Readers hold the
/// simulated lock shared, for as many steps as come in a row; modifications hold it exclusively.
pub fn run_threads<C: Coll>(run: &Run) {
    let (sync, send) = C::is_sync_send();
    if !sync || !send {
        violation(
            "not-shareable",
            format!("{} can not be shared between threads any more (Sync: {sync}, Send: {send})", C::NAME),
        );
    }
    let mut w = World::<C>::new(run);
    for i in 0..3 {
        w.ensure(i);
    }
    for (n, st) in run.steps.iter().enumerate() {
        if st.client == SETUP {
            ctx().where_ = format!("step {n}: {}", st.text());
            w.step(st);
        }
    }
    let world = Shared(&mut w as *mut World<C>);
    let mut held: Vec<Cursors> = (0..run.threads.max(1)).map(|_| (0..8).map(|_| None).collect()).collect();
    let held_p = Shared(&mut held as *mut Vec<Cursors>);
    let mut programs: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
    for t in 0..run.threads.max(1) {
        let steps: Vec<(usize, Step)> = run
            .steps
            .iter()
            .enumerate()
            .filter(|(_, s)| s.client == t)
            .map(|(n, s)| (n, s.clone()))
            .collect();
        let world = world.clone();
        let held_p = held_p.clone();
        programs.push(Box::new(move || {
            let cursors = &mut held_p.get()[t as usize];
            let mut shared = false;
            for (n, st) in steps {
                ctx().where_ = format!("step {n}: {}", st.text());
                if st.op == Op::Yield {
                    if shared {
                        crate::threads::unlock_shared();
                        shared = false;
                    }
                    crate::threads::point(4);
                } else if reads_only(st.op) {
                    if !shared {
                        crate::threads::lock_shared();
                        shared = true;
                    }
                    let w: &World<C> = world.get();
                    let Some(s) = w.slots[(st.a[0] % 3) as usize].as_ref() else { continue };
                    let other = w.slots[(st.a[1] % 3) as usize].as_ref();
                    ctx().cur_tag = CUR_TAG;
                    ctx().ev(st.op as u64 + 2000, t as u64);
                    match attempt(st.fault, || read_nested(run.nest, s, other, &st, cursors)) {
                        Out::Ok(()) => {}
                        Out::Injected => agree(&s.c, &s.m, s.tag, "after an interrupted query"),
                        Out::Panicked(p) => violation("panic", format!("{} panicked: {p}", st.op.name())),
                    }
                } else {
                    if shared {
                        crate::threads::unlock_shared();
                        shared = false;
                    }
                    crate::threads::lock_exclusive();
                    world.get().step(&st);
                    crate::threads::unlock_exclusive();
                }
            }
            if shared {
                crate::threads::unlock_shared();
            }
        }));
    }
    let o = crate::threads::run(programs, &run.sched, run.switch, run.stale, run.build == 2);
    ctx().stats.points += o.points;
    ctx().stats.escaped += o.escaped as u64;
    ctx().where_ = "end of run".into();
    ctx().cur_tag = CUR_TAG;
    held.clear();
    w.finish();
}

pub fn execute(run: &Run) {
    ctx::reset(run.gshift, &run.prop);
    if run.byzantine {
        let l = &mut ctx().lie;
        l.mode = run.lie_mode;
        l.rate = run.lie_rate;
        l.epoch = run.seed;
        l.rng = Some(Rng::new(run.seed ^ 0x11E));
    }
    match run.mode.as_str() {
        "threads" => crate::dispatch!(run.kind.as_str(), run_threads, run),
        "oom" => {
            crate::oom::arm(run.seed, run.stale as u64, run.alloc);
            crate::dispatch!(run.kind.as_str(), run_steps, run);
            let (seen, failed) = crate::oom::disarm();
            ctx().stats.allocs += seen;
            ctx().stats.allocs_failed += failed;
        }
        _ => crate::dispatch!(run.kind.as_str(), run_steps, run),
    }
}
