//! Instrumented keys, values, groups and augmentations: every contact the library has with user
//! objects passes here and is checked against the ledger, is a scheduling point, may be lied
//! about and may panic.

use crate::ctx::{callback, ctx, in_lib, violation, Class, Fault};
use crate::rng::mix2;
use crate::threads;
use std::borrow::Borrow;
use std::cmp::Ordering;
use sweep_bptree::augment::group::FromRef;
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};

const PROBE_ID: u32 = u32::MAX;

/// What keys are looked up by
pub struct Probe {
    pub key: u64,
    id: u32,
    magic: u32,
}

impl Probe {
    pub fn new(key: u64) -> Self {
        Probe {
            key,
            id: PROBE_ID,
            magic: 0,
        }
    }
    #[inline]
    fn check(&self, what: &str) {
        if self.id == PROBE_ID && self.magic == 0 {
            return;
        }
        ctx().touch(Class::Key, self.id, self.magic, what);
    }
}

fn lie(honest: Ordering, a: u64, b: u64) -> Ordering {
    let c = ctx();
    if c.lie.mode == 0 {
        return honest;
    }
    let (mode, rate) = (c.lie.mode, c.lie.rate as u64);
    if mode == 2 {
        let epoch = c.stats.compares / (1 + rate);
        let salt = mix2(epoch, c.lie.epoch);
        let r = (a ^ (salt & 0xFF)).cmp(&(b ^ (salt & 0xFF)));
        if r != honest {
            c.stats.lies += 1;
        }
        return r;
    }
    let epoch = c.lie.epoch;
    let rng = c.lie.rng.as_mut().unwrap();
    if !rng.chance(rate, 1024) {
        return honest;
    }
    let r = match mode {
        1 => [Ordering::Less, Ordering::Equal, Ordering::Greater][rng.below(3) as usize],
        3 => honest.reverse(),
        _ => [Ordering::Less, Ordering::Equal, Ordering::Greater][(epoch % 3) as usize],
    };
    if r != honest {
        c.stats.lies += 1;
    }
    r
}

impl Ord for Probe {
    fn cmp(&self, other: &Self) -> Ordering {
        let l = in_lib();
        callback(|| {
            threads::point(1);
            self.check("comparison");
            other.check("comparison");
            let c = ctx();
            c.stats.compares += 1;
            c.ev(self.key, other.key);
            if l {
                c.fault_point(Fault::Cmp);
            }
            lie(self.key.cmp(&other.key), self.key, other.key)
        })
    }
}
impl PartialOrd for Probe {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for Probe {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }
}
impl Eq for Probe {}

/// The simulated key
pub struct SK {
    p: Probe,
}

impl SK {
    pub fn new(key: u64) -> SK {
        let (id, magic) = ctx().create(Class::Key);
        SK {
            p: Probe { key, id, magic },
        }
    }
    /// A key owned by the harness side (cursors), not by a tree
    pub fn new_tagged(key: u64, tag: u16) -> SK {
        let (id, magic) = ctx().create_tagged(Class::Key, tag);
        SK {
            p: Probe { key, id, magic },
        }
    }
    pub fn id(&self) -> u32 {
        self.p.id
    }
    /// Read the key, as a user would
    #[inline]
    pub fn read(&self) -> u64 {
        ctx().touch(Class::Key, self.p.id, self.p.magic, "read of a key");
        self.p.key
    }
    #[inline]
    fn raw(&self) -> u64 {
        ctx().touch(Class::Key, self.p.id, self.p.magic, "key given to a callback");
        self.p.key
    }
}

impl Clone for SK {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            threads::point(2);
            self.p.check("clone");
            let c = ctx();
            if l {
                c.fault_point(Fault::KClone);
            }
            let (id, magic) = c.create(Class::Key);
            SK {
                p: Probe {
                    key: self.p.key,
                    id,
                    magic,
                },
            }
        })
    }
}
impl Drop for SK {
    fn drop(&mut self) {
        callback(|| ctx().release(Class::Key, self.p.id, self.p.magic));
        self.p.magic ^= 0x5555;
    }
}
impl Ord for SK {
    fn cmp(&self, other: &Self) -> Ordering {
        self.p.cmp(&other.p)
    }
}
impl PartialOrd for SK {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for SK {
    fn eq(&self, other: &Self) -> bool {
        self.p.eq(&other.p)
    }
}
impl Eq for SK {}
impl Borrow<Probe> for SK {
    fn borrow(&self) -> &Probe {
        self.p.check("borrow of a key");
        &self.p
    }
}

/// The simulated value
pub struct SV {
    tok: u64,
    id: u32,
    magic: u32,
}
impl SV {
    pub fn new(tok: u64) -> SV {
        let (id, magic) = ctx().create(Class::Value);
        SV { tok, id, magic }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
    #[inline]
    pub fn read(&self) -> u64 {
        ctx().touch(Class::Value, self.id, self.magic, "read of a value");
        self.tok
    }
    pub fn set(&mut self, tok: u64) {
        ctx().touch(Class::Value, self.id, self.magic, "write to a value");
        self.tok = tok;
    }
}
impl Clone for SV {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            threads::point(2);
            let c = ctx();
            c.touch(Class::Value, self.id, self.magic, "clone");
            if l {
                c.fault_point(Fault::VClone);
            }
            let (id, magic) = c.create(Class::Value);
            SV {
                tok: self.tok,
                id,
                magic,
            }
        })
    }
}
impl Drop for SV {
    fn drop(&mut self) {
        let l = in_lib();
        callback(|| {
            let c = ctx();
            c.release(Class::Value, self.id, self.magic);
            self.magic ^= 0x5555;
            if l {
                c.fault_point(Fault::VDrop);
            }
        })
    }
}

/// A value type the library is generic over
pub trait Val: Sized {
    const TRACKED: bool = false;
    fn make(tok: u64) -> Self;
    fn tok(&self) -> u64;
    fn set_tok(&mut self, tok: u64);
}
impl Val for SV {
    const TRACKED: bool = true;
    fn make(tok: u64) -> Self {
        SV::new(tok)
    }
    fn tok(&self) -> u64 {
        self.read()
    }
    fn set_tok(&mut self, tok: u64) {
        self.set(tok)
    }
}
impl Val for () {
    fn make(_: u64) -> Self {}
    fn tok(&self) -> u64 {
        0
    }
    fn set_tok(&mut self, _: u64) {}
}

/// A value without drop glue
pub struct RV {
    tok: u64,
    check: u64,
}
impl RV {
    fn sound(&self) {
        if self.check != mix2(self.tok, 0x5EED) {
            violation(
                "invented-object",
                "the library exposed bytes that are no value (uninitialised or overwritten memory)",
            );
        }
    }
}
impl Clone for RV {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            threads::point(2);
            self.sound();
            if l {
                ctx().fault_point(Fault::VClone);
            }
            RV::make(self.tok)
        })
    }
}
impl Val for RV {
    fn make(tok: u64) -> Self {
        RV {
            tok,
            check: mix2(tok, 0x5EED),
        }
    }
    fn tok(&self) -> u64 {
        self.sound();
        self.tok
    }
    fn set_tok(&mut self, tok: u64) {
        self.sound();
        *self = RV::make(tok);
    }
}

/// A key type the library is generic over
pub trait KeyT: sweep_bptree::Key + Borrow<Self::P> + 'static {
    const TRACKED: bool;
    /// what it is looked up by
    type P: Ord;
    fn with_probe<R>(k: &Probe, f: impl FnOnce(&Self::P) -> R) -> R;
    fn of(k: SK) -> Self;
    /// the same key, by reference
    fn with<R>(k: &SK, f: impl FnOnce(&Self) -> R) -> R;
    fn read(&self) -> u64;
}
impl KeyT for SK {
    const TRACKED: bool = true;
    type P = Probe;
    fn with_probe<R>(k: &Probe, f: impl FnOnce(&Probe) -> R) -> R {
        f(k)
    }
    fn of(k: SK) -> Self {
        k
    }
    fn with<R>(k: &SK, f: impl FnOnce(&Self) -> R) -> R {
        f(k)
    }
    fn read(&self) -> u64 {
        SK::read(self)
    }
}

/// A key without drop glue
pub struct RK {
    p: Probe,
}
impl RK {
    fn new(key: u64) -> RK {
        RK { p: Probe::new(key) }
    }
}
impl KeyT for RK {
    const TRACKED: bool = false;
    type P = Probe;
    fn with_probe<R>(k: &Probe, f: impl FnOnce(&Probe) -> R) -> R {
        f(k)
    }
    fn of(k: SK) -> Self {
        RK::new(k.read())
    }
    fn with<R>(k: &SK, f: impl FnOnce(&Self) -> R) -> R {
        f(&RK::new(k.read()))
    }
    fn read(&self) -> u64 {
        self.p.check("read of a key");
        self.p.key
    }
}
impl Clone for RK {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            threads::point(2);
            self.p.check("clone");
            if l {
                ctx().fault_point(Fault::KClone);
            }
            RK::new(self.p.key)
        })
    }
}
impl Ord for RK {
    fn cmp(&self, other: &Self) -> Ordering {
        self.p.cmp(&other.p)
    }
}
impl PartialOrd for RK {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for RK {
    fn eq(&self, other: &Self) -> bool {
        self.p.eq(&other.p)
    }
}
impl Eq for RK {}
impl Borrow<Probe> for RK {
    fn borrow(&self) -> &Probe {
        self.p.check("borrow of a key");
        &self.p
    }
}

/// A key of four bytes, without drop glue; the low bits tell it from other bytes
pub struct TK(u32);
impl TK {
    fn new(key: u64) -> TK {
        assert!(key < 1 << 22);
        TK((key as u32) << 10 | Self::mark(key as u32))
    }
    fn mark(key: u32) -> u32 {
        key.wrapping_mul(0x9E37_79B1).wrapping_add(0x1234_5678) >> 22
    }
    fn checked(&self) -> u64 {
        if Self::mark(self.0 >> 10) != self.0 & 0x3FF {
            violation(
                "invented-object",
                "the library exposed bytes that are no key (uninitialised or overwritten memory)",
            );
        }
        (self.0 >> 10) as u64
    }
}
impl KeyT for TK {
    const TRACKED: bool = false;
    type P = TK;
    fn with_probe<R>(k: &Probe, f: impl FnOnce(&TK) -> R) -> R {
        f(&TK::new(k.key))
    }
    fn of(k: SK) -> Self {
        TK::new(k.read())
    }
    fn with<R>(k: &SK, f: impl FnOnce(&Self) -> R) -> R {
        f(&TK::new(k.read()))
    }
    fn read(&self) -> u64 {
        self.checked()
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            threads::point(2);
            let k = self.checked();
            if l {
                ctx().fault_point(Fault::KClone);
            }
            TK::new(k)
        })
    }
}
impl Ord for TK {
    fn cmp(&self, other: &Self) -> Ordering {
        let l = in_lib();
        callback(|| {
            threads::point(1);
            let (a, b) = (self.checked(), other.checked());
            let c = ctx();
            c.stats.compares += 1;
            c.ev(a, b);
            if l {
                c.fault_point(Fault::Cmp);
            }
            lie(a.cmp(&b), a, b)
        })
    }
}
impl PartialOrd for TK {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for TK {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }
}
impl Eq for TK {}

/// A large value with a large alignment
#[repr(align(32))]
pub struct BV {
    pad: [u64; 13],
    v: SV,
}
impl BV {
    fn fill(tok: u64) -> [u64; 13] {
        std::array::from_fn(|i| mix2(tok, i as u64))
    }
}
impl Clone for BV {
    fn clone(&self) -> Self {
        let v = self.v.clone();
        BV { pad: self.pad, v }
    }
}
impl Val for BV {
    const TRACKED: bool = true;
    fn make(tok: u64) -> Self {
        BV {
            pad: Self::fill(tok),
            v: SV::new(tok),
        }
    }
    fn tok(&self) -> u64 {
        if self as *const Self as usize % 32 != 0 {
            violation("invented-object", "the library exposed a misaligned value");
        }
        let t = self.v.read();
        if self.pad != Self::fill(t) {
            violation("invented-object", "the library exposed a value whose bytes are not its own");
        }
        t
    }
    fn set_tok(&mut self, tok: u64) {
        self.v.set(tok);
        self.pad = Self::fill(tok);
    }
}

/// Group of a key, for `GroupCount`
pub struct SG {
    g: u64,
    id: u32,
    magic: u32,
}
impl SG {
    pub fn new(g: u64) -> SG {
        let (id, magic) = ctx().create(Class::Group);
        SG { g, id, magic }
    }
    pub fn new_tagged(g: u64, tag: u16) -> SG {
        let (id, magic) = ctx().create_tagged(Class::Group, tag);
        SG { g, id, magic }
    }
    pub fn read(&self) -> u64 {
        ctx().touch(Class::Group, self.id, self.magic, "read of a group");
        self.g
    }
}
impl Clone for SG {
    fn clone(&self) -> Self {
        callback(|| {
            ctx().touch(Class::Group, self.id, self.magic, "clone");
            SG::new(self.g)
        })
    }
}
impl Drop for SG {
    fn drop(&mut self) {
        callback(|| ctx().release(Class::Group, self.id, self.magic));
        self.magic ^= 0x5555;
    }
}
impl Ord for SG {
    fn cmp(&self, other: &Self) -> Ordering {
        let l = in_lib();
        callback(|| {
            threads::point(1);
            let c = ctx();
            c.touch(Class::Group, self.id, self.magic, "comparison");
            c.touch(Class::Group, other.id, other.magic, "comparison");
            if l {
                // armed during read-only queries only
                c.fault_point(Fault::Callback);
            }
            self.g.cmp(&other.g)
        })
    }
}
impl PartialOrd for SG {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl PartialEq for SG {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }
}
impl Eq for SG {}
impl std::fmt::Debug for SG {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SG({})", self.g)
    }
}
impl FromRef<SK> for SG {
    fn from_ref(k: &SK) -> Self {
        callback(|| SG::new(k.raw() >> ctx().gshift))
    }
}

pub const P: u64 = 0x0000_0100_0000_01B3 | 1;

#[inline]
pub fn elem_k(key: u64) -> u64 {
    mix2(key, 1) | 1
}
#[inline]
pub fn elem_kv(key: u64, tok: u64) -> u64 {
    mix2(key, tok)
}
#[inline]
pub fn pow(mut n: u64) -> u64 {
    let (mut r, mut b) = (1u64, P);
    while n > 0 {
        if n & 1 == 1 {
            r = r.wrapping_mul(b);
        }
        b = b.wrapping_mul(b);
        n >>= 1;
    }
    r
}

/// Plain summary of a sequence of entries: non-commutative hashes, so order matters.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Sum {
    pub cnt: u64,
    pub hk: u64,
    pub hkv: u64,
    /// largest key + 1
    pub max1: u64,
}
impl Sum {
    #[inline]
    pub fn of(key: u64, tok: u64) -> Sum {
        Sum {
            cnt: 1,
            hk: elem_k(key),
            hkv: elem_kv(key, tok),
            max1: key + 1,
        }
    }
    #[inline]
    pub fn then(self, r: Sum) -> Sum {
        if self.cnt == 0 {
            return r;
        }
        if r.cnt == 0 {
            return self;
        }
        let p = pow(r.cnt);
        Sum {
            cnt: self.cnt + r.cnt,
            hk: self.hk.wrapping_mul(p).wrapping_add(r.hk),
            hkv: self.hkv.wrapping_mul(p).wrapping_add(r.hkv),
            max1: r.max1,
        }
    }
    #[inline]
    pub fn push(&mut self, key: u64, tok: u64) {
        self.cnt += 1;
        self.hk = self.hk.wrapping_mul(P).wrapping_add(elem_k(key));
        self.hkv = self.hkv.wrapping_mul(P).wrapping_add(elem_kv(key, tok));
        self.max1 = key + 1;
    }
}

/// User augmentation that depends on keys, values and order, and owns a resource
pub struct OHash {
    s: Sum,
    id: u32,
    magic: u32,
}
impl OHash {
    fn from_sum(s: Sum) -> Self {
        let (id, magic) = ctx().create(Class::Aug);
        OHash { s, id, magic }
    }
    pub fn read(&self) -> Sum {
        ctx().touch(Class::Aug, self.id, self.magic, "read of an augmentation");
        self.s
    }
}
impl Clone for OHash {
    fn clone(&self) -> Self {
        let l = in_lib();
        callback(|| {
            let c = ctx();
            c.touch(Class::Aug, self.id, self.magic, "clone");
            if l {
                c.fault_point(Fault::AClone);
            }
            OHash::from_sum(self.s)
        })
    }
}
impl Default for OHash {
    fn default() -> Self {
        callback(|| OHash::from_sum(Sum::default()))
    }
}
impl Drop for OHash {
    fn drop(&mut self) {
        callback(|| ctx().release(Class::Aug, self.id, self.magic));
        self.magic ^= 0x5555;
    }
}

impl<K: KeyT, V: Val> Augmentation<K, V> for OHash {
    fn from_inner(_keys: &[K], augmentations: &[Self]) -> Self {
        callback(|| {
            let mut s = Sum::default();
            for a in augmentations {
                s = s.then(a.read());
            }
            OHash::from_sum(s)
        })
    }
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        callback(|| {
            if keys.len() != values.len() {
                violation(
                    "augmentation-input",
                    format!("{} keys with {} values", keys.len(), values.len()),
                );
            }
            let mut s = Sum::default();
            for (k, v) in keys.iter().zip(values) {
                s.push(k.read(), v.tok());
            }
            OHash::from_sum(s)
        })
    }
}

/// How a query or visitor answers at a given depth (0 = first node asked)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Behave {
    Honest,
    /// answer this position at this depth, whatever the node looks like; bool: on leaf too
    Bad { depth: u32, pos: usize },
    /// visitor only: stop at this depth
    Cancel { depth: u32 },
    Complete { depth: u32 },
}

#[derive(Clone, Copy, Debug)]
pub enum Goal {
    /// n-th entry in order
    Nth(u64),
    /// first entry with key >= k
    Lower(u64),
}

#[derive(Clone, Copy, Debug)]
pub struct Query {
    pub goal: Goal,
    pub behave: Behave,
    pub depth: u32,
}

impl Query {
    fn bad(&self) -> Option<usize> {
        match self.behave {
            Behave::Bad { depth, pos } if depth == self.depth => {
                ctx().stats.bad_positions += 1;
                Some(pos)
            }
            _ => None,
        }
    }
    fn in_children(&mut self, n: usize, sum: impl Fn(usize) -> Sum) -> Option<usize> {
        match &mut self.goal {
            Goal::Nth(i) => {
                for c in 0..n {
                    let s = sum(c);
                    if *i < s.cnt {
                        return Some(c);
                    }
                    *i -= s.cnt;
                }
                None
            }
            Goal::Lower(k) => (0..n).find(|c| sum(*c).max1 > *k),
        }
    }
    fn in_leaf<K: KeyT>(&self, keys: &[K]) -> Option<usize> {
        match self.goal {
            Goal::Nth(i) => (i < keys.len() as u64).then_some(i as usize),
            Goal::Lower(k) => keys.iter().position(|x| x.read() >= k),
        }
    }
}

fn cb_point(l: bool) {
    threads::point(3);
    if l {
        ctx().fault_point(Fault::Callback);
    }
}

impl<K: KeyT, V: Val> SearchAugmentation<K, V> for OHash {
    type Query = Query;

    fn locate_in_leaf(query: Query, keys: &[K], values: &[V]) -> Option<usize> {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            if let Some(p) = query.bad() {
                return Some(p);
            }
            for v in values {
                v.tok();
            }
            query.in_leaf(keys)
        })
    }

    fn locate_in_inner(mut query: Query, keys: &[K], augs: &[Self]) -> Option<(usize, Query)> {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            for k in keys {
                k.read();
            }
            if let Some(p) = query.bad() {
                query.depth += 1;
                return Some((p, query));
            }
            let c = query.in_children(augs.len(), |i| augs[i].read())?;
            query.depth += 1;
            Some((c, query))
        })
    }
}

impl<K: KeyT, V: Val> RankAugmentation<K, V> for OHash {
    type Rank = Sum;

    fn initial_value() -> Sum {
        Sum::default()
    }
    fn fold_inner(_k: &K, rank: Sum, augs: &[Self]) -> Sum {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            // ranks arrive root first: everything left of the path so far comes first
            let mut s = rank;
            for a in augs {
                s = s.then(a.read());
            }
            s
        })
    }
    fn fold_leaf(
        _k: &K,
        rank: Sum,
        slot: Result<usize, usize>,
        keys: &[K],
    ) -> Result<Sum, Sum> {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            // values are not given here: only cnt and hk are meaningful
            let mut s = rank;
            s.hkv = 0;
            let n = match slot {
                Ok(i) => i,
                Err(i) => i,
            };
            for k in &keys[..n] {
                s.push(k.read(), 0);
            }
            s.hkv = 0;
            slot.map(|_| s).map_err(|_| s)
        })
    }
}

/// Visitor that walks to a goal, or misbehaves
pub struct Visitor {
    pub q: Query,
}

pub trait Counted {
    fn sum(&self) -> Sum;
    const ORDERED: bool;
}
impl Counted for OHash {
    fn sum(&self) -> Sum {
        self.read()
    }
    const ORDERED: bool = true;
}
impl Counted for sweep_bptree::augment::count::Count {
    fn sum(&self) -> Sum {
        Sum {
            cnt: self.count() as u64,
            ..Default::default()
        }
    }
    const ORDERED: bool = false;
}
impl Counted for () {
    fn sum(&self) -> Sum {
        Sum::default()
    }
    const ORDERED: bool = false;
}

/// (key, token) found, or the marker of a completed visit
pub type VisitOut = Option<(u64, u64)>;

impl<K: KeyT, V: Val, A: Counted> DescendVisit<K, V, A> for Visitor {
    type Result = VisitOut;

    fn visit_inner(&mut self, keys: &[K], augs: &[A]) -> DescendVisitResult<VisitOut> {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            for k in keys {
                k.read();
            }
            let d = self.q.depth;
            if let Some(p) = self.q.bad() {
                self.q.depth += 1;
                return DescendVisitResult::GoDown(p);
            }
            match self.q.behave {
                Behave::Cancel { depth } if depth == d => return DescendVisitResult::Cancel,
                Behave::Complete { depth } if depth == d => {
                    return DescendVisitResult::Complete(Some((u64::MAX, u64::MAX)))
                }
                _ => {}
            }
            let child = match self.q.goal {
                // plain trees: navigate by separator keys
                Goal::Lower(k) if !A::ORDERED => Some(keys.iter().take_while(|x| x.read() <= k).count()),
                _ => self.q.in_children(augs.len(), |i| augs[i].sum()),
            };
            self.q.depth += 1;
            match child {
                Some(c) => DescendVisitResult::GoDown(c),
                None => DescendVisitResult::Complete(None),
            }
        })
    }

    fn visit_leaf(&mut self, keys: &[K], values: &[V]) -> Option<VisitOut> {
        let l = in_lib();
        callback(|| {
            cb_point(l);
            if keys.len() != values.len() {
                violation(
                    "visitor-input",
                    format!("{} keys with {} values", keys.len(), values.len()),
                );
            }
            let d = self.q.depth;
            match self.q.behave {
                Behave::Cancel { depth } if depth == d => return None,
                _ => {}
            }
            Some(
                self.q
                    .in_leaf(keys)
                    .map(|i| (keys[i].read(), values[i].tok())),
            )
        })
    }
}
