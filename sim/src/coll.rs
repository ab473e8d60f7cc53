//! One interface over every public collection of the library. All calls into the library are here.

use crate::ctx::{callback, ctx, in_lib, lib, Fault};
use crate::types::*;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, GroupCount};
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

pub type KV = (u64, u64);
pub type Cur = Cursor<SK>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AugKind {
    Plain,
    Count,
    Group,
    Hash,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AugView {
    Plain,
    Count(u64),
    Group(u64, Option<(u64, u64)>),
    Hash(Sum),
}

#[derive(Clone, Copy, Debug)]
pub enum AugQ {
    Nth(u64),
    Group(u64, u64),
    Hash(Query),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rank {
    Count(u64),
    Group(Option<(u64, u64)>),
    Hash(Sum),
}

/// A two-ended iterator under test; every call goes through `lib`
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Found {
    Item(Option<KV>),
    At(Option<usize>),
    Flag(bool),
}

pub trait PairIter {
    fn next(&mut self) -> Option<KV>;
    fn next_back(&mut self) -> Option<KV>;
    fn nth(&mut self, n: usize) -> Option<KV>;
    fn nth_back(&mut self, n: usize) -> Option<KV>;
    fn hint(&self) -> (usize, Option<usize>, usize);
    fn fork<'b>(&self) -> Option<Box<dyn PairIter + 'b>>
    where
        Self: 'b;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<KV>;
    /// everything left, by internal iteration
    fn all(self: Box<Self>, how: u64) -> Vec<KV>;
    /// internal iteration that stops at the n-th element (from 0) of those left; `how` picks the adapter. What it
    /// reports is the element or, for the adapters that do not hand it out, its number
    fn until(&mut self, how: u64, n: usize) -> Found;
    /// min or max, where the items have an order of their own
    fn extreme(self: Box<Self>, max: bool) -> Option<Option<KV>>;
    /// forget instead of drop: not used, the drop glue is under test
    fn release(self: Box<Self>);
}

struct Wrap<I, T, const FORK: bool>
where
    I: Iterator<Item = T>,
{
    i: Option<I>,
    f: fn(T) -> KV,
    fork: fn(&I) -> Option<I>,
    extreme: Option<[fn(I) -> Option<T>; 2]>,
}

impl<I, T, const FORK: bool> Wrap<I, T, FORK>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    fn it(&mut self) -> &mut I {
        self.i.as_mut().unwrap()
    }
}

impl<I, T, const FORK: bool> PairIter for Wrap<I, T, FORK>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
{
    fn next(&mut self) -> Option<KV> {
        let r = lib(|| self.it().next());
        r.map(self.f)
    }
    fn next_back(&mut self) -> Option<KV> {
        let r = lib(|| self.it().next_back());
        r.map(self.f)
    }
    fn nth(&mut self, n: usize) -> Option<KV> {
        let r = lib(|| self.it().nth(n));
        r.map(self.f)
    }
    fn nth_back(&mut self, n: usize) -> Option<KV> {
        let r = lib(|| self.it().nth_back(n));
        r.map(self.f)
    }
    fn hint(&self) -> (usize, Option<usize>, usize) {
        let i = self.i.as_ref().unwrap();
        let (a, b) = lib(|| i.size_hint());
        (a, b, lib(|| i.len()))
    }
    fn fork<'b>(&self) -> Option<Box<dyn PairIter + 'b>>
    where
        Self: 'b,
    {
        let n = lib(|| (self.fork)(self.i.as_ref().unwrap()))?;
        Some(Box::new(Wrap::<I, T, FORK> {
            i: Some(n),
            f: self.f,
            fork: self.fork,
            extreme: self.extreme,
        }))
    }
    fn count(mut self: Box<Self>) -> usize {
        let i = self.i.take().unwrap();
        lib(|| i.count())
    }
    fn last(mut self: Box<Self>) -> Option<KV> {
        let i = self.i.take().unwrap();
        let r = lib(|| i.last());
        r.map(self.f)
    }
    fn all(mut self: Box<Self>, how: u64) -> Vec<KV> {
        let i = self.i.take().unwrap();
        let f = self.f;
        let take = |mut v: Vec<KV>, x: T| {
            callback(|| {
                crate::threads::point(3);
                v.push(f(x))
            });
            v
        };
        let v = std::cell::RefCell::new(vec![]);
        let add = |x: T| {
            callback(|| {
                crate::threads::point(3);
                v.borrow_mut().push(f(x))
            });
        };
        lib(|| match how {
            0 => i.fold(vec![], take),
            1 => i.rfold(vec![], take),
            2 => {
                i.for_each(add);
                v.take()
            }
            3 => {
                i.rev().for_each(add);
                v.take()
            }
            4 => i.map(|x| callback(|| f(x))).collect(),
            _ => {
                let c: Vec<T> = i.rev().collect();
                callback(|| c.into_iter().map(f).collect())
            }
        })
    }
    fn until(&mut self, how: u64, n: usize) -> Found {
        let f = self.f;
        let mut c = 0;
        let mut hit = || {
            callback(|| {
                crate::threads::point(3);
                c += 1;
                c > n
            })
        };
        let i = self.i.as_mut().unwrap();
        let mut item = None;
        let r = lib(|| match how {
            0 => {
                item = i.find(|_| hit());
                Found::Item(None)
            }
            1 => {
                item = i.rfind(|_| hit());
                Found::Item(None)
            }
            2 => Found::At(i.position(|_| hit())),
            3 => Found::At(i.rposition(|_| hit())),
            4 => Found::Flag(i.any(|_| hit())),
            _ => Found::Flag(!i.rev().all(|_| !hit())),
        });
        match r {
            Found::Item(_) => Found::Item(item.map(f)),
            r => r,
        }
    }
    fn extreme(mut self: Box<Self>, max: bool) -> Option<Option<KV>> {
        let i = self.i.take().unwrap();
        let g = self.extreme?[max as usize];
        let r = lib(|| g(i));
        Some(r.map(self.f))
    }
    fn release(mut self: Box<Self>) {
        let i = self.i.take();
        lib(|| drop(i))
    }
}

/// `release` is the normal way out; this keeps fault points attributed to the library otherwise too
impl<I, T, const FORK: bool> Drop for Wrap<I, T, FORK>
where
    I: Iterator<Item = T>,
{
    fn drop(&mut self) {
        let i = self.i.take();
        lib(|| drop(i))
    }
}

fn wrap<'a, I, T>(i: I, f: fn(T) -> KV) -> Box<dyn PairIter + 'a>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + 'a,
    T: 'a,
{
    Box::new(Wrap::<I, T, false> {
        i: Some(i),
        f,
        fork: |_| None,
        extreme: None,
    })
}

/// the same, of items that have an order
fn wrap_ord<'a, I, T>(i: I, f: fn(T) -> KV) -> Box<dyn PairIter + 'a>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + 'a,
    T: Ord + 'a,
{
    Box::new(Wrap::<I, T, false> {
        i: Some(i),
        f,
        fork: |_| None,
        extreme: Some([|i| i.min(), |i| i.max()]),
    })
}

fn wrap_fork_ord<'a, I, T>(i: I, f: fn(T) -> KV) -> Box<dyn PairIter + 'a>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone + 'a,
    T: Ord + 'a,
{
    Box::new(Wrap::<I, T, true> {
        i: Some(i),
        f,
        fork: |i| Some(i.clone()),
        extreme: Some([|i| i.min(), |i| i.max()]),
    })
}

fn wrap_fork<'a, I, T>(i: I, f: fn(T) -> KV) -> Box<dyn PairIter + 'a>
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator + Clone + 'a,
    T: 'a,
{
    Box::new(Wrap::<I, T, true> {
        i: Some(i),
        f,
        fork: |i| Some(i.clone()),
        extreme: None,
    })
}

/// A set-union iterator under test
pub trait UIter {
    fn next(&mut self) -> Option<u64>;
    fn nth(&mut self, n: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn fork<'b>(&self) -> Box<dyn UIter + 'b>
    where
        Self: 'b;
    /// consuming ends of an iterator; which: 0 count, 1 min, 2 last, 3 max
    fn finish(self: Box<Self>, which: u64) -> Option<u64>;
    /// everything left, by internal iteration
    fn all(self: Box<Self>) -> Vec<u64>;
    fn release(self: Box<Self>);
}

struct UWrap<I>(I);
impl<'a, I: Iterator<Item = &'a SK> + Clone> UIter for UWrap<I> {
    fn next(&mut self) -> Option<u64> {
        let r = lib(|| self.0.next());
        r.map(|k| k.read())
    }
    fn nth(&mut self, n: usize) -> Option<u64> {
        let r = lib(|| self.0.nth(n));
        r.map(|k| k.read())
    }
    fn hint(&self) -> (usize, Option<usize>) {
        lib(|| self.0.size_hint())
    }
    fn fork<'b>(&self) -> Box<dyn UIter + 'b>
    where
        Self: 'b,
    {
        Box::new(UWrap(lib(|| self.0.clone())))
    }
    fn finish(self: Box<Self>, which: u64) -> Option<u64> {
        let i = self.0;
        if which == 0 {
            return Some(lib(|| i.count()) as u64);
        }
        let r = lib(|| match which {
            1 => i.min(),
            2 => i.last(),
            _ => i.max(),
        });
        r.map(|k| k.read())
    }
    fn all(self: Box<Self>) -> Vec<u64> {
        let i = self.0;
        lib(|| {
            i.fold(vec![], |mut v, k| {
                callback(|| v.push(k.read()));
                v
            })
        })
    }
    fn release(self: Box<Self>) {
        let i = self.0;
        lib(|| drop(i))
    }
}

/// Items handed to bulk construction, created as the library pulls them
pub struct Source {
    pub items: std::vec::IntoIter<KV>,
    pub hint: u8,
}

impl Source {
    fn pull<V: Val>(&mut self) -> Option<(SK, V)> {
        let l = in_lib();
        callback(|| {
            if l {
                let before = ctx().fired;
                let _ = before;
                ctx().fault_point(Fault::Source);
            }
            let (k, t) = self.items.next()?;
            Some((SK::new(k), V::make(t)))
        })
    }
    fn hint_(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint % 8 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n + 777, None),
            3 => (n / 2, Some(n / 2)),
            4 => (0, Some(0)),
            5 => (0, Some(usize::MAX)),
            6 => (n.saturating_sub(1), Some(n.saturating_sub(1))),
            _ => (n + 1, Some(n + 1)),
        }
    }
}

struct KvSource<K, V>(Source, std::marker::PhantomData<(K, V)>);
impl<K: KeyT, V: Val> Iterator for KvSource<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.pull().map(|(k, v)| (callback(|| K::of(k)), v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint_()
    }
}
struct KSource(Source);
impl Iterator for KSource {
    type Item = SK;
    fn next(&mut self) -> Option<SK> {
        self.0.pull::<()>().map(|x| x.0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint_()
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Reach {
    pub leaf_rotate: u64,
    pub leaf_merge: u64,
    pub inner_rotate: u64,
    pub inner_merge: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Next,
    Prev,
    NextV,
    PrevV,
}

pub trait Coll: Sized + 'static {
    const NAME: &'static str;
    const IS_TREE: bool = false;
    const IS_SET: bool = false;
    const AUG: AugKind;
    /// cursors are under test
    const CURSORS: bool = Self::IS_TREE && Self::KEYS_TRACKED;
    /// keys are in the ledger
    const KEYS_TRACKED: bool = true;
    /// bytes of one key and of one key-value pair
    const KEY: usize;
    const ENTRY: usize;
    type V: Val;

    fn make() -> Self;
    fn insert(&mut self, k: SK, v: Self::V) -> Option<u64>;
    fn remove(&mut self, k: &Probe) -> Option<u64>;
    fn remove_sk(&mut self, k: &SK) -> Option<u64>;
    fn get(&self, k: &Probe) -> Option<u64>;
    fn get_sk(&self, k: &SK) -> Option<u64>;
    fn get_mut(&mut self, k: &Probe, new: Option<u64>) -> Option<u64>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn ends(&self) -> Option<(Option<KV>, Option<KV>)> {
        None
    }
    fn iter<'a>(&'a self) -> Box<dyn PairIter + 'a>;
    fn consume(self) -> Result<Box<dyn PairIter>, Self> {
        Err(self)
    }
    fn clear(&mut self) -> bool {
        false
    }
    fn try_clone(&self) -> Option<Self> {
        None
    }
    /// become a clone of another collection
    fn assign(&mut self, _o: &Self) {}
    fn bulk(src: Source) -> Self;
    fn release(self) {
        lib(|| drop(self))
    }
    fn union_all(&self, _o: &Self) -> Option<Vec<u64>> {
        None
    }
    fn union_iter<'a>(&'a self, _o: &'a Self) -> Option<Box<dyn UIter + 'a>> {
        None
    }
    fn reach(&self) -> Reach {
        Reach::default()
    }
    fn is_sync_send() -> (bool, bool);

    // cursors (trees only)
    fn cur_first(&self) -> Option<(Cur, u64)> {
        None
    }
    fn cur_first_plain(&self) -> Option<Cur> {
        None
    }
    fn cur_last(&self) -> Option<(Cur, u64)> {
        None
    }
    fn cur_get(&self, _k: &SK) -> Option<(Cur, Option<u64>)> {
        None
    }
    fn cur_move(&self, _c: &Cur, _d: Dir) -> Option<(Cur, Option<u64>)> {
        None
    }
    fn cur_value(&self, _c: &Cur) -> Option<u64> {
        None
    }
    fn cur_exists(&self, _c: &Cur) -> bool {
        false
    }

    // augmentations
    fn aug_view(&self) -> AugView {
        AugView::Plain
    }
    fn aug_get(&self, _q: AugQ) -> Option<KV> {
        None
    }
    fn aug_mut(&mut self, _q: AugQ, _new: Option<u64>) -> Option<u64> {
        None
    }
    fn aug_remove(&mut self, _q: AugQ) -> Option<KV> {
        None
    }
    fn aug_rank(&self, _k: &SK) -> Option<Result<Rank, Rank>> {
        None
    }
    fn group_size(&self, _g: u64) -> Option<u64> {
        None
    }
    fn visit(&self, _v: Visitor) -> Option<Option<VisitOut>> {
        None
    }
}

fn kv_ref<K: KeyT, V: Val>((k, v): (&K, &V)) -> KV {
    (k.read(), v.tok())
}
fn kv_own<K: KeyT, V: Val>((k, v): (K, V)) -> KV {
    (k.read(), v.tok())
}
fn k_ref(k: &SK) -> KV {
    (k.read(), 0)
}
fn k_own(k: SK) -> KV {
    (k.read(), 0)
}

fn swap_tok<V: Val>(v: &mut V, new: Option<u64>) -> u64 {
    let old = v.tok();
    if let Some(t) = new {
        v.set_tok(t);
    }
    old
}

/// Sync/Send detection without requiring either
macro_rules! auto_traits {
    ($t: ty) => {{
        struct D<T>(std::marker::PhantomData<T>);
        trait No {
            fn sync(&self) -> bool {
                false
            }
        }
        impl<T> No for &D<T> {}
        impl<T: Sync> D<T> {
            fn sync(&self) -> bool {
                true
            }
        }
        struct E<T>(std::marker::PhantomData<T>);
        trait No2 {
            fn send(&self) -> bool {
                false
            }
        }
        impl<T> No2 for &E<T> {}
        impl<T: Send> E<T> {
            fn send(&self) -> bool {
                true
            }
        }
        (
            (&D::<$t>(std::marker::PhantomData)).sync(),
            (&E::<$t>(std::marker::PhantomData)).send(),
        )
    }};
}

macro_rules! common {
    ($t: ty, $k: ty, $v: ty) => {
        type V = $v;
        const KEYS_TRACKED: bool = <$k as KeyT>::TRACKED;
        const KEY: usize = std::mem::size_of::<$k>();
        const ENTRY: usize = std::mem::size_of::<($k, $v)>();
        fn insert(&mut self, k: SK, v: $v) -> Option<u64> {
            let k = <$k>::of(k);
            let r = lib(|| self.0.insert(k, v));
            r.map(|v| v.tok())
        }
        fn remove(&mut self, k: &Probe) -> Option<u64> {
            let r = <$k>::with_probe(k, |k| lib(|| self.0.remove(k)));
            r.map(|v| v.tok())
        }
        fn remove_sk(&mut self, k: &SK) -> Option<u64> {
            let r = <$k>::with(k, |k| lib(|| self.0.remove(k)));
            r.map(|v| v.tok())
        }
        fn get(&self, k: &Probe) -> Option<u64> {
            <$k>::with_probe(k, |k| lib(|| self.0.get(k)).map(|v| v.tok()))
        }
        fn get_sk(&self, k: &SK) -> Option<u64> {
            <$k>::with(k, |k| lib(|| self.0.get(k)).map(|v| v.tok()))
        }
        fn get_mut(&mut self, k: &Probe, new: Option<u64>) -> Option<u64> {
            <$k>::with_probe(k, |k| lib(|| self.0.get_mut(k)).map(|v| swap_tok(v, new)))
        }
        fn len(&self) -> usize {
            lib(|| self.0.len())
        }
        fn is_empty(&self) -> bool {
            lib(|| self.0.is_empty())
        }
        fn is_sync_send() -> (bool, bool) {
            auto_traits!($t)
        }
    };
}

macro_rules! tree_part {
    ($t: ty, $k: ty, $v: ty) => {
        const IS_TREE: bool = true;
        fn make() -> Self {
            let n = ctx().next_id() as usize;
            Self(lib(|| {
                <$t>::new(match n % 4 {
                    0 => NodeStoreVec::with_capacity(n % 97),
                    1 => NodeStoreVec::default(),
                    _ => NodeStoreVec::new(),
                })
            }))
        }
        common!($t, $k, $v);
        fn ends(&self) -> Option<(Option<KV>, Option<KV>)> {
            Some((
                lib(|| self.0.first()).map(kv_ref),
                lib(|| self.0.last()).map(kv_ref),
            ))
        }
        fn iter<'a>(&'a self) -> Box<dyn PairIter + 'a> {
            wrap_fork(lib(|| self.0.iter()), kv_ref)
        }
        fn consume(self) -> Result<Box<dyn PairIter>, Self> {
            let t = self.0;
            Ok(wrap(lib(|| t.into_iter()), kv_own))
        }
        fn clear(&mut self) -> bool {
            lib(|| self.0.clear());
            true
        }
        fn try_clone(&self) -> Option<Self> {
            Some(Self(lib(|| self.0.clone())))
        }
        fn assign(&mut self, o: &Self) {
            lib(|| self.0.clone_from(&o.0))
        }
        fn bulk(src: Source) -> Self {
            // bulk_load wants sorted data; the stable sort keeps the last of equal keys last
            let mut items: Vec<KV> = src.items.collect();
            items.sort_by_key(|x| x.0);
            let data: Vec<($k, $v)> = items
                .into_iter()
                .map(|(k, t)| (<$k>::of(SK::new(k)), <$v>::make(t)))
                .collect();
            Self(lib(|| <$t>::bulk_load(data)))
        }
        fn reach(&self) -> Reach {
            let s = self.0.statistic();
            Reach {
                leaf_rotate: s.rotate_left_leaf + s.rotate_right_leaf,
                leaf_merge: s.merge_with_left_leaf + s.merge_with_right_leaf,
                inner_rotate: s.rotate_left_inner + s.rotate_right_inner,
                inner_merge: s.merge_with_left_inner + s.merge_with_right_inner,
            }
        }
    };
}

macro_rules! cursor_part {
    (SK) => {
        fn cur_first(&self) -> Option<(Cur, u64)> {
            lib(|| Cursor::first(&self.0)).map(|(c, v)| (c, v.tok()))
        }
        fn cur_first_plain(&self) -> Option<Cur> {
            lib(|| self.0.cursor_first())
        }
        fn cur_last(&self) -> Option<(Cur, u64)> {
            lib(|| Cursor::last(&self.0)).map(|(c, v)| (c, v.tok()))
        }
        fn cur_get(&self, k: &SK) -> Option<(Cur, Option<u64>)> {
            lib(|| self.0.get_cursor(k)).map(|(c, v)| (c, v.map(|v| v.tok())))
        }
        fn cur_move(&self, c: &Cur, d: Dir) -> Option<(Cur, Option<u64>)> {
            match d {
                Dir::Next => lib(|| c.next(&self.0)).map(|c| (c, None)),
                Dir::Prev => lib(|| c.prev(&self.0)).map(|c| (c, None)),
                Dir::NextV => {
                    lib(|| c.next_with_value(&self.0)).map(|(c, v)| (c, Some(v.tok())))
                }
                Dir::PrevV => {
                    lib(|| c.prev_with_value(&self.0)).map(|(c, v)| (c, Some(v.tok())))
                }
            }
        }
        fn cur_value(&self, c: &Cur) -> Option<u64> {
            lib(|| c.value(&self.0)).map(|v| v.tok())
        }
        fn cur_exists(&self, c: &Cur) -> bool {
            lib(|| c.exists(&self.0))
        }
    };
    ($k: ident) => {};
}

macro_rules! map_part {
    ($t: ty, $k: ty, $v: ty) => {
        fn make() -> Self {
            let n = ctx().next_id();
            Self(lib(|| if n % 3 == 0 { <$t>::default() } else { <$t>::new() }))
        }
        common!($t, $k, $v);
        fn iter<'a>(&'a self) -> Box<dyn PairIter + 'a> {
            wrap(lib(|| self.0.iter()), kv_ref)
        }
        fn bulk(src: Source) -> Self {
            Self(lib(|| {
                <$t>::from_iter(KvSource::<$k, $v>(src, std::marker::PhantomData))
            }))
        }
    };
}

macro_rules! aug_part {
    (plain, $t: ty, $k: ty) => {
        const AUG: AugKind = AugKind::Plain;
        fn visit(&self, v: Visitor) -> Option<Option<VisitOut>> {
            Some(lib(|| self.0.descend_visit(v)))
        }
    };
    (count, $t: ty, $k: ty) => {
        const AUG: AugKind = AugKind::Count;
        fn aug_view(&self) -> AugView {
            AugView::Count(lib(|| self.0.root_augmentation()).count() as u64)
        }
        fn aug_get(&self, q: AugQ) -> Option<KV> {
            let AugQ::Nth(n) = q else { unreachable!() };
            lib(|| self.0.get_by_augmentation(n as usize)).map(kv_ref)
        }
        fn aug_mut(&mut self, q: AugQ, new: Option<u64>) -> Option<u64> {
            let AugQ::Nth(n) = q else { unreachable!() };
            lib(|| self.0.get_mut_by_augmentation(n as usize)).map(|v| swap_tok(v, new))
        }
        fn aug_remove(&mut self, q: AugQ) -> Option<KV> {
            let AugQ::Nth(n) = q else { unreachable!() };
            let r = lib(|| self.0.remove_by_augmentation(n as usize));
            r.map(kv_own)
        }
        fn aug_rank(&self, k: &SK) -> Option<Result<Rank, Rank>> {
            Some(
                <$k>::with(k, |k| lib(|| self.0.rank_by_augmentation(k)))
                    .map(|n| Rank::Count(n as u64))
                    .map_err(|n| Rank::Count(n as u64)),
            )
        }
        fn visit(&self, v: Visitor) -> Option<Option<VisitOut>> {
            Some(lib(|| self.0.descend_visit(v)))
        }
    };
    (group, $t: ty, $k: ty) => {
        const AUG: AugKind = AugKind::Group;
        fn aug_view(&self) -> AugView {
            let a = lib(|| self.0.root_augmentation());
            AugView::Group(
                lib(|| a.group_count()) as u64,
                lib(|| a.max_group()).map(|(g, n)| (g.read(), n as u64)),
            )
        }
        fn aug_get(&self, q: AugQ) -> Option<KV> {
            let AugQ::Group(g, n) = q else { unreachable!() };
            let g = SG::new(g);
            lib(|| self.0.get_by_augmentation((g, n as usize))).map(kv_ref)
        }
        fn aug_mut(&mut self, q: AugQ, new: Option<u64>) -> Option<u64> {
            let AugQ::Group(g, n) = q else { unreachable!() };
            let g = SG::new(g);
            lib(|| self.0.get_mut_by_augmentation((g, n as usize))).map(|v| swap_tok(v, new))
        }
        fn aug_remove(&mut self, q: AugQ) -> Option<KV> {
            let AugQ::Group(g, n) = q else { unreachable!() };
            let g = SG::new(g);
            let r = lib(|| self.0.remove_by_augmentation((g, n as usize)));
            r.map(kv_own)
        }
        fn aug_rank(&self, k: &SK) -> Option<Result<Rank, Rank>> {
            fn conv(r: Option<(SG, usize)>) -> Rank {
                Rank::Group(r.map(|(g, n)| (g.read(), n as u64)))
            }
            let r = <$k>::with(k, |k| lib(|| self.0.rank_by_augmentation(k)));
            Some(r.map(conv).map_err(conv))
        }
        fn group_size(&self, g: u64) -> Option<u64> {
            let v = ExtractGroupSize::new(SG::new(g));
            // None: visitor gave up, which means no such element
            Some(lib(|| self.0.descend_visit(v)).unwrap_or(0) as u64)
        }
    };
    (hash, $t: ty, $k: ty) => {
        const AUG: AugKind = AugKind::Hash;
        fn aug_view(&self) -> AugView {
            AugView::Hash(lib(|| self.0.root_augmentation()).read())
        }
        fn aug_get(&self, q: AugQ) -> Option<KV> {
            let AugQ::Hash(q) = q else { unreachable!() };
            lib(|| self.0.get_by_augmentation(q)).map(kv_ref)
        }
        fn aug_mut(&mut self, q: AugQ, new: Option<u64>) -> Option<u64> {
            let AugQ::Hash(q) = q else { unreachable!() };
            lib(|| self.0.get_mut_by_augmentation(q)).map(|v| swap_tok(v, new))
        }
        fn aug_remove(&mut self, q: AugQ) -> Option<KV> {
            let AugQ::Hash(q) = q else { unreachable!() };
            let r = lib(|| self.0.remove_by_augmentation(q));
            r.map(kv_own)
        }
        fn aug_rank(&self, k: &SK) -> Option<Result<Rank, Rank>> {
            Some(
                <$k>::with(k, |k| lib(|| self.0.rank_by_augmentation(k)))
                    .map(Rank::Hash)
                    .map_err(Rank::Hash),
            )
        }
        fn visit(&self, v: Visitor) -> Option<Option<VisitOut>> {
            Some(lib(|| self.0.descend_visit(v)))
        }
    };
}

macro_rules! decl {
    ($name: ident, $label: literal, $part: ident, $t: ty, $aug: ident) => {
        decl!($name, $label, $part, $t, $aug, SK, SV);
    };
    ($name: ident, $label: literal, tree_part, $t: ty, $aug: ident, $k: ident, $v: ident) => {
        pub struct $name($t);
        impl Coll for $name {
            const NAME: &'static str = $label;
            tree_part!($t, $k, $v);
            cursor_part!($k);
            aug_part!($aug, $t, $k);
        }
    };
    ($name: ident, $label: literal, map_part, $t: ty, $aug: ident, $k: ident, $v: ident) => {
        pub struct $name($t);
        impl Coll for $name {
            const NAME: &'static str = $label;
            map_part!($t, $k, $v);
            aug_part!($aug, $t, $k);
        }
    };
}

decl!(TreeP, "tree", tree_part, BPlusTree<NodeStoreVec<SK, SV>>, plain);
decl!(TreeC, "tree-count", tree_part, BPlusTree<NodeStoreVec<SK, SV, Count>>, count);
decl!(TreeG, "tree-group", tree_part, BPlusTree<NodeStoreVec<SK, SV, GroupCount<SG>>>, group);
decl!(TreeH, "tree-hash", tree_part, BPlusTree<NodeStoreVec<SK, SV, OHash>>, hash);
decl!(MapP, "map", map_part, BPlusTreeMap<SK, SV>, plain);
decl!(MapC, "map-count", map_part, BPlusTreeMap<SK, SV, Count>, count);
decl!(MapG, "map-group", map_part, BPlusTreeMap<SK, SV, GroupCount<SG>>, group);
decl!(MapH, "map-hash", map_part, BPlusTreeMap<SK, SV, OHash>, hash);
// keys or values without drop glue
decl!(TreeRkH, "tree-rk-hash", tree_part, BPlusTree<NodeStoreVec<RK, SV, OHash>>, hash, RK, SV);
decl!(TreeRvC, "tree-rv-count", tree_part, BPlusTree<NodeStoreVec<SK, RV, Count>>, count, SK, RV);
decl!(MapRk, "map-rk", map_part, BPlusTreeMap<RK, SV>, plain, RK, SV);
decl!(MapTk, "map-tiny", map_part, BPlusTreeMap<TK, RV, Count>, count, TK, RV);
decl!(TreeB, "tree-big", tree_part, BPlusTree<NodeStoreVec<TK, BV>>, plain, TK, BV);
decl!(MapRaw, "map-raw-count", map_part, BPlusTreeMap<RK, RV, Count>, count, RK, RV);

pub struct Set(BPlusTreeSet<SK>);
impl Coll for Set {
    const NAME: &'static str = "set";
    const IS_SET: bool = true;
    const KEY: usize = std::mem::size_of::<SK>();
    const ENTRY: usize = std::mem::size_of::<SK>();
    const AUG: AugKind = AugKind::Plain;
    type V = ();

    fn make() -> Self {
        Set(lib(BPlusTreeSet::new))
    }
    fn insert(&mut self, k: SK, _v: ()) -> Option<u64> {
        // true: newly inserted
        (!lib(|| self.0.insert(k))).then_some(0)
    }
    fn remove(&mut self, k: &Probe) -> Option<u64> {
        lib(|| self.0.remove(k)).then_some(0)
    }
    fn remove_sk(&mut self, k: &SK) -> Option<u64> {
        lib(|| self.0.remove(k)).then_some(0)
    }
    fn get(&self, k: &Probe) -> Option<u64> {
        lib(|| self.0.contains(k)).then_some(0)
    }
    fn get_sk(&self, k: &SK) -> Option<u64> {
        lib(|| self.0.contains(k)).then_some(0)
    }
    fn get_mut(&mut self, k: &Probe, _new: Option<u64>) -> Option<u64> {
        self.get(k)
    }
    fn len(&self) -> usize {
        lib(|| self.0.len())
    }
    fn is_empty(&self) -> bool {
        lib(|| self.0.is_empty())
    }
    fn ends(&self) -> Option<(Option<KV>, Option<KV>)> {
        Some((
            lib(|| self.0.first()).map(k_ref),
            lib(|| self.0.last()).map(k_ref),
        ))
    }
    fn iter<'a>(&'a self) -> Box<dyn PairIter + 'a> {
        wrap_fork_ord(lib(|| self.0.iter()), k_ref)
    }
    fn consume(self) -> Result<Box<dyn PairIter>, Self> {
        let t = self.0;
        Ok(wrap_ord(lib(|| t.into_iter()), k_own))
    }
    fn clear(&mut self) -> bool {
        lib(|| self.0.clear());
        true
    }
    fn bulk(src: Source) -> Self {
        Set(lib(|| BPlusTreeSet::from_iter(KSource(src))))
    }
    fn union_all(&self, o: &Self) -> Option<Vec<u64>> {
        let mut it = lib(|| self.0.union(&o.0));
        let mut out = vec![];
        loop {
            let (lo, hi) = lib(|| it.size_hint());
            let Some(k) = lib(|| it.next()) else {
                if lo != 0 {
                    crate::ctx::violation("union", format!("exhausted with lower bound {lo}"));
                }
                break;
            };
            if hi == Some(0) {
                crate::ctx::violation("union", "yields beyond its upper bound");
            }
            out.push(k.read());
        }
        Some(out)
    }
    fn union_iter<'a>(&'a self, o: &'a Self) -> Option<Box<dyn UIter + 'a>> {
        Some(Box::new(UWrap(lib(|| self.0.union(&o.0)))))
    }
    fn is_sync_send() -> (bool, bool) {
        auto_traits!(BPlusTreeSet<SK>)
    }
}

#[macro_export]
macro_rules! dispatch {
    ($name: expr, $f: ident, $($a: expr),*) => {
        match $name {
            "tree" => $f::<$crate::coll::TreeP>($($a),*),
            "tree-count" => $f::<$crate::coll::TreeC>($($a),*),
            "tree-group" => $f::<$crate::coll::TreeG>($($a),*),
            "tree-hash" => $f::<$crate::coll::TreeH>($($a),*),
            "map" => $f::<$crate::coll::MapP>($($a),*),
            "map-count" => $f::<$crate::coll::MapC>($($a),*),
            "map-group" => $f::<$crate::coll::MapG>($($a),*),
            "map-hash" => $f::<$crate::coll::MapH>($($a),*),
            "set" => $f::<$crate::coll::Set>($($a),*),
            "tree-rk-hash" => $f::<$crate::coll::TreeRkH>($($a),*),
            "tree-rv-count" => $f::<$crate::coll::TreeRvC>($($a),*),
            "map-rk" => $f::<$crate::coll::MapRk>($($a),*),
            "map-tiny" => $f::<$crate::coll::MapTk>($($a),*),
            "tree-big" => $f::<$crate::coll::TreeB>($($a),*),
            "map-raw-count" => $f::<$crate::coll::MapRaw>($($a),*),
            other => panic!("unknown collection {other}"),
        }
    };
}

pub const TREES: [&str; 4] = ["tree", "tree-count", "tree-group", "tree-hash"];
pub const MAPS: [&str; 4] = ["map", "map-count", "map-group", "map-hash"];
pub const RAW: [&str; 6] = [
    "tree-rk-hash", "tree-rv-count", "map-rk", "map-raw-count", "map-tiny", "tree-big",
];
