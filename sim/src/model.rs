//! Reference model: a sorted map over the keys 0..u, as a segment tree of order-dependent summaries.

use crate::types::{elem_k, elem_kv, P};

#[derive(Clone, Copy, Default)]
struct Node {
    cnt: u32,
    hk: u64,
    hkv: u64,
}

#[derive(Clone)]
pub struct Model {
    pub u: usize,
    /// 0 = absent
    tok: Vec<u64>,
    t: Vec<Node>,
    pows: std::rc::Rc<Vec<u64>>,
    gshift: u32,
    gcnt: Vec<u32>,
    groups: usize,
    has_val: bool,
}

impl Model {
    pub fn new(u: usize, gshift: u32, has_val: bool) -> Model {
        let u = u.next_power_of_two().max(2);
        let mut pows = vec![1u64; u + 1];
        for i in 1..=u {
            pows[i] = pows[i - 1].wrapping_mul(P);
        }
        Model {
            u,
            tok: vec![0; u],
            t: vec![Node::default(); 2 * u],
            pows: std::rc::Rc::new(pows),
            gshift,
            gcnt: vec![0; (u >> gshift) + 1],
            groups: 0,
            has_val,
        }
    }

    pub fn empty_like(&self) -> Model {
        Model {
            u: self.u,
            tok: vec![0; self.u],
            t: vec![Node::default(); 2 * self.u],
            pows: self.pows.clone(),
            gshift: self.gshift,
            gcnt: vec![0; self.gcnt.len()],
            groups: 0,
            has_val: self.has_val,
        }
    }

    fn join(&self, l: Node, r: Node) -> Node {
        let p = self.pows[r.cnt as usize];
        Node {
            cnt: l.cnt + r.cnt,
            hk: l.hk.wrapping_mul(p).wrapping_add(r.hk),
            hkv: l.hkv.wrapping_mul(p).wrapping_add(r.hkv),
        }
    }

    fn set(&mut self, key: u64, tok: u64) {
        let k = key as usize;
        let had = self.tok[k] != 0;
        self.tok[k] = tok;
        let has = tok != 0;
        if had != has {
            let g = k >> self.gshift;
            if has {
                self.gcnt[g] += 1;
                if self.gcnt[g] == 1 {
                    self.groups += 1;
                }
            } else {
                self.gcnt[g] -= 1;
                if self.gcnt[g] == 0 {
                    self.groups -= 1;
                }
            }
        }
        let mut i = k + self.u;
        self.t[i] = if has {
            Node {
                cnt: 1,
                hk: elem_k(key),
                hkv: elem_kv(key, tok),
            }
        } else {
            Node::default()
        };
        while i > 1 {
            i >>= 1;
            self.t[i] = self.join(self.t[2 * i], self.t[2 * i + 1]);
        }
    }

    fn out(&self, tok: u64) -> u64 {
        if self.has_val {
            tok
        } else {
            0
        }
    }

    pub fn len(&self) -> usize {
        self.t[1].cnt as usize
    }
    pub fn get(&self, key: u64) -> Option<u64> {
        match self.tok.get(key as usize) {
            Some(0) | None => None,
            Some(t) => Some(self.out(*t)),
        }
    }
    pub fn insert(&mut self, key: u64, tok: u64) -> Option<u64> {
        let r = self.get(key);
        self.set(key, tok);
        r
    }
    pub fn remove(&mut self, key: u64) -> Option<u64> {
        let r = self.get(key)?;
        self.set(key, 0);
        Some(r)
    }
    pub fn clear(&mut self) {
        *self = self.empty_like();
    }
    /// n-th key
    pub fn select(&self, mut n: usize) -> Option<u64> {
        if n >= self.len() {
            return None;
        }
        let mut i = 1;
        while i < self.u {
            let l = self.t[2 * i].cnt as usize;
            if n < l {
                i *= 2;
            } else {
                n -= l;
                i = 2 * i + 1;
            }
        }
        Some((i - self.u) as u64)
    }
    pub fn select_kv(&self, n: usize) -> Option<(u64, u64)> {
        let k = self.select(n)?;
        Some((k, self.get(k).unwrap()))
    }
    /// summary of all keys < key: count and key hash
    pub fn prefix(&self, key: u64) -> (u64, u64) {
        let mut acc = Node::default();
        let (mut lo, mut hi, mut i) = (0usize, self.u, 1usize);
        let key = key as usize;
        if key >= self.u {
            return (self.t[1].cnt as u64, self.t[1].hk);
        }
        while i < self.u {
            let mid = (lo + hi) / 2;
            if key >= mid {
                acc = self.join(acc, self.t[2 * i]);
                i = 2 * i + 1;
                lo = mid;
            } else {
                i *= 2;
                hi = mid;
            }
        }
        (acc.cnt as u64, acc.hk)
    }
    pub fn rank(&self, key: u64) -> usize {
        self.prefix(key).0 as usize
    }
    pub fn succ(&self, key: u64) -> Option<(u64, u64)> {
        self.select_kv(self.rank(key + 1))
    }
    pub fn ceil(&self, key: u64) -> Option<(u64, u64)> {
        self.select_kv(self.rank(key))
    }
    pub fn pred(&self, key: u64) -> Option<(u64, u64)> {
        let r = self.rank(key);
        if r == 0 {
            None
        } else {
            self.select_kv(r - 1)
        }
    }
    pub fn first(&self) -> Option<(u64, u64)> {
        self.select_kv(0)
    }
    pub fn last(&self) -> Option<(u64, u64)> {
        let n = self.len();
        if n == 0 {
            None
        } else {
            self.select_kv(n - 1)
        }
    }
    pub fn root(&self) -> crate::types::Sum {
        let n = self.t[1];
        crate::types::Sum {
            cnt: n.cnt as u64,
            hk: n.hk,
            hkv: n.hkv,
            max1: self.last().map(|x| x.0 + 1).unwrap_or(0),
        }
    }
    pub fn groups(&self) -> usize {
        self.groups
    }
    pub fn group_size(&self, g: u64) -> usize {
        self.gcnt.get(g as usize).copied().unwrap_or(0) as usize
    }
    pub fn group_start(&self, g: u64) -> u64 {
        g << self.gshift
    }
    pub fn rank_in_group(&self, key: u64) -> usize {
        self.rank(key) - self.rank((key >> self.gshift) << self.gshift)
    }
    /// key that is n-th in group g
    pub fn select_in_group(&self, g: u64, n: usize) -> Option<u64> {
        if n >= self.group_size(g) {
            return None;
        }
        self.select(self.rank(self.group_start(g)) + n)
    }
    /// all entries in order
    pub fn entries(&self) -> Vec<(u64, u64)> {
        let mut v = Vec::with_capacity(self.len());
        if self.len() * 4 < self.u {
            for i in 0..self.len() {
                v.push(self.select_kv(i).unwrap());
            }
        } else {
            for k in 0..self.u {
                if self.tok[k] != 0 {
                    v.push((k as u64, self.out(self.tok[k])));
                }
            }
        }
        v
    }
}
