//! Simulated node storage: a sorted map with an undo journal (for savepoints, transaction
//! rollback and crashes), an operation meter and a fuse that aborts execution at a chosen access.
use crate::rng::hash_bytes;
use cosmwasm_std::{Order, Record, Storage};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ops::Bound;

/// Panic payload of an injected abort (out of gas, crash).
pub struct FuseBlown;

/// Accesses after which a message, or a query, is taken not to terminate.
pub const MSG_LIMIT: u64 = 20_000_000;
const QUERY_LIMIT: u64 = 50_000_000;
thread_local! {
    pub static GUARD: Cell<u64> = const { Cell::new(0) };
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Meter {
    pub reads: u64,
    pub writes: u64,
    pub steps: u64,
}
impl Meter {
    pub fn total(&self) -> u64 {
        self.reads + self.writes + self.steps
    }
}

pub struct Store {
    map: BTreeMap<Vec<u8>, Vec<u8>>,
    undo: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    digest: u64,
    meter: std::rc::Rc<Cell<Meter>>,
    /// Remaining accesses before an injected abort; u64::MAX = none.
    fuse: std::rc::Rc<Cell<u64>>,
    /// While the harness itself looks at the state, accesses are neither metered nor burnt.
    paused: std::rc::Rc<Cell<bool>>,
}

fn kv_hash(k: &[u8], v: &[u8]) -> u64 {
    let mut b = Vec::with_capacity(k.len() + v.len() + 4);
    b.extend_from_slice(&(k.len() as u32).to_be_bytes());
    b.extend_from_slice(k);
    b.extend_from_slice(v);
    hash_bytes(&b)
}

impl Store {
    pub fn new() -> Self {
        Store {
            map: BTreeMap::new(),
            undo: Vec::new(),
            digest: 0,
            meter: Default::default(),
            fuse: std::rc::Rc::new(Cell::new(u64::MAX)),
            paused: Default::default(),
        }
    }
    pub fn savepoint(&self) -> usize {
        self.undo.len()
    }
    pub fn rollback(&mut self, sp: usize) {
        while self.undo.len() > sp {
            let (k, old) = self.undo.pop().unwrap();
            self.raw_put(k, old);
        }
    }
    pub fn commit(&mut self) {
        self.undo.clear();
    }
    fn raw_put(&mut self, k: Vec<u8>, v: Option<Vec<u8>>) -> Option<Vec<u8>> {
        let old = match v {
            Some(v) => {
                self.digest = self.digest.wrapping_add(kv_hash(&k, &v));
                self.map.insert(k.clone(), v)
            }
            None => self.map.remove(&k),
        };
        if let Some(o) = &old {
            self.digest = self.digest.wrapping_sub(kv_hash(&k, o));
        }
        old
    }
    /// Order-independent digest of the whole content.
    pub fn digest(&self) -> u64 {
        self.digest
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn meter(&self) -> Meter {
        self.meter.get()
    }
    pub fn set_fuse(&self, ops: u64) {
        self.fuse.set(ops)
    }
    pub fn set_paused(&self, p: bool) -> bool {
        self.paused.replace(p)
    }
    fn touch(&self, r: u64, w: u64, s: u64) {
        tick(&self.paused, &self.meter, &self.fuse, r, w, s)
    }
    pub fn iter_raw(&self) -> impl Iterator<Item = (&Vec<u8>, &Vec<u8>)> {
        self.map.iter()
    }
    pub fn write_raw(&mut self, k: Vec<u8>, v: Vec<u8>) {
        let old = self.raw_put(k.clone(), Some(v));
        self.undo.push((k, old));
    }
}

fn tick(paused: &Cell<bool>, meter: &Cell<Meter>, fuse: &Cell<u64>, r: u64, w: u64, s: u64) {
    if paused.get() {
        // Still bounded: a query that never ends must not hang the run.
        GUARD.with(|g| {
            let n = g.get() + 1;
            g.set(n);
            if n > QUERY_LIMIT {
                std::panic::panic_any(FuseBlown);
            }
        });
        return;
    }
    let mut m = meter.get();
    m.reads += r;
    m.writes += w;
    m.steps += s;
    meter.set(m);
    burn(fuse);
}

fn burn(fuse: &Cell<u64>) {
    let f = fuse.get();
    if f != u64::MAX {
        if f <= 1 {
            fuse.set(0);
            std::panic::panic_any(FuseBlown);
        }
        fuse.set(f - 1);
    }
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.touch(1, 0, 0);
        self.map.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.touch(0, 1, 0);
        // The VM refuses empty values.
        assert!(!value.is_empty(), "empty value written");
        let old = self.raw_put(key.to_vec(), Some(value.to_vec()));
        self.undo.push((key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        self.touch(0, 1, 0);
        let old = self.raw_put(key.to_vec(), None);
        self.undo.push((key.to_vec(), old));
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        self.touch(0, 0, 1);
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |e| Bound::Excluded(e.to_vec()));
        let (paused, meter, fuse) = (self.paused.clone(), self.meter.clone(), self.fuse.clone());
        let it = self.map.range((lo, hi));
        let step = move |(k, v): (&Vec<u8>, &Vec<u8>)| {
            tick(&paused, &meter, &fuse, 0, 0, 1);
            (k.clone(), v.clone())
        };
        match order {
            Order::Ascending => Box::new(it.map(step)),
            Order::Descending => Box::new(it.rev().map(step)),
        }
    }
}
