//! Minimises a failing history: drops steps, transactions, messages and faults, then shrinks
//! amounts, as long as the same violation remains.
use crate::gen::{isolated, replay};
use crate::trace::*;
use std::time::{Duration, Instant};

pub struct Shrinker {
    pub focus: String,
    tag: String,
    deadline: Instant,
    pub tried: u64,
}

impl Shrinker {
    pub fn new(focus: &str, v: &Violation, budget: Duration) -> Self {
        Shrinker { focus: focus.into(), tag: v.tag.clone(), deadline: Instant::now() + budget, tried: 0 }
    }
    fn fails(&mut self, t: &Trace) -> Option<Violation> {
        self.tried += 1;
        let (focus, tag) = (&self.focus, &self.tag);
        isolated(|| replay(t, focus).viol.filter(|v| v.tag == *tag))
    }
    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    pub fn run(&mut self, t: &Trace) -> Trace {
        let mut cur = t.clone();
        match self.fails(&cur) {
            Some(v) => {
                cur.steps.truncate(v.step + 1);
                cur.violation = Some(v);
            }
            None => return cur,
        }
        if cur.cfg.env != 0 {
            let mut cand = cur.clone();
            cand.cfg.env = 0;
            self.accept(&mut cur, cand);
        }
        if cur.cfg.sibling != 0 {
            let mut cand = cur.clone();
            cand.cfg.sibling = 0;
            self.accept(&mut cur, cand);
        }
        loop {
            let size = weight(&cur);
            self.steps(&mut cur);
            self.txs(&mut cur);
            self.inner(&mut cur);
            self.amounts(&mut cur);
            if self.over() || weight(&cur) >= size {
                break;
            }
        }
        cur
    }

    fn accept(&mut self, cur: &mut Trace, mut cand: Trace) -> bool {
        if self.over() {
            return false;
        }
        if let Some(v) = self.fails(&cand) {
            cand.steps.truncate(v.step + 1);
            cand.violation = Some(v);
            *cur = cand;
            true
        } else {
            false
        }
    }

    fn steps(&mut self, cur: &mut Trace) {
        let mut n = cur.steps.len() / 2;
        while n >= 1 {
            let mut i = 0;
            while i < cur.steps.len() {
                let mut c = cur.clone();
                let end = (i + n).min(c.steps.len());
                c.steps.drain(i..end);
                if !self.accept(cur, c) {
                    i += n;
                }
                if self.over() {
                    return;
                }
            }
            n /= 2;
        }
    }

    fn txs(&mut self, cur: &mut Trace) {
        let mut s = 0;
        while s < cur.steps.len() {
            if let Step::Block { txs, .. } = &cur.steps[s] {
                let mut n = txs.len().max(1);
                while n >= 1 {
                    let mut i = 0;
                    loop {
                        let Some(Step::Block { txs, .. }) = cur.steps.get(s) else { break };
                        if i >= txs.len() {
                            break;
                        }
                        let mut c = cur.clone();
                        if let Step::Block { txs, .. } = &mut c.steps[s] {
                            let end = (i + n).min(txs.len());
                            txs.drain(i..end);
                        }
                        if !self.accept(cur, c) {
                            i += n;
                        }
                        if self.over() {
                            return;
                        }
                    }
                    n /= 2;
                }
            }
            s += 1;
        }
    }

    /// Applies `f` to the k-th place it can act on, for k = 0, 1, ...
    fn sweep(&mut self, cur: &mut Trace, f: &dyn Fn(&mut Trace, usize) -> Option<bool>) {
        let mut k = 0;
        loop {
            if self.over() {
                return;
            }
            let mut c = cur.clone();
            match f(&mut c, k) {
                None => return,
                Some(true) => {
                    if !self.accept(cur, c) {
                        k += 1;
                    }
                }
                Some(false) => k += 1,
            }
        }
    }

    fn inner(&mut self, cur: &mut Trace) {
        // Faults.
        self.sweep(cur, &|t, k| {
            let mut n = 0;
            for tx in all_txs(t) {
                if k < n + tx.faults.len() {
                    tx.faults.remove(k - n);
                    return Some(true);
                }
                n += tx.faults.len();
            }
            None
        });
        // Messages.
        self.sweep(cur, &|t, k| {
            let mut n = 0;
            for tx in all_txs(t) {
                if k < n + tx.msgs.len() {
                    if tx.msgs.len() < 2 {
                        return Some(false);
                    }
                    tx.msgs.remove(k - n);
                    return Some(true);
                }
                n += tx.msgs.len();
            }
            None
        });
        // Transaction flags.
        self.sweep(cur, &|t, k| {
            let tx = all_txs(t).into_iter().nth(k)?;
            if tx.catch || tx.retry {
                tx.catch = false;
                tx.retry = false;
                return Some(true);
            }
            Some(false)
        });
        // Batch entries.
        self.sweep(cur, &|t, k| {
            let mut n = 0;
            for m in all_msgs(t) {
                if let Msg::Batch { rs, .. } = m {
                    if k < n + rs.len() {
                        rs.remove(k - n);
                        return Some(true);
                    }
                    n += rs.len();
                }
            }
            None
        });
    }

    fn amounts(&mut self, cur: &mut Trace) {
        for f in [
            &(|_: u128| 1u128) as &dyn Fn(u128) -> u128,
            &|x| x / 1_000_000,
            &|x| x / 1000,
            &|x| x / 10,
            &|x| x / 2,
            &|x| {
                let mut p = 1;
                while p <= x / 10 {
                    p *= 10;
                }
                x / p * p
            },
            &|x| x - 1,
        ] {
            self.sweep(cur, &|t, k| {
                let m = all_msgs(t).into_iter().nth(k)?;
                Some(match m {
                    Msg::Place { qty, funds, bid, .. } => {
                        let d = *bid as u8;
                        let y = f((*qty).max(1)).max(1);
                        let exact = *funds == vec![(d, *qty)];
                        let ch = y < *qty;
                        if ch {
                            *qty = y;
                            if exact {
                                *funds = vec![(d, y)];
                            }
                        }
                        ch
                    }
                    Msg::Swap { amt, .. } => {
                        let y = f((*amt).max(1)).max(1);
                        let ch = y < *amt;
                        if ch {
                            *amt = y;
                        }
                        ch
                    }
                    _ => false,
                })
            });
        }
        self.sweep(cur, &|t, k| {
            let m = all_msgs(t).into_iter().nth(k)?;
            Some(match m {
                Msg::Place { bounty, .. } if bounty.is_some() => {
                    *bounty = None;
                    true
                }
                Msg::Swap { min_out, .. } if *min_out > 0 => {
                    *min_out = 0;
                    true
                }
                _ => false,
            })
        });
        self.sweep(cur, &|t, k| {
            let s = t.steps.get_mut(k)?;
            Some(match s {
                Step::Block { dt_ms, .. } if *dt_ms != 1000 => {
                    *dt_ms = 1000;
                    true
                }
                _ => false,
            })
        });
    }
}

fn all_txs(t: &mut Trace) -> Vec<&mut Tx> {
    t.steps
        .iter_mut()
        .filter_map(|s| if let Step::Block { txs, .. } = s { Some(txs) } else { None })
        .flat_map(|t| t.iter_mut())
        .collect()
}

fn all_msgs(t: &mut Trace) -> Vec<&mut Msg> {
    all_txs(t).into_iter().flat_map(|t| t.msgs.iter_mut()).collect()
}

fn weight(t: &Trace) -> usize {
    let mut w = t.steps.len();
    for s in &t.steps {
        if let Step::Block { txs, .. } = s {
            for x in txs {
                w += 1 + x.msgs.len() + x.faults.len();
                for m in &x.msgs {
                    match m {
                        Msg::Batch { rs, .. } => w += rs.len(),
                        Msg::Place { qty, .. } => w += (128 - qty.leading_zeros()) as usize,
                        Msg::Swap { amt, .. } => w += (128 - amt.leading_zeros()) as usize,
                        _ => {}
                    }
                }
            }
        }
    }
    w
}
