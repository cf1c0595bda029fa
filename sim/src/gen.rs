//! The seeded world around the book: clients with unreliable links and stale views, a mempool,
//! a block producer and an adversary. Produces the steps of a history one by one while the
//! checked node executes them.
use crate::exec::Runner;
use crate::math::*;
use crate::model::*;
use crate::rng::Rng;
use crate::trace::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Amounts {
    Fixed(u128),
    Upto(u128),
    Log { lo: u32, hi: u32 },
    /// Around multiples of the price, where rounding flips.
    Priced,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub cfg: Config,
    pub blocks: u64,
    pub ticks: Vec<i64>,
    pub wild_ticks: u64,
    pub amounts: Vec<Amounts>,
    pub max_orders: usize,
    /// place, swap, claim, batch, cancel, bad reference, bad placement, bad swap, role, donate
    pub weights: [u32; 10],
    pub bid_bias: u64,
    pub bounty: u64,
    pub fee: u64,
    pub multi: u64,
    pub catch: u64,
    pub pause: u64,
    pub paused_linger: u64,
    pub wake: u64,
    pub block_ms: u64,
    pub lag: u64,
    pub drop: u64,
    pub dup: u64,
    pub delay: u64,
    pub partition: u64,
    pub clock_jump: u64,
    pub oog: u64,
    pub bank: u64,
    pub crash: u64,
    pub reenter: u64,
    pub dry: u64,
    pub ahead: u64,
    pub chaos: u64,
    pub upgrade: u64,
    pub quote: u64,
    pub sweep: u64,
    pub target: u64,
    pub retry: u64,
    pub order_mode: u64,
    pub drain: u64,
    pub replica: u64,
    pub odd_recipients: bool,
    pub overdraw: u64,
    /// Orders resting before trading starts.
    pub preload: usize,
}

const W_PLACE: usize = 0;
const W_SWAP: usize = 1;
const W_CLAIM: usize = 2;
const W_BATCH: usize = 3;
const W_CANCEL: usize = 4;
const W_BADREF: usize = 5;
const W_BADPLACE: usize = 6;
const W_BADSWAP: usize = 7;
const W_ROLE: usize = 8;
const W_DONATE: usize = 9;

fn ticks_of(r: &mut Rng) -> (Vec<i64>, u64) {
    let geo = 9_000_000i64;
    let center = match r.below(12) {
        0 | 1 | 2 => 0,
        3 => r.range(-3, 3) * geo + r.range(-2, 2),
        4 => r.range(-12, 20) * geo + r.range(-1, 1),
        5 => MIN_TICK,
        6 => MAX_TICK,
        7 => 18 * geo + r.range(-2, 4_000_000),
        8 => r.range(-2_000_000, 2_000_000),
        9 => r.range(-40_000_000, 60_000_000),
        _ => r.range(MIN_TICK, MAX_TICK),
    };
    let n = match r.below(10) {
        0 | 1 | 2 => 1,
        3 | 4 => 2,
        5 | 6 => 3 + r.below(3),
        7 | 8 => 4 + r.below(8),
        _ => 10 + r.below(30),
    } as usize;
    let spacing = match r.below(6) {
        0 | 1 | 2 => 1,
        3 => r.range(2, 50),
        4 => r.range(100, 1_000_000),
        _ => geo / 3,
    };
    let mut v: Vec<i64> = (0..n as i64)
        .map(|i| (center + (i - n as i64 / 2) * spacing).clamp(MIN_TICK, MAX_TICK))
        .collect();
    if center == MIN_TICK || r.chance(30) {
        v.push(MIN_TICK);
    }
    if center == MAX_TICK || r.chance(30) {
        v.push(MAX_TICK);
    }
    v.sort();
    v.dedup();
    let wild = if r.chance(150) { r.below(200) } else { 0 };
    (v, wild)
}

fn amounts_of(r: &mut Rng) -> Vec<Amounts> {
    let n = 1 + r.usize(3);
    (0..n)
        .map(|_| match r.below(9) {
            0 => Amounts::Fixed(1 + r.below(20) as u128),
            1 => Amounts::Fixed(10u128.pow(r.below(20) as u32)),
            2 => Amounts::Upto(3),
            3 | 4 => Amounts::Upto(20),
            5 => Amounts::Upto(1000),
            6 => Amounts::Log { lo: 0, hi: 40 + r.below(50) as u32 },
            7 => Amounts::Log { lo: 60, hi: 116 },
            _ => Amounts::Priced,
        })
        .collect()
}

/// As long as names of tokens become, different only at the end.
pub const LONG_NAMES: (&str, &str) = (
    "factory/osmo1q8z7x6w5v4u3t2s0r9p8n7m6l5k4j3h2g1f0d9c8a7e6u5y4t3r2w9p8x7/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxa",
    "factory/osmo1q8z7x6w5v4u3t2s0r9p8n7m6l5k4j3h2g1f0d9c8a7e6u5y4t3r2w9p8x7/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxb",
);

impl Profile {
    pub fn draw(prop: &str, r: &mut Rng, thorough: bool) -> Profile {
        let on = |r: &mut Rng, p: u64, max: u64| -> u64 {
            if r.chance(p) {
                1 + r.below(max)
            } else {
                0
            }
        };
        let (ticks, wild_ticks) = ticks_of(r);
        let users = 2 + r.usize(6);
        let names = [("ubase", "uquote"), ("uosmo", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"), ("zzz", "aaa"), ("factory/osmo1x/a", "factory/osmo1x/b"), ("uosmo2", "uosmo"), ("uosmo", "uosmo2"), ("UOSMO", "uosmo"), ("gamm/pool/1", "gamm/pool/10"), LONG_NAMES];
        let (base, quote) = *r.pick(&names);
        let mut weights = [0u32; 10];
        let caps = [60, 40, 30, 15, 30, 4, 4, 4, 3, 1];
        for i in 0..10 {
            weights[i] = if i < 2 || r.chance(750) { 1 + r.below(caps[i]) as u32 } else { 0 };
        }
        let long = r.chance(if thorough { 250 } else { 100 });
        let mut p = Profile {
            cfg: Config {
                base: base.into(),
                quote: quote.into(),
                users,
                rich: 1u128 << 122,
                whale: 0,
                inv_every: 1 + r.below(6) as u32,
                gas: false,
                every: 0,
                env: if r.chance(400) { 1 + r.below(1 << 40) } else { 0 },
                sibling: if r.chance(120) { 1 + r.below(4) as u32 } else { 0 },
            },
            blocks: if long { 60 + r.below(140) } else { 4 + r.below(40) },
            ticks,
            wild_ticks,
            amounts: amounts_of(r),
            max_orders: *r.pick(&[4usize, 10, 30, 80, 200]),
            weights,
            bid_bias: *r.pick(&[0u64, 100, 500, 500, 500, 900, 1000]),
            bounty: on(r, 600, 1000),
            fee: on(r, 500, 60),
            multi: on(r, 400, 250),
            catch: r.below(1000),
            pause: on(r, 250, 40),
            paused_linger: 100 + r.below(700),
            wake: 500 + r.below(8000),
            block_ms: 500 + r.below(8000),
            lag: r.below(5),
            drop: on(r, 400, 200),
            dup: on(r, 500, 200),
            delay: on(r, 600, 30_000),
            partition: on(r, 300, 60),
            clock_jump: on(r, 300, 100),
            oog: on(r, 400, 150),
            bank: on(r, 400, 150),
            crash: on(r, 300, 150),
            reenter: on(r, 350, 150),
            dry: on(r, 250, 100),
            ahead: on(r, 150, 60),
            chaos: on(r, 350, 150),
            upgrade: on(r, 120, 60),
            quote: on(r, 300, 200),
            sweep: on(r, 200, 100),
            target: *r.pick(&[0u64, 200, 500, 800]),
            retry: r.below(1000),
            order_mode: r.below(5),
            drain: 500,
            replica: 20,
            odd_recipients: r.chance(300),
            overdraw: on(r, 300, 100),
            preload: 0,
        };
        if r.chance(40) {
            p.make_whale();
        }
        if r.chance(120) {
            p.preload = *r.pick(&[20usize, 60, 130, 130, 250]);
        }
        if r.chance(100) {
            p.many_ticks(r);
        }
        p.tune(prop, r);
        p
    }

    /// One user holds most of the supply and moves it in and out.
    fn make_whale(&mut self) {
        self.cfg.whale = 1u128 << 127;
        self.ticks.truncate(3);
        self.wild_ticks = 0;
        self.weights[W_PLACE] = self.weights[W_PLACE].max(20);
        self.weights[W_CANCEL] = self.weights[W_CANCEL].max(20);
    }

    /// A deep book over many price levels.
    fn many_ticks(&mut self, r: &mut Rng) {
        let n = if r.chance(250) { 300 } else { 40 + r.below(200) as i64 };
        let spacing = *r.pick(&[1i64, 1, 2, 10, 1000, 100_000]);
        let center = *r.pick(&[0i64, 0, 9_000_000, -9_000_000, 1_000_000, 50_000_000, -30_000_000]);
        self.ticks = (0..n).map(|i| (center + (i - n / 2) * spacing).clamp(MIN_TICK, MAX_TICK)).collect();
        self.wild_ticks = 0;
        self.preload = self.preload.max(if n >= 300 { 700 } else { 30 + r.usize(220) });
        if n >= 300 {
            self.cfg.inv_every = self.cfg.inv_every.max(4);
        }
        self.max_orders = self.max_orders.max(80);
    }

    /// What a property needs to be exercised often.
    fn tune(&mut self, prop: &str, r: &mut Rng) {
        let at_least = |w: &mut u32, x: u32| *w = (*w).max(x);
        let few = |p: &mut Profile, r: &mut Rng, n: usize| {
            if p.ticks.len() > n {
                let i = r.usize(p.ticks.len() - n + 1);
                p.ticks = p.ticks[i..i + n].to_vec();
            }
            p.wild_ticks = 0;
        };
        match prop {
            "C01" | "C17" => {
                if r.chance(if prop == "C17" { 120 } else { 50 }) {
                    self.make_whale();
                }
                if r.chance(if prop == "C17" { 120 } else { 30 }) {
                    self.many_ticks(r);
                }
                self.drain = 1000;
                at_least(&mut self.weights[W_CANCEL], 10);
                at_least(&mut self.weights[W_CLAIM], 10);
            }
            "C02" | "C04" => {
                let n = 1 + r.usize(2);
                few(self, r, n);
                self.max_orders = *r.pick(&[6usize, 12, 40, 150]);
                at_least(&mut self.weights[W_CANCEL], 25);
                at_least(&mut self.weights[W_CLAIM], 10);
                if prop == "C04" {
                    at_least(&mut self.weights[W_BADREF], 8);
                }
            }
            "C03" => {
                let n = 1 + r.usize(4);
                few(self, r, n);
                at_least(&mut self.weights[W_CLAIM], 25);
                at_least(&mut self.weights[W_SWAP], 25);
                self.bounty = self.bounty.max(300);
                self.dup = self.dup.max(50);
            }
            "C05" => {
                if r.chance(150) {
                    self.many_ticks(r);
                }
                at_least(&mut self.weights[W_SWAP], 40);
                at_least(&mut self.weights[W_CANCEL], 10);
            }
            "C06" => {
                self.bank = self.bank.max(100);
                self.oog = self.oog.max(60);
                self.chaos = self.chaos.max(100);
                self.retry = self.retry.max(600);
                self.multi = self.multi.max(60);
                self.fee = self.fee.max(20);
                self.bounty = self.bounty.max(300);
                at_least(&mut self.weights[W_CLAIM], 20);
                at_least(&mut self.weights[W_BATCH], 10);
                at_least(&mut self.weights[W_CANCEL], 10);
            }
            "C07" => {
                self.quote = 600;
                self.sweep = self.sweep.max(30);
            }
            "C08" => {
                at_least(&mut self.weights[W_CANCEL], 15);
                self.cfg.inv_every = 1;
            }
            "C09" => {
                if r.chance(200) {
                    self.preload = *r.pick(&[60usize, 130, 250, 350]);
                }
                self.sweep = self.sweep.max(250);
                self.max_orders = *r.pick(&[10usize, 30, 80, 250]);
                at_least(&mut self.weights[W_PLACE], 60);
                self.cfg.users = 2 + r.usize(4);
            }
            "C10" => {
                at_least(&mut self.weights[W_CANCEL], 15);
                at_least(&mut self.weights[W_SWAP], 25);
                self.sweep = self.sweep.max(60);
                self.max_orders = *r.pick(&[4usize, 8, 20]);
            }
            "C11" => {
                for w in self.weights.iter_mut() {
                    *w = (*w / 4).max(1);
                }
                at_least(&mut self.weights[W_ROLE], 60);
                self.pause = self.pause.max(30);
            }
            "C12" => {
                self.pause = self.pause.max(100);
                self.paused_linger = 500 + r.below(450);
                at_least(&mut self.weights[W_ROLE], 12);
                at_least(&mut self.weights[W_CLAIM], 10);
                at_least(&mut self.weights[W_CANCEL], 10);
                at_least(&mut self.weights[W_BATCH], 5);
            }
            "C13" => {
                at_least(&mut self.weights[W_BATCH], 40);
                at_least(&mut self.weights[W_SWAP], 25);
                self.bounty = self.bounty.max(300);
                self.fee = self.fee.max(20);
            }
            "C14" => {
                self.replica = 1000;
                self.crash = self.crash.max(150);
                self.dry = self.dry.max(100);
                self.ahead = self.ahead.max(50);
                if r.chance(300) {
                    self.cfg.sibling = 1 + r.below(3) as u32;
                }
                self.oog = self.oog.max(40);
            }
            "C15" => {
                self.upgrade = self.upgrade.max(100);
                at_least(&mut self.weights[W_PLACE], 30);
                at_least(&mut self.weights[W_CANCEL], 15);
                at_least(&mut self.weights[W_CLAIM], 15);
                self.sweep = self.sweep.max(40);
            }
            "C18" => {
                at_least(&mut self.weights[W_BADPLACE], 30);
                at_least(&mut self.weights[W_BADREF], 8);
                self.bounty = self.bounty.max(400);
            }
            "C19" => {
                self.bounty = self.bounty.max(600);
                self.fee = self.fee.max(80);
                at_least(&mut self.weights[W_CLAIM], 30);
                at_least(&mut self.weights[W_BATCH], 10);
                at_least(&mut self.weights[W_ROLE], 10);
                at_least(&mut self.weights[W_SWAP], 25);
            }
            "C20" => {
                at_least(&mut self.weights[W_CLAIM], 20);
                at_least(&mut self.weights[W_BATCH], 10);
                at_least(&mut self.weights[W_CANCEL], 15);
                self.bounty = self.bounty.max(200);
            }
            "C21" => {
                at_least(&mut self.weights[W_SWAP], 50);
                at_least(&mut self.weights[W_BADSWAP], 15);
                self.target = *r.pick(&[300u64, 600, 900]);
                self.lag = self.lag.max(1);
            }
            _ => {}
        }
    }
}

enum Event {
    Wake(Who),
    Arrive(Tx),
    Block,
    Heal,
}

pub struct Gen<'a> {
    pub p: Profile,
    r: Rng,
    run: &'a mut Runner,
    pub steps: Vec<Step>,
    views: VecDeque<Rc<Model>>,
    q: BTreeMap<(u64, u64), Event>,
    seq: u64,
    now: u64,
    last_block: u64,
    mempool: Vec<Tx>,
    cut: Vec<Who>,
    held: Vec<Tx>,
    next_tag: u32,
}

impl<'a> Gen<'a> {
    pub fn new(p: Profile, r: Rng, run: &'a mut Runner) -> Gen<'a> {
        Gen {
            p,
            r,
            run,
            steps: vec![],
            views: VecDeque::new(),
            q: BTreeMap::new(),
            seq: 0,
            now: 0,
            last_block: 0,
            mempool: vec![],
            cut: vec![],
            held: vec![],
            next_tag: 1,
        }
    }

    fn emit(&mut self, s: Step) {
        let no = self.steps.len();
        self.steps.push(s);
        let s = self.steps[no].clone();
        self.run.step(no, &s);
    }

    fn at(&mut self, t: u64, e: Event) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }

    fn actors(&mut self) -> Who {
        if self.r.chance(40) {
            return *self.r.pick(&[W_GOV, W_BREAKER]);
        }
        W_USER0 + self.r.usize(self.p.cfg.users)
    }

    fn tag(&mut self) -> u32 {
        self.next_tag += 1;
        self.next_tag
    }

    pub fn run(mut self) -> Vec<Step> {
        let (base, quote) = (self.p.cfg.base.clone(), self.p.cfg.quote.clone());
        let have = 1 + self.r.next() as u128;
        self.emit(Step::Create { base, quote, s_base: Supply::Amount(have), s_quote: Supply::Amount(1), oog: None });
        self.views.push_back(Rc::new(self.run.m.clone()));
        self.preload();
        for u in 0..self.p.cfg.users {
            let t = self.r.exp(self.p.wake);
            self.at(t, Event::Wake(W_USER0 + u));
        }
        let t = self.r.exp(self.p.block_ms);
        self.at(t, Event::Block);
        let mut blocks = 0;
        while blocks < self.p.blocks && !self.run.ended() {
            let ((t, _), e) = self.q.pop_first().unwrap();
            self.now = t;
            match e {
                Event::Wake(w) => {
                    let d = self.r.exp(self.p.wake);
                    self.at(self.now + d, Event::Wake(w));
                    let who = if self.r.chance(60) { self.actors() } else { w };
                    let tx = self.compose(who);
                    self.send(tx);
                }
                Event::Arrive(tx) => {
                    if self.mempool.len() < 200 {
                        self.mempool.push(tx)
                    } else {
                        self.run.count("net.mempool_full");
                    }
                }
                Event::Heal => {
                    self.cut.clear();
                    let held = std::mem::take(&mut self.held);
                    self.run.count("net.healed");
                    for tx in held {
                        let d = self.r.exp(500);
                        self.at(self.now + d, Event::Arrive(tx));
                    }
                }
                Event::Block => {
                    blocks += 1;
                    let d = self.r.exp(self.p.block_ms);
                    self.at(self.now + d, Event::Block);
                    self.block();
                }
            }
        }
        self.finish();
        self.steps
    }

    fn preload(&mut self) {
        let mut left = self.p.preload;
        let t = self.p.ticks.clone();
        let h = t.len() / 2;
        while left > 0 && !self.run.ended() {
            let n = left.min(60);
            left -= n;
            let mut txs = vec![];
            for _ in 0..n {
                let who = if self.r.chance(500) { W_USER0 } else { W_USER0 + self.r.usize(self.p.cfg.users) };
                let bid = self.r.chance(self.p.bid_bias);
                let tick = if h == 0 {
                    t[0]
                } else if bid {
                    t[self.r.usize(h)]
                } else {
                    t[h + self.r.usize(t.len() - h)]
                };
                let qty = self.amount(bid, tick);
                let bounty = self.bounty();
                let tag = self.tag();
                txs.push(simple(who, Msg::Place { tag, tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] }));
            }
            let dt_ms = 1 + self.r.exp(5000);
            self.emit(Step::Block { dt_ms, txs });
            self.views.push_back(Rc::new(self.run.m.clone()));
        }
        while self.views.len() as u64 > self.p.lag + 1 {
            self.views.pop_front();
        }
    }

    fn finish(&mut self) {
        if self.run.ended() {
            return;
        }
        let salt = self.r.next();
        self.emit(Step::Sweep { salt });
        if self.r.chance(self.p.drain) {
            let salt = self.r.next();
            self.emit(Step::Drain { salt });
        }
        if self.r.chance(self.p.replica) {
            self.emit(Step::Replica);
        }
    }

    fn send(&mut self, mut tx: Tx) {
        if self.r.chance(self.p.drop) {
            self.run.count("net.dropped");
            return;
        }
        if self.p.partition > 0 && self.cut.is_empty() && self.r.chance(self.p.partition) {
            let mut us: Vec<Who> = (0..self.p.cfg.users).map(|u| W_USER0 + u).collect();
            self.r.shuffle(&mut us);
            us.truncate(1 + self.r.usize(self.p.cfg.users));
            self.cut = us;
            self.run.count("net.partitioned");
            let d = self.r.exp(self.p.block_ms * 4);
            self.at(self.now + d, Event::Heal);
        }
        if self.cut.contains(&tx.from) {
            self.run.count("net.held_by_partition");
            self.held.push(tx);
            return;
        }
        let base = 50 + if self.p.delay > 0 { self.r.exp(self.p.delay) } else { 0 };
        if base > 2 * self.p.block_ms {
            self.run.count("net.delayed");
        }
        if self.r.chance(self.p.dup) {
            self.run.count("net.duplicated");
            let mut copy = tx.clone();
            for m in copy.msgs.iter_mut() {
                if let Msg::Place { tag, .. } = m {
                    *tag = self.tag();
                }
            }
            let d = self.r.exp(self.p.block_ms);
            self.at(self.now + base + d, Event::Arrive(copy));
        }
        tx.note.clear();
        self.at(self.now + base, Event::Arrive(tx));
    }

    // ------------------------------------------------------------ block production

    fn block(&mut self) {
        // What the environment does between blocks.
        if self.r.chance(self.p.chaos) {
            match self.r.below(5) {
                0 | 1 => {
                    let who = if self.r.chance(250) { W_FEE } else { W_USER0 + self.r.usize(self.p.cfg.users) };
                    self.emit(Step::Block_ { who, on: true });
                }
                2 => {
                    let denom = self.r.below(2) as u8;
                    self.emit(Step::Freeze { denom, on: true });
                }
                _ => self.clear_chaos(),
            }
        } else if self.r.chance(200) {
            self.clear_chaos();
        }
        if self.r.chance(self.p.upgrade) {
            let mask = match self.r.below(3) {
                0 => 0,
                1 => u64::MAX,
                _ => self.r.next(),
            };
            self.emit(Step::Upgrade { mask });
        }
        if self.r.chance(self.p.quote) {
            for _ in 0..1 + self.r.below(3) {
                let bid = self.r.chance(500);
                let m = self.run.m.clone();
                let mut amt = self.swap_amount(&m, bid, None);
                let (mut fee, mut odd) = (0, 0);
                if self.r.chance(60) {
                    match self.r.below(8) {
                        0 => fee = 1,
                        1 => fee = ONE / 100,
                        2 | 3 => odd = 1,
                        4 => odd = 2,
                        5 => odd = 3,
                        6 => amt = 0,
                        _ => amt = *self.r.pick(&[u128::MAX, 1 << 127, 1 << 126]),
                    }
                }
                self.emit(Step::Quote { bid, amt, fee, odd });
            }
        }
        if self.r.chance(self.p.sweep) {
            let salt = self.r.next();
            self.emit(Step::Sweep { salt });
        }
        if self.run.ended() {
            return;
        }
        // Transactions.
        let mut txs = std::mem::take(&mut self.mempool);
        let rank = |t: &Tx, first: &str| -> u32 {
            let k = t.msgs.first().map_or("", crate::exec::kind);
            if k == first {
                0
            } else {
                1
            }
        };
        match self.p.order_mode {
            0 => {}
            1 => self.r.shuffle(&mut txs),
            2 => txs.reverse(),
            3 => {
                self.r.shuffle(&mut txs);
                let f = *self.r.pick(&["cancel", "swap", "claim", "place", "auth"]);
                txs.sort_by_key(|t| rank(t, f));
            }
            _ => txs.sort_by_key(|t| t.from),
        }
        if self.r.chance(100) && txs.len() > 1 {
            // Censorship: some wait for a later block.
            let k = self.r.usize(txs.len());
            self.mempool = txs.split_off(k);
            self.run.count("net.censored");
        }
        // Late competitors that see the current state: front- and back-running.
        if self.r.chance(150) {
            let w = self.actors();
            let keep = std::mem::take(&mut self.views);
            self.views.push_back(Rc::new(self.run.m.clone()));
            let t = self.compose(w);
            self.views = keep;
            if self.r.chance(500) {
                txs.insert(0, t);
            } else {
                txs.push(t);
            }
        }
        self.control(&mut txs);
        let mut out: Vec<Tx> = vec![];
        let mut crash_used = false;
        for mut t in txs {
            let scale = 12 + 40 * t.msgs.len() as u64;
            if self.r.chance(self.p.dry) {
                t.faults.push(Fault::DryRun);
            }
            if self.r.chance(self.p.ahead) {
                let ms = *self.r.pick(&[0, 1, 1000, 6000, 60_000]);
                t.faults.push(Fault::Ahead { ms });
            }
            let mut failing = false;
            if self.r.chance(self.p.oog) {
                let op = 1 + self.r.below(scale);
                t.faults.push(Fault::OutOfGas { op });
                failing = true;
            }
            if self.r.chance(self.p.bank) {
                let nth = if self.r.chance(600) { 0 } else { self.r.below(5) as u32 };
                t.faults.push(Fault::BankFail { nth });
                failing = true;
            }
            if !crash_used && self.r.chance(self.p.crash) {
                crash_used = true;
                let op = 1 + self.r.below(scale * 2);
                t.faults.push(Fault::Crash { op });
            }
            if self.r.chance(self.p.reenter) {
                let who = if self.r.chance(500) { t.from } else { self.actors() };
                let m = self.run.m.clone();
                let msg = if self.r.chance(450) {
                    // The same thing again from within.
                    self.same_again(&t).unwrap_or_else(|| self.one(&m.clone(), who))
                } else {
                    self.one(&m, who)
                };
                let nth = if self.r.chance(700) { 0 } else { self.r.below(4) as u32 };
                t.faults.push(Fault::Reenter { nth, who, msg: Box::new(msg), before: self.r.chance(500), propagate: self.r.chance(300) });
            }
            let mut again = None;
            if failing && self.r.chance(self.p.retry) {
                let mut c = t.clone();
                c.faults.clear();
                c.retry = true;
                again = Some(c);
            }
            out.push(t);
            if let Some(c) = again {
                if self.r.chance(700) {
                    out.push(c);
                } else {
                    self.mempool.push(c);
                }
            }
        }
        let mut dt = (self.now - self.last_block).max(1);
        self.last_block = self.now;
        if self.r.chance(self.p.clock_jump) {
            self.run.count("fault.clock_jump");
            dt += 1u64 << self.r.below(36);
        }
        self.emit(Step::Block { dt_ms: dt, txs: out });
        self.views.push_back(Rc::new(self.run.m.clone()));
        while self.views.len() as u64 > self.p.lag + 1 {
            self.views.pop_front();
        }
    }

    fn clear_chaos(&mut self) {
        let b: Vec<Who> = self.run.blocked.iter().copied().collect();
        let f: Vec<u8> = self.run.frozen.iter().copied().collect();
        for who in b {
            self.emit(Step::Block_ { who, on: false });
        }
        for denom in f {
            self.emit(Step::Freeze { denom, on: false });
        }
    }

    /// Pausing, resuming and fees: steered so that trading goes on most of the time.
    fn control(&mut self, txs: &mut Vec<Tx>) {
        let m = self.run.m.clone();
        let mut add = |me: &mut Gen, from: Who, msg: Msg| {
            let i = me.r.usize(txs.len() + 1);
            txs.insert(i, simple(from, msg));
        };
        let holder = |me: &mut Gen, m: &Model| -> Option<Who> {
            let v: Vec<Who> = [m.admin, m.moderator].iter().flatten().copied().collect();
            if v.is_empty() {
                None
            } else {
                Some(*me.r.pick(&v))
            }
        };
        if m.active && self.r.chance(self.p.pause) {
            match holder(self, &m) {
                Some(h) if self.r.chance(700) => add(self, h, Msg::Auth(AuthMsg::SetActive(false))),
                _ => add(self, W_POOL, Msg::GovSetActive(false)),
            }
            if self.r.chance(300) {
                // Resumed within the same block, or paused twice.
                let on = self.r.chance(700);
                add(self, W_POOL, Msg::GovSetActive(on));
            }
        } else if !m.active && !self.r.chance(self.p.paused_linger) {
            match holder(self, &m) {
                Some(h) if self.r.chance(600) => add(self, h, Msg::Auth(AuthMsg::SetActive(true))),
                _ => add(self, W_POOL, Msg::GovSetActive(true)),
            }
        }
        if self.r.chance(self.p.fee) {
            match m.admin {
                Some(a) => {
                    let msg = self.fee_msg();
                    add(self, a, Msg::Auth(msg));
                }
                None => add(self, W_POOL, Msg::GovTransferAdmin(W_GOV)),
            }
        }
    }

    fn fee_msg(&mut self) -> AuthMsg {
        if self.r.chance(300) {
            return AuthMsg::SetMakerFeeRecipient(self.recipient());
        }
        let f = match self.r.below(9) {
            0 => 0,
            1 => MAX_FEE,
            2 => MAX_FEE + 1,
            3 => MAX_FEE - 1,
            4 => 1,
            5 => ONE / 100,
            6 => self.r.u128_range(0, MAX_FEE * 2),
            7 => ONE / 1000,
            _ => self.r.u128_range(0, MAX_FEE),
        };
        AuthMsg::SetMakerFee(f)
    }

    fn recipient(&mut self) -> Who {
        if self.p.odd_recipients && self.r.chance(200) {
            return *self.r.pick(&[W_BOOK, W_INVALID, W_GOV]);
        }
        if self.r.chance(400) {
            W_FEE
        } else {
            W_USER0 + self.r.usize(self.p.cfg.users)
        }
    }

    // ------------------------------------------------------------ clients

    fn view(&mut self) -> Rc<Model> {
        let n = self.views.len();
        let i = if self.r.chance(500) { n - 1 } else { self.r.usize(n) };
        self.views[i].clone()
    }

    fn compose(&mut self, who: Who) -> Tx {
        let v = self.view();
        let n = if self.r.chance(self.p.multi) { 2 + self.r.usize(4) } else { 1 };
        let mut from = who;
        let mut msgs = vec![];
        for i in 0..n {
            let (f, m) = self.intent(&v, from, i == 0);
            from = f;
            msgs.push(m);
            if from == W_INVALID {
                // Only the pool module can name such a sender.
                break;
            }
        }
        let catch = n > 1 && self.r.chance(self.p.catch);
        Tx { from, msgs, catch, faults: vec![], retry: false, note: String::new() }
    }

    fn one(&mut self, v: &Model, who: Who) -> Msg {
        self.intent(v, who, false).1
    }

    fn intent(&mut self, v: &Model, who: Who, free: bool) -> (Who, Msg) {
        let mut w = self.p.weights;
        if v.orders.len() >= self.p.max_orders {
            w[W_PLACE] /= 8;
        }
        if v.orders.is_empty() {
            w[W_SWAP] /= 8;
            w[W_CLAIM] /= 8;
            w[W_CANCEL] /= 8;
            w[W_BATCH] /= 8;
        }
        w[W_PLACE] = w[W_PLACE].max(1);
        if self.p.cfg.whale > 0 && who == W_USER0 {
            // In and out again.
            let big = v.orders.values().find(|o| o.owner == who && o.unclaimed() == 0 && o.remainder() > self.p.cfg.whale / 16);
            if let Some(o) = big {
                if self.r.chance(600) {
                    return (who, Msg::Cancel { r: self.order_ref(o), funds: vec![] });
                }
            }
        }
        match self.r.weighted(&w) {
            W_SWAP => {
                let m = self.swap(v);
                (who, m)
            }
            W_CLAIM => {
                let mut who = who;
                let filled: Vec<&MOrder> = v.orders.values().filter(|o| o.unclaimed() > 0).collect();
                let r = if filled.is_empty() || self.r.chance(70) {
                    self.any_ref(v)
                } else {
                    let o = *self.r.pick(&filled);
                    if free && self.r.chance(600) {
                        who = o.owner;
                    }
                    self.order_ref(o)
                };
                (who, Msg::Claim { r, funds: vec![] })
            }
            W_BATCH => (who, self.batch(v)),
            W_CANCEL => {
                let mut who = who;
                let all: Vec<&MOrder> = v.orders.values().collect();
                let mine: Vec<&MOrder> = all.iter().copied().filter(|o| o.owner == who && o.unclaimed() == 0).collect();
                let r = if !mine.is_empty() && self.r.chance(800) {
                    let o = *self.r.pick(&mine);
                    self.order_ref(o)
                } else if !all.is_empty() {
                    let o = *self.r.pick(&all);
                    if free && self.r.chance(800) {
                        who = o.owner;
                    }
                    self.order_ref(o)
                } else {
                    self.any_ref(v)
                };
                (who, Msg::Cancel { r, funds: vec![] })
            }
            W_BADREF => (who, self.bad_ref(v)),
            W_BADPLACE => (who, self.bad_place(v, who)),
            W_BADSWAP => {
                let who = if free && self.r.chance(60) { W_INVALID } else { who };
                (who, self.bad_swap(v))
            }
            W_ROLE => self.role(v, who, free),
            W_DONATE => {
                let (denom, amt) = (self.r.below(3) as u8, 1 + self.r.below(1000) as u128);
                (who, Msg::Donate { denom, amt })
            }
            _ => (who, self.place(v, who)),
        }
    }

    fn tick(&mut self, v: &Model, bid: bool) -> i64 {
        if self.r.chance(self.p.wild_ticks) {
            return match self.r.below(4) {
                0 => MIN_TICK + self.r.range(0, 3),
                1 => MAX_TICK - self.r.range(0, 3),
                _ => self.r.range(MIN_TICK, MAX_TICK),
            };
        }
        if self.r.chance(150) {
            if let Some(b) = v.best(bid) {
                let d = self.r.range(-1, 1);
                return (b + d).clamp(MIN_TICK, MAX_TICK);
            }
        }
        let t = self.p.ticks.clone();
        if self.r.chance(400) && t.len() > 2 {
            // Asks up, bids down, as in an ordinary book.
            let h = t.len() / 2;
            return if bid { t[self.r.usize(h)] } else { t[h + self.r.usize(t.len() - h)] };
        }
        *self.r.pick(&t)
    }

    fn amount(&mut self, bid: bool, tick: i64) -> u128 {
        let a = self.p.amounts.clone();
        let cap = self.p.cfg.rich / 64;
        let x = match self.r.pick(&a).clone() {
            Amounts::Fixed(x) => x,
            Amounts::Upto(n) => 1 + self.r.u128_range(0, n - 1),
            Amounts::Log { lo, hi } => {
                let b = self.r.range(lo as i64, hi as i64) as u32;
                self.r.u128_range(1u128 << b, (1u128 << b).saturating_mul(2) - 1)
            }
            Amounts::Priced => {
                let p = price(tick.clamp(MIN_TICK, MAX_TICK));
                let k = 1 + self.r.below(30) as u128;
                let x = if bid { value_ceil(false, k, p) } else { value_ceil(true, k, p) };
                let x = sat_u128(x).min(cap);
                match self.r.below(4) {
                    0 => x + 1,
                    1 => x.saturating_sub(1),
                    2 => x + x / 2,
                    _ => x,
                }
            }
        };
        x.clamp(1, cap)
    }

    fn bounty(&mut self) -> Option<u128> {
        if !self.r.chance(self.p.bounty) {
            return if self.r.chance(50) { Some(0) } else { None };
        }
        Some(match self.r.below(6) {
            0 => MAX_BOUNTY,
            1 => MAX_BOUNTY - 1,
            2 => 1,
            3 => ONE / 1000,
            _ => self.r.u128_range(0, MAX_BOUNTY),
        })
    }

    fn place(&mut self, v: &Model, who: Who) -> Msg {
        let bid = self.r.chance(self.p.bid_bias);
        let tick = self.tick(v, bid);
        let mut qty = self.amount(bid, tick);
        if self.p.cfg.whale > 0 && who == W_USER0 && self.r.chance(700) {
            qty = self.p.cfg.whale / self.r.u128_range(2, 8) + self.r.below(2) as u128;
        }
        let bounty = self.bounty();
        Msg::Place { tag: self.tag(), tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] }
    }

    fn bad_place(&mut self, v: &Model, who: Who) -> Msg {
        let Msg::Place { tag, mut tick, bid, mut qty, mut bounty, mut funds } = self.place(v, who) else { unreachable!() };
        let d = bid as u8;
        for _ in 0..1 + self.r.below(2) {
            match self.r.below(15) {
                0 => tick = MAX_TICK + 1,
                1 => tick = MIN_TICK - 1,
                2 => tick = *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX / 2, MAX_TICK + 9_000_000, MIN_TICK - 9_000_000]),
                3 => {
                    qty = 0;
                    funds = if self.r.chance(500) { vec![] } else { vec![(d, 1)] };
                }
                4 => bounty = Some(MAX_BOUNTY + 1),
                5 => bounty = Some(*self.r.pick(&[ONE, ONE / 50, u128::MAX, ONE * 2])),
                6 => funds = vec![],
                7 => funds = vec![(1 - d, qty.max(1))],
                8 => funds = vec![(d, qty + 1)],
                9 => funds = vec![(d, qty.max(2) - 1)],
                10 => funds = vec![(d, qty.max(1)), (1 - d, 1)],
                11 => funds = vec![(d, qty.max(1)), (2, 1)],
                12 => funds = vec![(2, qty.max(1))],
                13 => tick = *self.r.pick(&[MAX_TICK, MIN_TICK]),
                _ => bounty = Some(MAX_BOUNTY),
            }
        }
        Msg::Place { tag, tick, bid, qty, bounty, funds }
    }

    fn order_ref(&self, o: &MOrder) -> Ref {
        // Tags are looked up from the newest; an order whose tag was reused is named directly.
        self.tag_of(o.id).map_or(Ref::Raw { tick: o.tick, id: o.id }, Ref::Tag)
    }

    fn tag_of(&self, id: u64) -> Option<u32> {
        self.run.tag_by_id.get(&id).copied()
    }

    fn any_ref(&mut self, v: &Model) -> Ref {
        let all: Vec<&MOrder> = v.orders.values().collect();
        if all.is_empty() || self.r.chance(200) {
            if self.next_tag > 1 && self.r.chance(700) {
                return Ref::Tag(1 + self.r.below(self.next_tag as u64) as u32);
            }
            let t = self.p.ticks.clone();
            return Ref::Raw { tick: *self.r.pick(&t), id: self.r.below(20) };
        }
        let o = *self.r.pick(&all);
        self.order_ref(o)
    }

    fn bad_ref(&mut self, v: &Model) -> Msg {
        let mut r = self.any_ref(v);
        let mut funds = vec![];
        match self.r.below(6) {
            0 | 1 => {
                if let Ref::Tag(tag) = r {
                    r = Ref::Off { tag, dt: self.r.range(-1, 1), di: self.r.range(-1, 1) };
                }
            }
            2 => r = Ref::Raw { tick: *self.r.pick(&[0, i64::MAX, i64::MIN, MIN_TICK, MAX_TICK + 1]), id: *self.r.pick(&[0, 1, u64::MAX]) },
            3 | 4 => {
                funds = vec![(self.r.below(3) as u8, 1 + self.r.below(5) as u128)];
                if self.r.chance(200) {
                    funds.push((self.r.below(3) as u8, 7));
                }
            }
            _ => {}
        }
        match self.r.below(4) {
            0 => Msg::Claim { r, funds },
            1 => {
                let Msg::Batch { mut rs, .. } = self.batch(v) else { unreachable!() };
                rs.push(r);
                Msg::Batch { rs, funds }
            }
            _ => Msg::Cancel { r, funds },
        }
    }

    fn batch(&mut self, v: &Model) -> Msg {
        let mut rs: Vec<Ref> = vec![];
        let filled: Vec<Ref> = v.orders.values().filter(|o| o.unclaimed() > 0).map(|o| self.order_ref(o)).collect();
        let open: Vec<Ref> = v.orders.values().map(|o| self.order_ref(o)).collect();
        let n = match self.r.below(8) {
            0 => 0,
            1 => 100,
            2 => 101 + self.r.usize(30),
            3 => 99,
            _ => 1 + self.r.usize(12),
        };
        for _ in 0..n {
            let k = self.r.below(10);
            let r = if k < 6 && !filled.is_empty() {
                self.r.pick(&filled).clone()
            } else if k < 8 && !open.is_empty() {
                self.r.pick(&open).clone()
            } else {
                self.any_ref(v)
            };
            rs.push(r.clone());
            if self.r.chance(80) {
                rs.push(r);
            }
        }
        if self.r.chance(300) && !filled.is_empty() {
            // Different claimable orders, preceded by entries that fail.
            let mut f = filled;
            self.r.shuffle(&mut f);
            f.truncate(n.max(1));
            let pad = if self.r.chance(500) { n.saturating_sub(f.len()) } else { 0 };
            rs.truncate(pad);
            for x in rs.iter_mut() {
                if self.r.chance(800) {
                    *x = Ref::Raw { tick: self.r.range(-3, 3), id: 1_000_000 + self.r.below(100) };
                }
            }
            rs.extend(f);
        }
        if n <= 100 {
            rs.truncate(100);
        }
        Msg::Batch { rs, funds: vec![] }
    }

    /// An input amount for which something interesting happens against the liquidity in view.
    fn swap_amount(&mut self, v: &Model, bid: bool, target: Option<i64>) -> u128 {
        let side = !bid;
        let mut ticks: Vec<i64> = v.sides.iter().filter(|((b, _), s)| *b == side && s.liq > 0).map(|((_, t), _)| *t).collect();
        if side {
            ticks.reverse();
        }
        if ticks.is_empty() || self.r.chance(60) {
            let t = self.p.ticks[0];
            return self.amount(bid, t);
        }
        let cap = self.p.cfg.rich / 8;
        let n = if self.r.chance(500) { 1 } else { 1 + self.r.usize(ticks.len()) };
        let mut sum = U256::zero();
        for (i, t) in ticks.iter().take(n).enumerate() {
            let s = &v.sides[&(side, *t)];
            let mut x = s.liq;
            if i + 1 == n {
                let live: Vec<u128> = s.live.iter().map(|id| v.orders[id].unfilled()).collect();
                match self.r.below(8) {
                    0 | 1 => {
                        // Up to an order boundary.
                        let k = 1 + self.r.usize(live.len());
                        x = live.iter().take(k).sum();
                    }
                    2 | 3 => {
                        // Into an order.
                        let k = self.r.usize(live.len());
                        x = live.iter().take(k).sum::<u128>() + self.r.u128_range(1, live[k]);
                    }
                    4 => x = self.r.u128_range(1, x),
                    5 => x = 1 + self.r.u128_range(0, 5.min(x)),
                    6 => x = x.saturating_sub(1).max(1),
                    _ => {}
                }
            }
            sum += value_ceil(!bid, x, price(*t));
        }
        let mut a = sat_u128(sum);
        match self.r.below(8) {
            0 => a = a.saturating_add(1),
            1 => a = a.saturating_sub(1),
            2 => a = a.saturating_add(self.r.below(10) as u128),
            3 if target.is_some() => a = a.saturating_mul(2),
            4 => {
                // What one unit at the last tick costs, short of or beyond.
                let last = ticks[n - 1];
                let unit = sat_u128(value_ceil(!bid, 1, price(last)));
                let d = self.r.u128_range(0, unit.min(cap));
                a = a.saturating_add(d);
            }
            _ => {}
        }
        a.clamp(1, cap)
    }

    fn swap(&mut self, v: &Model) -> Msg {
        // Prefer the direction that has liquidity.
        let (la, lb) = (v.liq[0] > 0, v.liq[1] > 0);
        let bid = if la && lb { self.r.chance(500) } else { la };
        let target = if self.r.chance(self.p.target) {
            let t = self.p.ticks.clone();
            let x = match self.r.below(8) {
                0 => *self.r.pick(&[MIN_TICK, MAX_TICK]),
                1 => v.best(!bid).unwrap_or(0),
                2 => v.best(!bid).unwrap_or(0) + if bid { -1 } else { 1 },
                3 => *self.r.pick(&t) + self.r.range(-1, 1),
                _ => *self.r.pick(&t),
            };
            Some(x.clamp(MIN_TICK, MAX_TICK))
        } else {
            None
        };
        let amt = self.swap_amount(v, bid, target);
        let quote = v.walk(bid, amt, target).ok().map(|s| s.out);
        let min_out = match (quote, self.r.below(6)) {
            (Some(q), 0 | 1) => q,
            (Some(q), 2) => q.saturating_add(1),
            (Some(q), 3) => q - q / 50,
            _ => 0,
        };
        Msg::Swap { d_in: bid as u8, d_out: !bid as u8, amt, min_out, fee: 0, target }
    }

    fn bad_swap(&mut self, v: &Model) -> Msg {
        let Msg::Swap { mut d_in, mut d_out, mut amt, mut min_out, mut fee, mut target } = self.swap(v) else { unreachable!() };
        match self.r.below(10) {
            0 => fee = 1,
            1 => fee = ONE / 100,
            2 => d_out = d_in,
            3 => d_in = d_out,
            4 => d_out = 2,
            5 => d_in = 2,
            6 => amt = 0,
            7 => target = Some(*self.r.pick(&[MAX_TICK + 1, MIN_TICK - 1, i64::MAX, i64::MIN])),
            8 => min_out = u128::MAX,
            _ => {
                amt = amt.saturating_mul(1 + self.r.below(1000) as u128).min(self.p.cfg.rich);
                if self.r.chance(self.p.overdraw) {
                    amt = self.p.cfg.rich.saturating_mul(8);
                }
            }
        }
        Msg::Swap { d_in, d_out, amt, min_out, fee, target }
    }

    fn same_again(&mut self, t: &Tx) -> Option<Msg> {
        let i = if t.msgs.is_empty() { return None } else { self.r.usize(t.msgs.len()) };
        let mut m = t.msgs[i].clone();
        if let Msg::Place { tag, .. } = &mut m {
            *tag = self.tag();
        }
        match (&m, self.r.below(4)) {
            (Msg::Claim { r, .. }, 0) => m = Msg::Cancel { r: r.clone(), funds: vec![] },
            (Msg::Cancel { r, .. }, 0) => m = Msg::Claim { r: r.clone(), funds: vec![] },
            (Msg::Claim { r, .. }, 1) => m = Msg::Batch { rs: vec![r.clone(), r.clone()], funds: vec![] },
            _ => {}
        }
        Some(m)
    }

    fn role(&mut self, v: &Model, who: Who, free: bool) -> (Who, Msg) {
        let some = |me: &mut Gen| -> Who {
            if me.r.chance(50) {
                W_INVALID
            } else if me.r.chance(150) {
                *me.r.pick(&[W_GOV, W_BREAKER, W_FEE])
            } else {
                W_USER0 + me.r.usize(me.p.cfg.users)
            }
        };
        if free && self.r.chance(150) {
            let x = some(self);
            let m = match self.r.below(6) {
                0 => Msg::GovRemoveAdmin,
                1 => Msg::GovSetActive(self.r.chance(700)),
                _ => Msg::GovTransferAdmin(x),
            };
            return (W_POOL, m);
        }
        let x = some(self);
        let a = match self.r.below(14) {
            0 | 1 => AuthMsg::TransferAdmin(x),
            2 => AuthMsg::CancelAdminTransfer,
            3 => AuthMsg::RejectAdminTransfer,
            4 | 5 => AuthMsg::ClaimAdmin,
            6 => {
                if self.r.chance(250) {
                    AuthMsg::RenounceAdminship
                } else {
                    AuthMsg::ClaimModerator
                }
            }
            7 | 8 => AuthMsg::OfferModerator(x),
            9 => AuthMsg::RejectModeratorOffer,
            10 => AuthMsg::ClaimModerator,
            11 => AuthMsg::SetActive(self.r.chance(if v.active { 700 } else { 850 })),
            _ => self.fee_msg(),
        };
        let mut from = who;
        if free {
            let natural = match &a {
                AuthMsg::ClaimAdmin | AuthMsg::RejectAdminTransfer => v.admin_offer,
                AuthMsg::ClaimModerator | AuthMsg::RejectModeratorOffer => v.mod_offer,
                AuthMsg::SetActive(_) if self.r.chance(500) => v.moderator,
                _ => v.admin,
            };
            let k = self.r.below(10);
            if k < 6 {
                from = natural.unwrap_or(who);
            } else if k < 9 {
                // Somebody with another role, past or present.
                let c: Vec<Who> = [v.admin, v.moderator, v.admin_offer, v.mod_offer, Some(W_GOV), Some(W_BREAKER)].iter().flatten().copied().collect();
                from = *self.r.pick(&c);
            }
        }
        (from, Msg::Auth(a))
    }
}

fn simple(from: Who, msg: Msg) -> Tx {
    Tx { from, msgs: vec![msg], catch: false, faults: vec![], retry: false, note: String::new() }
}

// ---------------------------------------------------------------- special histories

/// Spam at one tick: thousands of cancels in unfavourable orders.
fn spam(r: &mut Rng, run: &mut Runner, cfg: &Config, thorough: bool) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let mut emit = |run: &mut Runner, s: Step| {
        run.step(steps.len(), &s);
        steps.push(s);
    };
    emit(run, Step::Create { base: cfg.base.clone(), quote: cfg.quote.clone(), s_base: Supply::Amount(1), s_quote: Supply::Amount(1), oog: None });
    let bid = r.chance(500);
    let tick = *r.pick(&[0i64, 1, -5, 9_000_000, -9_000_001, 100_000]);
    let wide = r.chance(300);
    let breadth = *r.pick(&[97i64, 300, 600]);
    let n = if wide { 200 + r.usize(400) } else if thorough { 200 + r.usize(12_000) } else { 200 + r.usize(1500) };
    let small = r.chance(500);
    let mut tag = 0u32;
    let mut order: Vec<u32> = vec![];
    let users = cfg.users;
    let mut block: Vec<Tx> = vec![];
    let flush = |run: &mut Runner, emit: &mut dyn FnMut(&mut Runner, Step), block: &mut Vec<Tx>, r: &mut Rng| {
        emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs: std::mem::take(block) });
    };
    let mut dist: Vec<i64> = vec![];
    for i in 0..n {
        tag += 1;
        let qty = if small { 1 + r.below(3) as u128 } else { 1_000_000 + r.below(1000) as u128 };
        let t = if wide { tick + (i as i64 % breadth) * if bid { -3 } else { 3 } } else { tick };
        dist.push(t);
        block.push(simple(W_USER0 + i % users, Msg::Place { tag, tick: t, bid, qty, bounty: None, funds: vec![(bid as u8, qty)] }));
        order.push(tag);
        if block.len() >= 400 {
            flush(run, &mut emit, &mut block, r);
            if run.ended() {
                return steps;
            }
        }
    }
    flush(run, &mut emit, &mut block, r);
    // Leave a few at random to be filled.
    let keep = 1 + r.usize(20);
    match r.below(8) {
        0 => {}
        1 => order.reverse(),
        2 => r.shuffle(&mut order),
        3 => {
            // Outside in.
            let mut v = vec![];
            let (mut a, mut b) = (0usize, order.len() - 1);
            while a < b {
                v.push(order[a]);
                v.push(order[b]);
                a += 1;
                b -= 1;
            }
            order = v;
        }
        4 => {
            // Inside out.
            let mut v = vec![];
            let m = order.len() / 2;
            for i in 0..m {
                v.push(order[m - 1 - i]);
                v.push(order[m + i]);
            }
            order = v;
        }
        5 => {
            // Every other first, then the rest backwards.
            let mut v: Vec<u32> = order.iter().copied().step_by(2).collect();
            v.extend(order.iter().copied().skip(1).step_by(2).rev());
            order = v;
        }
        6 => {
            // Bit reversal.
            let bits = usize::BITS - (order.len() - 1).leading_zeros();
            let mut v: Vec<(usize, u32)> = order.iter().enumerate().map(|(i, t)| (i.reverse_bits() >> (usize::BITS - bits), *t)).collect();
            v.sort();
            order = v.into_iter().map(|x| x.1).collect();
        }
        _ => {
            // Blocks of ascending runs, blocks descending.
            let k = 3 + r.usize(40);
            let mut v: Vec<Vec<u32>> = order.chunks(k).map(|c| c.to_vec()).collect();
            v.reverse();
            order = v.concat();
        }
    }
    let spare: Vec<u32> = {
        let mut c = order.clone();
        r.shuffle(&mut c);
        c.truncate(keep);
        c
    };
    let swap_every = if r.chance(600) { 20 + r.usize(200) } else { usize::MAX };
    let place_more = r.chance(400);
    let two_sided = r.chance(300);
    let owner = |t: u32| W_USER0 + (t as usize - 1) % users;
    for (i, t) in order.iter().enumerate() {
        if run.ended() {
            return steps;
        }
        if spare.contains(t) {
            continue;
        }
        // An order that has been filled meanwhile is claimed, then cancelled.
        let filled = run.tags.get(t).and_then(|(k, id)| run.m.find(*k, *id)).map_or(false, |o| o.unclaimed() > 0);
        if filled {
            block.push(simple(owner(*t), Msg::Claim { r: Ref::Tag(*t), funds: vec![] }));
        }
        block.push(simple(owner(*t), Msg::Cancel { r: Ref::Tag(*t), funds: vec![] }));
        if place_more && i % 3 == 0 {
            tag += 1;
            let qty = 5;
            block.push(simple(owner(tag), Msg::Place { tag, tick: dist[i % dist.len()], bid, qty, bounty: None, funds: vec![(bid as u8, qty)] }));
        }
        if two_sided && i % 7 == 0 {
            tag += 1;
            let tk = if bid { tick + 1 } else { tick - 1 };
            block.push(simple(owner(tag), Msg::Place { tag, tick: tk, bid: !bid, qty: 3, bounty: None, funds: vec![(!bid as u8, 3)] }));
            if r.chance(700) {
                block.push(simple(owner(tag), Msg::Cancel { r: Ref::Tag(tag), funds: vec![] }));
            }
        }
        if i % swap_every == swap_every - 1 {
            flush(run, &mut emit, &mut block, r);
            let liq = run.m.liq[bid as usize];
            if liq > 4 {
                let x = 1 + r.u128_range(0, liq / 8);
                let amt = sat_u128(value_ceil(bid, x, price(tick)));
                block.push(simple(W_USER0, Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target: Some(if bid { MIN_TICK + 1 } else { MAX_TICK - 1 }) }));
                flush(run, &mut emit, &mut block, r);
                let claims: Vec<Ref> = run.m.orders.values().filter(|o| o.unclaimed() > 0).take(3).map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
                for c in claims {
                    block.push(simple(W_USER0 + r.usize(users), Msg::Claim { r: c, funds: vec![] }));
                }
            }
        }
        if block.len() >= 400 {
            flush(run, &mut emit, &mut block, r);
        }
    }
    flush(run, &mut emit, &mut block, r);
    // Fill what is left and claim it over the tree that has been built.
    for _ in 0..3 {
        if run.ended() {
            return steps;
        }
        let liq = run.m.liq[bid as usize];
        if liq > 0 {
            let x = 1 + r.u128_range(0, liq - 1);
            let amt = sat_u128(value_ceil(bid, x, price(tick))) + 1;
            block.push(simple(W_USER0, Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target: Some(if bid { MIN_TICK + 1 } else { MAX_TICK - 1 }) }));
        }
        tag += 1;
        block.push(simple(W_USER0, Msg::Place { tag, tick, bid, qty: 7, bounty: None, funds: vec![(bid as u8, 7)] }));
        flush(run, &mut emit, &mut block, r);
        let claims: Vec<Ref> = run.m.orders.values().filter(|o| o.unclaimed() > 0).take(30).map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
        for c in claims {
            block.push(simple(W_USER0 + r.usize(users), Msg::Claim { r: c, funds: vec![] }));
        }
        flush(run, &mut emit, &mut block, r);
    }
    let salt = r.next();
    emit(run, Step::Sweep { salt });
    steps
}

/// A ladder of very many price levels, walked by a few swaps.
fn ladder(r: &mut Rng, run: &mut Runner, cfg: &Config, thorough: bool) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let mut emit = |run: &mut Runner, s: Step| {
        if !run.ended() {
            run.step(steps.len(), &s);
            steps.push(s);
        }
    };
    emit(run, Step::Create { base: cfg.base.clone(), quote: cfg.quote.clone(), s_base: Supply::Amount(1), s_quote: Supply::Amount(1), oog: None });
    let bid = r.chance(500);
    let n = *r.pick(&[300i64, 520, 700, 1030, 1500]) * if thorough { 1 + r.below(4) as i64 } else { 1 };
    let center = *r.pick(&[0i64, 1, -5, 9_000_000, -9_000_001, 100_000, 40_000_000]);
    let spacing = *r.pick(&[1i64, 1, 3, 1000, 10_000]);
    let sign = if bid { -1 } else { 1 };
    let ticks: Vec<i64> = (0..n).map(|i| center + sign * i * spacing).filter(|t| *t > MIN_TICK && *t < MAX_TICK).collect();
    let users = cfg.users;
    let big = r.chance(500);
    let mut tag = 0u32;
    let mut block: Vec<Tx> = vec![];
    let mut order = ticks.clone();
    if r.chance(500) {
        r.shuffle(&mut order);
    }
    for t in &order {
        tag += 1;
        let qty = if big { 1_000_000 + r.below(1000) as u128 } else { 1 + r.below(5) as u128 };
        block.push(simple(W_USER0 + tag as usize % users, Msg::Place { tag, tick: *t, bid, qty, bounty: None, funds: vec![(bid as u8, qty)] }));
        if block.len() >= 400 {
            emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs: std::mem::take(&mut block) });
        }
    }
    emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs: std::mem::take(&mut block) });
    // Some levels are emptied again, so that the swap passes them.
    let gap = *r.pick(&[0u64, 0, 100, 900, 990]);
    for k in 1..=tag {
        if r.chance(gap) && k != tag {
            block.push(simple(W_USER0 + k as usize % users, Msg::Cancel { r: Ref::Tag(k), funds: vec![] }));
        }
    }
    emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs: std::mem::take(&mut block) });
    for _ in 0..2 + r.below(3) {
        if run.ended() {
            break;
        }
        let live: Vec<i64> = {
            let mut v: Vec<i64> = run.m.sides.iter().filter(|((b, _), s)| *b == bid && s.liq > 0).map(|((_, t), _)| *t).collect();
            if bid {
                v.reverse();
            }
            v
        };
        if live.is_empty() {
            break;
        }
        let upto = match r.below(4) {
            0 => live.len(),
            1 => 1 + r.usize(live.len()),
            _ => live.len() - r.usize(1 + live.len() / 8),
        };
        let mut sum = U256::zero();
        for t in live.iter().take(upto) {
            sum += value_ceil(bid, run.m.sides[&(bid, *t)].liq, price(*t));
        }
        let amt = sat_u128(sum).min(cfg.rich / 8).max(1);
        if r.chance(600) {
            emit(run, Step::Quote { bid: !bid, amt, fee: 0, odd: 0 });
        }
        let target = if r.chance(400) { Some(*r.pick(&live)) } else { None };
        let tx = simple(W_USER0 + r.usize(users), Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target });
        emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs: vec![tx] });
        if run.ended() {
            break;
        }
        let mut claims: Vec<Ref> = run.m.orders.values().filter(|o| o.unclaimed() > 0).map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
        r.shuffle(&mut claims);
        claims.truncate(r.usize(150));
        let mut txs: Vec<Tx> = claims.chunks(100).map(|c| simple(W_USER0, Msg::Batch { rs: c.to_vec(), funds: vec![] })).collect();
        for _ in 0..r.below(20) {
            tag += 1;
            txs.push(simple(W_USER0, Msg::Place { tag, tick: *r.pick(&ticks), bid, qty: 3, bounty: None, funds: vec![(bid as u8, 3)] }));
        }
        emit(run, Step::Block { dt_ms: 1 + r.exp(5000), txs });
    }
    let salt = r.next();
    emit(run, Step::Sweep { salt });
    steps
}

/// A book that has been in use for long: thousands of orders placed, few or many still open,
/// all over one tick (`narrow`) or many,
/// owners and ticks with more of them than any page, cap or small counter holds.
fn crowd(r: &mut Rng, run: &mut Runner, cfg: &Config, bulk: bool, narrow: bool, lists: bool, thorough: bool) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let mut emit = |run: &mut Runner, s: Step| {
        if !run.ended() {
            run.step(steps.len(), &s);
            steps.push(s);
        }
    };
    emit(run, Step::Create { base: cfg.base.clone(), quote: cfg.quote.clone(), s_base: Supply::Amount(1), s_quote: Supply::Amount(1), oog: None });
    let bulk = bulk || !narrow && thorough && r.chance(60);
    let n = match r.below(if bulk { 1 } else { 16 }) {
        _ if narrow => 5200 + r.usize(6000),
        _ if bulk => 65_600 + r.usize(500),
        0..=5 if !lists => 1100 + r.usize(1000),
        0..=12 => 4200 + r.usize(4000),
        _ => 10_050 + r.usize(8000),
    };
    // How many remain open, and how they spread over ticks, sides and owners.
    let keep = if bulk { usize::MAX } else if narrow { *r.pick(&[10usize, 30, 300]) } else if lists { *r.pick(&[1300usize, 2600, 2600, 5500]) } else { *r.pick(&[30usize, 300, 1300, 2600]) };
    let levels = if bulk { 1100 } else if narrow { 1 } else { *r.pick(&[1i64, 1, 2, 40, 300, 1100]) };
    let spacing = *r.pick(&[1i64, 1, 10, 1000]);
    let center = *r.pick(&[0i64, 1, -5, 9_000_000, -9_000_001, 100_000, 40_000_000]);
    let owners = if lists { *r.pick(&[1usize, 1, 2, cfg.users]) } else { *r.pick(&[1usize, 2, cfg.users]) };
    let two = !narrow && r.chance(400);
    let side = r.chance(500);
    let claimed = r.below(1000);
    let fast = r.below(if bulk { 30 } else { 300 });
    let mut tag = 0u32;
    let mut open: Vec<u32> = vec![];
    let mut block: Vec<Tx> = vec![];
    while (tag as usize) < n && !run.ended() {
        let size = 100 + r.usize(900);
        for _ in 0..size {
            tag += 1;
            let bid = side ^ (two && r.chance(300));
            let lv = r.below(levels as u64) as i64 * spacing;
            let tick = if bid { center - lv } else { center + lv };
            let most = if r.chance(100) { 1_000_000 } else { 40 };
            let qty = 1 + r.below(most) as u128;
            let bounty = if r.chance(100) { Some(ONE / 100) } else { None };
            let who = W_USER0 + r.usize(owners);
            block.push(simple(who, Msg::Place { tag, tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] }));
            if r.chance(fast) {
                block.push(simple(who, Msg::Cancel { r: Ref::Tag(tag), funds: vec![] }));
            } else {
                open.push(tag);
            }
        }
        emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs: std::mem::take(&mut block) });
        // Trim to the number that stays open: by swaps and claims, or by cancels.
        while open.len() > keep && !run.ended() {
            let k = if r.chance(300) { 0 } else { r.usize(open.len()) };
            let t = open.swap_remove(k);
            let Some((tick, id)) = run.tags.get(&t).copied() else { continue };
            let Some(o) = run.m.find(tick, id) else { continue };
            if o.unclaimed() > 0 {
                block.push(simple(W_USER0, Msg::Claim { r: Ref::Raw { tick, id }, funds: vec![] }));
            }
            if o.unfilled() > 0 {
                block.push(simple(o.owner, Msg::Cancel { r: Ref::Raw { tick, id }, funds: vec![] }));
            }
        }
        for _ in 0..r.below(3) {
            let bid = side ^ (two && r.chance(300));
            let Some(best) = run.m.best(bid) else { continue };
            let liq = run.m.sides.get(&(bid, best)).map_or(0, |s| s.liq);
            let amt = sat_u128(value_ceil(bid, 1 + r.u128_range(0, liq), price(best))).min(cfg.rich / 1000).max(1);
            block.push(simple(W_USER0 + r.usize(cfg.users), Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target: None }));
        }
        emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs: std::mem::take(&mut block) });
        if r.chance(claimed) && !run.ended() {
            let mut rs: Vec<Ref> = run.m.orders.values().filter(|o| o.unclaimed() > 0).map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
            r.shuffle(&mut rs);
            rs.truncate(1000);
            let txs: Vec<Tx> = rs.chunks(100).map(|c| simple(W_USER0, Msg::Batch { rs: c.to_vec(), funds: vec![] })).collect();
            emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs });
        }
        if r.chance(40) {
            emit(run, Step::Upgrade { mask: r.next() });
        }
    }
    for _ in 0..if bulk { 0 } else { 2 } {
        let salt = r.next();
        emit(run, Step::Sweep { salt });
    }
    if keep <= 300 {
        let salt = r.next();
        emit(run, Step::Drain { salt });
    }
    steps
}

/// A few large orders that are filled, and claimed, in very many small pieces, while others
/// come and go around them.
fn trickle(r: &mut Rng, run: &mut Runner, cfg: &Config) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let mut emit = |run: &mut Runner, s: Step| {
        if !run.ended() {
            run.step(steps.len(), &s);
            steps.push(s);
        }
    };
    emit(run, Step::Create { base: cfg.base.clone(), quote: cfg.quote.clone(), s_base: Supply::Amount(1), s_quote: Supply::Amount(1), oog: None });
    let bid = r.chance(500);
    let tick = *r.pick(&[0i64, 0, 1, -5, 5_000_000, -5_000_000, 9_000_000, -9_000_001, 27_123_456, -40_000_000]);
    let unit = match r.below(4) {
        0 => 1,
        1 => 1000,
        // One unit of the other side, or a bit more.
        _ => sat_u128(value_ceil(!bid, 1 + r.below(3) as u128, price(tick))).clamp(1, cfg.rich >> 40),
    };
    let rounds = 150 + r.usize(500);
    let mut tag = 0u32;
    let mut small: Vec<u32> = vec![];
    let mut txs: Vec<Tx> = vec![];
    let place = |r: &mut Rng, tag: &mut u32, qty: u128| {
        *tag += 1;
        let bounty = match r.below(4) {
            0 => Some(ONE / 100),
            1 => Some(r.below(ONE as u64 / 100) as u128),
            _ => None,
        };
        simple(W_USER0 + r.usize(cfg.users), Msg::Place { tag: *tag, tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] })
    };
    let giants = 1 + r.usize(3);
    for _ in 0..giants {
        for _ in 0..r.below(3) {
            let q = unit * (1 + r.below(20) as u128);
            txs.push(place(r, &mut tag, q));
            small.push(tag);
        }
        let q = unit * (rounds as u128) * (1 + r.below(4) as u128);
        txs.push(place(r, &mut tag, q));
    }
    if r.chance(500) {
        txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFee(r.below(ONE as u64 / 20 + 1) as u128))));
    }
    emit(run, Step::Block { dt_ms: 5000, txs });
    let claims = r.below(1000);
    let cancels = r.below(500);
    let fees = r.below(60);
    for _ in 0..rounds {
        if run.ended() {
            break;
        }
        let mut txs: Vec<Tx> = vec![];
        for _ in 0..1 + r.below(3) {
            if r.chance(cancels) {
                let q = unit * (1 + r.below(5) as u128);
                txs.push(place(r, &mut tag, q));
                small.push(tag);
            }
            if r.chance(cancels) && !small.is_empty() {
                let k = r.usize(small.len());
                let t = small.swap_remove(k);
                if let Some(o) = run.tags.get(&t).and_then(|(k, i)| run.m.find(*k, *i)) {
                    let (who, tick, id) = (o.owner, o.tick, o.id);
                    let m = if o.unfilled() > 0 && o.unclaimed() == 0 { Msg::Cancel { r: Ref::Raw { tick, id }, funds: vec![] } } else { Msg::Claim { r: Ref::Raw { tick, id }, funds: vec![] } };
                    txs.push(simple(who, m));
                }
            }
            let fill = unit * r.below(4) as u128 / 2;
            let amt = sat_u128(value_ceil(bid, fill, price(tick))).min(cfg.rich / 1000).max(1);
            txs.push(simple(W_USER0 + r.usize(cfg.users), Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target: None }));
            if r.chance(claims) {
                let mut rs: Vec<Ref> = run.m.orders.values().map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
                r.shuffle(&mut rs);
                rs.truncate(1 + r.usize(10));
                let who = W_USER0 + r.usize(cfg.users);
                if r.chance(500) {
                    txs.push(simple(who, Msg::Batch { rs, funds: vec![] }));
                } else if !rs.is_empty() {
                    txs.push(simple(who, Msg::Claim { r: rs.remove(0), funds: vec![] }));
                }
            }
            if r.chance(fees) {
                txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFee(r.below(ONE as u64 / 20 + 1) as u128))));
            }
        }
        r.shuffle(&mut txs);
        let dt_ms = if r.chance(20) { r.below(1 << 36) } else { 1 + r.exp(5000) };
        emit(run, Step::Block { dt_ms, txs });
    }
    let salt = r.next();
    emit(run, Step::Sweep { salt });
    emit(run, Step::Drain { salt });
    steps
}

/// Full batches: many orders that all carry a bounty are filled under a maker fee and collected
/// a hundred at a time, one or three transfers each.
fn feast(r: &mut Rng, run: &mut Runner, cfg: &Config) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let mut emit = |run: &mut Runner, s: Step| {
        if !run.ended() {
            run.step(steps.len(), &s);
            steps.push(s);
        }
    };
    emit(run, Step::Create { base: cfg.base.clone(), quote: cfg.quote.clone(), s_base: Supply::Amount(1), s_quote: Supply::Amount(1), oog: None });
    let side = r.chance(500);
    let two = r.chance(400);
    let levels = *r.pick(&[1i64, 1, 3, 20, 150]);
    let center = *r.pick(&[0i64, 1, -5, 2_000_000, -2_000_000, 9_000_000, -9_000_001]);
    let owners = *r.pick(&[1usize, 2, cfg.users]);
    let bounties = *r.pick(&[1000u64, 1000, 900, 500]);
    let mut tag = 0u32;
    for _ in 0..1 + r.usize(3) {
        let n = 90 + r.usize(200);
        let mut txs: Vec<Tx> = vec![];
        if r.chance(850) {
            txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFee(ONE / 1000 + r.below(ONE as u64 / 25) as u128))));
        } else if r.chance(500) {
            txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFee(0))));
        }
        if r.chance(300) {
            let who = W_USER0 + r.usize(cfg.users);
            txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFeeRecipient(who))));
        }
        let mut needs = [0u128; 2];
        for _ in 0..n {
            tag += 1;
            let bid = side ^ (two && r.chance(500));
            let lv = r.below(levels as u64) as i64;
            let tick = if bid { center - 1 - lv } else { center + lv };
            let qty = 3_000 + r.exp(100_000) as u128;
            let bounty = if r.chance(bounties) { Some(ONE / 1000 + r.below(ONE as u64 / 1000 * 9) as u128) } else { None };
            needs[bid as usize] += sat_u128(value_ceil(bid, qty, price(tick)));
            let who = W_USER0 + r.usize(owners);
            txs.push(simple(who, Msg::Place { tag, tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] }));
        }
        emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs });
        // Everything is bought, or nearly so.
        let mut txs: Vec<Tx> = vec![];
        for bid in [false, true] {
            let need = needs[bid as usize];
            let amt = if r.chance(600) { need } else { need / 1000 * (900 + r.below(100) as u128) };
            if amt > 0 {
                txs.push(simple(W_USER0 + r.usize(cfg.users), Msg::Swap { d_in: !bid as u8, d_out: bid as u8, amt, min_out: 0, fee: 0, target: Some(if bid { MIN_TICK } else { MAX_TICK } ) }));
            }
        }
        if r.chance(500) {
            r.shuffle(&mut txs);
        }
        emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs });
        // Two passes: what failed in the first is collected in the second.
        for _ in 0..2 {
            if run.ended() {
                break;
            }
            let mut rs: Vec<Ref> = run.m.orders.values().filter(|o| o.unclaimed() > 0).map(|o| Ref::Raw { tick: o.tick, id: o.id }).collect();
            if r.chance(600) {
                r.shuffle(&mut rs);
            }
            let mut txs: Vec<Tx> = vec![];
            while !rs.is_empty() {
                let k = *r.pick(&[100usize, 100, 100, 99, 101, 60]);
                let mut part: Vec<Ref> = rs.drain(..k.min(rs.len())).collect();
                if r.chance(200) {
                    let i = r.usize(part.len());
                    part[i] = Ref::Raw { tick: center, id: 1 << 40 };
                }
                let mut t = simple(W_USER0 + r.usize(cfg.users), Msg::Batch { rs: part, funds: vec![] });
                if r.chance(250) {
                    t.faults.push(Fault::BankFail { nth: r.below(310) as u32 });
                }
                txs.push(t);
            }
            emit(run, Step::Block { dt_ms: 1 + r.exp(20_000), txs });
        }
    }
    let salt = r.next();
    emit(run, Step::Sweep { salt });
    emit(run, Step::Drain { salt });
    steps
}

/// Book creation against a bank that may not answer.
fn creation(r: &mut Rng, run: &mut Runner) -> Vec<Step> {
    let mut steps: Vec<Step> = vec![];
    let names = ["uosmo", "uatom", "ibc/ABC", "factory/osmo1x/lp", "aaaa", "uosmo2", "UOSMO", LONG_NAMES.0, LONG_NAMES.1, "a.b:c_d-e/1", "ibc/ABD", "IBC/ABC", "c1a"];
    let sup = |r: &mut Rng| match r.below(9) {
        0 => Supply::Amount(0),
        1 => Supply::ContractErr,
        2 => Supply::SystemErr,
        3 => Supply::Garbage,
        4 => Supply::Amount(u128::MAX),
        5 => Supply::Amount(1),
        _ => Supply::Amount(1 + r.next() as u128),
    };
    for _ in 0..6 + r.below(20) {
        if run.ended() {
            break;
        }
        let base = r.pick(&names).to_string();
        let quote = if r.chance(150) { base.clone() } else { r.pick(&names).to_string() };
        let s = Step::Create { base, quote, s_base: sup(r), s_quote: sup(r), oog: if r.chance(150) { Some(1 + r.below(12)) } else { None } };
        run.step(steps.len(), &s);
        steps.push(s);
        if run.alive && !run.ended() && r.chance(500) {
            // It works: a little trade on the new book.
            let mut txs = vec![];
            for k in 0..3u32 {
                let bid = r.chance(500);
                let qty = 1 + r.below(50) as u128;
                txs.push(simple(W_USER0, Msg::Place { tag: k + 1, tick: r.range(-3, 3), bid, qty, bounty: None, funds: vec![(bid as u8, qty)] }));
            }
            let (d_in, d_out) = if r.chance(500) { (0, 1) } else { (1, 0) };
            txs.push(simple(W_USER0 + 1, Msg::Swap { d_in, d_out, amt: 3, min_out: 0, fee: 0, target: None }));
            txs.push(simple(W_GOV, Msg::Auth(AuthMsg::SetMakerFee(ONE / 100))));
            txs.push(simple(W_BREAKER, Msg::Auth(AuthMsg::SetActive(false))));
            let s = Step::Block { dt_ms: 5000, txs };
            run.step(steps.len(), &s);
            steps.push(s);
        }
    }
    steps
}

/// Runs on a thread of its own, so that nothing code under test keeps per thread outlives a run.
pub fn isolated<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, f).expect("thread");
        match h.join() {
            Ok(x) => x,
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}

/// One complete run.
pub fn simulate(prop: &str, focus: &str, seed: u64, thorough: bool) -> (Runner, Trace) {
    let mut r = Rng::new(seed);
    let mut p = Profile::draw(prop, &mut r, thorough);
    if prop == "C16" {
        p.cfg.gas = true;
    }
    let cfg = p.cfg.clone();
    let mut cfg2 = cfg.clone();
    // For trying out one kind of history only.
    let only = std::env::var("OBSIM_ONLY").unwrap_or_default();
    let kind = match (seed & 255, only.as_str()) {
        (1, _) | (_, "crowd") => "crowd",
        (6, _) | (_, "narrow") => "narrow",
        (7..=8, _) | (_, "trickle") => "trickle",
        (9..=11, _) | (_, "feast") => "feast",
        (2..=4, _) | (_, "ladder") => "ladder",
        (_, "bulk") => "bulk",
        // The last of these takes a while.
        (5, _) if prop == "C15" || prop == "C20" => "bulk",
        _ => "",
    };
    if kind == "ladder" && matches!(prop, "C05" | "C07" | "C08" | "C09" | "C10" | "C16" | "C17" | "C21") {
        cfg2.whale = 0;
        cfg2.sibling = 0;
        cfg2.inv_every = 0;
        let mut run = Runner::new(&cfg2, focus);
        run.count("ladder");
        let steps = ladder(&mut r, &mut run, &cfg2, thorough);
        run.finish();
        let t = Trace { property: prop.to_string(), run_seed: seed, cfg: cfg2, steps, violation: run.viol.clone() };
        return (run, t);
    }
    if matches!(kind, "crowd" | "narrow" | "bulk") && prop != "C22" && prop != "C16" {
        cfg2.whale = 0;
        cfg2.sibling = 0;
        cfg2.inv_every = 0;
        cfg2.every = *r.pick(&[50, 200, 1000]);
        let mut run = Runner::new(&cfg2, focus);
        run.count("crowd");
        let steps = crowd(&mut r, &mut run, &cfg2, kind == "bulk", kind == "narrow", prop == "C09", thorough);
        run.finish();
        let t = Trace { property: prop.to_string(), run_seed: seed, cfg: cfg2, steps, violation: run.viol.clone() };
        return (run, t);
    }
    if matches!(kind, "trickle" | "feast") && prop != "C22" && prop != "C16" {
        cfg2.whale = 0;
        cfg2.sibling = 0;
        cfg2.inv_every = *r.pick(&[0, 1, 10]);
        let mut run = Runner::new(&cfg2, focus);
        run.count(kind);
        let steps = if kind == "feast" { feast(&mut r, &mut run, &cfg2) } else { trickle(&mut r, &mut run, &cfg2) };
        run.finish();
        let t = Trace { property: prop.to_string(), run_seed: seed, cfg: cfg2, steps, violation: run.viol.clone() };
        return (run, t);
    }
    let special = match prop {
        "C16" => r.chance(700),
        "C17" | "C18" => r.chance(20),
        "C22" => true,
        _ => false,
    };
    if special {
        cfg2.whale = 0;
        cfg2.sibling = 0;
    }
    if prop != "C22" && special {
        cfg2.inv_every = 0;
    }
    let mut run = Runner::new(&cfg2, focus);
    let steps = if special {
        if prop != "C22" {
            spam(&mut r, &mut run, &cfg2, thorough)
        } else {
            creation(&mut r, &mut run)
        }
    } else {
        let g = Gen::new(p, r, &mut run);
        g.run()
    };
    run.finish();
    let t = Trace { property: prop.to_string(), run_seed: seed, cfg: cfg2, steps, violation: run.viol.clone() };
    (run, t)
}

/// Executes a recorded history.
pub fn replay(t: &Trace, focus: &str) -> Runner {
    let mut run = Runner::new(&t.cfg, focus);
    for (i, s) in t.steps.iter().enumerate() {
        if run.ended() {
            break;
        }
        run.step(i, s);
    }
    run.finish();
    run
}
