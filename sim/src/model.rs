//! Reference model: plain first-come-first-served queues per tick, exact integer arithmetic and
//! a role state machine. Deliberately simple; shares no code with the contract.
use crate::math::*;
use crate::trace::*;
use std::collections::{BTreeMap, BTreeSet};

pub const W_GOV: Who = 0;
pub const W_BREAKER: Who = 1;
pub const W_FEE: Who = 2;
pub const W_POOL: Who = 3;
pub const W_BOOK: Who = 4;
pub const W_INVALID: Who = 5;
pub const W_USER0: Who = 6;

pub const MAX_BOUNTY: u128 = ONE / 100;
pub const MAX_FEE: u128 = ONE / 20;
pub const MAX_BATCH: usize = 100;

#[derive(Clone, Debug, PartialEq)]
pub struct MOrder {
    pub id: u64,
    pub tick: i64,
    pub bid: bool,
    pub owner: Who,
    pub placed: u128,
    /// Filled in total, and the part of it already claimed.
    pub filled: u128,
    pub claimed: u128,
    /// Amount placed before it at its tick and direction, ever.
    pub start: U256,
    pub bounty: Option<u128>,
    pub placed_at: u64,
}
impl MOrder {
    pub fn remainder(&self) -> u128 {
        self.placed - self.claimed
    }
    pub fn unclaimed(&self) -> u128 {
        self.filled - self.claimed
    }
    pub fn unfilled(&self) -> u128 {
        self.placed - self.filled
    }
    pub fn deposit(&self) -> u8 {
        if self.bid {
            1
        } else {
            0
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MSide {
    pub placed: U256,
    pub liq: u128,
    /// Open orders with an unfilled part, in placement order.
    pub live: BTreeSet<u64>,
    pub cancels: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub orders: BTreeMap<u64, MOrder>,
    /// Open orders in listing order.
    pub index: BTreeSet<(i64, u64)>,
    /// Keyed by (is bid, tick).
    pub sides: BTreeMap<(bool, i64), MSide>,
    pub ticks: BTreeSet<i64>,
    pub cancels_at: BTreeMap<i64, u64>,
    pub max_id: Option<u64>,
    pub active: bool,
    pub ever_paused: bool,
    pub fee: u128,
    pub recipient: Who,
    pub admin: Option<Who>,
    pub admin_offer: Option<Who>,
    pub moderator: Option<Who>,
    pub mod_offer: Option<Who>,
    /// The tick that must be advertised exactly, per side (ask, bid), when known.
    pub exact: [Option<i64>; 2],
    /// Advertised ticks as the placements and swaps so far imply them.
    pub ptr: [i64; 2],
    pub liq: [u128; 2],
}

pub struct Ctx<'a> {
    pub blocked: &'a BTreeSet<Who>,
    pub frozen: &'a BTreeSet<u8>,
    pub time: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ClaimP {
    pub id: u64,
    pub tick: i64,
    pub filled: u128,
    pub gross: u128,
    pub owner_amt: u128,
    pub bounty: u128,
    pub fee: u128,
    pub left: u128,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SwapP {
    pub bid: bool,
    pub fills: Vec<(i64, u128)>,
    pub out: u128,
    pub refund: u128,
    /// Ticks with liquidity looked at.
    pub visited: u64,
    /// Stopped because the rest could not buy one unit.
    pub dust: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Effect {
    None,
    Place { tick: i64, bid: bool, qty: u128, bounty: Option<u128>, owner: Who, at: u64 },
    Cancel { id: u64 },
    Claims(Vec<ClaimP>),
    Swap(SwapP),
    Role(Box<Roles>),
    Active(bool),
    Fee(u128),
    Recipient(Who),
    Donate,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Roles {
    pub admin: Option<Who>,
    pub admin_offer: Option<Who>,
    pub moderator: Option<Who>,
    pub mod_offer: Option<Who>,
}

#[derive(Clone, Debug)]
pub struct Pred {
    /// Why the message must be refused.
    pub reject: Option<&'static str>,
    pub effect: Effect,
    pub sends: BTreeMap<(Who, u8), u128>,
    /// One of the sends cannot be delivered.
    pub undeliverable: bool,
}
impl Pred {
    fn no(why: &'static str) -> Pred {
        Pred { reject: Some(why), effect: Effect::None, sends: BTreeMap::new(), undeliverable: false }
    }
    fn yes(effect: Effect) -> Pred {
        Pred { reject: None, effect, sends: BTreeMap::new(), undeliverable: false }
    }
    pub fn succeeds(&self) -> bool {
        self.reject.is_none() && !self.undeliverable
    }
}

pub fn norm(c: &Coins) -> Coins {
    let mut m: BTreeMap<u8, u128> = BTreeMap::new();
    for (d, a) in c {
        if *a > 0 {
            *m.entry(*d).or_default() += *a;
        }
    }
    m.into_iter().collect()
}

impl Model {
    pub fn new() -> Model {
        Model {
            orders: BTreeMap::new(),
            index: BTreeSet::new(),
            sides: BTreeMap::new(),
            ticks: BTreeSet::new(),
            cancels_at: BTreeMap::new(),
            max_id: None,
            active: true,
            ever_paused: false,
            fee: 0,
            recipient: W_FEE,
            admin: Some(W_GOV),
            admin_offer: None,
            moderator: Some(W_BREAKER),
            mod_offer: None,
            exact: [None, None],
            ptr: [MAX_TICK, MIN_TICK],
            liq: [0, 0],
        }
    }

    pub fn find(&self, tick: i64, id: u64) -> Option<&MOrder> {
        self.orders.get(&id).filter(|o| o.tick == tick)
    }

    pub fn at_tick(&self, tick: i64) -> impl Iterator<Item = &MOrder> + '_ {
        self.index.range((tick, 0)..=(tick, u64::MAX)).map(|(_, id)| &self.orders[id])
    }

    /// Best tick holding unfilled liquidity.
    pub fn best(&self, bid: bool) -> Option<i64> {
        if bid {
            self.sides.range((true, i64::MIN)..=(true, i64::MAX)).rev().find(|(_, s)| s.liq > 0).map(|((_, t), _)| *t)
        } else {
            self.sides.range((false, i64::MIN)..=(false, i64::MAX)).find(|(_, s)| s.liq > 0).map(|((_, t), _)| *t)
        }
    }

    pub fn walk(&self, bid: bool, amt: u128, target: Option<i64>) -> Result<SwapP, &'static str> {
        let mut p = SwapP { bid, ..Default::default() };
        let mut q = amt;
        let mut out: u128 = 0;
        // A buyer pays the other denomination as a resting bid would: same conversion.
        let mut last = ONE;
        let mut step = |tick: i64, s: &MSide| -> bool {
            if s.liq == 0 {
                return true;
            }
            p.visited += 1;
            let pr = price(tick);
            last = pr;
            let can = value_floor(bid, q, pr);
            if can.is_zero() {
                p.dust = q;
                q = 0;
                return false;
            }
            let fill = if can < U256::from(s.liq) { sat_u128(can) } else { s.liq };
            let cost = sat_u128(value_ceil(!bid, fill, pr));
            q -= cost;
            out += fill;
            p.fills.push((tick, fill));
            true
        };
        if bid {
            let hi = target.unwrap_or(MAX_TICK);
            for ((_, t), s) in self.sides.range((false, i64::MIN)..=(false, hi)) {
                if !step(*t, s) {
                    break;
                }
            }
        } else {
            let lo = target.unwrap_or(MIN_TICK);
            for ((_, t), s) in self.sides.range((true, lo)..=(true, i64::MAX)).rev() {
                if !step(*t, s) {
                    break;
                }
            }
        }
        let full = match target {
            None => true,
            Some(t) => {
                if bid {
                    t == MAX_TICK
                } else {
                    t == MIN_TICK
                }
            }
        };
        if full && !value_floor(bid, q, last).is_zero() {
            return Err("liquidity");
        }
        p.out = out;
        p.refund = q;
        Ok(p)
    }

    fn claim_of(&self, tick: i64, id: u64) -> Result<ClaimP, &'static str> {
        let o = self.find(tick, id).ok_or("unknown")?;
        let filled = o.unclaimed();
        if filled == 0 {
            return Err("unfilled");
        }
        let gross = value_floor(o.bid, filled, price(tick));
        let bounty = share(gross, o.bounty.unwrap_or(0));
        let fee = share(gross, self.fee);
        Ok(ClaimP {
            id,
            tick,
            filled,
            gross: sat_u128(gross),
            owner_amt: sat_u128(gross - bounty - fee),
            bounty: sat_u128(bounty),
            fee: sat_u128(fee),
            left: o.remainder() - filled,
        })
    }

    fn add_claim_sends(&self, c: &ClaimP, from: Who, sends: &mut BTreeMap<(Who, u8), u128>) {
        let o = &self.orders[&c.id];
        let d = 1 - o.deposit();
        for (w, a) in [(o.owner, c.owner_amt), (from, c.bounty), (self.recipient, c.fee)] {
            if a > 0 {
                *sends.entry((w, d)).or_default() += a;
            }
        }
    }

    /// What `msg`, with all references resolved, must do now.
    pub fn predict(&self, msg: &Msg, from: Who, ctx: &Ctx) -> Pred {
        let mut p = self.predict_inner(msg, from, ctx);
        p.undeliverable = p.reject.is_none()
            && p.sends.keys().any(|(w, d)| *w == W_INVALID || ctx.blocked.contains(w) || ctx.frozen.contains(d));
        p
    }

    fn predict_inner(&self, msg: &Msg, from: Who, ctx: &Ctx) -> Pred {
        match msg {
            Msg::Place { tick, bid, qty, bounty, funds, .. } => {
                if !self.active {
                    return Pred::no("paused");
                }
                if *tick < MIN_TICK || *tick > MAX_TICK {
                    return Pred::no("tick");
                }
                if *qty == 0 {
                    return Pred::no("quantity");
                }
                if bounty.map_or(false, |b| b > MAX_BOUNTY) {
                    return Pred::no("bounty");
                }
                if norm(funds) != vec![(if *bid { 1u8 } else { 0u8 }, *qty)] {
                    return Pred::no("funds");
                }
                Pred::yes(Effect::Place { tick: *tick, bid: *bid, qty: *qty, bounty: *bounty, owner: from, at: ctx.time })
            }
            Msg::Cancel { r, funds } => {
                if !self.active {
                    return Pred::no("paused");
                }
                if !norm(funds).is_empty() {
                    return Pred::no("funds");
                }
                let (tick, id) = raw(r);
                let Some(o) = self.find(tick, id) else { return Pred::no("unknown") };
                if o.owner != from {
                    return Pred::no("owner");
                }
                if o.unclaimed() > 0 {
                    return Pred::no("filled");
                }
                let mut p = Pred::yes(Effect::Cancel { id });
                p.sends.insert((from, o.deposit()), o.remainder());
                p
            }
            Msg::Claim { r, funds } => {
                if !self.active {
                    return Pred::no("paused");
                }
                if !norm(funds).is_empty() {
                    return Pred::no("funds");
                }
                let (tick, id) = raw(r);
                match self.claim_of(tick, id) {
                    Err(e) => Pred::no(e),
                    Ok(c) => {
                        let mut sends = BTreeMap::new();
                        self.add_claim_sends(&c, from, &mut sends);
                        let mut p = Pred::yes(Effect::Claims(vec![c]));
                        p.sends = sends;
                        p
                    }
                }
            }
            Msg::Batch { rs, funds } => {
                if !self.active {
                    return Pred::no("paused");
                }
                if !norm(funds).is_empty() {
                    return Pred::no("funds");
                }
                if rs.len() > MAX_BATCH {
                    return Pred::no("batch");
                }
                let mut done = BTreeSet::new();
                let mut sends = BTreeMap::new();
                let mut cs = vec![];
                for r in rs {
                    let (tick, id) = raw(r);
                    if done.contains(&id) {
                        continue;
                    }
                    if let Ok(c) = self.claim_of(tick, id) {
                        done.insert(id);
                        self.add_claim_sends(&c, from, &mut sends);
                        cs.push(c);
                    }
                }
                let mut p = Pred::yes(Effect::Claims(cs));
                p.sends = sends;
                p
            }
            Msg::Auth(a) => self.predict_auth(a, from),
            Msg::Swap { d_in, d_out, amt, min_out, fee, target } => {
                if !self.active {
                    return Pred::no("paused");
                }
                if *fee != 0 {
                    return Pred::no("swap_fee");
                }
                let bid = match (*d_in, *d_out) {
                    (1, 0) => true,
                    (0, 1) => false,
                    _ => return Pred::no("denom"),
                };
                if from == W_INVALID {
                    return Pred::no("sender");
                }
                if *amt == 0 {
                    return Pred::no("zero_in");
                }
                if target.map_or(false, |t| t < MIN_TICK || t > MAX_TICK) {
                    return Pred::no("target");
                }
                let s = match self.walk(bid, *amt, *target) {
                    Err(e) => return Pred::no(e),
                    Ok(s) => s,
                };
                if s.out == 0 {
                    return Pred::no("zero_out");
                }
                if s.out < *min_out {
                    return Pred::no("minimum");
                }
                let (out, refund) = (s.out, s.refund);
                let mut p = Pred::yes(Effect::Swap(s));
                p.sends.insert((from, *d_out), out);
                if refund > 0 {
                    p.sends.insert((from, *d_in), refund);
                }
                p
            }
            Msg::GovTransferAdmin(w) => {
                if *w == W_INVALID {
                    return Pred::no("address");
                }
                let mut r = self.roles();
                r.admin = Some(*w);
                r.admin_offer = None;
                Pred::yes(Effect::Role(Box::new(r)))
            }
            Msg::GovRemoveAdmin => {
                let mut r = self.roles();
                r.admin = None;
                r.admin_offer = None;
                Pred::yes(Effect::Role(Box::new(r)))
            }
            Msg::GovSetActive(b) => Pred::yes(Effect::Active(*b)),
            Msg::Donate { .. } => Pred::yes(Effect::Donate),
        }
    }

    pub fn roles(&self) -> Roles {
        Roles {
            admin: self.admin,
            admin_offer: self.admin_offer,
            moderator: self.moderator,
            mod_offer: self.mod_offer,
        }
    }

    fn predict_auth(&self, a: &AuthMsg, from: Who) -> Pred {
        let me = Some(from);
        let is_admin = self.admin == me;
        let is_mod = self.moderator == me;
        let mut r = self.roles();
        let ok = match a {
            AuthMsg::TransferAdmin(w) => {
                r.admin_offer = Some(*w);
                is_admin && *w != W_INVALID
            }
            AuthMsg::CancelAdminTransfer => {
                r.admin_offer = None;
                is_admin
            }
            AuthMsg::RejectAdminTransfer => {
                r.admin_offer = None;
                self.admin_offer == me
            }
            AuthMsg::ClaimAdmin => {
                r.admin_offer = None;
                r.admin = me;
                self.admin_offer == me
            }
            AuthMsg::RenounceAdminship => {
                r.admin = None;
                is_admin
            }
            AuthMsg::OfferModerator(w) => {
                r.mod_offer = Some(*w);
                is_admin && *w != W_INVALID
            }
            AuthMsg::RejectModeratorOffer => {
                r.mod_offer = None;
                self.mod_offer == me
            }
            AuthMsg::ClaimModerator => {
                r.mod_offer = None;
                r.moderator = me;
                self.mod_offer == me
            }
            AuthMsg::SetActive(b) => {
                return if is_admin || is_mod { Pred::yes(Effect::Active(*b)) } else { Pred::no("role") }
            }
            AuthMsg::SetMakerFee(f) => {
                return if !is_admin {
                    Pred::no("role")
                } else if *f > MAX_FEE {
                    Pred::no("fee")
                } else {
                    Pred::yes(Effect::Fee(*f))
                }
            }
            AuthMsg::SetMakerFeeRecipient(w) => {
                return if !is_admin {
                    Pred::no("role")
                } else if *w == W_INVALID {
                    Pred::no("address")
                } else {
                    Pred::yes(Effect::Recipient(*w))
                }
            }
        };
        if ok {
            Pred::yes(Effect::Role(Box::new(r)))
        } else {
            Pred::no("role")
        }
    }

    /// Applies an effect. `new_id` is the identifier the book reported for a placement; `seen` the
    /// ticks advertised (ask, bid) when last looked at.
    pub fn apply(&mut self, e: &Effect, new_id: Option<u64>, seen: [i64; 2]) {
        match e {
            Effect::None | Effect::Donate => {}
            Effect::Place { tick, bid, qty, bounty, owner, at } => {
                let id = new_id.expect("id");
                let s = self.sides.entry((*bid, *tick)).or_default();
                let o = MOrder {
                    id,
                    tick: *tick,
                    bid: *bid,
                    owner: *owner,
                    placed: *qty,
                    filled: 0,
                    claimed: 0,
                    start: s.placed,
                    bounty: *bounty,
                    placed_at: *at,
                };
                s.placed += U256::from(*qty);
                s.liq += *qty;
                s.live.insert(id);
                self.liq[*bid as usize] += *qty;
                self.orders.insert(id, o);
                self.index.insert((*tick, id));
                self.ticks.insert(*tick);
                self.max_id = Some(self.max_id.map_or(id, |m| m.max(id)));
                let better = |a: i64, b: i64| if *bid { a > b } else { a < b };
                let i = *bid as usize;
                if better(*tick, self.ptr[i]) {
                    self.ptr[i] = *tick;
                    self.exact[i] = if better(*tick, seen[i]) { Some(*tick) } else { None };
                }
            }
            Effect::Cancel { id } => {
                let o = self.orders.remove(id).unwrap();
                self.index.remove(&(o.tick, *id));
                let s = self.sides.get_mut(&(o.bid, o.tick)).unwrap();
                s.live.remove(id);
                s.liq -= o.unfilled();
                s.cancels += 1;
                *self.cancels_at.entry(o.tick).or_default() += 1;
                self.liq[o.bid as usize] -= o.unfilled();
                self.exact[o.bid as usize] = None;
            }
            Effect::Claims(cs) => {
                for c in cs {
                    let o = self.orders.get_mut(&c.id).unwrap();
                    o.claimed += c.filled;
                    if o.remainder() == 0 {
                        self.orders.remove(&c.id);
                        self.index.remove(&(c.tick, c.id));
                    }
                }
            }
            Effect::Swap(s) => {
                let side = !s.bid;
                for (t, f) in &s.fills {
                    self.fill(side, *t, *f);
                }
                if let Some((t, _)) = s.fills.last() {
                    self.ptr[side as usize] = *t;
                    self.exact[side as usize] =
                        if self.sides[&(side, *t)].liq > 0 { Some(*t) } else { None };
                }
            }
            Effect::Role(r) => {
                self.admin = r.admin;
                self.admin_offer = r.admin_offer;
                self.moderator = r.moderator;
                self.mod_offer = r.mod_offer;
            }
            Effect::Active(b) => {
                self.active = *b;
                self.ever_paused |= !*b;
            }
            Effect::Fee(f) => self.fee = *f,
            Effect::Recipient(w) => self.recipient = *w,
        }
    }

    /// First come, first served.
    fn fill(&mut self, bid: bool, tick: i64, amt: u128) {
        let s = self.sides.get_mut(&(bid, tick)).unwrap();
        s.liq -= amt;
        self.liq[bid as usize] -= amt;
        let mut left = amt;
        while left > 0 {
            let id = *s.live.iter().next().expect("liquidity without orders");
            let o = self.orders.get_mut(&id).unwrap();
            let f = left.min(o.unfilled());
            o.filled += f;
            left -= f;
            if o.unfilled() == 0 {
                s.live.remove(&id);
            }
        }
    }

    /// What is owed in (base, quote).
    pub fn owed(&self) -> [U256; 2] {
        let mut v = [U256::zero(), U256::zero()];
        for o in self.orders.values() {
            let d = o.deposit() as usize;
            v[d] += U256::from(o.unfilled());
            v[1 - d] += value_floor(o.bid, o.unclaimed(), price(o.tick));
        }
        v
    }
}

pub fn raw(r: &Ref) -> (i64, u64) {
    match r {
        Ref::Raw { tick, id } => (*tick, *id),
        _ => panic!("unresolved reference"),
    }
}
