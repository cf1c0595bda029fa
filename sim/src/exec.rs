//! Executes the steps of a history on the simulated chain and judges every outcome.
use crate::chain::*;
use crate::math::*;
use crate::model::*;
use crate::rng::{hash_bytes, Rng};
use crate::trace::*;
use cosmwasm_std::{Addr, Coin, Decimal, Decimal256, Uint128};
use std::collections::{BTreeMap, BTreeSet};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::{LimitOrder, OrderDirection, Orderbook};

pub type Counts = BTreeMap<String, u64>;

/// A concrete operation as it reached the state machine: what a second node would be given.
#[derive(Clone, Debug)]
pub enum RawOp {
    Create { base: String, quote: String, supply: BTreeMap<String, Supply>, fuse: u64 },
    Header { height: u64, time_ns: u64 },
    Tx { idx: Option<u32>, from: Who, msgs: Vec<Msg>, catch: bool, plan: Plan, fuse: u64 },
    Bank { blocked: BTreeSet<String>, frozen: BTreeSet<String> },
    Upgrade { mask: u64 },
    Commit,
}

pub struct Runner {
    pub cfg: Config,
    pub focus: String,
    sib: Option<World>,
    pub w: World,
    pub m: Model,
    pub tags: BTreeMap<u32, (i64, u64)>,
    /// Only for the generator: the tag an order was placed under.
    pub tag_by_id: BTreeMap<u64, u32>,
    pub alive: bool,
    pub blocked: BTreeSet<Who>,
    pub frozen: BTreeSet<u8>,
    pub counts: Counts,
    pub viol: Option<Violation>,
    /// Ended by a contradiction of a property that is not under check.
    pub foreign: Option<Violation>,
    pub step_no: usize,
    pub seen: [i64; 2],
    pub log: Vec<RawOp>,
    pub hashes: Vec<u64>,
    pub digests: BTreeSet<u64>,
    pub blocks: u64,
    pub sim_ms: u64,
    pub retrying: bool,
    /// The outcome being compared has been rolled back since.
    gone: bool,
    judged: u64,
    pub gas_max: BTreeMap<String, (u64, u64)>,
    pub ever_msgs: u64,
    pub trace_log: Option<Vec<String>>,
}

fn whole(d: Decimal256) -> Option<U256> {
    let one = U256::from(ONE);
    if (d.atomics() % one).is_zero() {
        Some(d.atomics() / one)
    } else {
        None
    }
}

fn hash_parts(parts: &[u64]) -> u64 {
    let mut b = Vec::with_capacity(parts.len() * 8);
    for p in parts {
        b.extend_from_slice(&p.to_be_bytes());
    }
    hash_bytes(&b)
}

/// Rewrites the order records chosen by `mask` in the format without a placement time.
/// Returns the (tick, order) pairs of the records that really changed.
pub fn downgrade_records(w: &mut World, mask: u64) -> Vec<(i64, u64)> {
    let mut prefix = vec![0u8, 6];
    prefix.extend_from_slice(b"orders");
    let mut hits = vec![];
    for (k, v) in w.store.iter_raw() {
        if !k.starts_with(&prefix) {
            continue;
        }
        let Ok(mut j) = serde_json::from_slice::<serde_json::Value>(v) else { continue };
        let Some(o) = j.as_object_mut() else { continue };
        let (Some(t), Some(id)) = (o.get("tick_id").and_then(|x| x.as_i64()), o.get("order_id").and_then(|x| x.as_u64())) else {
            continue;
        };
        if (mask >> (id % 64)) & 1 == 0 {
            continue;
        }
        if o.remove("placed_at").is_some() {
            hits.push((k.clone(), serde_json::to_vec(&j).unwrap(), (t, id)));
        }
    }
    let mut r = vec![];
    for (k, v, id) in hits {
        w.store.write_raw(k, v);
        r.push(id);
    }
    r
}

/// Who runs a transaction: the checked node, a dry run or crash, or a second node.
trait Host {
    fn w(&mut self) -> &mut World;
    fn resolve(&mut self, m: &Msg) -> Msg;
    /// Sees every message outcome; returning false ends the transaction without a verdict.
    fn seen(&mut self, m: &Msg, o: &Outcome) -> bool;
}

/// Transaction execution, the same for every host.
fn exec_tx(h: &mut dyn Host, from: Who, msgs: &[Msg], catch: bool, plan: &mut Plan, fuse: u64) -> (u64, bool, bool) {
    let (sp, bsp) = (h.w().store.savepoint(), h.w().bank.savepoint());
    let mut parts = vec![];
    let mut failed = false;
    let mut aborted = false;
    h.w().arm(fuse);
    for m in msgs {
        let m = h.resolve(m);
        let out = h.w().run_msg(&m, from, plan);
        parts.push(out.hash());
        aborted = out.aborted;
        failed |= out.aborted;
        h.w().store.set_paused(true);
        let go = h.seen(&m, &out);
        h.w().store.set_paused(false);
        if !go || aborted {
            break;
        }
        if !out.ok && !catch {
            failed = true;
            break;
        }
    }
    let w = h.w();
    w.disarm();
    if failed {
        w.store.rollback(sp);
        w.bank.rollback(bsp);
    }
    parts.push(failed as u64);
    parts.push(w.store.digest());
    (hash_parts(&parts), failed, aborted)
}

impl Host for World {
    fn w(&mut self) -> &mut World {
        self
    }
    fn resolve(&mut self, m: &Msg) -> Msg {
        m.clone()
    }
    fn seen(&mut self, _: &Msg, _: &Outcome) -> bool {
        true
    }
}

/// Executes on the node without judging.
struct Unjudged<'a>(&'a mut Runner);
impl Host for Unjudged<'_> {
    fn w(&mut self) -> &mut World {
        &mut self.0.w
    }
    fn resolve(&mut self, m: &Msg) -> Msg {
        self.0.resolve(m)
    }
    fn seen(&mut self, m: &Msg, o: &Outcome) -> bool {
        if let (Msg::Place { tag, tick, .. }, true) = (m, o.ok) {
            if let Some(id) = o.attr("order_id").and_then(|x| x.parse().ok()) {
                self.0.tags.insert(*tag, (*tick, id));
            }
        }
        true
    }
}

struct Judged<'a> {
    r: &'a mut Runner,
    from: Who,
    resolved: Vec<Msg>,
}
impl Host for Judged<'_> {
    fn w(&mut self) -> &mut World {
        &mut self.r.w
    }
    fn resolve(&mut self, m: &Msg) -> Msg {
        let m = self.r.resolve(m);
        self.resolved.push(m.clone());
        m
    }
    fn seen(&mut self, m: &Msg, o: &Outcome) -> bool {
        // The transaction is completed in any case, so that its result can be compared.
        if !self.r.ended() {
            self.r.judge(m, self.from, o);
        }
        true
    }
}

fn create(w: &mut World, base: &str, quote: &str, supply: &BTreeMap<String, Supply>, fuse: u64) -> Outcome {
    w.supply = supply.clone();
    w.arm(fuse);
    let out = w.instantiate(base, quote);
    w.disarm();
    w.supply.clear();
    out
}

fn fresh(cfg: &Config, base: &str, quote: &str) -> World {
    let mut c = cfg.clone();
    c.base = base.to_string();
    c.quote = quote.to_string();
    World::new(&c)
}

/// Runs the log on a node of its own: no crashes, dry runs or queries.
pub fn replica(cfg: &Config, log: &[RawOp]) -> Vec<u64> {
    let mut w = World::new(cfg);
    let mut hashes = vec![];
    for op in log {
        match op {
            RawOp::Create { base, quote, supply, fuse } => {
                let (h, t) = (w.height, w.time_ns);
                w = fresh(cfg, base, quote);
                w.height = h;
                w.time_ns = t;
                let out = create(&mut w, base, quote, supply, *fuse);
                hashes.push(hash_parts(&[out.hash(), w.store.digest()]));
            }
            RawOp::Header { height, time_ns } => {
                w.height = *height;
                w.time_ns = *time_ns;
            }
            RawOp::Tx { idx, from, msgs, catch, plan, fuse } => {
                w.tx_index = *idx;
                let (h, _, _) = exec_tx(&mut w, *from, msgs, *catch, &mut plan.clone(), *fuse);
                hashes.push(h);
            }
            RawOp::Bank { blocked, frozen } => {
                w.bank.blocked = blocked.clone();
                w.bank.frozen = frozen.clone();
            }
            RawOp::Upgrade { mask } => {
                downgrade_records(&mut w, *mask);
                let out = w.migrate();
                hashes.push(hash_parts(&[out.hash(), w.store.digest()]));
            }
            RawOp::Commit => {
                w.store.commit();
                w.bank.commit();
            }
        }
    }
    hashes
}

impl Runner {
    pub fn new(cfg: &Config, focus: &str) -> Runner {
        Runner {
            cfg: cfg.clone(),
            focus: focus.to_string(),
            w: World::new(cfg),
            m: Model::new(),
            tags: BTreeMap::new(),
            tag_by_id: BTreeMap::new(),
            alive: false,
            sib: None,
            blocked: BTreeSet::new(),
            frozen: BTreeSet::new(),
            counts: Counts::new(),
            viol: None,
            foreign: None,
            step_no: 0,
            seen: [MAX_TICK, MIN_TICK],
            log: vec![],
            hashes: vec![],
            digests: BTreeSet::new(),
            blocks: 0,
            sim_ms: 0,
            retrying: false,
            gone: false,
            gas_max: BTreeMap::new(),
            judged: 0,
            ever_msgs: 0,
            trace_log: None,
        }
    }

    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }

    pub fn ended(&self) -> bool {
        self.viol.is_some() || self.foreign.is_some()
    }

    /// Records a contradiction. A soft one (a wrong report about a state that is still known)
    /// ends the run only if the property under check is concerned.
    pub fn fail(&mut self, hard: bool, tag: &str, props: &[&str], detail: String) {
        if self.ended() {
            return;
        }
        let mut ps: Vec<String> = vec![];
        for p in props {
            if !ps.iter().any(|x| x == p) {
                ps.push(p.to_string());
            }
        }
        if self.retrying && !ps.iter().any(|x| x == "C06") {
            ps.push("C06".into());
        }
        let v = Violation { tag: tag.to_string(), props: ps, detail, step: self.step_no };
        if self.focus.is_empty() || v.props.iter().any(|p| *p == self.focus) {
            self.viol = Some(v);
        } else {
            self.count(&format!("foreign.{tag}"));
            if hard {
                self.foreign = Some(v);
            }
        }
    }

    pub fn resolve(&self, m: &Msg) -> Msg {
        let rr = |r: &Ref| -> Ref {
            let (tick, id) = match r {
                Ref::Raw { tick, id } => (*tick, *id),
                Ref::Tag(t) => self.tags.get(t).copied().unwrap_or((0, 9_999_999_999)),
                Ref::Off { tag, dt, di } => {
                    let (t, i) = self.tags.get(tag).copied().unwrap_or((0, 9_999_999_999));
                    (t.saturating_add(*dt), i.saturating_add_signed(*di))
                }
            };
            Ref::Raw { tick, id }
        };
        match m {
            Msg::Cancel { r, funds } => Msg::Cancel { r: rr(r), funds: funds.clone() },
            Msg::Claim { r, funds } => Msg::Claim { r: rr(r), funds: funds.clone() },
            Msg::Batch { rs, funds } => Msg::Batch { rs: rs.iter().map(rr).collect(), funds: funds.clone() },
            _ => m.clone(),
        }
    }

    // ---------------------------------------------------------------- steps

    pub fn step(&mut self, no: usize, s: &Step) {
        self.step_no = no;
        if self.ended() {
            return;
        }
        match s {
            Step::Create { base, quote, s_base, s_quote, oog } => self.create(base, quote, s_base, s_quote, *oog),
            _ if !self.alive => {}
            Step::Block { dt_ms, txs } => self.block(*dt_ms, txs),
            Step::Block_ { who, on } => {
                let a = self.w.addr(*who);
                if *on {
                    self.blocked.insert(*who);
                    self.w.bank.blocked.insert(a);
                    self.count("fault.blocked_recipient");
                } else {
                    self.blocked.remove(who);
                    self.w.bank.blocked.remove(&a);
                }
                self.log_bank();
            }
            Step::Freeze { denom, on } => {
                let d = self.w.denoms[*denom as usize].clone();
                if *on {
                    self.frozen.insert(*denom);
                    self.w.bank.frozen.insert(d);
                    self.count("fault.frozen_denom");
                } else {
                    self.frozen.remove(denom);
                    self.w.bank.frozen.remove(&d);
                }
                self.log_bank();
            }
            Step::Upgrade { mask } => self.upgrade(*mask),
            Step::Quote { bid, amt, fee, odd } => self.quote(*bid, *amt, *fee, *odd),
            Step::Sweep { salt } => {
                self.full_check(&[]);
                self.sweep(*salt);
            }
            Step::Drain { salt } => self.drain(*salt),
            Step::Replica => self.check_replica(),
        }
    }

    fn log_bank(&mut self) {
        self.log.push(RawOp::Bank { blocked: self.w.bank.blocked.clone(), frozen: self.w.bank.frozen.clone() });
    }

    fn create(&mut self, base: &str, quote: &str, s_base: &Supply, s_quote: &Supply, oog: Option<u64>) {
        let (h, t) = (self.w.height + 1, self.w.time_ns + 1_000_000);
        self.w = fresh(&self.cfg, base, quote);
        self.w.height = h;
        self.w.time_ns = t;
        self.log.push(RawOp::Header { height: h, time_ns: t });
        self.m = Model::new();
        self.tags.clear();
        self.blocked.clear();
        self.frozen.clear();
        self.seen = [MAX_TICK, MIN_TICK];
        let mut supply = BTreeMap::new();
        supply.insert(quote.to_string(), s_quote.clone());
        if base != quote {
            supply.insert(base.to_string(), s_base.clone());
        }
        let fuse = oog.unwrap_or(u64::MAX);
        let out = create(&mut self.w, base, quote, &supply, fuse);
        self.log.push(RawOp::Create { base: base.to_string(), quote: quote.to_string(), supply: supply.clone(), fuse });
        self.hashes.push(hash_parts(&[out.hash(), self.w.store.digest()]));
        let confirmed = |d: &str| matches!(supply.get(d), Some(Supply::Amount(a)) if *a > 0);
        let valid = base != quote && confirmed(base) && confirmed(quote);
        self.count(if out.ok { "create.ok" } else { "create.refused" });
        for s in [s_base, s_quote] {
            match s {
                Supply::Amount(0) => self.count("fault.supply_zero"),
                Supply::ContractErr => self.count("fault.supply_query_error"),
                Supply::SystemErr => self.count("fault.supply_system_error"),
                Supply::Garbage => self.count("fault.supply_garbage"),
                _ => {}
            }
        }
        if out.aborted {
            self.count("fault.out_of_gas");
        }
        if out.ok && !valid {
            return self.fail(true, "create.accepted", &["C22"], format!("book opened on {base}/{quote} with supplies {s_base:?}/{s_quote:?}"));
        }
        if !out.ok && valid && !out.aborted {
            return self.fail(true, "create.refused", &["C22"], format!("book on {base}/{quote} refused: {}", out.err));
        }
        self.alive = out.ok;
        if !out.ok {
            if self.w.store.len() != 0 {
                self.fail(true, "create.leftover", &["C22", "C06"], "failed creation left state".into());
            }
            return;
        }
        self.w.store.commit();
        self.w.bank.commit();
        self.log.push(RawOp::Commit);
        // Safe initial state.
        self.check_roles(&["C22"]);
        let d: Result<DenomsResponse, _> = self.w.query(QueryMsg::Denoms {});
        if !matches!(&d, Ok(d) if d.base_denom == base && d.quote_denom == quote) {
            self.fail(false, "create.denoms", &["C22"], format!("{d:?}"));
        }
        self.full_check(&["C22"]);
        self.observe(&["C22"]);
    }

    fn upgrade(&mut self, mask: u64) {
        let pre = self.w.store.digest();
        let changed = downgrade_records(&mut self.w, mask);
        self.log.push(RawOp::Upgrade { mask });
        self.count("upgrade");
        self.add("upgrade.old_records", changed.len() as u64);
        let _ = pre;
        for (t, id) in changed {
            if let Some(o) = self.m.orders.get_mut(&id).filter(|o| o.tick == t) {
                o.placed_at = 0;
            }
        }
        let out = self.w.migrate();
        self.hashes.push(hash_parts(&[out.hash(), self.w.store.digest()]));
        if !out.ok {
            return self.fail(true, "migrate.failed", &["C15"], out.err);
        }
        self.w.store.commit();
        self.w.bank.commit();
        self.log.push(RawOp::Commit);
        self.full_check(&["C15"]);
        self.check_roles(&["C15"]);
    }

    fn block(&mut self, dt_ms: u64, txs: &[Tx]) {
        self.blocks += 1;
        self.sim_ms += dt_ms.max(1);
        self.w.height += 1;
        self.w.time_ns += dt_ms.max(1) * 1_000_000;
        self.log.push(RawOp::Header { height: self.w.height, time_ns: self.w.time_ns });
        self.w.store.commit();
        self.w.bank.commit();
        // A crash inside the block: volatile effects up to that point are lost, then the node
        // restarts from the last committed state and executes the block again.
        let mut before_crash: Vec<u64> = vec![];
        if let Some((c, op)) = txs.iter().enumerate().find_map(|(i, t)| {
            t.faults.iter().find_map(|f| if let Fault::Crash { op } = f { Some((i, *op)) } else { None })
        }) {
            let d0 = self.w.store.digest();
            let (sp, bsp) = (self.w.store.savepoint(), self.w.bank.savepoint());
            let tags = self.tags.clone();
            for (i, t) in txs.iter().enumerate().take(c + 1) {
                let (h, aborted) = self.raw_tx(i, t, if i == c { op } else { u64::MAX });
                if i < c {
                    before_crash.push(h);
                } else if aborted {
                    self.count("fault.crash_mid_tx");
                } else {
                    self.count("fault.crash_between_txs");
                }
            }
            self.w.store.rollback(sp);
            self.w.bank.rollback(bsp);
            self.tags = tags;
            assert_eq!(self.w.store.digest(), d0, "rollback broken");
        }
        if self.cfg.sibling > 0 && self.blocks % self.cfg.sibling as u64 == 0 {
            self.sibling(txs);
        }
        for (i, t) in txs.iter().enumerate() {
            let h = self.tx(i, t);
            if self.ended() {
                return;
            }
            if let Some(b) = before_crash.get(i) {
                if *b != h {
                    return self.fail(true, "reexecution", &["C14"], format!("transaction {i} gave another result when the block was executed again after a crash"));
                }
            }
        }
        self.w.store.commit();
        self.w.bank.commit();
        self.log.push(RawOp::Commit);
        self.digests.insert(self.w.store.digest());
        if self.cfg.inv_every > 0 && self.blocks % self.cfg.inv_every as u64 == 0 {
            self.full_check(&[]);
        } else {
            self.check_solvency();
        }
    }

    /// Another book on the same node: what happens there must not matter here.
    fn sibling(&mut self, txs: &[Tx]) {
        let mut w = match self.sib.take() {
            Some(w) => w,
            None => {
                let mut w = fresh(&self.cfg, "uelsewhere", "uother");
                w.addrs[W_BOOK] = user_addr(4242);
                let supply = w.denoms.iter().map(|d| (d.clone(), Supply::Amount(1_000))).collect();
                create(&mut w, "uelsewhere", "uother", &supply, u64::MAX);
                w
            }
        };
        w.height = self.w.height;
        w.time_ns = self.w.time_ns;
        for (i, t) in txs.iter().enumerate() {
            self.count("sibling.tx");
            let msgs: Vec<Msg> = t
                .msgs
                .iter()
                .map(|m| match self.resolve(m) {
                    Msg::Place { tag, tick, bid, qty, bounty, .. } => {
                        let qty = qty / 3 * 2 + 1;
                        Msg::Place { tag, tick, bid, qty, bounty, funds: vec![(bid as u8, qty)] }
                    }
                    Msg::Swap { d_in, d_out, amt, fee, .. } => Msg::Swap { d_in, d_out, amt: amt / 2 + 1, min_out: 0, fee, target: None },
                    m => m,
                })
                .collect();
            w.tx_index = Some(i as u32);
            exec_tx(&mut w, t.from, &msgs, t.catch, &mut Plan::default(), u64::MAX);
            let a = w.addr(t.from);
            let _ = w.query::<serde_json::Value>(QueryMsg::GetTotalPoolLiquidity {});
            let _ = w.query::<serde_json::Value>(QueryMsg::OrdersByOwner { owner: Addr::unchecked(a), start_from: None, end_at: None, limit: Some(3) });
        }
        w.store.commit();
        w.bank.commit();
        self.sib = Some(w);
    }

    /// A run ended by something that concerns another property may still show nodes that differ.
    pub fn finish(&mut self) {
        if self.focus != "C14" || self.viol.is_some() {
            return;
        }
        let Some(f) = self.foreign.take() else { return };
        self.check_replica();
        if self.viol.is_none() {
            self.foreign = Some(f);
        }
    }

    fn plan_of(&self, t: &Tx) -> (Plan, u64) {
        let mut plan = Plan::default();
        let mut fuse = u64::MAX;
        for f in &t.faults {
            match f {
                Fault::BankFail { nth } => plan.bank_fail = Some(*nth),
                Fault::Reenter { nth, who, msg, before, propagate } => {
                    plan.reenter = Some((*nth, *who, self.resolve(msg), *before, *propagate))
                }
                Fault::OutOfGas { op } => fuse = (*op).max(1),
                _ => {}
            }
        }
        (plan, fuse)
    }

    /// Governance acts at the end of a block, outside any transaction.
    fn position(&self, i: usize, t: &Tx) -> Option<u32> {
        let gov = |m: &Msg| matches!(m, Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_));
        if !t.msgs.is_empty() && t.msgs.iter().all(gov) {
            return None;
        }
        Some(self.w.tx_position(i))
    }

    /// Executes without judging; the caller rolls back. Tags learnt stay until then.
    fn raw_tx(&mut self, i: usize, t: &Tx, crash: u64) -> (u64, bool) {
        let (mut plan, fuse) = self.plan_of(t);
        self.w.tx_index = self.position(i, t);
        let before = self.tags.clone();
        let (h, failed, aborted) =
            exec_tx(&mut Unjudged(self), t.from, &t.msgs, t.catch, &mut plan, crash.max(1).min(fuse));
        if failed {
            self.tags = before;
        }
        (h, aborted)
    }

    fn tx(&mut self, i: usize, t: &Tx) -> u64 {
        // A simulation of the transaction on the same state, discarded.
        let mut dry = None;
        if t.faults.contains(&Fault::DryRun) {
            self.count("fault.dry_run");
            let (sp, bsp) = (self.w.store.savepoint(), self.w.bank.savepoint());
            let tags = self.tags.clone();
            let (h, _) = self.raw_tx(i, t, u64::MAX);
            self.w.store.rollback(sp);
            self.w.bank.rollback(bsp);
            self.tags = tags;
            dry = Some(h);
        }
        for f in &t.faults {
            let Fault::Ahead { ms } = f else { continue };
            self.count("fault.rejected_proposal");
            let (sp, bsp) = (self.w.store.savepoint(), self.w.bank.savepoint());
            let tags = self.tags.clone();
            let (height, time) = (self.w.height, self.w.time_ns);
            self.w.height += 1;
            self.w.time_ns += ms * 1_000_000;
            self.raw_tx(i, t, u64::MAX);
            self.w.height = height;
            self.w.time_ns = time;
            self.w.store.rollback(sp);
            self.w.bank.rollback(bsp);
            self.tags = tags;
        }
        let (mut plan, fuse) = self.plan_of(t);
        let plan0 = plan.clone();
        self.w.tx_index = self.position(i, t);
        self.retrying = t.retry;
        if t.retry {
            self.count("retry");
        }
        if t.msgs.len() > 1 {
            self.count(if t.catch { "tx.multi_caught" } else { "tx.multi_atomic" });
        }
        let need_snapshot = t.msgs.len() > 1 || fuse != u64::MAX;
        let snapshot = if need_snapshot { Some(self.m.clone()) } else { None };
        let tags0 = if need_snapshot { Some(self.tags.clone()) } else { None };
        let seen0 = self.seen;
        let mut host = Judged { r: self, from: t.from, resolved: vec![] };
        let (h, failed, aborted) = exec_tx(&mut host, t.from, &t.msgs, t.catch, &mut plan, fuse);
        let mut msgs = host.resolved;
        // Messages never reached still belong to the transaction.
        for m in t.msgs.iter().skip(msgs.len()) {
            let r = self.resolve(m);
            msgs.push(r);
        }
        self.log.push(RawOp::Tx { idx: self.w.tx_index, from: t.from, msgs, catch: t.catch, plan: plan0, fuse });
        self.hashes.push(h);
        if self.ended() {
            return h;
        }
        if failed {
            if let Some(m) = snapshot {
                self.m = m;
                self.tags = tags0.unwrap();
                self.seen = seen0;
                if t.msgs.len() > 1 {
                    self.count("tx.rolled_back");
                }
            }
        }
        if aborted {
            self.count("fault.out_of_gas");
        }
        self.retrying = false;
        if let Some(d) = dry {
            if d != h {
                self.fail(true, "dry_run", &["C14"], "a simulated execution gave another result than the real one on the same state".into());
            }
        }
        h
    }

    // ---------------------------------------------------------------- judging one message

    fn ctx(&self) -> (BTreeSet<Who>, BTreeSet<u8>, u64) {
        (self.blocked.clone(), self.frozen.clone(), self.w.time_ns)
    }

    /// True unless the run has to end.
    fn judge(&mut self, m: &Msg, from: Who, o: &Outcome) -> bool {
        self.ever_msgs += 1;
        if let Some(l) = &mut self.trace_log {
            l.push(format!(
                "  {from} {} -> {}{} ops={} sends={:?}",
                serde_json::to_string(m).unwrap(),
                if o.ok { "ok" } else { "ERR " },
                o.err,
                o.ops.total(),
                o.sends
            ));
        }
        if o.aborted || o.unfunded {
            if o.unfunded {
                self.count("msg.unfunded");
            }
            return true;
        }
        let (blocked, frozen, time) = self.ctx();
        let ctx = Ctx { blocked: &blocked, frozen: &frozen, time };
        let pred = self.m.predict(m, from, &ctx);
        let kind = kind(m);
        let mut must_fail = !pred.succeeds();
        if o.bank_fail_fired {
            self.count("fault.bank_failure");
            must_fail = true;
        }
        // A token hook called back in the middle.
        let mut nested_effect: Option<(Msg, Who, Pred)> = None;
        if let Some(n) = &o.nested {
            self.count(if n.before { "fault.reentry_before" } else { "fault.reentry_after" });
            if n.propagate && !n.out.ok {
                must_fail = true;
            }
            if pred.reject.is_none() && !n.out.unfunded && !n.out.aborted {
                let mut scratch = self.m.clone();
                scratch.apply(&pred.effect, None, self.seen);
                let np = scratch.predict(&n.msg, n.who, &ctx);
                if n.out.ok {
                    self.count("fault.reentry_succeeded");
                }
                if n.out.ok && !np.succeeds() {
                    self.accepted(&n.msg, n.who, &np, &n.out, &scratch);
                } else if !n.out.ok && np.succeeds() {
                    self.refused(&n.msg, n.who, &np, &n.out, &scratch);
                } else if n.out.ok {
                    self.gone = !o.ok;
                    self.compare(&n.msg, n.who, &np, &n.out, &scratch);
                    self.gone = false;
                    nested_effect = Some((n.msg.clone(), n.who, np));
                }
                if self.ended() {
                    return false;
                }
            }
        }
        if pred.undeliverable {
            self.count("payout.undeliverable");
        }
        if o.ok && must_fail {
            if pred.reject.is_none() {
                self.fail(
                    true,
                    "payout.ignored",
                    &["C06", "C03", "C01"][..if matches!(m, Msg::Claim { .. } | Msg::Batch { .. }) { 2 } else { 1 }],
                    format!("{kind} succeeded although one of its transfers failed: {}", describe(m, from)),
                );
            } else {
                let mm = self.m.clone();
                self.accepted(m, from, &pred, o, &mm);
            }
            return false;
        }
        if !o.ok && !must_fail {
            let mm = self.m.clone();
            self.refused(m, from, &pred, o, &mm);
            return false;
        }
        if !o.ok {
            self.count(&format!("refused.{kind}.{}", pred.reject.unwrap_or("payout")));
            return true;
        }
        self.count(&format!("ok.{kind}"));
        if self.cfg.gas {
            self.gas(m, &pred, o);
        }
        let mm = std::mem::replace(&mut self.m, Model::new());
        self.compare(m, from, &pred, o, &mm);
        self.m = mm;
        if self.ended() {
            return false;
        }
        let new_id = if let Msg::Place { tag, tick, .. } = m {
            match self.new_order(o, *tick) {
                Some(id) => {
                    self.tag_by_id.insert(id, *tag);
                    self.tags.insert(*tag, (*tick, id));
                    Some(id)
                }
                None => return false,
            }
        } else {
            None
        };
        self.probe(m, from, &pred);
        self.m.apply(&pred.effect, new_id, self.seen);
        if let Some((nm, _, np)) = nested_effect {
            let nid = if let Msg::Place { tick, tag, .. } = &nm {
                let out = &o.nested.as_ref().unwrap().out;
                match self.new_order(out, *tick) {
                    Some(id) => {
                        self.tag_by_id.insert(id, *tag);
                        self.tags.insert(*tag, (*tick, id));
                        Some(id)
                    }
                    None => return false,
                }
            } else {
                None
            };
            self.m.apply(&np.effect, nid, self.seen);
        }
        self.aftermath(m, &pred);
        !self.ended()
    }

    fn new_order(&mut self, o: &Outcome, tick: i64) -> Option<u64> {
        let Some(id) = o.attr("order_id").and_then(|x| x.parse::<u64>().ok()) else {
            self.fail(true, "place.no_id", &["C15", "C20"], format!("placement response without an order id: {:?}", o.attrs));
            return None;
        };
        if self.m.max_id.map_or(false, |x| id <= x) {
            self.fail(true, "place.id_reused", &["C15"], format!("new order at tick {tick} got id {id}, not larger than {:?}", self.m.max_id));
            return None;
        }
        Some(id)
    }

    /// The message succeeded although it had to be refused.
    fn accepted(&mut self, m: &Msg, from: Who, p: &Pred, o: &Outcome, model: &Model) {
        let why = p.reject.unwrap_or("payout");
        let d = format!("accepted although it must be refused ({why}): {} by {from}; it paid {:?}", describe(m, from), o.sends);
        let mut props: Vec<&str> = match (m, why) {
            (_, "payout") => vec!["C06"],
            (Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_) | Msg::Auth(_), "fee") => vec!["C19"],
            (Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_) | Msg::Auth(_), _) => vec!["C11"],
            (_, "paused") => vec!["C12"],
            (Msg::Place { .. }, "bounty") => vec!["C18", "C19"],
            (Msg::Place { .. }, "funds") => vec!["C18", "C01"],
            (Msg::Place { .. }, _) => vec!["C18"],
            (_, "funds") => vec!["C18"],
            (Msg::Cancel { .. }, "filled") => vec!["C04", "C01", "C02"],
            (Msg::Cancel { .. }, _) => vec!["C04"],
            (Msg::Claim { .. }, "unfilled") => vec!["C03", "C02"],
            (Msg::Claim { .. }, _) => vec!["C03"],
            (Msg::Batch { .. }, _) => vec!["C13"],
            (Msg::Swap { .. }, "liquidity") => vec!["C05", "C21"],
            (Msg::Swap { .. }, "zero_out") => vec!["C05", "C01"],
            (Msg::Swap { .. }, _) => vec!["C21"],
            _ => vec![],
        };
        if matches!(m, Msg::Cancel { .. } | Msg::Claim { .. }) && why == "unknown" {
            // An order that was wound up already came back.
            props.push("C01");
        }
        let _ = model;
        self.fail(true, &format!("{}.accepted.{why}", kind(m)), &props, d);
    }

    /// The message failed although it is valid and nothing was injected.
    fn refused(&mut self, m: &Msg, from: Who, p: &Pred, o: &Outcome, model: &Model) {
        let d = format!("refused although valid: {} by {from}: {}", describe(m, from), o.err);
        let mut props: Vec<&str> = match m {
            Msg::Place { .. } => vec!["C18", "C17"],
            Msg::Cancel { .. } => vec!["C04", "C17", "C02"],
            Msg::Claim { .. } => vec!["C03", "C17", "C02"],
            Msg::Batch { .. } => vec!["C13", "C17", "C03"],
            Msg::Swap { target, .. } => {
                let mut v = vec!["C05", "C17", "C10"];
                if target.is_some() {
                    v.push("C21");
                }
                v
            }
            Msg::Auth(AuthMsg::SetMakerFee(_)) | Msg::Auth(AuthMsg::SetMakerFeeRecipient(_)) => vec!["C11", "C19"],
            Msg::Auth(_) | Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_) => vec!["C11"],
            Msg::Donate { .. } => vec![],
        };
        let control = matches!(m, Msg::Auth(_) | Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_));
        if control && !model.active {
            props.push("C12");
        }
        if !control && model.ever_paused {
            props.push("C12");
        }
        // Could it be paid at all?
        for ((_, dn), a) in &p.sends {
            if self.w.book_balance(*dn as usize) < *a {
                props.push("C01");
            }
        }
        self.fail(true, &format!("{}.refused", kind(m)), &props, d);
    }

    /// Both agree that the message succeeds: compare what it did. `model` is the state before.
    fn compare(&mut self, m: &Msg, from: Who, p: &Pred, o: &Outcome, model: &Model) {
        let mut actual: BTreeMap<(String, String), u128> = BTreeMap::new();
        for s in &o.sends {
            *actual.entry((s.to.clone(), s.denom.clone())).or_default() += s.amt;
        }
        let mut expect: BTreeMap<(String, String), u128> = BTreeMap::new();
        for ((w, d), a) in &p.sends {
            *expect.entry((self.w.addr(*w), self.w.denoms[*d as usize].clone())).or_default() += *a;
        }
        let total = |x: &BTreeMap<(String, String), u128>, d: &str| -> u128 {
            x.iter().filter(|((_, dd), _)| dd == d).fold(0u128, |a, (_, v)| a.saturating_add(*v))
        };
        let (base, quote) = (self.w.denoms[0].clone(), self.w.denoms[1].clone());
        let over = [&base, &quote].iter().any(|d| total(&actual, d) > total(&expect, d));
        let same_total = [&base, &quote].iter().all(|d| total(&actual, d) == total(&expect, d));
        match (m, &p.effect) {
            (Msg::Claim { .. } | Msg::Batch { .. }, Effect::Claims(cs)) => {
                let batch = matches!(m, Msg::Batch { .. });
                // Which part was consumed.
                for c in cs {
                    let rec = self.record(c.tick, c.id);
                    let left = rec.as_ref().map_or(0, |r| r.quantity.u128());
                    let want_rec = c.left > 0;
                    // A nested message may have moved on already.
                    if o.nested.is_none() && !self.gone && (left != c.left || want_rec != rec.is_some()) {
                        let mut props = vec!["C03", "C02"];
                        if batch {
                            props.push("C13");
                        }
                        if left > c.left {
                            props.push("C01");
                        }
                        let o = &model.orders[&c.id];
                        if model.sides[&(o.bid, o.tick)].cancels > 0 {
                            // An earlier cancel moved somebody else's place in line.
                            props.push("C04");
                        }
                        return self.fail(
                            true,
                            "claim.fill",
                            &props,
                            format!("{}: order {} at tick {} has remainder {left} afterwards, expected {}", describe(m, from), c.id, c.tick, c.left),
                        );
                    }
                }
                if actual != expect {
                    let mut props = vec![];
                    if !same_total {
                        props.extend(["C03"]);
                        if cs.iter().any(|c| c.bounty > 0 || c.fee > 0) || model.fee > 0 {
                            props.push("C19");
                        }
                    } else {
                        props.extend(["C19", "C03"]);
                    }
                    if over {
                        props.push("C01");
                    }
                    if batch {
                        props.push("C13");
                    }
                    return self.fail(
                        true,
                        "claim.payout",
                        &props,
                        format!("{} by {from} paid {actual:?}, expected {expect:?} ({cs:?})", describe(m, from)),
                    );
                }
                self.compare_claim_events(batch, from, cs, o, model);
            }
            (Msg::Cancel { .. }, Effect::Cancel { id }) => {
                let ord = &model.orders[id];
                if actual != expect {
                    let mut props = vec!["C04"];
                    if over {
                        props.push("C01");
                    }
                    return self.fail(true, "cancel.refund", &props, format!("{} paid {actual:?}, expected {expect:?}", describe(m, from)));
                }
                let paid = ord.remainder().to_string();
                let want = [
                    ("tick_id", ord.tick.to_string()),
                    ("order_id", ord.id.to_string()),
                    ("quantity", paid),
                    ("owner", self.w.addr(ord.owner)),
                    ("initial_quantity", ord.placed.to_string()),
                    ("order_denom", self.w.denoms[ord.deposit() as usize].clone()),
                ];
                for (k, v) in want {
                    if o.attr(k) != Some(v.as_str()) {
                        return self.fail(false, "cancel.report", &["C20"], format!("cancel of order {id} reports {k}={:?}, it is {v}", o.attr(k)));
                    }
                }
                self.no_claim_events(m, o);
            }
            (Msg::Swap { d_in, d_out, target, min_out, .. }, Effect::Swap(s)) => {
                let taker = self.w.addr(from);
                let (din, dout) = (self.w.denoms[*d_in as usize].clone(), self.w.denoms[*d_out as usize].clone());
                let got = actual.get(&(taker.clone(), dout.clone())).copied().unwrap_or(0);
                let back = actual.get(&(taker.clone(), din.clone())).copied().unwrap_or(0);
                if got != s.out {
                    let mut props = vec!["C05"];
                    if got > s.out {
                        props.extend(["C01", "C21"]);
                    }
                    if got < *min_out || target.is_some() {
                        props.push("C21");
                    }
                    return self.fail(true, "swap.output", &props, format!("{} paid {got}{dout}, the best-first walk yields {}: {s:?}", describe(m, from), s.out));
                }
                if back != s.refund {
                    let mut props = vec!["C21", "C05"];
                    if back > s.refund {
                        props.push("C01");
                    }
                    return self.fail(true, "swap.refund", &props, format!("{} returned {back}{din}, unused input is {}", describe(m, from), s.refund));
                }
                if actual != expect {
                    return self.fail(true, "swap.extra", &["C21", "C01"], format!("{} paid {actual:?}, expected {expect:?}", describe(m, from)));
                }
                let data: Option<SwapExactAmountInResponseData> = o.data.as_ref().and_then(|d| cosmwasm_std::from_json(d).ok());
                let reported = data.and_then(|d| to_u128(d.token_out_amount));
                if reported != Some(got) {
                    return self.fail(false, "swap.report", &["C20"], format!("swap response says {reported:?}, {got} was sent"));
                }
                if let Some(a) = o.attr("output_quantity") {
                    if a != got.to_string() {
                        return self.fail(false, "swap.report", &["C20"], format!("swap event says {a}, {got} was sent"));
                    }
                }
                self.no_claim_events(m, o);
            }
            (Msg::Place { tick, bid, qty, bounty, .. }, _) => {
                if !actual.is_empty() {
                    return self.fail(true, "place.paid", &["C18", "C01"], format!("placement paid {actual:?}"));
                }
                self.no_claim_events(m, o);
                if o.nested.is_none() && !self.gone {
                    if let Some(id) = o.attr("order_id").and_then(|x| x.parse::<u64>().ok()) {
                        let want = (from, *tick, *bid, *qty, *qty, *bounty, self.w.time_ns);
                        let rec = self.record(*tick, id);
                        let have = rec.as_ref().map(|r| self.terms(r));
                        if have.as_ref() != Some(&want) {
                            self.fail(
                                true,
                                "place.record",
                                &["C18", "C15", "C20"],
                                format!("the order reported as {id} is {rec:?}, placed was (owner, tick, bid, remaining, placed, bounty, time) {want:?}"),
                            );
                        }
                    }
                }
            }
            _ => {
                if !actual.is_empty() {
                    self.fail(true, "control.paid", &["C01", "C11"], format!("{} paid {actual:?}", describe(m, from)));
                }
                self.no_claim_events(m, o);
            }
        }
    }

    #[allow(clippy::type_complexity)]
    fn terms(&self, r: &LimitOrder) -> (Who, i64, bool, u128, u128, Option<u128>, u64) {
        (
            self.w.who(r.owner.as_str()).unwrap_or(usize::MAX),
            r.tick_id,
            r.order_direction == OrderDirection::Bid,
            r.quantity.u128(),
            r.placed_quantity.u128(),
            r.claim_bounty.map(|b| sat_u128(b.atomics())),
            r.placed_at.nanos(),
        )
    }

    pub fn record(&self, tick: i64, id: u64) -> Option<LimitOrder> {
        let r: Result<OrdersResponse, _> =
            self.w.query(QueryMsg::OrdersByTick { tick_id: tick, start_from: Some(id), end_at: Some(id), limit: None });
        r.ok().and_then(|r| r.orders.into_iter().next())
    }

    fn no_claim_events(&mut self, m: &Msg, o: &Outcome) {
        if o.events.iter().any(|e| e.ty == "limitClaimed") {
            self.fail(false, "event.spurious", &["C20"], format!("claim event emitted by {}", kind(m)));
        }
    }

    fn compare_claim_events(&mut self, batch: bool, from: Who, cs: &[ClaimP], o: &Outcome, model: &Model) {
        let mut have: Vec<String> = vec![];
        for e in o.events.iter().filter(|e| e.ty == "limitClaimed") {
            let g = |k: &str| e.attributes.iter().find(|a| a.key == k).map_or("?".to_string(), |a| a.value.clone());
            have.push(
                ["sender", "tick_id", "order_id", "quantity_remaining", "owner", "amount_claimed", "placed_quantity", "fully_claimed", "order_denom", "output_denom"]
                    .iter()
                    .map(|k| format!("{k}={}", g(k)))
                    .collect::<Vec<_>>()
                    .join(" "),
            );
        }
        let mut want: Vec<String> = vec![];
        for c in cs {
            let ord = &model.orders[&c.id];
            want.push(format!(
                "sender={} tick_id={} order_id={} quantity_remaining={} owner={} amount_claimed={} placed_quantity={} fully_claimed={} order_denom={} output_denom={}",
                self.w.addr(from),
                c.tick,
                c.id,
                c.left,
                self.w.addr(ord.owner),
                c.owner_amt,
                ord.placed,
                c.left == 0,
                self.w.denoms[ord.deposit() as usize],
                self.w.denoms[1 - ord.deposit() as usize],
            ));
        }
        have.sort();
        want.sort();
        if have != want {
            let mut props = vec!["C20"];
            if batch {
                props.push("C13");
            }
            self.fail(false, "claim.report", &props, format!("claim events {have:?}, what happened is {want:?}"));
        }
    }

    fn probe(&mut self, m: &Msg, from: Who, p: &Pred) {
        let mut hits: Vec<&'static str> = vec![];
        match &p.effect {
            Effect::Claims(cs) => {
                for c in cs {
                    let o = &self.m.orders[&c.id];
                    if c.left > 0 {
                        hits.push("claim.partial");
                    } else {
                        hits.push("claim.complete");
                    }
                    if o.claimed > 0 {
                        hits.push("claim.again");
                    }
                    if o.owner != from {
                        hits.push("claim.by_other");
                    }
                    if c.bounty > 0 {
                        hits.push("claim.bounty_paid");
                    }
                    if c.fee > 0 {
                        hits.push("claim.fee_paid");
                    }
                    if c.bounty > 0 && c.fee > 0 {
                        hits.push("claim.bounty_and_fee");
                    }
                    if c.gross == 0 {
                        hits.push("claim.dust");
                    }
                    if self.m.sides[&(o.bid, o.tick)].cancels > 0 {
                        hits.push("claim.after_cancels");
                    }
                }
                if let Msg::Batch { rs, .. } = m {
                    if cs.len() > 1 {
                        hits.push("batch.many");
                    }
                    if !cs.is_empty() && cs.len() < rs.len() {
                        hits.push("batch.mixed");
                    }
                    if rs.len() == MAX_BATCH {
                        hits.push("batch.full");
                    }
                }
            }
            Effect::Cancel { id } => {
                let o = &self.m.orders[id];
                if o.claimed > 0 {
                    hits.push("cancel.rest_of_partly_filled");
                }
                let s = &self.m.sides[&(o.bid, o.tick)];
                if s.live.iter().next() == Some(id) && s.live.len() > 1 {
                    hits.push("cancel.first_in_line");
                } else if s.live.iter().next_back() != Some(id) {
                    hits.push("cancel.in_the_middle");
                }
            }
            Effect::Swap(s) => {
                if s.fills.len() > 1 {
                    hits.push("swap.several_ticks");
                }
                if s.dust > 0 {
                    hits.push("swap.dust_kept");
                }
                if s.refund > 0 {
                    hits.push("swap.leftover_returned");
                }
                if s.fills.len() as u64 > 0 {
                    let (t, f) = s.fills[s.fills.len() - 1];
                    if self.m.sides[&(!s.bid, t)].liq == f {
                        hits.push("swap.emptied_last_tick");
                    } else {
                        hits.push("swap.left_liquidity");
                    }
                    if price(t) > ONE * ONE {
                        hits.push("swap.price_above_1e18");
                    }
                }
                for (t, f) in &s.fills {
                    let side = &self.m.sides[&(!s.bid, *t)];
                    if side.cancels > 0 {
                        hits.push("swap.over_cancels");
                    }
                    let mut left = *f;
                    let mut n = 0;
                    for id in &side.live {
                        n += 1;
                        let u = self.m.orders[id].unfilled();
                        if left < u {
                            hits.push("swap.order_partly_filled");
                            break;
                        }
                        left -= u;
                        if left == 0 {
                            break;
                        }
                    }
                    if n > 1 {
                        hits.push("swap.several_orders");
                    }
                }
                if let Msg::Swap { target: Some(_), .. } = m {
                    hits.push("swap.to_target");
                }
                if let Msg::Swap { min_out, .. } = m {
                    if *min_out == s.out {
                        hits.push("swap.exact_minimum");
                    }
                }
            }
            Effect::Place { bid, tick, .. } => {
                if self.m.exact[*bid as usize].is_some() {
                    hits.push("place.behind_known_best");
                }
                if self.m.sides.get(&(*bid, *tick)).map_or(false, |s| s.cancels > 0) {
                    hits.push("place.after_cancels");
                }
            }
            Effect::Role(_) => {
                hits.push("role.changed");
                if !self.m.active {
                    hits.push("role.changed_while_paused");
                }
            }
            Effect::Active(true) if !self.m.active => hits.push("resumed"),
            Effect::Active(false) if self.m.active => hits.push("paused"),
            Effect::Fee(_) => hits.push("fee.changed"),
            Effect::Recipient(_) => hits.push("recipient.changed"),
            _ => {}
        }
        for h in hits {
            self.count(h);
        }
    }

    /// Checks right after a successful message (model already moved on).
    fn aftermath(&mut self, m: &Msg, p: &Pred) {
        self.judged += 1;
        let look = !self.cfg.gas && (self.cfg.every == 0 || self.judged % self.cfg.every as u64 == 0);
        match &p.effect {
            Effect::Swap(_) => {
                let mut props = vec!["C05", "C08"];
                if matches!(m, Msg::Swap { target: Some(_), .. }) {
                    props.push("C21");
                }
                if look {
                    self.check_ticks(&props, "swap.fills");
                }
                self.observe(&[]);
            }
            Effect::Place { tick, .. } => {
                self.observe(&[]);
                if look {
                    self.check_tick(*tick, &["C18"]);
                }
            }
            Effect::Cancel { .. } => {
                if let Msg::Cancel { r, .. } = m {
                    if look {
                        self.check_tick(raw(r).0, &["C04"]);
                    }
                }
                self.observe(&[]);
            }
            Effect::Claims(cs) => {
                let batch = matches!(m, Msg::Batch { .. });
                let mut ticks: BTreeSet<i64> = cs.iter().map(|c| c.tick).collect();
                if let Msg::Batch { rs, .. } = m {
                    for r in rs {
                        let t = raw(r).0;
                        if self.m.ticks.contains(&t) {
                            ticks.insert(t);
                        }
                    }
                }
                if look {
                    for t in ticks.into_iter().take(8) {
                        self.check_tick(t, if batch { &["C03", "C13"] } else { &["C03"] });
                    }
                }
            }
            Effect::Role(_) | Effect::Active(_) | Effect::Fee(_) | Effect::Recipient(_) => self.check_roles(&[]),
            _ => {}
        }
        if self.m.orders.len() < 64 {
            self.check_solvency();
        }
    }

    // ---------------------------------------------------------------- state checks

    pub fn check_solvency(&mut self) {
        let owed = self.m.owed();
        for d in 0..2 {
            let have = self.w.book_balance(d);
            if U256::from(have) < owed[d] {
                return self.fail(true, "insolvent", &["C01"], format!("book holds {have}{} and owes {}", self.w.denoms[d], owed[d]));
            }
        }
    }

    pub fn check_roles(&mut self, extra: &[&str]) {
        let who = |q: AuthQueryMsg, w: &World| -> Result<Option<String>, String> {
            let r: Result<Option<Addr>, String> = w.query(QueryMsg::Auth(q));
            r.map(|o| o.map(|a| a.to_string()))
        };
        let want = |w: Option<Who>, s: &Runner| Ok(w.map(|x| s.w.addr(x)));
        let table = [
            ("admin", who(AuthQueryMsg::Admin {}, &self.w), want(self.m.admin, self)),
            ("admin offer", who(AuthQueryMsg::AdminOffer {}, &self.w), want(self.m.admin_offer, self)),
            ("moderator", who(AuthQueryMsg::Moderator {}, &self.w), want(self.m.moderator, self)),
            ("moderator offer", who(AuthQueryMsg::ModeratorOffer {}, &self.w), want(self.m.mod_offer, self)),
        ];
        for (n, have, want) in table {
            if have != want {
                let mut props = vec!["C11"];
                if !self.m.active {
                    props.push("C12");
                }
                props.extend(extra);
                return self.fail(true, "roles", &props, format!("{n} is {have:?}, must be {want:?}"));
            }
        }
        let a: Result<bool, _> = self.w.query(QueryMsg::IsActive {});
        if a != Ok(self.m.active) {
            let mut props = vec!["C12"];
            props.extend(extra);
            return self.fail(true, "active", &props, format!("active is {a:?}, must be {}", self.m.active));
        }
        let f: Result<Decimal256, _> = self.w.query(QueryMsg::GetMakerFee {});
        if f.as_ref().ok().map(|d| sat_u128(d.atomics())) != Some(self.m.fee) {
            let mut props = vec!["C19"];
            if !self.m.active {
                props.push("C12");
            }
            props.extend(extra);
            return self.fail(true, "fee", &props, format!("maker fee is {f:?}, must be {}e-18", self.m.fee));
        }
    }

    fn side_liq(&self, bid: bool, tick: i64) -> u128 {
        self.m.sides.get(&(bid, tick)).map_or(0, |s| s.liq)
    }

    /// All ticks: existence and liquidity.
    pub fn check_ticks(&mut self, props: &[&str], tag: &str) {
        let r: Result<TicksResponse, _> = self.w.query(QueryMsg::AllTicks { start_from: None, end_at: None, limit: None });
        let r = match r {
            Ok(r) => r,
            Err(e) => return self.fail(true, "ticks.query", &["C09", "C08"], e),
        };
        let ids: Vec<i64> = r.ticks.iter().map(|t| t.tick_id).collect();
        let want: Vec<i64> = self.m.ticks.iter().copied().collect();
        if ids != want {
            return self.fail(false, "ticks.list", &["C09"], format!("ticks listed {ids:?}, used {want:?}"));
        }
        for t in &r.ticks {
            for bid in [false, true] {
                let v = t.tick_state.get_values(dir(bid));
                let have = whole(v.total_amount_of_liquidity);
                let want = self.side_liq(bid, t.tick_id);
                if have != Some(U256::from(want)) {
                    let mut ps = vec!["C08"];
                    ps.extend(props);
                    return self.fail(
                        true,
                        tag,
                        &ps,
                        format!("tick {} {} liquidity is {}, its orders hold {want}", t.tick_id, dir(bid), v.total_amount_of_liquidity),
                    );
                }
            }
        }
        let l: Result<GetTotalPoolLiquidityResponse, _> = self.w.query(QueryMsg::GetTotalPoolLiquidity {});
        match l {
            Ok(l) => {
                for (i, bid) in [(0usize, false), (1, true)] {
                    let have = l.total_pool_liquidity.iter().find(|c| c.denom == self.w.denoms[i]).map(|c| c.amount.u128());
                    if have != Some(self.m.liq[bid as usize]) {
                        return self.fail(
                            true,
                            "liquidity.total",
                            &["C08"],
                            format!("total pool liquidity of {} is {have:?}, the open orders hold {}", self.w.denoms[i], self.m.liq[bid as usize]),
                        );
                    }
                }
            }
            Err(e) => self.fail(true, "liquidity.query", &["C08"], e),
        }
    }

    /// Orders and positions at one tick.
    pub fn check_tick(&mut self, tick: i64, extra: &[&str]) {
        if self.ended() {
            return;
        }
        let r: Result<OrdersResponse, _> =
            self.w.query(QueryMsg::OrdersByTick { tick_id: tick, start_from: None, end_at: None, limit: None });
        let r = match r {
            Ok(r) => r,
            Err(e) => return self.fail(true, "orders.query", &["C09", "C15"], e),
        };
        let with = |base: &[&'static str]| -> Vec<String> {
            base.iter().map(|s| s.to_string()).chain(extra.iter().map(|s| s.to_string())).collect()
        };
        let fail = |me: &mut Runner, hard, tag: &str, base: &[&'static str], d: String| {
            let v = with(base);
            let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
            me.fail(hard, tag, &v, d);
        };
        let want: Vec<u64> = self.m.at_tick(tick).map(|o| o.id).collect();
        let have: Vec<u64> = r.orders.iter().map(|o| o.order_id).collect();
        if have != want {
            let mut base = vec!["C09"];
            if want.iter().any(|x| !have.contains(x)) {
                base.extend(["C15", "C01", "C17"]);
            }
            return fail(self, true, "orders.at_tick", &base, format!("orders at tick {tick}: {have:?}, open are {want:?}"));
        }
        if r.count != want.len() as u64 {
            fail(self, false, "orders.count", &["C09"], format!("count {} for {} orders at tick {tick}", r.count, want.len()));
        }
        if want.is_empty() && !self.m.ticks.contains(&tick) {
            return;
        }
        let t: Result<TicksResponse, _> = self.w.query(QueryMsg::TicksById { tick_ids: vec![tick] });
        let u: Result<GetUnrealizedCancelsResponse, _> = self.w.query(QueryMsg::GetUnrealizedCancels { tick_ids: vec![tick] });
        let (t, u) = match (t, u) {
            (Ok(t), Ok(u)) if t.ticks.len() == 1 && u.ticks.len() == 1 && t.ticks[0].tick_id == tick && u.ticks[0].tick_id == tick => (t, u),
            (t, u) => return fail(self, true, "tick.query", &["C08"], format!("tick {tick}: {t:?} {u:?}")),
        };
        for bid in [false, true] {
            let v = t.ticks[0].tick_state.get_values(dir(bid));
            if whole(v.total_amount_of_liquidity) != Some(U256::from(self.side_liq(bid, tick))) {
                return fail(
                    self,
                    true,
                    "tick.liquidity",
                    &["C08"],
                    format!("tick {tick} {} liquidity is {}, its orders hold {}", dir(bid), v.total_amount_of_liquidity, self.side_liq(bid, tick)),
                );
            }
        }
        for rec in &r.orders {
            let o = self.m.orders[&rec.order_id].clone();
            let (w, tk, bid, qty, placed, bounty, at) = self.terms(rec);
            if (w, tk, bid, placed, bounty, at) != (o.owner, o.tick, o.bid, o.placed, o.bounty, o.placed_at) {
                return fail(self, true, "order.terms", &["C15"], format!("terms of {o:?} are now {rec:?}"));
            }
            if qty != o.remainder() {
                return fail(self, true, "order.remainder", &["C03", "C02", "C08"], format!("remainder of {o:?} is {qty}"));
            }
            let v = t.ticks[0].tick_state.get_values(dir(bid));
            let un = if bid { u.ticks[0].unrealized_cancels.bid_unrealized_cancels } else { u.ticks[0].unrealized_cancels.ask_unrealized_cancels };
            let eff = v.effective_total_amount_swapped.checked_add(un);
            let pubfill = eff.ok().map(|e| if e > rec.etas { e - rec.etas } else { Decimal256::zero() }).and_then(|d| {
                let q = Decimal256::from_ratio(rec.quantity, Uint128::one());
                whole(if d < q { d } else { q })
            });
            if pubfill != Some(U256::from(o.unclaimed())) {
                let cancelled = self.m.sides[&(bid, tick)].cancels > 0;
                return fail(
                    self,
                    true,
                    "position",
                    if cancelled { &["C08", "C02", "C04"] } else { &["C08", "C02"] },
                    format!(
                        "published position gives order {} at tick {tick} {pubfill:?} filled, first come first served gives {} (swapped {}, unrealized {un}, start {}, remainder {qty})",
                        o.id,
                        o.unclaimed(),
                        v.effective_total_amount_swapped,
                        rec.etas
                    ),
                );
            }
        }
    }

    /// Everything public about the state.
    pub fn full_check(&mut self, extra: &[&str]) {
        if self.ended() {
            return;
        }
        self.count("full_checks");
        self.check_ticks(extra, "tick.liquidity");
        let ticks: Vec<i64> = self.m.ticks.iter().copied().collect();
        for t in ticks {
            if self.ended() {
                return;
            }
            self.check_tick(t, extra);
        }
        self.check_solvency();
        self.public_solvency();
        self.check_roles(extra);
        self.observe(extra);
    }

    /// Solvency from published data alone, without the model.
    fn public_solvency(&mut self) {
        if self.ended() {
            return;
        }
        let Ok(r) = self.w.query::<TicksResponse>(QueryMsg::AllTicks { start_from: None, end_at: None, limit: None }) else { return };
        let mut owed = [U256::zero(), U256::zero()];
        for t in &r.ticks {
            let Ok(os) = self.w.query::<OrdersResponse>(QueryMsg::OrdersByTick { tick_id: t.tick_id, start_from: None, end_at: None, limit: None }) else { continue };
            let Ok(u) = self.w.query::<GetUnrealizedCancelsResponse>(QueryMsg::GetUnrealizedCancels { tick_ids: vec![t.tick_id] }) else { continue };
            for o in &os.orders {
                let bid = o.order_direction == OrderDirection::Bid;
                let v = t.tick_state.get_values(o.order_direction);
                let un = if bid { u.ticks[0].unrealized_cancels.bid_unrealized_cancels } else { u.ticks[0].unrealized_cancels.ask_unrealized_cancels };
                let e = v.effective_total_amount_swapped.saturating_add(un).saturating_sub(o.etas);
                let f = sat_u128(e.to_uint_floor()).min(o.quantity.u128());
                let d = if bid { 1 } else { 0 };
                owed[d] += U256::from(o.quantity.u128() - f);
                owed[1 - d] += value_floor(bid, f, price(t.tick_id));
            }
        }
        for d in 0..2 {
            let have = self.w.book_balance(d);
            if U256::from(have) < owed[d] {
                return self.fail(true, "insolvent.public", &["C01"], format!("book holds {have}{} and by its own records owes {}", self.w.denoms[d], owed[d]));
            }
        }
    }

    /// Advertised ticks.
    pub fn observe(&mut self, extra: &[&str]) {
        if self.ended() {
            return;
        }
        let b: Result<Orderbook, _> = self.w.query(QueryMsg::OrderbookState {});
        let b = match b {
            Ok(b) => b,
            Err(e) => return self.fail(true, "state.query", &["C10"], e),
        };
        self.seen = [b.next_ask_tick, b.next_bid_tick];
        let mut props = vec!["C10"];
        props.extend(extra);
        for bid in [false, true] {
            let adv = self.seen[bid as usize];
            let n = if bid { "bid" } else { "ask" };
            if let Some(best) = self.m.best(bid) {
                if (bid && adv < best) || (!bid && adv > best) {
                    return self.fail(false, "pointer.hides", &props, format!("advertised best {n} tick {adv} hides liquidity at {best}"));
                }
            }
            if let Some(x) = self.m.exact[bid as usize] {
                if adv != x {
                    return self.fail(false, "pointer.inexact", &props, format!("advertised best {n} tick {adv}, the side was last changed at {x}"));
                }
            }
        }
    }

    fn quote(&mut self, bid: bool, amt: u128, fee: u128, odd: u8) {
        let (mut din, mut dout) = if bid { (1usize, 0usize) } else { (0, 1) };
        match odd {
            0 => {}
            1 => dout = din,
            2 => din = 2,
            _ => dout = 2,
        }
        if fee > 0 || odd > 0 {
            self.count("quote.odd");
        }
        let swap_fee = Decimal::new(Uint128::from(fee));
        let d0 = self.w.store.digest();
        let token_in = Coin { denom: self.w.denoms[din].clone(), amount: Uint128::from(amt) };
        let out_denom = self.w.denoms[dout].clone();
        let q1: Result<CalcOutAmtGivenInResponse, _> = self.w.query(QueryMsg::CalcOutAmountGivenIn {
            token_in: token_in.clone(),
            token_out_denom: out_denom.clone(),
            swap_fee,
        });
        let q2: Result<CalcOutAmtGivenInResponse, _> =
            self.w.query(QueryMsg::CalcOutAmtGivenIn { token_in, token_out_denom: out_denom.clone(), swap_fee });
        let num = |q: &Result<CalcOutAmtGivenInResponse, String>| -> Option<u128> {
            q.as_ref().ok().filter(|r| r.token_out.denom == out_denom).and_then(|r| r.token_out.amount.parse().ok())
        };
        let (a, b) = (num(&q1), num(&q2));
        self.count(if a.is_some() { "quote.given" } else { "quote.refused" });
        if a != b {
            return self.fail(false, "quote.pair", &["C07"], format!("the two quote queries differ: {q1:?} {q2:?}"));
        }
        if self.w.store.digest() != d0 {
            return self.fail(true, "query.writes", &["C07", "C14"], "a query changed stored state".into());
        }
        if !self.m.active {
            return;
        }
        let (sp, bsp) = (self.w.store.savepoint(), self.w.bank.savepoint());
        let (bl, fr) = (std::mem::take(&mut self.w.bank.blocked), std::mem::take(&mut self.w.bank.frozen));
        let taker = self.w.addr(W_USER0);
        let have = self.w.bank.balance(&taker, &self.w.denoms[din]);
        if have < amt {
            let d = self.w.denoms[din].clone();
            self.w.bank.mint(&taker, &d, amt - have);
        }
        let m = Msg::Swap { d_in: din as u8, d_out: dout as u8, amt, min_out: 0, fee, target: None };
        self.w.arm(u64::MAX);
        let o = self.w.run_msg(&m, W_USER0, &mut Plan::default());
        self.w.disarm();
        let got: u128 = o.sends.iter().filter(|s| s.to == taker && s.denom == out_denom).map(|s| s.amt).sum();
        self.w.store.rollback(sp);
        self.w.bank.rollback(bsp);
        self.w.bank.blocked = bl;
        self.w.bank.frozen = fr;
        if o.unfunded {
            return;
        }
        let bad = match a {
            None => o.ok,
            Some(0) => o.ok && got != 0,
            Some(x) => !o.ok || got != x,
        };
        if bad {
            return self.fail(
                false,
                "quote.wrong",
                &["C07"],
                format!("quote for {amt} {} (fee {fee}, {odd}): {q1:?}; the swap {} {got} {}", if bid { "buying" } else { "selling" }, if o.ok { "paid" } else { "failed" }, o.err),
            );
        }
        // Against the independent walk as well.
        let w = self.m.walk(bid, amt, None).ok().map(|s| s.out).filter(|_| amt > 0 && fee == 0 && odd == 0);
        if w.unwrap_or(0) != a.unwrap_or(0) {
            self.fail(false, "quote.walk", &["C07", "C05"], format!("quote for {amt} is {a:?}, best-first walk gives {w:?}"));
        }
    }

    fn sweep(&mut self, salt: u64) {
        if self.ended() {
            return;
        }
        let mut r = Rng::new(salt);
        let d0 = self.w.store.digest();
        self.count("sweeps");
        // Owners.
        let owners: Vec<Who> = (0..self.w.addrs.len()).filter(|w| *w != W_INVALID).collect();
        for w in owners {
            let all: Vec<(i64, u64)> = self.m.index.iter().copied().filter(|(_, id)| self.m.orders[id].owner == w).collect();
            if all.is_empty() && !r.chance(200) {
                continue;
            }
            let owner = Addr::unchecked(self.w.addr(w));
            let ask = |s: &Runner, start: Option<(i64, u64)>, end: Option<(i64, u64)>, limit: Option<u64>| -> Result<OrdersResponse, String> {
                s.w.query(QueryMsg::OrdersByOwner { owner: owner.clone(), start_from: start, end_at: end, limit })
            };
            let mut cases: Vec<(Option<(i64, u64)>, Option<(i64, u64)>, Option<u64>)> = vec![(None, None, None), (None, None, Some(u64::MAX))];
            for _ in 0..3 {
                let b = |r: &mut Rng| -> Option<(i64, u64)> {
                    if r.chance(300) || all.is_empty() {
                        return match r.below(8) {
                            0..=3 => None,
                            4 => Some(*r.pick(&[(i64::MIN, 0), (MIN_TICK, 0), (MIN_TICK - 1, u64::MAX), (-1, u64::MAX), (0, 0)])),
                            5 => Some(*r.pick(&[(i64::MAX, u64::MAX), (MAX_TICK, u64::MAX), (MAX_TICK + 1, 0), (-1, 0), (0, u64::MAX)])),
                            _ => Some((r.range(MIN_TICK, MAX_TICK), r.below(50))),
                        };
                    }
                    let (t, i) = *r.pick(&all);
                    Some(match r.below(5) {
                        0 => (t, i.saturating_sub(1)),
                        1 => (t, i + 1),
                        2 => (t - 1, i),
                        3 => (t + 1, i),
                        _ => (t, i),
                    })
                };
                let (s, e) = (b(&mut r), b(&mut r));
                let l = match r.below(16) {
                    0..=7 => Some(r.below(all.len() as u64 + 3)),
                    8 => Some(*r.pick(&[u64::MAX, 1 << 32, 100, 101])),
                    _ => None,
                };
                cases.push((s, e, l));
            }
            for (s, e, l) in cases {
                let lim = l.unwrap_or(100) as usize;
                let want: Vec<(i64, u64)> =
                    all.iter().copied().filter(|k| s.map_or(true, |s| *k >= s) && e.map_or(true, |e| *k <= e)).take(lim).collect();
                match ask(self, s, e, l) {
                    Ok(x) => {
                        let have: Vec<(i64, u64)> = x.orders.iter().map(|o| (o.tick_id, o.order_id)).collect();
                        if have != want || x.orders.iter().any(|o| o.owner != owner) {
                            return self.fail(false, "list.owner", &["C09"], format!("orders of {w} from {s:?} to {e:?} limit {l:?}: {have:?}, open are {want:?}"));
                        }
                        if x.count != all.len() as u64 {
                            return self.fail(false, "list.owner_count", &["C09"], format!("owner {w} has {} open orders, count says {}", all.len(), x.count));
                        }
                        for rec in &x.orders {
                            let o = &self.m.orders[&rec.order_id];
                            let want = (o.owner, o.tick, o.bid, o.remainder(), o.placed, o.bounty, o.placed_at);
                            if self.terms(rec) != want {
                                return self.fail(false, "list.owner_record", &["C09", "C15"], format!("listing by owner shows {rec:?} for {want:?}"));
                            }
                        }
                    }
                    Err(e) => return self.fail(false, "list.owner_query", &["C09"], e),
                }
            }
            // Pages from the last key seen.
            if !all.is_empty() {
                let page = 1 + r.below(4.max(all.len() as u64 / 16));
                let mut got: Vec<(i64, u64)> = vec![];
                let mut guard = 0;
                loop {
                    guard += 1;
                    let last = got.last().copied();
                    let n = if last.is_some() { page + 1 } else { page };
                    let Ok(x) = ask(self, last, None, Some(n)) else { break };
                    let mut ks: Vec<(i64, u64)> = x.orders.iter().map(|o| (o.tick_id, o.order_id)).collect();
                    if last.is_some() && ks.first().copied() == last {
                        ks.remove(0);
                    }
                    if ks.is_empty() || guard > 10_000 {
                        break;
                    }
                    got.extend(ks);
                }
                self.count("pages.walked");
                if guard <= 10_000 && got != all {
                    return self.fail(false, "list.pages", &["C09"], format!("paging orders of {w} by {page} gives {got:?}, open are {all:?}"));
                }
            }
        }
        // Ticks.
        let ticks: Vec<i64> = self.m.ticks.iter().copied().collect();
        for _ in 0..3 {
            if self.ended() {
                return;
            }
            let b = |r: &mut Rng| -> Option<i64> {
                if r.chance(300) || ticks.is_empty() {
                    if r.chance(800) {
                        None
                    } else {
                        Some(*r.pick(&[i64::MIN, i64::MAX, MIN_TICK - 1, MAX_TICK + 1, 0, -1]))
                    }
                } else {
                    Some(*r.pick(&ticks) + r.range(-1, 1))
                }
            };
            let (s, e) = (b(&mut r), b(&mut r));
            let l = match r.below(12) {
                0..=4 => Some(r.below(ticks.len() as u64 + 2) as usize),
                5 => Some(*r.pick(&[ticks.len(), ticks.len() + 1, 1 << 32, usize::MAX])),
                _ => None,
            };
            let want: Vec<i64> = ticks
                .iter()
                .copied()
                .filter(|t| s.map_or(true, |s| *t >= s) && e.map_or(true, |e| *t <= e))
                .take(l.unwrap_or(usize::MAX))
                .collect();
            let x: Result<TicksResponse, _> = self.w.query(QueryMsg::AllTicks { start_from: s, end_at: e, limit: l });
            let have: Option<Vec<i64>> = x.as_ref().ok().map(|x| x.ticks.iter().map(|t| t.tick_id).collect());
            if have.as_ref() != Some(&want) {
                return self.fail(false, "list.ticks", &["C09"], format!("ticks from {s:?} to {e:?} limit {l:?}: {have:?}, used are {want:?}"));
            }
            // Orders of one tick, bounded.
            if ticks.is_empty() {
                continue;
            }
            let t = *r.pick(&ticks);
            let ids: Vec<u64> = self.m.at_tick(t).map(|o| o.id).collect();
            let b = |r: &mut Rng| -> Option<u64> {
                if r.chance(300) || ids.is_empty() {
                    if r.chance(800) {
                        None
                    } else {
                        Some(*r.pick(&[0, u64::MAX, 1 << 32]))
                    }
                } else {
                    Some((*r.pick(&ids)).saturating_add_signed(r.range(-1, 1)))
                }
            };
            let (s, e) = (b(&mut r), b(&mut r));
            let l = match r.below(12) {
                0..=4 => Some(r.below(ids.len() as u64 + 2)),
                5 => Some(*r.pick(&[ids.len() as u64, ids.len() as u64 + 1, 1 << 32, u64::MAX])),
                _ => None,
            };
            let within: Vec<u64> = ids.iter().copied().filter(|i| s.map_or(true, |s| *i >= s) && e.map_or(true, |e| *i <= e)).collect();
            let want: Vec<u64> = within.iter().copied().take(l.unwrap_or(u64::MAX).min(usize::MAX as u64) as usize).collect();
            let x: Result<OrdersResponse, _> = self.w.query(QueryMsg::OrdersByTick { tick_id: t, start_from: s, end_at: e, limit: l });
            let have: Option<Vec<u64>> = x.as_ref().ok().map(|x| x.orders.iter().map(|o| o.order_id).collect());
            if have.as_ref() != Some(&want) {
                return self.fail(false, "list.tick", &["C09"], format!("orders at {t} from {s:?} to {e:?} limit {l:?}: {have:?}, open are {want:?}"));
            }
            if x.map(|x| x.count) != Ok(within.len() as u64) {
                return self.fail(false, "list.tick_count", &["C09"], format!("count at tick {t} from {s:?} to {e:?} is not {}", within.len()));
            }
            // Paging at a tick.
            let page = 1 + r.below(3);
            let mut got: Vec<u64> = vec![];
            loop {
                let start = got.last().map(|x| x + 1);
                let Ok(x) = self.w.query::<OrdersResponse>(QueryMsg::OrdersByTick { tick_id: t, start_from: start, end_at: None, limit: Some(page) }) else {
                    break;
                };
                if x.orders.is_empty() || got.len() > 100_000 {
                    break;
                }
                got.extend(x.orders.iter().map(|o| o.order_id));
            }
            if got != ids {
                return self.fail(false, "list.tick_pages", &["C09"], format!("paging orders at {t} gives {got:?}, open are {ids:?}"));
            }
        }
        if !ticks.is_empty() {
            let n = match r.below(10) {
                0 => 0,
                1 => 1,
                2 => 1 + r.usize(300),
                _ => 3,
            };
            let mut pick: Vec<i64> = (0..n).map(|_| *r.pick(&ticks)).collect();
            let x: Result<TicksResponse, _> = self.w.query(QueryMsg::TicksById { tick_ids: pick.clone() });
            let have: Option<Vec<i64>> = x.ok().map(|x| x.ticks.iter().map(|t| t.tick_id).collect());
            if have.as_ref() != Some(&pick) {
                return self.fail(false, "list.ticks_by_id", &["C09"], format!("ticks by id {pick:?} gives {have:?}"));
            }
            let u: Result<GetUnrealizedCancelsResponse, _> = self.w.query(QueryMsg::GetUnrealizedCancels { tick_ids: pick.clone() });
            let Some(u) = u.ok().filter(|u| u.ticks.iter().map(|t| t.tick_id).collect::<Vec<_>>() == pick) else {
                return self.fail(false, "list.unrealized", &["C08", "C09"], format!("no unrealized cancels for {pick:?}"));
            };
            for t in u.ticks.iter().rev().take(4) {
                let one: Result<GetUnrealizedCancelsResponse, _> = self.w.query(QueryMsg::GetUnrealizedCancels { tick_ids: vec![t.tick_id] });
                if one.ok().and_then(|o| o.ticks.first().map(|x| x.unrealized_cancels.clone())) != Some(t.unrealized_cancels.clone()) {
                    return self.fail(false, "list.unrealized_alone", &["C08"], format!("unrealized cancels of {} asked alone differ from {t:?} asked among {pick:?}", t.tick_id));
                }
            }
            let free = (1..50).map(|d| ticks[0] + d).find(|t| !self.m.ticks.contains(t));
            if let Some(f) = free {
                pick.push(f);
                let x: Result<TicksResponse, _> = self.w.query(QueryMsg::TicksById { tick_ids: pick.clone() });
                if x.is_ok() {
                    return self.fail(false, "list.unknown_tick", &["C09"], format!("a tick never used is reported as existing: {f}"));
                }
            }
        }
        // Spot price, both ways, from the advertised ticks.
        self.observe(&[]);
        let sp = |s: &Runner, b: usize, q: usize| -> Option<u128> {
            let r: Result<SpotPriceResponse, _> = s.w.query(QueryMsg::SpotPrice {
                quote_asset_denom: s.w.denoms[q].clone(),
                base_asset_denom: s.w.denoms[b].clone(),
            });
            r.ok().map(|r| r.spot_price.atomics().u128())
        };
        let want_bid = price(self.seen[1].clamp(MIN_TICK, MAX_TICK));
        let p = price(self.seen[0].clamp(MIN_TICK, MAX_TICK));
        let want_ask = sat_u128(U256::from(ONE) * U256::from(ONE) / U256::from(p));
        let (a, b) = (sp(self, 0, 1), sp(self, 1, 0));
        if a != Some(want_bid) || b != Some(want_ask) {
            return self.fail(
                false,
                "spot",
                &["C10"],
                format!("spot prices {a:?} and {b:?}, the advertised ticks {:?} have {want_bid} and {want_ask}", self.seen),
            );
        }
        if sp(self, 0, 0).is_some() || sp(self, 0, 2).is_some() || sp(self, 2, 1).is_some() {
            return self.fail(false, "spot.foreign", &["C10"], "spot price given for a pair that is not traded".into());
        }
        let fee: Result<GetSwapFeeResponse, _> = self.w.query(QueryMsg::GetSwapFee {});
        if fee.map(|f| f.swap_fee) != Ok(Decimal::zero()) {
            return self.fail(false, "swap_fee", &["C21"], "reported swap fee is not zero".into());
        }
        if self.w.store.digest() != d0 {
            self.fail(true, "query.writes", &["C07", "C14"], "a query changed stored state".into());
        }
    }

    /// Faults stop; everybody leaves.
    fn drain(&mut self, salt: u64) {
        self.count("drains");
        let mut r = Rng::new(salt);
        self.blocked.clear();
        self.frozen.clear();
        self.w.bank.blocked.clear();
        self.w.bank.frozen.clear();
        self.log_bank();
        let tx = |from: Who, msg: Msg| Tx { from, msgs: vec![msg], catch: false, faults: vec![], retry: false, note: String::new() };
        if !self.m.active {
            self.block(1000, &[tx(W_POOL, Msg::GovSetActive(true))]);
        }
        let mut ids: Vec<u64> = self.m.orders.keys().copied().collect();
        r.shuffle(&mut ids);
        let users = self.w.addrs.len();
        let cap = 4000;
        for id in ids.into_iter().take(cap) {
            if self.ended() {
                return;
            }
            let Some(o) = self.m.orders.get(&id).cloned() else { continue };
            let rf = Ref::Raw { tick: o.tick, id };
            let mut txs = vec![];
            if o.unclaimed() > 0 {
                let by = if r.chance(800) { o.owner } else { W_USER0 + r.usize(users - W_USER0) };
                txs.push(tx(by, Msg::Claim { r: rf.clone(), funds: vec![] }));
            }
            if o.unfilled() > 0 {
                txs.push(tx(o.owner, Msg::Cancel { r: rf, funds: vec![] }));
            }
            self.block(1000, &txs);
            if !self.ended() && self.m.orders.contains_key(&id) {
                return self.fail(true, "stuck", &["C17"], format!("order still open after being wound up: {o:?}"));
            }
        }
        if self.ended() || self.m.orders.len() > 0 {
            return;
        }
        self.count("drained.empty");
        self.full_check(&["C17", "C01"]);
        for d in 0..2 {
            if self.m.liq[d] != 0 {
                self.fail(true, "drain.liquidity", &["C08"], "liquidity without orders".into());
            }
        }
    }

    // ---------------------------------------------------------------- work bounds

    fn gas(&mut self, m: &Msg, p: &Pred, o: &Outcome) {
        let ops = o.ops.total();
        let lg = |n: u64| 64 - (n + 2).leading_zeros() as u64;
        let (bound, n) = match (m, &p.effect) {
            (Msg::Place { .. }, _) => (crate::gas::PLACE, 0),
            (Msg::Cancel { r, .. }, _) => {
                let n = self.m.cancels_at.get(&raw(r).0).copied().unwrap_or(0);
                (crate::gas::CANCEL_BASE + crate::gas::CANCEL_LOG * lg(n), n)
            }
            (Msg::Claim { r, .. }, _) => {
                let n = self.m.cancels_at.get(&raw(r).0).copied().unwrap_or(0);
                (crate::gas::CLAIM_BASE + crate::gas::CLAIM_LOG * lg(n), n)
            }
            (Msg::Swap { d_in, .. }, Effect::Swap(s)) => {
                // Ticks between the advertised one and the last one the swap can look at.
                let bid = *d_in == 1;
                let n = match s.fills.last() {
                    None => 0,
                    Some((last, _)) => {
                        let (lo, hi) = if bid { (self.seen[0], *last) } else { (*last, self.seen[1]) };
                        // It has to look one liquid tick further to learn that it is done; empty
                        // ones in between are passed.
                        let beyond = if bid {
                            self.m.ticks.range(last + 1..).take_while(|t| self.side_liq(false, **t) == 0).count()
                        } else {
                            self.m.ticks.range(..*last).rev().take_while(|t| self.side_liq(true, **t) == 0).count()
                        };
                        self.m.ticks.range(lo..=hi.max(lo)).count() as u64 + beyond as u64 + 1
                    }
                };
                (crate::gas::SWAP_BASE + crate::gas::SWAP_TICK * n, n)
            }
            _ => return,
        };
        let e = self.gas_max.entry(format!("{} 2^{:02}", kind(m), lg(n))).or_insert((0, 0));
        if ops > e.0 {
            *e = (ops, n);
        }
        self.count("gas.measured");
        if ops > bound {
            self.fail(
                false,
                "gas",
                &["C16"],
                format!("{} needed {ops} storage operations; the bound for size {n} is {bound}", describe(m, 0)),
            );
        }
    }

    /// A second node executes the same blocks.
    pub fn check_replica(&mut self) {
        if self.ended() {
            return;
        }
        let cfg = self.cfg.clone();
        let log = std::mem::take(&mut self.log);
        for round in 0..2 {
            let (cfg, log2) = (cfg.clone(), &log);
            let h = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || replica(&cfg, log2)).unwrap().join().unwrap()
            });
            self.count("replicas");
            if h != self.hashes {
                let at = h.iter().zip(&self.hashes).position(|(a, b)| a != b).unwrap_or(h.len().min(self.hashes.len()));
                self.log = log;
                return self.fail(true, "replica", &["C14"], format!("replica {round} diverges at transaction {at} of {}", self.hashes.len()));
            }
        }
        self.log = log;
    }
}

pub fn kind(m: &Msg) -> &'static str {
    match m {
        Msg::Place { .. } => "place",
        Msg::Cancel { .. } => "cancel",
        Msg::Claim { .. } => "claim",
        Msg::Batch { .. } => "batch",
        Msg::Auth(_) => "auth",
        Msg::Swap { .. } => "swap",
        Msg::GovTransferAdmin(_) | Msg::GovRemoveAdmin | Msg::GovSetActive(_) => "gov",
        Msg::Donate { .. } => "donate",
    }
}

fn describe(m: &Msg, _from: Who) -> String {
    serde_json::to_string(m).unwrap_or_default()
}

