//! Simulated chain around the real contract: entry points, sub-message dispatch with savepoints
//! and replies, bank, address validation, supply queries, injected faults.
use crate::bank::Bank;
use crate::model::*;
use crate::store::{FuseBlown, Meter, Store, GUARD, MSG_LIMIT};
use crate::trace::*;
use cosmwasm_std::{
    from_json, to_json_binary, to_json_vec, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo, CanonicalAddr, Coin, ContractInfo,
    ContractResult as CwResult, CosmosMsg, Decimal, Decimal256, Deps, DepsMut, Env, Event, MessageInfo, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Reply, ReplyOn, Response, StdError, StdResult, SubMsg,
    SubMsgResponse, SubMsgResult, SupplyResponse, SystemError, SystemResult, Timestamp, TransactionInfo, Uint128, Uint256,
    VerificationError,
};
use serde::de::DeserializeOwned;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sumtree_orderbook::msg::*;
use sumtree_orderbook::types::OrderDirection;
use sumtree_orderbook::{contract, sudo as sudo_mod};

thread_local! {
    /// Set while contract code runs: its panics are outcomes, not harness failures.
    pub static IN_CONTRACT: Cell<u32> = const { Cell::new(0) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_CONTRACT.with(|c| c.get()) == 0 {
            default(i);
        }
    }));
}

const CHARSET: &str = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";

pub struct SimApi;
impl Api for SimApi {
    fn addr_validate(&self, input: &str) -> StdResult<Addr> {
        let ok = input.len() > 5
            && input.starts_with("osmo1")
            && (input.len() == 43 || input.len() == 63)
            && input[5..].chars().all(|c| CHARSET.contains(c));
        if ok {
            Ok(Addr::unchecked(input))
        } else {
            Err(StdError::generic_err("Invalid input"))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(canonical.to_vec()).map_err(|_| StdError::generic_err("Invalid input"))?;
        self.addr_validate(&s)
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(0))
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(0))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(0))
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Err(VerificationError::unknown_err(0))
    }
    fn debug(&self, _: &str) {}
}

struct ChainQuerier<'a> {
    bank: &'a Bank,
    supply: &'a BTreeMap<String, Supply>,
}
impl Querier for ChainQuerier<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<cosmwasm_std::Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: e.to_string(), request: bin.into() })
            }
        };
        match req {
            QueryRequest::Bank(BankQuery::Supply { denom }) => match self.supply.get(&denom) {
                Some(Supply::Amount(a)) => self.supply_of(&denom, *a),
                Some(Supply::ContractErr) => SystemResult::Ok(CwResult::Err("bank: query failed".into())),
                Some(Supply::SystemErr) => {
                    SystemResult::Err(SystemError::UnsupportedRequest { kind: "bank supply".into() })
                }
                Some(Supply::Garbage) => SystemResult::Ok(CwResult::Ok(Binary::from(b"{\"amount\":".to_vec()))),
                None => self.supply_of(&denom, self.bank.supply(&denom)),
            },
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Coin::new(self.bank.balance(&address, &denom), denom);
                SystemResult::Ok(CwResult::Ok(
                    to_json_binary(&serde_json::json!({"amount": {"denom": amount.denom, "amount": amount.amount}})).unwrap(),
                ))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "simulated chain".into() }),
        }
    }
}
impl ChainQuerier<'_> {
    fn supply_of(&self, denom: &str, a: u128) -> QuerierResult {
        let mut r = SupplyResponse::default();
        r.amount = Coin::new(a, denom);
        SystemResult::Ok(CwResult::Ok(to_json_binary(&r).unwrap()))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Send {
    pub to: String,
    pub denom: String,
    pub amt: u128,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    /// The message never reached the contract (funding refused by the bank).
    pub unfunded: bool,
    pub aborted: bool,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<Event>,
    pub data: Option<Vec<u8>>,
    pub sends: Vec<Send>,
    pub bank_fail_fired: bool,
    pub nested: Option<Box<Nested>>,
    pub ops: Meter,
}
impl Outcome {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    /// Everything a client or another replica can see of the result. Error texts included:
    /// they are deterministic for the same code.
    pub fn hash(&self) -> u64 {
        let s = format!(
            "{}|{}|{:?}|{:?}|{:?}|{:?}",
            self.ok, self.err, self.attrs, self.events, self.data, self.sends
        );
        crate::rng::hash_bytes(s.as_bytes())
    }
}

#[derive(Clone, Debug)]
pub struct Nested {
    pub who: Who,
    pub msg: Msg,
    pub before: bool,
    pub propagate: bool,
    pub out: Outcome,
}

/// Faults armed for one transaction.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub bank_fail: Option<u32>,
    pub reenter: Option<(u32, Who, Msg, bool, bool)>,
    sends_seen: u32,
}

pub enum Call {
    Exec(ExecuteMsg),
    Sudo(SudoMsg),
}

pub struct World {
    pub store: Store,
    pub bank: Bank,
    pub supply: BTreeMap<String, Supply>,
    pub addrs: Vec<String>,
    pub denoms: Vec<String>,
    pub height: u64,
    pub time_ns: u64,
    pub tx_index: Option<u32>,
    pub chain_id: &'static str,
    /// How many transactions of others may precede ours in a block.
    pub crowd: u32,
    /// An abort is armed for the current transaction.
    pub fused: bool,
}

pub fn user_addr(i: usize) -> String {
    // Deterministic, distinct, of both lengths in use (accounts and contracts).
    // The long ones continue a short one.
    let len = if i % 3 == 2 { 58 } else { 38 };
    let i = if i % 3 == 2 { i - 1 } else { i };
    let cs: Vec<char> = CHARSET.chars().collect();
    let mut x = 0x1234_5678_9abc_def0u64 ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let mut s = String::from("osmo1");
    for _ in 0..len {
        s.push(cs[(crate::rng::splitmix(&mut x) % 32) as usize]);
    }
    s
}

pub fn dir(bid: bool) -> OrderDirection {
    if bid {
        OrderDirection::Bid
    } else {
        OrderDirection::Ask
    }
}

fn dec256(atomics: u128) -> Decimal256 {
    Decimal256::new(Uint256::from(atomics))
}

enum Stop {
    Err(String),
    Fuse,
}
impl From<String> for Stop {
    fn from(s: String) -> Self {
        Stop::Err(s)
    }
}

/// Runs contract code; panics become errors, injected aborts are passed on.
fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, (Stop, bool)> {
    IN_CONTRACT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|c| c.set(c.get() - 1));
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err((Stop::Err(e), false)),
        Err(p) => {
            if p.downcast_ref::<FuseBlown>().is_some() {
                Err((Stop::Fuse, false))
            } else {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Err((Stop::Err(format!("panic: {m}")), true))
            }
        }
    }
}

impl World {
    pub fn new(cfg: &Config) -> World {
        let mut addrs = vec![
            "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp".to_string(),
            "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl".to_string(),
            "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6".to_string(),
            user_addr(1001),
            user_addr(1002),
            "not-an-address".to_string(),
        ];
        for i in 0..cfg.users {
            addrs.push(user_addr(i));
        }
        let mut w = World {
            store: Store::new(),
            bank: Bank::default(),
            supply: BTreeMap::new(),
            addrs,
            denoms: vec![cfg.base.clone(), cfg.quote.clone(), "uforeign".to_string()],
            height: [1_000, 1, 18_446_744, 1 << 31, 1 << 40][(cfg.env % 5) as usize],
            time_ns: 1_700_000_000_000_000_000 + [0, 1, 123_456_789, 250_000_000_000_000_000][(cfg.env / 5 % 4) as usize],
            tx_index: None,
            chain_id: ["osmosis-sim-1", "osmosis-1", "osmo-test-5", "localosmosis"][(cfg.env / 20 % 4) as usize],
            crowd: [0, 10, 300, 5000, 100_000][(cfg.env / 80 % 5) as usize],
            fused: false,
        };
        for i in W_USER0..w.addrs.len() {
            for d in 0..w.denoms.len() {
                let (a, d) = (w.addrs[i].clone(), w.denoms[d].clone());
                w.bank.mint(&a, &d, if i == W_USER0 { cfg.rich.max(cfg.whale) } else { cfg.rich });
            }
        }
        for i in [W_GOV, W_BREAKER, W_INVALID] {
            for d in 0..w.denoms.len() {
                let (a, d) = (w.addrs[i].clone(), w.denoms[d].clone());
                w.bank.mint(&a, &d, cfg.rich);
            }
        }
        w.bank.commit();
        w
    }

    pub fn arm(&mut self, fuse: u64) {
        self.fused = fuse != u64::MAX;
        self.store.set_fuse(fuse.min(MSG_LIMIT));
    }
    pub fn disarm(&mut self) {
        self.fused = false;
        self.store.set_fuse(u64::MAX);
    }

    pub fn who(&self, addr: &str) -> Option<Who> {
        self.addrs.iter().position(|a| a == addr)
    }
    pub fn addr(&self, w: Who) -> String {
        self.addrs.get(w).cloned().unwrap_or_else(|| user_addr(w + 5000))
    }
    pub fn book_balance(&self, d: usize) -> u128 {
        self.bank.balance(&self.addrs[W_BOOK], &self.denoms[d])
    }

    /// The i-th of our transactions comes after some of other users of the chain.
    pub fn tx_position(&self, i: usize) -> u32 {
        i as u32 + (crate::rng::splitmix(&mut { self.height }) % (self.crowd as u64 + 1)) as u32
    }

    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.height,
                time: Timestamp::from_nanos(self.time_ns),
                chain_id: self.chain_id.to_string(),
            },
            transaction: self.tx_index.map(|index| TransactionInfo { index }),
            contract: ContractInfo { address: Addr::unchecked(self.addrs[W_BOOK].clone()) },
        }
    }

    fn with_deps<T>(&mut self, f: impl FnOnce(DepsMut) -> Result<T, String>) -> Result<T, (Stop, bool)> {
        let q = ChainQuerier { bank: &self.bank, supply: &self.supply };
        let store = &mut self.store;
        guard(move || {
            let deps = DepsMut { storage: store, api: &SimApi, querier: QuerierWrapper::new(&q) };
            f(deps)
        })
    }

    pub fn query<T: DeserializeOwned>(&self, msg: QueryMsg) -> Result<T, String> {
        let q = ChainQuerier { bank: &self.bank, supply: &self.supply };
        let env = self.env();
        let wire = to_json_vec(&msg).map_err(|e| e.to_string())?;
        GUARD.with(|g| g.set(0));
        let was = self.store.set_paused(true);
        let bin = guard(|| {
            let msg: QueryMsg = from_json(&wire).map_err(|e| e.to_string())?;
            let deps = Deps { storage: &self.store, api: &SimApi, querier: QuerierWrapper::new(&q) };
            contract::query(deps, env, msg).map_err(|e| e.to_string())
        });
        self.store.set_paused(was);
        let bin = bin.map_err(|(s, _)| match s {
            Stop::Err(e) => e,
            Stop::Fuse => "does not end".to_string(),
        })?;
        from_json(&bin).map_err(|e| format!("undecodable response: {e}"))
    }

    pub fn instantiate(&mut self, base: &str, quote: &str) -> Outcome {
        let env = self.env();
        let info = MessageInfo { sender: Addr::unchecked(self.addr(W_POOL)), funds: vec![] };
        let msg = InstantiateMsg { base_denom: base.to_string(), quote_denom: quote.to_string() };
        let sp = self.store.savepoint();
        let mut out = Outcome::default();
        // (the caller arms the fuse)
        let r = self.with_deps(|deps| contract::instantiate(deps, env, info, msg).map_err(|e| e.to_string()));
        self.conclude(r, &mut out, &mut Plan::default(), sp, self.bank.savepoint());
        out
    }

    fn conclude(
        &mut self,
        r: Result<Response, (Stop, bool)>,
        out: &mut Outcome,
        plan: &mut Plan,
        sp: usize,
        bsp: usize,
    ) {
        let res = match r {
            Ok(resp) => self.dispatch(resp, out, plan),
            Err((s, p)) => {
                out.panicked = p;
                Err(s)
            }
        };
        match res {
            Ok(()) => out.ok = true,
            Err(s) => {
                out.ok = false;
                self.store.rollback(sp);
                self.bank.rollback(bsp);
                out.attrs.clear();
                out.events.clear();
                out.data = None;
                out.sends.clear();
                match s {
                    Stop::Err(e) => out.err = e,
                    Stop::Fuse => {
                        out.err = "out of gas".into();
                        // Without an injected limit it is the message's own doing.
                        out.aborted = self.fused;
                        out.panicked = !self.fused;
                    }
                }
            }
        }
    }

    /// wasmd's handling of a contract response.
    fn dispatch(&mut self, resp: Response, out: &mut Outcome, plan: &mut Plan) -> Result<(), Stop> {
        for a in resp.attributes {
            out.attrs.push((a.key, a.value));
        }
        out.events.extend(resp.events);
        if let Some(d) = resp.data {
            out.data = Some(d.to_vec());
        }
        for m in resp.messages {
            self.submsg(m, out, plan)?;
        }
        Ok(())
    }

    fn submsg(&mut self, m: SubMsg, out: &mut Outcome, plan: &mut Plan) -> Result<(), Stop> {
        let (sp, bsp, nsends) = (self.store.savepoint(), self.bank.savepoint(), out.sends.len());
        let res = self.cosmos_msg(m.msg, out, plan);
        let result = match res {
            Ok(()) => SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None }),
            Err(Stop::Fuse) => return Err(Stop::Fuse),
            Err(Stop::Err(e)) => {
                self.store.rollback(sp);
                self.bank.rollback(bsp);
                out.sends.truncate(nsends);
                // Errors are redacted before a contract sees them.
                if matches!(m.reply_on, ReplyOn::Never | ReplyOn::Success) {
                    return Err(Stop::Err(e));
                }
                SubMsgResult::Err("codespace: sdk, code: 5".to_string())
            }
        };
        let call = match (&result, &m.reply_on) {
            (_, ReplyOn::Always) => true,
            (SubMsgResult::Ok(_), ReplyOn::Success) => true,
            (SubMsgResult::Err(_), ReplyOn::Error) => true,
            _ => false,
        };
        if call {
            let env = self.env();
            let reply = Reply { id: m.id, result };
            let r = self
                .with_deps(|deps| contract::reply(deps, env, reply).map_err(|e| e.to_string()))
                .map_err(|(s, p)| {
                    out.panicked |= p;
                    s
                })?;
            self.dispatch(r, out, plan)?;
        }
        Ok(())
    }

    fn cosmos_msg(&mut self, m: CosmosMsg, out: &mut Outcome, plan: &mut Plan) -> Result<(), Stop> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                let coins: Vec<(String, u128)> = amount.into_iter().map(|c| (c.denom, c.amount.u128())).collect();
                self.book_sends(&to_address, coins, out, plan)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                let coins: Vec<(String, u128)> = amount.into_iter().map(|c| (c.denom, c.amount.u128())).collect();
                self.book_sends("burn", coins, out, plan)
            }
            CosmosMsg::Stargate { type_url, value } if type_url == "/cosmos.bank.v1beta1.MsgSend" => {
                let (from, to, coins) = decode_msg_send(value.as_slice()).ok_or("cannot decode MsgSend".to_string())?;
                if from != self.addrs[W_BOOK] {
                    return Err(Stop::Err("contract doesn't have permission: unauthorized".into()));
                }
                let mut cs = vec![];
                for (d, a) in coins {
                    cs.push((d, a.parse::<u128>().map_err(|_| Stop::Err("invalid coins".into()))?));
                }
                self.book_sends(&to, cs, out, plan)
            }
            other => Err(Stop::Err(format!("unsupported message {other:?}"))),
        }
    }

    /// A transfer out of the book.
    fn book_sends(&mut self, to: &str, coins: Vec<(String, u128)>, out: &mut Outcome, plan: &mut Plan) -> Result<(), Stop> {
        let nth = plan.sends_seen;
        plan.sends_seen += 1;
        if plan.bank_fail == Some(nth) {
            out.bank_fail_fired = true;
            return Err(Stop::Err("injected bank failure".into()));
        }
        if SimApi.addr_validate(to).is_err() {
            return Err(Stop::Err(format!("{to}: invalid address")));
        }
        let hook = match &plan.reenter {
            Some((n, ..)) if *n == nth => plan.reenter.take(),
            _ => None,
        };
        if let Some((_, who, msg, true, prop)) = &hook {
            self.hook(*who, msg, true, *prop, out)?;
        }
        if coins.is_empty() {
            return Err(Stop::Err("invalid coins".into()));
        }
        for (i, (d, a)) in coins.iter().enumerate() {
            if i > 0 && coins[i - 1].0 >= *d {
                return Err(Stop::Err("invalid coins: unsorted".into()));
            }
            let book = self.addrs[W_BOOK].clone();
            self.bank.send(&book, to, d, *a, true)?;
            out.sends.push(Send { to: to.to_string(), denom: d.clone(), amt: *a });
        }
        if let Some((_, who, msg, false, prop)) = &hook {
            self.hook(*who, msg, false, *prop, out)?;
        }
        Ok(())
    }

    fn hook(&mut self, who: Who, msg: &Msg, before: bool, prop: bool, out: &mut Outcome) -> Result<(), Stop> {
        let o = self.run_msg(msg, who, &mut Plan::default());
        let ok = o.ok;
        let aborted = o.aborted;
        out.nested = Some(Box::new(Nested { who, msg: msg.clone(), before, propagate: prop, out: o }));
        if aborted {
            return Err(Stop::Fuse);
        }
        if !ok && prop {
            return Err(Stop::Err("hook failed".into()));
        }
        Ok(())
    }

    /// Runs one message whose references are resolved, all or nothing.
    pub fn run_msg(&mut self, msg: &Msg, from: Who, plan: &mut Plan) -> Outcome {
        let (sp, bsp) = (self.store.savepoint(), self.bank.savepoint());
        let mut out = Outcome::default();
        let m0 = self.store.meter();
        let sender = self.addr(from);
        // Token movement into the book that the chain performs before calling the contract.
        let (funds, call) = match self.encode(msg, from) {
            Some(x) => x,
            None => {
                // Plain transfer.
                if let Msg::Donate { denom, amt } = msg {
                    let (book, d) = (self.addrs[W_BOOK].clone(), self.denoms[*denom as usize].clone());
                    match self.bank.send(&sender, &book, &d, *amt, false) {
                        Ok(()) => out.ok = true,
                        Err(e) => {
                            out.unfunded = true;
                            out.err = e
                        }
                    }
                }
                return out;
            }
        };
        for (d, a) in &funds {
            let book = self.addrs[W_BOOK].clone();
            let dn = self.denoms[*d as usize].clone();
            if let Err(e) = self.bank.send(&sender, &book, &dn, *a, false) {
                self.bank.rollback(bsp);
                out.unfunded = true;
                out.err = e;
                return out;
            }
        }
        let env = self.env();
        let mut coins: Vec<Coin> =
            funds.iter().map(|(d, a)| Coin::new(*a, self.denoms[*d as usize].clone())).collect();
        coins.sort_by(|a, b| a.denom.cmp(&b.denom));
        let r = match call {
            Call::Exec(m) => {
                let wire = to_json_vec(&m).unwrap();
                let info = MessageInfo { sender: Addr::unchecked(sender), funds: coins };
                self.with_deps(|deps| {
                    let m: ExecuteMsg = from_json(&wire).map_err(|e| e.to_string())?;
                    contract::execute(deps, env, info, m).map_err(|e| e.to_string())
                })
            }
            Call::Sudo(m) => {
                let wire = to_json_vec(&m).unwrap();
                self.with_deps(|deps| {
                    let m: SudoMsg = from_json(&wire).map_err(|e| e.to_string())?;
                    sudo_mod::sudo(deps, env, m).map_err(|e| e.to_string())
                })
            }
        };
        let m1 = self.store.meter();
        out.ops = Meter { reads: m1.reads - m0.reads, writes: m1.writes - m0.writes, steps: m1.steps - m0.steps };
        self.conclude(r, &mut out, plan, sp, bsp);
        out
    }

    pub fn migrate(&mut self) -> Outcome {
        let (sp, bsp) = (self.store.savepoint(), self.bank.savepoint());
        let env = self.env();
        let mut out = Outcome::default();
        let r = self.with_deps(|deps| contract::migrate(deps, env, MigrateMsg {}).map_err(|e| e.to_string()));
        self.conclude(r, &mut out, &mut Plan::default(), sp, bsp);
        out
    }

    fn encode(&self, msg: &Msg, _from: Who) -> Option<(Coins, Call)> {
        Some(match msg {
            Msg::Place { tick, bid, qty, bounty, funds, .. } => (
                norm(funds),
                Call::Exec(ExecuteMsg::PlaceLimit {
                    tick_id: *tick,
                    order_direction: dir(*bid),
                    quantity: Uint128::from(*qty),
                    claim_bounty: bounty.map(dec256),
                }),
            ),
            Msg::Cancel { r, funds } => {
                let (tick_id, order_id) = raw(r);
                (norm(funds), Call::Exec(ExecuteMsg::CancelLimit { tick_id, order_id }))
            }
            Msg::Claim { r, funds } => {
                let (tick_id, order_id) = raw(r);
                (norm(funds), Call::Exec(ExecuteMsg::ClaimLimit { tick_id, order_id }))
            }
            Msg::Batch { rs, funds } => {
                (norm(funds), Call::Exec(ExecuteMsg::BatchClaim { orders: rs.iter().map(raw).collect() }))
            }
            Msg::Auth(a) => {
                let ad = |w: &Who| Addr::unchecked(self.addr(*w));
                let m = match a {
                    AuthMsg::TransferAdmin(w) => AuthExecuteMsg::TransferAdmin { new_admin: ad(w) },
                    AuthMsg::CancelAdminTransfer => AuthExecuteMsg::CancelAdminTransfer {},
                    AuthMsg::RejectAdminTransfer => AuthExecuteMsg::RejectAdminTransfer {},
                    AuthMsg::ClaimAdmin => AuthExecuteMsg::ClaimAdmin {},
                    AuthMsg::RenounceAdminship => AuthExecuteMsg::RenounceAdminship {},
                    AuthMsg::OfferModerator(w) => AuthExecuteMsg::OfferModerator { new_moderator: ad(w) },
                    AuthMsg::RejectModeratorOffer => AuthExecuteMsg::RejectModeratorOffer {},
                    AuthMsg::ClaimModerator => AuthExecuteMsg::ClaimModerator {},
                    AuthMsg::SetActive(b) => AuthExecuteMsg::SetActive { active: *b },
                    AuthMsg::SetMakerFee(f) => AuthExecuteMsg::SetMakerFee { fee: dec256(*f) },
                    AuthMsg::SetMakerFeeRecipient(w) => AuthExecuteMsg::SetMakerFeeRecipient { recipient: ad(w) },
                };
                (vec![], Call::Exec(ExecuteMsg::Auth(m)))
            }
            Msg::Swap { d_in, d_out, amt, min_out, fee, target } => {
                let sender = self.addr(_from);
                let token_in = Coin::new(*amt, self.denoms[*d_in as usize].clone());
                let token_out_denom = self.denoms[*d_out as usize].clone();
                let token_out_min_amount = Uint128::from(*min_out);
                let swap_fee = Decimal::new(Uint128::from(*fee));
                let m = match target {
                    None => SudoMsg::SwapExactAmountIn { sender, token_in, token_out_denom, token_out_min_amount, swap_fee },
                    Some(t) => SudoMsg::SwapToTick {
                        sender,
                        token_in,
                        token_out_denom,
                        token_out_min_amount,
                        swap_fee,
                        target_tick: *t,
                    },
                };
                (norm(&vec![(*d_in, *amt)]), Call::Sudo(m))
            }
            Msg::GovTransferAdmin(w) => {
                (vec![], Call::Sudo(SudoMsg::TransferAdmin { new_admin: Addr::unchecked(self.addr(*w)) }))
            }
            Msg::GovRemoveAdmin => (vec![], Call::Sudo(SudoMsg::RemoveAdmin {})),
            Msg::GovSetActive(b) => (vec![], Call::Sudo(SudoMsg::SetActive { active: *b })),
            Msg::Donate { .. } => return None,
        })
    }
}

/// Minimal decoder of `cosmos.bank.v1beta1.MsgSend`.
fn decode_msg_send(b: &[u8]) -> Option<(String, String, Vec<(String, String)>)> {
    let (mut from, mut to, mut coins) = (String::new(), String::new(), vec![]);
    for (f, v) in fields(b)? {
        match f {
            1 => from = String::from_utf8(v).ok()?,
            2 => to = String::from_utf8(v).ok()?,
            3 => {
                let (mut d, mut a) = (String::new(), String::new());
                for (f, v) in fields(&v)? {
                    match f {
                        1 => d = String::from_utf8(v).ok()?,
                        2 => a = String::from_utf8(v).ok()?,
                        _ => {}
                    }
                }
                coins.push((d, a));
            }
            _ => {}
        }
    }
    Some((from, to, coins))
}

fn fields(b: &[u8]) -> Option<Vec<(u64, Vec<u8>)>> {
    let mut i = 0;
    let mut v = vec![];
    let varint = |i: &mut usize| -> Option<u64> {
        let (mut x, mut s) = (0u64, 0);
        loop {
            let c = *b.get(*i)?;
            *i += 1;
            x |= ((c & 0x7f) as u64) << s;
            if c & 0x80 == 0 {
                return Some(x);
            }
            s += 7;
            if s > 63 {
                return None;
            }
        }
    };
    while i < b.len() {
        let tag = varint(&mut i)?;
        if tag & 7 != 2 {
            return None;
        }
        let n = varint(&mut i)? as usize;
        v.push((tag >> 3, b.get(i..i + n)?.to_vec()));
        i += n;
    }
    Some(v)
}
